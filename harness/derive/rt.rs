//! Runtime shared by the generated programs: records schemas, serialised values and serde's verdicts.
use schemars::generate::{Contract, SchemaSettings};
use schemars::{JsonSchema, Schema};
use serde::Serialize;
use serde_json::{json, Map, Value};

#[path = "TAGRS"]
mod tagging;
pub use tagging::{tag, untag};

pub fn ser<T: Serialize + ?Sized>(v: &T) -> Value {
    match serde_json::to_value(v) {
        Ok(j) => json!([tag(&j)]),
        Err(_) => json!([]),
    }
}
pub fn is_dflt<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}
pub fn never<T>(_: &T) -> bool {
    false
}
pub fn always<T>(_: &T) -> bool {
    true
}
/// Stands in for what overridden attributes point at.
pub fn decoy<T: Default>() -> T {
    T::default()
}
pub mod wm {
    pub fn serialize<T: serde::Serialize, S: serde::Serializer>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        v.serialize(s)
    }
}
/// Values used in validation and metadata attributes.
pub const N5: usize = 5;
pub struct Rx(pub &'static str);
impl std::fmt::Display for Rx {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
pub fn js(text: &str) -> Value {
    serde_json::from_str(text).unwrap()
}
pub fn tfa(s: &mut Schema) {
    mark(s, "tfa")
}
pub struct Tf(pub &'static str);
impl schemars::transform::Transform for Tf {
    fn transform(&mut self, s: &mut Schema) {
        mark(s, self.0)
    }
}
/// Notes a name and how many of the annotations were already there.
fn mark(s: &mut Schema, name: &str) {
    let o = s.ensure_object();
    let n = ["title", "description", "deprecated", "examples"].iter().filter(|k| o.contains_key(**k)).count();
    o.entry("x-tf").or_insert_with(|| json!([])).as_array_mut().unwrap().push(json!([name, n]));
}
/// The definition of a type and those it needs, before any transform, and (named "") how it is referred to.
pub fn defs<T: JsonSchema>(contract: &str) -> Value {
    let mut s = SchemaSettings::draft2020_12();
    s.contract = if contract == "ser" { Contract::Serialize } else { Contract::Deserialize };
    let mut g = s.into_generator();
    let s = g.subschema_for::<T>();
    let mut out: Map<String, Value> = g.definitions().iter().map(|(k, v)| (k.clone(), tag(v))).collect();
    out.insert(String::new(), tag(s.as_value()));
    Value::Object(out)
}
pub fn settings(name: &str) -> SchemaSettings {
    match name {
        "d20" => SchemaSettings::draft2020_12(),
        "d20i" => SchemaSettings::draft2020_12().with(|s| s.inline_subschemas = true),
        "d19" => SchemaSettings::draft2019_09(),
        "d07" => SchemaSettings::draft07(),
        "d07i" => SchemaSettings::draft07().with(|s| s.inline_subschemas = true),
        "oas" => SchemaSettings::openapi3(),
        _ => panic!("settings {name}"),
    }
}
pub fn schemas(names: &Value, root: fn(SchemaSettings) -> Schema) -> Value {
    let mut out = Map::new();
    for m in ["ser", "de"] {
        for n in names.as_array().unwrap() {
            let n = n.as_str().unwrap();
            let mut s = settings(n);
            s.contract = if m == "ser" { Contract::Serialize } else { Contract::Deserialize };
            out.insert(format!("{m}_{n}"), tag(root(s).as_value()));
        }
    }
    Value::Object(out)
}
/// Verdicts of serde on documents, with what the accepted ones serialise back to.
pub fn docs(ds: &Value, de: fn(&str) -> Result<Value, serde_json::Error>) -> Value {
    Value::Array(
        ds.as_array()
            .unwrap()
            .iter()
            .map(|d| {
                let text = serde_json::to_string(&untag(d)).unwrap();
                let r = std::panic::catch_unwind(|| de(&text));
                match r {
                    Ok(Ok(back)) => json!({"j": d, "ok": true, "back": back}),
                    _ => json!({"j": d, "ok": false, "back": []}),
                }
            })
            .collect(),
    )
}
pub fn de<T: serde::de::DeserializeOwned + Serialize>(t: &str) -> Result<Value, serde_json::Error> {
    serde_json::from_str::<T>(t).map(|v| ser(&v))
}
pub fn root<T: JsonSchema>(s: SchemaSettings) -> Schema {
    s.into_generator().into_root_schema_for::<T>()
}
pub fn main(run: fn(usize, &Value) -> Value) {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    use std::io::Write;
    for line in text.split('\n').filter(|l| !l.is_empty()) {
        let c: Value = serde_json::from_str(line).unwrap();
        let i = c["pid"].as_u64().unwrap() as usize;
        let r = std::panic::catch_unwind(|| run(i, &c));
        let r = r.unwrap_or_else(|e| {
            let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            json!({"panic": msg})
        });
        writeln!(out, "{}", json!({"pid": i, "rec": r})).unwrap();
        out.flush().unwrap();
    }
}
