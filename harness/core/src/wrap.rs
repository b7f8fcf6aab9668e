//! Option<T> and map types over wrapped types whose schemas are data.
use crate::tag::*;
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

thread_local!(static T: RefCell<Vec<Value>> = RefCell::default());

struct N<const I: usize>;
fn field(i: usize, f: &str) -> Value {
    T.with(|t| t.borrow()[i - 1][f].clone())
}
fn sub(g: &mut SchemaGenerator, i: &str) -> Schema {
    match i {
        "1" => g.subschema_for::<N<1>>(),
        "2" => g.subschema_for::<N<2>>(),
        _ => g.subschema_for::<N<3>>(),
    }
}
fn fill(g: &mut SchemaGenerator, v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| fill(g, x)),
        Value::Object(o) => {
            let r = o.get("$ref").and_then(Value::as_str).and_then(|r| r.strip_prefix("x-sub:")).map(str::to_string);
            if let Some(i) = r {
                let s = sub(g, &i);
                o.insert("$ref".into(), s.get("$ref").cloned().unwrap_or(json!("#/missing")));
            }
            o.values_mut().for_each(|x| fill(g, x));
        }
        _ => {}
    }
}
impl<const I: usize> JsonSchema for N<I> {
    fn inline_schema() -> bool {
        field(I, "inline").as_bool().unwrap()
    }
    fn schema_name() -> Cow<'static, str> {
        field(I, "name").as_str().unwrap().to_string().into()
    }
    fn schema_id() -> Cow<'static, str> {
        format!("N{I}").into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        let mut b = untag(&field(I, "body"));
        fill(g, &mut b);
        b.try_into().unwrap()
    }
}
fn root<X: JsonSchema>() -> Value {
    tag(SchemaGenerator::default().into_root_schema_for::<X>().as_value())
}
fn defs<X: JsonSchema>(names: &[Value]) -> Value {
    let mut g = SchemaGenerator::default();
    let _ = g.subschema_for::<X>();
    Value::Array(names.iter().map(|n| g.definitions().get(n.as_str().unwrap()).map_or(json!([]), |d| json!([tag(d)]))).collect())
}
pub fn run(case: &Value) -> Value {
    T.with(|t| *t.borrow_mut() = case["types"].as_array().unwrap().clone());
    let r = std::panic::catch_unwind(|| {
        if case["mode"] == "opt" {
            let names: Vec<Value> = [1, 3].iter().map(|i| field(*i, "name")).collect();
            let d0 = defs::<N<1>>(&names);
            let d1 = defs::<Option<N<1>>>(&names);
            let d2 = defs::<Option<Option<N<1>>>>(&names);
            json!({"mode": "opt", "ok": d1 == d2, "inner": root::<N<1>>(), "opt": root::<Option<N<1>>>(), "optopt": root::<Option<Option<N<1>>>>(),
                   "raw": tag(SchemaGenerator::default().subschema_for::<N<1>>().as_value()),
                   "defs0": d0, "defs": d1, "types": case["types"]})
        } else {
            json!({"mode": "map", "ok": true, "map": root::<BTreeMap<N<1>, N<2>>>(), "hash": root::<HashMap<N<1>, N<2>>>(),
                   "key": root::<N<1>>(), "val": root::<N<2>>(), "types": case["types"]})
        }
    });
    r.unwrap_or_else(|_| json!({"mode": case["mode"], "ok": false, "types": case["types"]}))
}
