//! Generates references for types with given names and follows them again.
use crate::tag::{tag, tag_map};
use schemars::{JsonSchema, Schema, SchemaGenerator, generate::SchemaSettings};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;

thread_local!(static NAMES: RefCell<Vec<String>> = RefCell::default());

struct Named<const I: usize>;
impl<const I: usize> JsonSchema for Named<I> {
    fn schema_name() -> Cow<'static, str> {
        NAMES.with(|n| n.borrow()[I].clone()).into()
    }
    fn schema_id() -> Cow<'static, str> {
        format!("T{}", I + 1).into()
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        schemars::json_schema!({"type": "string", "enum": [format!("k{}", I + 1)], "x-id": format!("T{}", I + 1)})
    }
}
/// forwards to a reference, so that a map keyed by it has to look the reference up
struct Key<const I: usize>;
impl<const I: usize> JsonSchema for Key<I> {
    fn inline_schema() -> bool {
        true
    }
    fn schema_name() -> Cow<'static, str> {
        "Key".into()
    }
    fn schema_id() -> Cow<'static, str> {
        format!("Key{I}").into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        g.subschema_for::<Named<I>>()
    }
}

fn one<const I: usize>(g: &mut SchemaGenerator) -> (Value, Value) {
    let r = g.subschema_for::<Named<I>>();
    let m = g.subschema_for::<BTreeMap<Key<I>, i32>>();
    let keys: Vec<String> = m.get("properties").and_then(Value::as_object).map(|o| o.keys().cloned().collect()).unwrap_or_default();
    (r.get("$ref").cloned().unwrap_or(json!("none")), json!(keys))
}

fn go(case: &Value) -> Value {
    let names: Vec<String> = case["names"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
    let n = names.len();
    NAMES.with(|x| *x.borrow_mut() = names);
    let path = case["path"].as_str().unwrap().to_string();
    let mut g = SchemaSettings::default().with(|s| s.definitions_path = path.clone().into()).into_generator();
    let f = [one::<0>, one::<1>, one::<2>, one::<3>];
    let rs: Vec<(Value, Value)> = (0..n).map(|i| f[i](&mut g)).collect();
    let defs = g.definitions().clone();
    let mut doc = g.root_schema_for::<()>();
    let id = |v: Option<&Value>| match v.and_then(|v| v.get("x-id")) {
        Some(v) => json!([tag(v)]),
        None => json!([]),
    };
    let found: Vec<Value> = rs.iter().map(|r| id(doc.pointer(r.0.as_str().unwrap()))).collect();
    let foundmut: Vec<Value> = rs.iter().map(|r| id(doc.pointer_mut(r.0.as_str().unwrap()).map(|v| &*v))).collect();
    json!({"names": case["names"], "path": path, "ok": true, "refs": rs.iter().map(|r| r.0.clone()).collect::<Vec<_>>(),
        "mapkeys": rs.iter().map(|r| r.1.clone()).collect::<Vec<_>>(), "defs": ["o", tag_map(&defs)], "doc": tag(doc.as_value()),
        "found": found, "foundmut": foundmut})
}

pub fn run(case: &Value) -> Value {
    std::panic::catch_unwind(|| go(case)).unwrap_or_else(|_| json!({"names": case["names"], "path": case["path"], "ok": false}))
}
