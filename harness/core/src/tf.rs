//! Applies the real transforms to documents and records every intermediate result.
use crate::tag::{tag, untag};
use schemars::generate::{SchemaGenerator, SchemaSettings};
use schemars::transform::*;
use schemars::{JsonSchema, Schema};
use serde_json::{json, Map, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Marker(pub u64);
impl Transform for Marker {
    fn transform(&mut self, s: &mut Schema) {
        self.0 += 1;
        s.insert("x-visit".into(), self.0.into());
    }
}

/// Returns the number of calls a marker received.
pub fn apply(t: &Value, s: &mut Schema) -> u64 {
    let flag = |k: &str| t[k].as_bool().unwrap();
    match t["k"].as_str().unwrap() {
        "bool" => {
            let mut x = ReplaceBoolSchemas::default();
            x.skip_additional_properties = flag("skip");
            x.transform(s)
        }
        "ref" => RemoveRefSiblings::default().transform(s),
        "example" => SetSingleExample::default().transform(s),
        "const" => ReplaceConstValue::default().transform(s),
        "prefix" => ReplacePrefixItems::default().transform(s),
        "null" => {
            let mut x = AddNullable::default();
            x.remove_null_type = flag("rm");
            x.add_const_null = flag("addc");
            x.transform(s)
        }
        "uneval" => ReplaceUnevaluatedProperties::default().transform(s),
        "formats" => {
            let mut x = RestrictFormats::default();
            x.infer_from_meta_schema = flag("infer");
            for f in t["allowed"].as_array().unwrap() {
                x.allowed_formats.insert(f.as_str().unwrap().to_string().into());
            }
            x.transform(s)
        }
        "visit" => {
            let mut x = RecursiveTransform(Marker(0));
            x.transform(s);
            return x.0 .0;
        }
        "visit1" => {
            let mut x = Marker(0);
            transform_subschemas(&mut x, s);
            return x.0;
        }
        k => panic!("transform {k}"),
    }
    0
}

thread_local!(static RAW: RefCell<(Value, Map<String, Value>)> = RefCell::default());
struct Raw;
impl JsonSchema for Raw {
    fn schema_name() -> Cow<'static, str> {
        "Raw".into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        let (doc, defs) = RAW.with(|r| r.borrow().clone());
        g.definitions_mut().extend(defs);
        doc.try_into().unwrap()
    }
}

pub fn settings(d: &str) -> SchemaSettings {
    match d {
        "07" => SchemaSettings::draft07(),
        "2019" => SchemaSettings::draft2019_09(),
        "2020" => SchemaSettings::draft2020_12(),
        "oas" => SchemaSettings::openapi3(),
        _ => panic!("dialect {d}"),
    }
}

pub fn run(case: &Value) -> Value {
    let doc = untag(&case["doc"]);
    let mut events = Vec::new();
    if case["mode"] == "pipeline" {
        let defs = untag(&case["defs"]).as_object().unwrap().clone();
        RAW.with(|r| *r.borrow_mut() = (doc, defs));
        let r = catch_unwind(|| settings(case["dialect"].as_str().unwrap()).into_generator().into_root_schema_for::<Raw>());
        let (ok, out) = match r {
            Ok(s) => (true, tag(s.as_value())),
            Err(_) => (false, json!(["z"])),
        };
        events.push(json!({"ok": ok, "out": out}));
    } else {
        let mut cur: Schema = doc.try_into().unwrap();
        for t in case["ts"].as_array().unwrap() {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut out = cur.clone();
                let calls = apply(t, &mut out);
                let mut again = out.clone();
                if !t["k"].as_str().unwrap().starts_with("visit") {
                    apply(t, &mut again);
                }
                (out, again, calls)
            }));
            match r {
                Ok((out, again, calls)) => {
                    events.push(json!({"t": t, "ok": true, "out": tag(out.as_value()), "again": tag(again.as_value()), "calls": calls}));
                    cur = out;
                }
                Err(_) => {
                    events.push(json!({"t": t, "ok": false, "out": ["z"], "again": ["z"], "calls": 0}));
                    break;
                }
            }
        }
    }
    let mut c = case.clone();
    c["events"] = events.into();
    c
}
