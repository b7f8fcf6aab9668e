//! Replays histories of operations on a Schema value.
use crate::tag::{tag, untag};
use schemars::Schema;
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn opt(v: Option<Value>) -> Value {
    match v {
        Some(v) => json!([v]),
        None => json!([]),
    }
}

fn observe(s: &Schema) -> Value {
    let val = s.as_value().clone();
    let txt = serde_json::to_string(s).unwrap();
    let re: Value = serde_json::from_str(&txt).unwrap();
    let map = val.as_object().cloned().unwrap_or_default();
    let other = json!({"definitely": "not this"});
    let mut m = val.clone();
    json!({
        "val": tag(&val),
        "txt": tag(&re),
        "into": tag(&s.clone().to_value()),
        "asbool": opt(s.as_bool().map(|b| json!(b))),
        "isobj": s.as_object().is_some(),
        "eqtrue": *s == true && true == *s,
        "eqfalse": *s == false && false == *s,
        "eqs": [*s == val, val == *s, s.clone() == *s, Value::from(s.clone()) == val, !val.is_object() || (*s == map && map == *s)],
        "neqs": [*s == other, other == *s, *s == *other.as_object().unwrap(), !val.is_object() && (*s == map)],
        "convs": [
            Schema::try_from(val.clone()).is_ok_and(|x| x == *s),
            <&Schema>::try_from(&val).is_ok_and(|x| x == s),
            <&mut Schema>::try_from(&mut m).is_ok_and(|x| x == s),
            serde_json::from_str::<Schema>(&txt).is_ok_and(|x| x == *s),
            serde_json::from_value::<Schema>(val.clone()).is_ok_and(|x| x == *s),
        ],
    })
}

fn observe_any(s: &Schema) -> Value {
    catch_unwind(AssertUnwindSafe(|| observe(s))).unwrap_or_else(|_| json!({"val": tag(s.as_value())}))
}

pub fn run(case: &Value) -> Value {
    let i = &case["init"];
    let mut built = Vec::new();
    let schema = match i["k"].as_str().unwrap() {
        "bool" => Some(Schema::from(i["b"].as_bool().unwrap())),
        "map" => Some(Schema::from(untag(&i["v"]).as_object().unwrap().clone())),
        "default" => Some(Schema::default()),
        "ref" => Some(Schema::new_ref(i["s"].as_str().unwrap().to_string())),
        _ => {
            let v = untag(&i["v"]);
            let a = Schema::try_from(v.clone()).ok();
            let b = <&Schema>::try_from(&v).ok().cloned();
            let c = <&mut Schema>::try_from(&mut v.clone()).ok().map(|s| s.clone());
            let d = serde_json::from_str::<Schema>(&v.to_string()).ok();
            let e = serde_json::from_value::<Schema>(v).ok();
            built = vec![a.is_some(), b.is_some(), c.is_some(), d.is_some(), e.is_some()];
            a
        }
    };
    let Some(mut s) = schema else {
        return json!({"init": i, "built": built, "obs0": {}, "events": []});
    };
    let obs0 = observe_any(&s);
    let mut events = Vec::new();
    for o in case["ops"].as_array().unwrap() {
        let key = || o["key"].as_str().unwrap();
        let val = || untag(&o["v"]);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let res = match o["k"].as_str().unwrap() {
                "insert" => opt(s.insert(key().to_string(), val()).map(|v| tag(&v))),
                "remove" => opt(s.remove(key()).map(|v| tag(&v))),
                "get" => {
                    let a = s.get(key()).map(tag);
                    let b = s.get(&key().to_string()).map(tag);
                    assert_eq!(a, b);
                    opt(a)
                }
                "getmut" => opt(s.get_mut(key()).map(|m| tag(&std::mem::replace(m, val())))),
                "ensure" => opt(Some(tag(&Value::Object(s.ensure_object().clone())))),
                "objmut" => {
                    let before: Option<Map<String, Value>> = s.as_object().cloned();
                    let r = s.as_object_mut();
                    assert_eq!(before.is_some(), r.is_some());
                    opt(r.map(|m| {
                        m.insert(key().to_string(), val());
                        tag(&Value::Object(before.unwrap()))
                    }))
                }
                "pointer" => opt(s.pointer(o["p"].as_str().unwrap()).map(tag)),
                "pointermut" => opt(s.pointer_mut(o["p"].as_str().unwrap()).map(|m| tag(&std::mem::replace(m, val())))),
                k => panic!("op {k}"),
            };
            json!({"op": o, "ok": true, "res": res, "obs": observe_any(&s)})
        }));
        let ok = r.is_ok();
        events.push(r.unwrap_or_else(|_| json!({"op": o, "ok": false})));
        if !ok {
            break;
        }
    }
    json!({"init": i, "built": built, "obs0": obs0, "events": events})
}
