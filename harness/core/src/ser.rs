//! Serialises schemas and records the text, member by member.
use crate::tag::{canon_number, untag};
use schemars::Schema;
use serde::de::{DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde_json::{json, Value};

/// A JSON value in tagged form, members in the order found, duplicates kept.
pub struct Pairs;
impl<'de> DeserializeSeed<'de> for Pairs {
    type Value = Value;
    fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        d.deserialize_any(Pairs)
    }
}
impl<'de> Visitor<'de> for Pairs {
    type Value = Value;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("JSON")
    }
    fn visit_unit<E>(self) -> Result<Value, E> {
        Ok(json!(["z"]))
    }
    fn visit_bool<E>(self, b: bool) -> Result<Value, E> {
        Ok(json!(["b", b]))
    }
    fn visit_u64<E>(self, n: u64) -> Result<Value, E> {
        let (s, i, f) = canon_number(&n.to_string());
        Ok(json!(["n", s, i, f]))
    }
    fn visit_i64<E>(self, n: i64) -> Result<Value, E> {
        let (s, i, f) = canon_number(&n.to_string());
        Ok(json!(["n", s, i, f]))
    }
    fn visit_f64<E>(self, n: f64) -> Result<Value, E> {
        let (s, i, f) = canon_number(&n.to_string());
        Ok(json!(["n", s, i, f]))
    }
    fn visit_str<E>(self, s: &str) -> Result<Value, E> {
        Ok(json!(["s", s]))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element_seed(Pairs)? {
            v.push(x);
        }
        Ok(json!(["a", v]))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = Vec::new();
        while let Some(k) = a.next_key::<String>()? {
            let x = a.next_value_seed(Pairs)?;
            v.push(json!([k, x]));
        }
        Ok(json!(["p", v]))
    }
}

pub fn parse(text: &str) -> Value {
    let mut d = serde_json::Deserializer::from_str(text);
    let v = Pairs.deserialize(&mut d).unwrap();
    d.end().unwrap();
    v
}

#[derive(serde::Serialize)]
struct Holder<'a> {
    s: &'a Schema,
}

pub fn run(case: &Value) -> Value {
    let r = std::panic::catch_unwind(|| {
        let v = untag(&case["doc"]);
        let s = Schema::try_from(v).unwrap();
        let text = serde_json::to_string(&s).unwrap();
        let pretty = serde_json::to_string_pretty(&s).unwrap();
        let nested = serde_json::to_string(&Holder { s: &s }).unwrap();
        let nested = nested.strip_prefix("{\"s\":").unwrap().strip_suffix('}').unwrap().to_string();
        let back: Result<Schema, _> = serde_json::from_str(&text);
        json!({"doc": case["doc"], "ok": true, "mem": parse(&s.as_value().to_string()), "out": parse(&text), "pretty": parse(&pretty),
            "nested": parse(&nested), "val": parse(&serde_json::to_value(&s).unwrap().to_string()), "eq": back.is_ok_and(|b| b == s)})
    });
    r.unwrap_or_else(|_| json!({"doc": case["doc"], "ok": false}))
}
