//! Conversion between JSON and the tagged form the TLA+ specifications use.
use serde_json::{json, Map, Number, Value};

/// (negative, integer digits, fraction digits) of a JSON number, canonical.
pub fn canon_number(text: &str) -> (bool, String, String) {
    let (neg, rest) = match text.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, text),
    };
    let (mant, exp) = match rest.find(['e', 'E']) {
        Some(i) => (&rest[..i], rest[i + 1..].parse::<i64>().unwrap()),
        None => (rest, 0),
    };
    let (ip, fp) = match mant.find('.') {
        Some(i) => (&mant[..i], &mant[i + 1..]),
        None => (mant, ""),
    };
    let mut digits: String = format!("{ip}{fp}");
    let mut point = ip.len() as i64 + exp;
    if point < 0 {
        digits = "0".repeat((-point) as usize) + &digits;
        point = 0;
    }
    while (digits.len() as i64) < point {
        digits.push('0');
    }
    let (i, f) = digits.split_at(point as usize);
    let i = i.trim_start_matches('0');
    let f = f.trim_end_matches('0');
    let i = if i.is_empty() { "0" } else { i };
    let neg = neg && !(i == "0" && f.is_empty());
    (neg, i.to_string(), f.to_string())
}

pub fn tag(v: &Value) -> Value {
    match v {
        Value::Null => json!(["z"]),
        Value::Bool(b) => json!(["b", b]),
        Value::String(s) => json!(["s", s]),
        Value::Number(n) => {
            let (neg, i, f) = canon_number(&n.to_string());
            json!(["n", neg, i, f])
        }
        Value::Array(a) => json!(["a", a.iter().map(tag).collect::<Vec<_>>()]),
        Value::Object(o) => json!(["o", tag_map(o)]),
    }
}

pub fn tag_map(o: &Map<String, Value>) -> Value {
    Value::Object(o.iter().map(|(k, v)| (k.clone(), tag(v))).collect())
}

pub fn untag(v: &Value) -> Value {
    let a = v.as_array().expect("tagged value");
    match a[0].as_str().unwrap() {
        "z" => Value::Null,
        "b" => a[1].clone(),
        "s" => a[1].clone(),
        "n" => {
            let t = format!(
                "{}{}{}",
                if a[1].as_bool().unwrap() { "-" } else { "" },
                a[2].as_str().unwrap(),
                if a[3].as_str().unwrap().is_empty() { String::new() } else { format!(".{}", a[3].as_str().unwrap()) }
            );
            Value::Number(serde_json::from_str::<Number>(&t).unwrap())
        }
        "a" => Value::Array(a[1].as_array().unwrap().iter().map(untag).collect()),
        "o" => match &a[1] {
            Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), untag(v))).collect()),
            Value::Array(_) => Value::Object(Map::new()), // TLC writes the empty function as []
            _ => panic!("bad object"),
        },
        // ordered object: list of [key, value]
        "p" => Value::Object(
            a[1].as_array()
                .unwrap()
                .iter()
                .map(|p| (p[0].as_str().unwrap().to_string(), untag(&p[1])))
                .collect(),
        ),
        t => panic!("bad tag {t}"),
    }
}
