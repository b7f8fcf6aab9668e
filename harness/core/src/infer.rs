//! Values of the serde data model, built at run time, and the schemas inferred from them.
use crate::tag::*;
use schemars::generate::SchemaSettings;
use serde::ser::*;
use serde_json::{json, Value};

enum SV {
    Bool(bool),
    Int(String, String),
    Flt(String, f64),
    Char(char),
    Str(String),
    CStr(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<SV>),
    Unit,
    UStruct(&'static str),
    UVar(&'static str, &'static str),
    Nt(&'static str, Box<SV>),
    NtVar(&'static str, &'static str, Box<SV>),
    Seq(Vec<SV>),
    Tup(Vec<SV>),
    Tst(&'static str, Vec<SV>),
    TVar(&'static str, &'static str, Vec<SV>),
    Map(bool, Vec<(SV, SV)>),
    Struct(&'static str, Vec<(&'static str, SV)>),
    SVar(&'static str, &'static str, Vec<(&'static str, SV)>),
}

fn leak(v: &Value) -> &'static str {
    Box::leak(v.as_str().unwrap().to_string().into_boxed_str())
}
fn arr(v: &Value) -> &[Value] {
    v.as_array().unwrap()
}
fn list(v: &Value) -> Vec<SV> {
    arr(v).iter().map(parse).collect()
}
fn fields(v: &Value) -> Vec<(&'static str, SV)> {
    arr(v).iter().map(|p| (leak(&p[0]), parse(&p[1]))).collect()
}
fn boxed(v: &Value) -> Box<SV> {
    Box::new(parse(v))
}
fn text(v: &Value) -> String {
    untag(v).to_string()
}
fn parse(v: &Value) -> SV {
    match v[0].as_str().unwrap() {
        "bool" => SV::Bool(v[1].as_bool().unwrap()),
        "int" => SV::Int(v[1].as_str().unwrap().into(), text(&v[2])),
        "flt" => SV::Flt(v[1].as_str().unwrap().into(), untag(&v[2]).as_f64().unwrap_or(f64::NAN)),
        "char" => SV::Char(v[1].as_str().unwrap().chars().next().unwrap()),
        "str" => SV::Str(v[1].as_str().unwrap().into()),
        "cstr" => SV::CStr(v[1].as_str().unwrap().into()),
        "bytes" => SV::Bytes(arr(&v[1]).iter().map(|x| x.as_u64().unwrap() as u8).collect()),
        "none" => SV::None,
        "some" => SV::Some(boxed(&v[1])),
        "unit" => SV::Unit,
        "ustruct" => SV::UStruct(leak(&v[1])),
        "uvar" => SV::UVar(leak(&v[1]), leak(&v[2])),
        "nt" => SV::Nt(leak(&v[1]), boxed(&v[2])),
        "ntvar" => SV::NtVar(leak(&v[1]), leak(&v[2]), boxed(&v[3])),
        "seq" => SV::Seq(list(&v[1])),
        "tup" => SV::Tup(list(&v[1])),
        "tst" => SV::Tst(leak(&v[1]), list(&v[2])),
        "tvar" => SV::TVar(leak(&v[1]), leak(&v[2]), list(&v[3])),
        "map" => SV::Map(v[1] == "all", arr(&v[2]).iter().map(|p| (parse(&p[0]), parse(&p[1]))).collect()),
        "struct" => SV::Struct(leak(&v[1]), fields(&v[2])),
        "svar" => SV::SVar(leak(&v[1]), leak(&v[2]), fields(&v[3])),
        k => panic!("unknown value kind {k}"),
    }
}

impl Serialize for SV {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            SV::Bool(b) => s.serialize_bool(*b),
            SV::Int(k, t) => match k.as_str() {
                "i8" => s.serialize_i8(t.parse().unwrap()),
                "i16" => s.serialize_i16(t.parse().unwrap()),
                "i32" => s.serialize_i32(t.parse().unwrap()),
                "i64" => s.serialize_i64(t.parse().unwrap()),
                "i128" => s.serialize_i128(t.parse().unwrap()),
                "u8" => s.serialize_u8(t.parse().unwrap()),
                "u16" => s.serialize_u16(t.parse().unwrap()),
                "u32" => s.serialize_u32(t.parse().unwrap()),
                "u64" => s.serialize_u64(t.parse().unwrap()),
                "u128" => s.serialize_u128(t.parse().unwrap()),
                _ => panic!("int kind"),
            },
            SV::Flt(k, x) => {
                if k == "f32" {
                    s.serialize_f32(*x as f32)
                } else {
                    s.serialize_f64(if x.is_nan() { f64::NEG_INFINITY } else { *x })
                }
            }
            SV::Char(c) => s.serialize_char(*c),
            SV::Str(x) => s.serialize_str(x),
            SV::CStr(x) => s.collect_str(x),
            SV::Bytes(b) => s.serialize_bytes(b),
            SV::None => s.serialize_none(),
            SV::Some(v) => s.serialize_some(v),
            SV::Unit => s.serialize_unit(),
            SV::UStruct(n) => s.serialize_unit_struct(n),
            SV::UVar(n, v) => s.serialize_unit_variant(n, 0, v),
            SV::Nt(n, v) => s.serialize_newtype_struct(n, v),
            SV::NtVar(n, k, v) => s.serialize_newtype_variant(n, 1, k, v),
            SV::Seq(vs) => s.collect_seq(vs),
            SV::Tup(vs) => {
                let mut t = s.serialize_tuple(vs.len())?;
                for v in vs {
                    t.serialize_element(v)?;
                }
                t.end()
            }
            SV::Tst(n, vs) => {
                let mut t = s.serialize_tuple_struct(n, vs.len())?;
                for v in vs {
                    t.serialize_field(v)?;
                }
                t.end()
            }
            SV::TVar(n, k, vs) => {
                let mut t = s.serialize_tuple_variant(n, 2, k, vs.len())?;
                for v in vs {
                    t.serialize_field(v)?;
                }
                t.end()
            }
            SV::Map(all, ps) => {
                if *all {
                    s.collect_map(ps.iter().map(|(k, v)| (k, v)))
                } else {
                    let mut m = s.serialize_map(Some(ps.len()))?;
                    for (i, (k, v)) in ps.iter().enumerate() {
                        if i % 2 == 0 {
                            m.serialize_entry(k, v)?;
                        } else {
                            m.serialize_key(k)?;
                            m.serialize_value(v)?;
                        }
                    }
                    m.end()
                }
            }
            SV::Struct(n, fs) => {
                let mut m = s.serialize_struct(n, fs.len())?;
                for (k, v) in fs {
                    m.serialize_field(k, v)?;
                }
                m.end()
            }
            SV::SVar(n, k, fs) => {
                let mut m = s.serialize_struct_variant(n, 3, k, fs.len())?;
                for (k, v) in fs {
                    m.serialize_field(k, v)?;
                }
                m.end()
            }
        }
    }
}

pub fn run(case: &Value) -> Value {
    let sv = parse(&case["sv"]);
    let json = serde_json::to_value(&sv).unwrap();
    let sets = [
        ("2020", SchemaSettings::draft2020_12()),
        ("2019", SchemaSettings::draft2019_09()),
        ("07", SchemaSettings::draft07()),
        ("oas", SchemaSettings::openapi3()),
    ];
    let outs: Vec<Value> = sets
        .iter()
        .map(|(n, s)| {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let a = s.clone().into_generator().root_schema_for_value(&sv).unwrap();
                let b = s.clone().into_generator().into_root_schema_for_value(&sv).unwrap();
                let m = *n != "2020" || schemars::schema_for_value!(&sv) == a;
                let same = a == b && m;
                (a, same)
            }));
            match r {
                Ok((a, same)) => json!({"set": n, "ok": true, "same": same, "schema": tag(a.as_value())}),
                Err(_) => json!({"set": n, "ok": false, "same": true, "schema": ["b", false]}),
            }
        })
        .collect();
    json!({"sv": case["sv"], "json": tag(&json), "outs": outs})
}
