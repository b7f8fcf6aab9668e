//! Replays generator histories: type graphs are data, interpreted by Node<I>.
use crate::tag::{tag, tag_map};
use schemars::generate::{Contract, SchemaGenerator, SchemaSettings};
use schemars::transform::{RecursiveTransform, Transform};
use schemars::{JsonSchema, Schema};
use serde_json::{json, Map, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
struct World {
    types: Vec<Value>,
    enters: Vec<usize>,
    subs: Vec<Value>,
    depth: usize,
}
thread_local!(static W: RefCell<World> = RefCell::default());

pub struct Node<const I: usize>;

macro_rules! dispatch {
    ($i:expr, $n:ident => $e:expr) => {
        match $i {
            1 => { type $n = Node<1>; $e }
            2 => { type $n = Node<2>; $e }
            3 => { type $n = Node<3>; $e }
            4 => { type $n = Node<4>; $e }
            5 => { type $n = Node<5>; $e }
            6 => { type $n = Node<6>; $e }
            7 => { type $n = Node<7>; $e }
            8 => { type $n = Node<8>; $e }
            _ => panic!("no such type"),
        }
    };
}

fn field(i: usize, f: &str) -> Value {
    W.with(|w| w.borrow().types[i - 1][f].clone())
}

fn sub(g: &mut SchemaGenerator, t: usize) -> Schema {
    let s = dispatch!(t, N => g.subschema_for::<N>());
    let r = s.get("$ref").cloned().unwrap_or(json!(""));
    W.with(|w| w.borrow_mut().subs.push(json!([t, r])));
    s
}

impl<const I: usize> JsonSchema for Node<I> {
    fn inline_schema() -> bool {
        field(I, "inline").as_bool().unwrap()
    }
    fn schema_name() -> Cow<'static, str> {
        field(I, "name").as_str().unwrap().to_string().into()
    }
    fn schema_id() -> Cow<'static, str> {
        field(I, "id").as_str().unwrap().to_string().into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        W.with(|w| {
            let mut w = w.borrow_mut();
            w.enters.push(I);
            w.depth += 1;
            if w.depth > 120 || w.enters.len() > 20000 {
                panic!("runaway recursion");
            }
        });
        let kind = field(I, "kind");
        let mut acc = Vec::new();
        for o in field(I, "ops").as_array().unwrap() {
            let t = o["to"].as_u64().unwrap() as usize;
            acc.push(match o["op"].as_str().unwrap() {
                "sub" => sub(g, t),
                "doc" => {
                    let d = dispatch!(t, N => g.root_schema_for::<N>());
                    Schema::from(Map::from_iter([("x-doc".to_string(), d.to_value())]))
                }
                _ => dispatch!(t, N => N::json_schema(g)),
            });
        }
        W.with(|w| w.borrow_mut().depth -= 1);
        match kind.as_str().unwrap() {
            "fwd" => acc.remove(0),
            "true" => Schema::from(true),
            "false" => Schema::from(false),
            _ => {
                let c = match g.contract() {
                    Contract::Serialize => "ser",
                    _ => "de",
                };
                let mut m = Map::new();
                m.insert("x-id".into(), format!("{}/{}", field(I, "id").as_str().unwrap(), c).into());
                let props: Map<String, Value> =
                    acc.into_iter().enumerate().map(|(i, s)| (format!("p{}", i + 1), s.to_value())).collect();
                m.insert("properties".into(), Value::Object(props));
                let title = field(I, "title");
                if title != json!("") {
                    m.insert("title".into(), title);
                }
                Schema::from(m)
            }
        }
    }
}

#[derive(Clone)]
struct Mark(i64);
impl Transform for Mark {
    fn transform(&mut self, s: &mut Schema) {
        let mut log = s.get("x-log").and_then(|l| l.as_array().cloned()).unwrap_or_default();
        log.push(self.0.into());
        s.insert("x-log".into(), log.into());
    }
}
#[derive(Clone)]
struct Count(i64);
impl Transform for Count {
    fn transform(&mut self, s: &mut Schema) {
        self.0 += 1;
        s.insert("x-count".into(), self.0.into());
    }
}

fn settings(d: &Value) -> SchemaSettings {
    let mut s = SchemaSettings::default().with(|s| {
        s.definitions_path = d["path"].as_str().unwrap().to_string().into();
        let m = d["meta"].as_str().unwrap().to_string();
        s.meta_schema = if m.is_empty() { None } else { Some(m.into()) };
        s.inline_subschemas = d["inline"].as_bool().unwrap();
    });
    s = if d["contract"] == "ser" { s.for_serialize() } else { s.for_deserialize() };
    for t in d["tf"].as_array().unwrap() {
        let n = t["n"].as_i64().unwrap();
        s = match t["k"].as_str().unwrap() {
            "mark" => s.with_transform(Mark(n)),
            "rmark" => s.with_transform(RecursiveTransform(Mark(n))),
            _ => s.with_transform(Count(n)),
        };
    }
    s
}

fn set_of(s: &SchemaSettings) -> Value {
    json!({"path": s.definitions_path, "meta": s.meta_schema.as_deref().unwrap_or(""), "inline": s.inline_subschemas,
        "contract": if s.contract.is_serialize() { "ser" } else { "de" }, "ntf": s.transforms.len()})
}

fn observe(gens: &[Option<SchemaGenerator>]) -> Value {
    gens.iter()
        .map(|g| match g {
            Some(g) => json!({"live": true, "defs": ["o", tag_map(g.definitions())], "set": set_of(g.settings())}),
            None => json!({"live": false}),
        })
        .collect()
}

pub fn run(case: &Value) -> Value {
    W.with(|w| {
        *w.borrow_mut() = World { types: case["types"].as_array().unwrap().clone(), ..Default::default() }
    });
    let mut gens: Vec<Option<SchemaGenerator>> = vec![Some(settings(&case["settings"]).into_generator())];
    let mut events = Vec::new();
    for c in case["calls"].as_array().unwrap() {
        W.with(|w| {
            let mut w = w.borrow_mut();
            w.enters.clear();
            w.subs.clear();
            w.depth = 0;
        });
        let gi = c["g"].as_u64().unwrap() as usize - 1;
        let t = c["t"].as_u64().unwrap_or(0) as usize;
        let r = catch_unwind(AssertUnwindSafe(|| match c["op"].as_str().unwrap() {
            "sub" => tag(sub(gens[gi].as_mut().unwrap(), t).as_value()),
            "root" => {
                let g = gens[gi].as_mut().unwrap();
                tag(dispatch!(t, N => g.root_schema_for::<N>()).as_value())
            }
            "into_root" => {
                let g = gens[gi].take().unwrap();
                tag(dispatch!(t, N => g.into_root_schema_for::<N>()).as_value())
            }
            "macro" => {
                gens.push(None);
                tag(dispatch!(t, N => schemars::schema_for!(N)).as_value())
            }
            "value" => tag(gens[gi].as_mut().unwrap().root_schema_for_value(&7i32).unwrap().as_value()),
            "into_value" => tag(gens[gi].take().unwrap().into_root_schema_for_value(&7i32).unwrap().as_value()),
            "take" => json!(["o", tag_map(&gens[gi].as_mut().unwrap().take_definitions(c["apply"].as_bool().unwrap()))]),
            "drop" => {
                let g = gens[gi].as_mut().unwrap();
                json!(["b", g.definitions_mut().remove(c["name"].as_str().unwrap()).is_some()])
            }
            "clone" => {
                let g = gens[gi].clone();
                gens.push(g);
                json!(["z"])
            }
            o => panic!("op {o}"),
        }));
        let (ok, res) = match r {
            Ok(v) => (true, v),
            Err(_) => (false, json!(["z"])),
        };
        let (enters, subs) = W.with(|w| {
            let w = w.borrow();
            (w.enters.iter().take(300).cloned().collect::<Vec<_>>(), w.subs.iter().take(300).cloned().collect::<Vec<_>>())
        });
        events.push(json!({"call": c, "ok": ok, "res": res, "enters": enters, "subs": subs,
            "gens": if ok { observe(&gens) } else { json!([]) }}));
        if !ok {
            break;
        }
    }
    json!({"types": case["types"], "settings": case["settings"], "events": events})
}
