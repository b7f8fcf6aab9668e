"""C26: built-in types against the specification of their wire formats and against serde itself."""
import copy, json
from vp import Par, ToolError, log
import derive

FEATURES = ["raw_value", "arrayvec07", "bigdecimal04", "bytes1", "chrono04", "either1", "indexmap2", "jiff02", "rust_decimal1", "semver1",
            "smallvec1", "smol_str02", "smol_str03", "url2", "uuid1"]
DEPS = "".join('%s = { package = "%s", version = "%s", default-features = false, features = [%s] }\n' % x for x in (
    ("arrayvec07", "arrayvec", "0.7", '"serde"'), ("bigdecimal04", "bigdecimal", "0.4", '"serde"'), ("bytes1", "bytes", "1.0", '"serde"'),
    ("chrono04", "chrono", "0.4", '"serde"'), ("either1", "either", "1.3", '"serde"'), ("indexmap2", "indexmap", "2.0", '"serde", "std"'),
    ("jiff02", "jiff", "0.2", '"serde", "std"'), ("rust_decimal1", "rust_decimal", "1", '"serde"'), ("semver1", "semver", "1.0.9", '"serde"'),
    ("smallvec1", "smallvec", "1.0", '"serde"'), ("smol_str02", "smol_str", "0.2.1", '"serde"'), ("smol_str03", "smol_str", "0.3.2", '"serde"'),
    ("url2", "url", "2.0", '"serde", "std"'), ("uuid1", "uuid", "1.0", '"serde"')))
LEAF = {"unit": "()", "Phantom": "std::marker::PhantomData<u8>", "JMap": "serde_json::Map<String, Value>", "Number": "serde_json::Number", "RawValue": "Box<serde_json::value::RawValue>",
        "Schema": "schemars::Schema", "Duration": "std::time::Duration", "SystemTime": "std::time::SystemTime", "TimeDelta": "chrono04::TimeDelta", "OsString": "std::ffi::OsString",
        "CString": "std::ffi::CString", "Bytes": "bytes1::Bytes", "ArrEmpty": "[u8; 0]", "SmolStr02": "smol_str02::SmolStr", "SmolStr03": "smol_str03::SmolStr",
        "ArrayString4": "arrayvec07::ArrayString<4>", "ArrayString64": "arrayvec07::ArrayString<64>", "PathBuf": "std::path::PathBuf", "BoxStr": "Box<str>", "RcStr": "std::rc::Rc<str>",
        "CowStr": "std::borrow::Cow<'static, str>", "BoxPath": "Box<std::path::Path>", "DateTimeUtc": "chrono04::DateTime<chrono04::Utc>", "DateTimeFixed": "chrono04::DateTime<chrono04::FixedOffset>",
        "JDate": "jiff02::civil::Date", "JTime": "jiff02::civil::Time", "JDateTime": "jiff02::civil::DateTime", "Version": "semver1::Version", "Url": "url2::Url", "Uuid": "uuid1::Uuid",
        "Decimal": "rust_decimal1::Decimal", "BigDecimal": "bigdecimal04::BigDecimal"}
for n in ("NaiveDate", "NaiveDateTime", "NaiveTime", "Weekday"):
    LEAF[n] = "chrono04::" + n
for n in ("SignedDuration", "Span", "Timestamp", "Zoned"):
    LEAF[n] = "jiff02::" + n
for n in ("IpAddr", "Ipv4Addr", "Ipv6Addr", "SocketAddr", "SocketAddrV4", "SocketAddrV6"):
    LEAF[n] = "std::net::" + n
for b in ("8", "16", "32", "64", "128", "size"):
    for s in "UI":
        LEAF["NonZero" + s + b] = "std::num::NonZero" + s + b
        LEAF["Atomic" + s + b] = "std::sync::atomic::Atomic" + s + b
LEAF["AtomicBool"] = "std::sync::atomic::AtomicBool"
W = {"Box": "Box<%s>", "Rc": "std::rc::Rc<%s>", "Arc": "std::sync::Arc<%s>", "Cow": "std::borrow::Cow<'static, %s>", "Cell": "std::cell::Cell<%s>", "RefCell": "std::cell::RefCell<%s>",
     "Mutex": "std::sync::Mutex<%s>", "RwLock": "std::sync::RwLock<%s>", "Reverse": "std::cmp::Reverse<%s>", "Wrapping": "std::num::Wrapping<%s>",
     "RcWeak": "std::rc::Weak<%s>", "ArcWeak": "std::sync::Weak<%s>"}
SEQ = {"Vec": "Vec<%s>", "VecDeque": "std::collections::VecDeque<%s>", "LinkedList": "std::collections::LinkedList<%s>", "BinaryHeap": "std::collections::BinaryHeap<%s>",
       "BoxSlice": "Box<[%s]>", "SmallVec": "smallvec1::SmallVec<[%s; 2]>", "RcSlice": "std::rc::Rc<[%s]>",
       "BTreeSet": "std::collections::BTreeSet<%s>", "HashSet": "std::collections::HashSet<%s>", "IndexSet": "indexmap2::IndexSet<%s>"}
MAP = {"BTreeMap": "std::collections::BTreeMap<%s, %s>", "HashMap": "std::collections::HashMap<%s, %s>", "IndexMap": "indexmap2::IndexMap<%s, %s>"}
SETTINGS = ["d20", "d07", "oas"]


def ty(t):
    k = t[0]
    if k == "leaf":
        return LEAF.get(t[1], t[1])
    if k == "opt":
        return "Option<%s>" % ty(t[1])
    if k == "w":
        return W[t[1]] % ty(t[2])
    if k in ("seq", "set"):
        return SEQ[t[1]] % ty(t[2])
    if k == "map":
        return MAP[t[1]] % (ty(["leaf", t[2]]), ty(t[3]))
    if k == "arr":
        return "[%s; %d]" % (ty(t[2]), t[1])
    if k == "avec":
        return "arrayvec07::ArrayVec<%s, %d>" % (ty(t[2]), t[1])
    if k == "tup":
        return "(%s,)" % ", ".join(ty(x) for x in t[1])
    if k == "res":
        return "Result<%s, %s>" % (ty(t[1]), ty(t[2]))
    if k == "bound":
        return "std::ops::Bound<%s>" % ty(t[1])
    if k == "range":
        return "std::ops::%s<%s>" % (t[1], ty(t[2]))
    if k == "either":
        return "either1::Either<%s, %s>" % (ty(t[1]), ty(t[2]))
    raise ToolError("type " + str(t))


class Program:
    def __init__(self, case):
        self.case = case

    def source(self):
        n = ty(self.case["ty"])
        return ("type T = %s;\npub fn run(c: &Value) -> Value {\n json!({\"schemas\": rt::schemas(&c[\"settings\"], rt::root::<T>), "
                "\"docs\": rt::docs(&c[\"docs\"], rt::de::<T>)}) }\n" % n)


PRELUDE = "use super::rt;\nuse serde_json::{json, Value};\n"


def collect(ctx, cases):
    cases = [dict(c, settings=SETTINGS) for c in cases]
    exes = derive.emit(ctx, [Program(c) for c in cases], crate="types", features=FEATURES, deps=DEPS, prelude=PRELUDE)
    if exes is None:
        return []
    out = derive.run(ctx, exes, cases)
    recs = []
    for i, c in enumerate(cases):
        o = out[i]
        if "panic" in o:
            if o["panic"]:
                ctx.violations.append({"module": "built-in types", "case": c, "rejects": ["panicked: " + o["panic"]], "expected": None})
            continue
        recs.append(dict(o, ty=c["ty"], settings=SETTINGS))
    return recs


def corrupted(recs):
    """Wrong versions of recorded types."""
    out = []

    def w(t, m, f):
        for r in recs:
            if r["ty"] == t:
                r = copy.deepcopy(r)
                for s in SETTINGS:
                    o = r["schemas"][m + "_" + s]
                    r["schemas"][m + "_" + s] = f(o[1]) if callable(f) else f
                out.append((r, "C26"))
                return

    def put(**k):
        return lambda o: ["o", dict(o, **k)]

    def n(i):
        return ["n", i < 0, str(abs(i)), ""]
    w(["leaf", "u8"], "de", put(maximum=n(254)))
    w(["leaf", "u8"], "ser", put(maximum=n(256)))
    w(["leaf", "i16"], "de", put(minimum=n(-32767)))
    w(["leaf", "NonZeroI8"], "ser", lambda o: ["o", {k: v for k, v in o.items() if k != "not"}])
    w(["leaf", "String"], "de", ["b", True])
    w(["leaf", "Ipv4Addr"], "ser", put(format=["s", "ipv6"]))
    w(["arr", 3, ["leaf", "u8"]], "ser", put(maxItems=n(4)))
    w(["tup", [["leaf", "u8"], ["leaf", "String"]]], "de", put(minItems=n(3)))
    w(["set", "HashSet", ["leaf", "i16"]], "ser", lambda o: ["o", {k: v for k, v in o.items() if k != "uniqueItems"}])
    w(["opt", ["leaf", "bool"]], "de", put(type=["s", "boolean"]))
    return out


def check(ctx):
    if hasattr(ctx, "replay_case"):
        c = ctx.replay_case["case"]
        recs = collect(ctx, [{"ty": c["ty"], "docs": [d["j"] if isinstance(d, dict) else d for d in c["docs"]]}])
        ctx.validate("BuiltInTrace", recs)
        return
    par = Par()
    par.go("mc", ctx.mc, "BuiltInMC", workers=3, label="(model)", consts={"Deep": ctx.q("FALSE", "TRUE")}, invariants=["WireOk", "UpperOk", "SerDe", "FormatsOk"])
    par.go("rx", ctx.mc, "RegexMC", workers=2, label="(regular expressions)", consts={"MaxLen": ctx.q(2, 4)}, invariants=["Inv"])
    par.go("base", ctx.cases, "BuiltInSim", consts={"Mode": '"base"', "NGood": 14, "NMut": ctx.q(30, 200)})
    for j in range(ctx.q(1, 4)):
        par.go("r%d" % j, ctx.cases, "BuiltInSim", consts={"Mode": '"random"', "NGood": 12, "NMut": ctx.q(24, 80)}, sim=(ctx.q(110, 700), 4), seed=ctx.seed + 1000 * j)
    r = par.join()
    seen, cases = set(), []
    for k in sorted(r):
        for c in r[k] if k not in ("mc", "rx") else ():
            if json.dumps(c["ty"]) not in seen:
                seen.add(json.dumps(c["ty"]))
                cases.append(c)
    recs = []
    for i in range(0, len(cases), 500):
        recs += collect(ctx, cases[i:i + 500])
    ctx.validate("BuiltInTrace", recs, corrupt=corrupted(recs))


CHECKS = {"C26": check}
TECHNIQUE = {
    "C26": ("TLA+ specification of the wire formats of the supported types and of the schemas built for them: TLC exhaustive check that those schemas admit what is written and no more than they may; every supported type and "
            "TLC-generated compositions compiled, run through serde on generated documents, and their real schemas judged by the specified JSON Schema semantics",
            "All leaf types, array lengths 0 to 32, tuples 1 to 16, wrappers, collections and map keys in every run, and random compositions up to depth 3, on hundreds of boundary documents each; 128-bit integers are limited to 64-bit values."),
}
