"""C25: identities and names of types, against schemas generated alone and together."""
import copy, json
from vp import Par, ToolError, log
import derive, builtin_checks
from builtin_checks import W, SEQ, MAP, LEAF, FEATURES, DEPS


def const(c):
    k = c[0]
    if k == "n":
        return ("-" if c[1] else "") + c[2]
    return "true" if c == ["b", True] else "false" if k == "b" else "'%s'" % c[1]


class Program:
    def __init__(self, case):
        self.case = case

    def ty(self, t, pre, D=None):
        def sub(x):
            return self.ty(x, pre, D)
        k = t[0]
        if k == "p":
            return D["tps"][t[1] - 1]
        if k == "d":
            Q = self.case["decls"][t[1] - 1]
            args = (["'static"] if Q["lt"] else []) + [sub(x) for x in t[2]] + [D["cps"][x[1] - 1] if x[0] == "c" else const(x) for x in t[3]]
            return "%s%s::%s%s" % (pre, Q["mod"], Q["id"], "<%s>" % ", ".join(args) if args else "")
        if k == "leaf":
            return LEAF.get(t[1], t[1])
        if k == "opt":
            return "Option<%s>" % sub(t[1])
        if k == "w":
            return W[t[1]] % sub(t[2])
        if k in ("seq", "set"):
            return SEQ[t[1]] % sub(t[2])
        if k == "map":
            return MAP[t[1]] % (LEAF.get(t[2], t[2]), sub(t[3]))
        if k == "kmap":
            return MAP[t[1]] % (self.ty(["d", t[2], [], []], pre, D), sub(t[3]))
        if k == "arr":
            return "[%s; %d]" % (sub(t[2]), t[1])
        if k == "avec":
            return "arrayvec07::ArrayVec<%s, %d>" % (sub(t[2]), t[1])
        if k == "tup":
            return "(%s,)" % ", ".join(sub(x) for x in t[1])
        if k == "res":
            return "Result<%s, %s>" % (sub(t[1]), sub(t[2]))
        if k == "bound":
            return "std::ops::Bound<%s>" % sub(t[1])
        if k == "range":
            return "std::ops::%s<%s>" % (t[1], sub(t[2]))
        if k == "either":
            return "either1::Either<%s, %s>" % (sub(t[1]), sub(t[2]))
        raise ToolError("type " + str(t))

    def decl(self, k):
        D = self.case["decls"][k]
        pre = "super::"
        params = (["'a"] if D["lt"] else []) + D["tps"] + ["const %s: %s" % x for x in zip(D["cps"], D["cks"])]
        gen = "<%s>" % ", ".join(params) if params else ""
        ph = "std::marker::PhantomData<(%s%s)>" % ("&'a (), " if D["lt"] else "", "".join(t + ", " for t in D["tps"]))
        bound = D["kind"] in ("cwith", "enum") or any(f["how"] in ("fn", "assoc", "named") for f in D["fields"])
        at = ""
        if D["ren"]:
            fmt = any(p[0] != "lit" for p in D["ren"])
            s = "".join(p[1].replace("{", "{{").replace("}", "}}") if p[0] == "lit" else "{%s}" % D["tps" if p[0] == "tp" else "cps"][p[1] - 1] for p in D["ren"])
            at += "#[schemars(rename = %s)] " % derive.lit(s)
        if bound and D["tps"]:
            at += "#[schemars(bound = \"%s\")] " % ", ".join(t + ": JsonSchema" for t in D["tps"])
        if D["kind"] == "inline":
            at += "#[schemars(inline)] "
        head = "#[derive(JsonSchema)] " + at
        pub = "pub struct %s%s" % (D["id"], gen)
        needs_ph = D["lt"] or D["tps"]
        if D["kind"] == "transparent":
            return "%s#[schemars(transparent)] %s(%s%s);" % (head, pub, self.ty(D["fields"][0]["ty"], pre, D), ", #[schemars(skip)] " + ph if needs_ph else "")
        if D["kind"] == "cwith":
            return "%s#[schemars(with = %s, description = \"d\")] %s { %s }" % (head, derive.lit(self.ty(D["fields"][0]["ty"], pre, D)), pub, "#[schemars(skip)] z: " + ph if needs_ph else "")
        out = []
        for f in D["fields"]:
            n = f["n"].upper() if D["kind"] == "enum" else f["n"]
            h = f["how"]
            t = None if h == "const" else self.ty(f["ty"], pre, D)
            if D["kind"] == "keys":
                out.append(n.upper())
            elif D["kind"] == "enum":
                out.append("#[schemars(with = %s)] %s(u8)" % (derive.lit(t), n) if h == "with" else
                           "#[schemars(schema_with = \"super::sw::<%s>\")] %s" % (t.replace('"', '\\"'), n) if h == "fn" else "%s(%s)" % (n, t))
            else:
                out.append("#[schemars(with = %s)] %s: u8" % (derive.lit(t), n) if h == "with" else
                           "#[schemars(schema_with = \"super::sw::<%s>\")] %s: u8" % (t, n) if h == "fn" else
                           "#[schemars(extend(\"x-n\" = %s))] %s: u8" % (D["cps"][f["ty"][1] - 1], n) if h == "const" else
                           "#[schemars(extend(\"x-t\" = %s::schema_name()))] %s: u8" % (t, n) if h == "named" else
                           "%s: std::marker::PhantomData<%s>" % (n, t) if h == "phantom" else
                           "%s: <%s as super::Assoc>::A" % (n, t) if h == "assoc" else "%s: %s" % (n, t))
        if D["kind"] in ("enum", "keys"):
            if needs_ph:
                out.append("#[schemars(skip)] Ph(%s)" % ph)
            return "%spub enum %s%s { %s }" % (head, D["id"], gen, ", ".join(out))
        if needs_ph:
            out.append("#[schemars(skip)] ph: " + ph)
        return "%s%s { %s }" % (head, pub, ", ".join(out))

    def local(self):
        """Types of the same name in the bodies of different functions."""
        out, n = "", len(self.case["decls"])
        for k in range(n):
            t = "%s { a: %s }" % (self.case["decls"][k]["id"], self.ty(self.case["decls"][k]["fields"][0]["ty"], ""))
            i = self.case["decls"][k]["id"]
            out += ("fn alone%d() -> Value { #[derive(JsonSchema)] struct %s alone::<%s>() }\n"
                    "fn sub%d(g: &mut SchemaGenerator) -> Schema { #[derive(JsonSchema)] struct %s g.subschema_for::<%s>() }\n" % (k, t, i, k, t, i))
        return out + ("pub fn run(_c: &Value) -> Value {\n json!({\"alone\": [%s], \"all\": together(|g| vec![%s]), \"rev\": together(|g| { let mut v = vec![%s]; v.reverse(); v })}) }\n"
                      % (", ".join("alone%d()" % k for k in range(n)), ", ".join("sub%d(g)" % k for k in range(n)), ", ".join("sub%d(g)" % k for k in reversed(range(n)))))

    def source(self):
        D = self.case["decls"]
        if self.case.get("pin") == "local-scope":
            return self.local()
        mods = "".join("pub mod %s {\nuse super::*;\n%s\n}\n" % (m, "\n".join(self.decl(k) for k in range(len(D)) if D[k]["mod"] == m)) for m in ("a", "b"))
        xs = [self.ty(t, "") for t in self.case["exprs"]]
        return mods + ("pub fn run(_c: &Value) -> Value {\n json!({\"alone\": [%s],\n \"all\": together(|g| vec![%s]),\n \"rev\": together(|g| { let mut v = vec![%s]; v.reverse(); v })}) }\n"
                       % (",\n".join("alone::<%s>()" % x for x in xs), ", ".join("g.subschema_for::<%s>()" % x for x in xs), ", ".join("g.subschema_for::<%s>()" % x for x in reversed(xs))))


PRELUDE = """use super::rt;
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde_json::{json, Map, Value};
pub trait Assoc { type A; }
impl<T> Assoc for T { type A = Vec<T>; }
pub fn sw<T: JsonSchema>(g: &mut SchemaGenerator) -> Schema { g.subschema_for::<T>() }
fn defs(g: &SchemaGenerator) -> Value { Value::Object(g.definitions().iter().map(|(k, v)| (k.clone(), rt::tag(v))).collect()) }
fn alone<T: JsonSchema>() -> Value {
 let mut g = SchemaGenerator::default();
 let s = g.subschema_for::<T>();
 json!({"id": T::schema_id(), "name": T::schema_name(), "inline": T::inline_schema(), "sub": rt::tag(s.as_value()), "defs": defs(&g)}) }
fn together(f: fn(&mut SchemaGenerator) -> Vec<Schema>) -> Value {
 let mut g = SchemaGenerator::default();
 let s = f(&mut g);
 json!({"subs": s.iter().map(|s| rt::tag(s.as_value())).collect::<Vec<_>>(), "defs": defs(&g)}) }
"""


def fix(o):
    """What stands for an empty object in a trace."""
    return o if o else {"-": ["z"]}


def collect(ctx, cases):
    exes = derive.emit(ctx, [Program(c) for c in cases], crate="types", features=FEATURES, deps=DEPS, prelude=PRELUDE)
    if exes is None:
        return []
    out = derive.run(ctx, exes, cases)
    recs = []
    for i, c in enumerate(cases):
        o = out[i]
        if "panic" in o:
            if o["panic"]:
                ctx.violations.append({"module": "type identities", "case": c, "rejects": ["panicked: " + o["panic"]], "expected": None})
            continue
        for a in o["alone"] + [o["all"], o["rev"]]:
            a["defs"] = fix(a["defs"])
        recs.append(dict(o, decls=c["decls"], exprs=c["exprs"], pin=c.get("pin", "")))
    return recs


def decl(mod, id, **k):
    return dict({"mod": mod, "id": id, "ren": [], "kind": "struct", "tps": [], "cks": [], "cps": [], "lt": False, "rec": False,
                 "fields": [{"n": "a", "how": "", "ty": ["leaf", "u8"]}]}, **k)


def pinned():
    """Cases of the known findings."""
    b = [{"n": "b", "how": "", "ty": ["leaf", "String"]}]
    return [{"pin": "renamed-twin", "decls": [decl("a", "A"), decl("a", "B", ren=[["lit", "A"]], fields=b)], "exprs": [["d", 1, [], []], ["d", 2, [], []]]},
            {"pin": "local-scope", "decls": [decl("f", "A"), decl("g", "A", fields=[{"n": "a", "how": "", "ty": ["leaf", "String"]}])], "exprs": [["d", 1, [], []], ["d", 2, [], []]]}]


def corrupted(recs):
    """Wrong versions of recorded types."""
    out = []

    def first(p, f):
        for r in recs:
            if not r["pin"] and p(r):
                r = copy.deepcopy(r)
                f(r)
                out.append((r, "C25"))
                return

    def decls(r):
        return [i for i, x in enumerate(r["exprs"]) if x[0] == "d" and r["decls"][x[1] - 1]["kind"] not in ("transparent", "inline")]

    def differ(r):
        d = decls(r)
        return next(((i, j) for i in d for j in d if r["exprs"][i][1] != r["exprs"][j][1] and r["alone"][i]["name"] != r["alone"][j]["name"]), None)

    def shareid(r):
        i, j = differ(r)
        r["alone"][j]["id"] = r["alone"][i]["id"]
    first(differ, shareid)

    def swap(r):
        i, j = differ(r)
        r["all"]["subs"][i] = r["all"]["subs"][j]
    first(lambda r: differ(r) and not r["alone"][differ(r)[0]]["name"].startswith("_"), lambda r: r["all"]["subs"].__setitem__(differ(r)[0], ["o", {"$ref": ["s", "#/$defs/zz"]}]))

    def rename(r):
        r["alone"][decls(r)[0]]["name"] += "x"
    first(decls, rename)

    def wrapped(r):
        return next((i for i, x in enumerate(r["exprs"]) if x[0] == "w" and x[1] in ("Box", "Rc", "Arc") and x[2] in r["exprs"]), None)
    first(lambda r: wrapped(r) is not None, lambda r: r["alone"][wrapped(r)].update(id="other"))
    return out


def check(ctx):
    if hasattr(ctx, "replay_case"):
        c = ctx.replay_case["case"]
        recs = collect(ctx, [{"decls": c["decls"], "exprs": c["exprs"], "pin": c.get("pin", "")}])
        ctx.validate("TypeIdTrace", recs)
        return
    par = Par()
    par.go("mc", ctx.mc, "TypeIdMC", workers=3, label="(model)", consts={"Deep": ctx.q("FALSE", "TRUE")}, invariants=["Interchangeable", "Transparent"])
    for j in range(ctx.q(1, 4)):
        par.go("r%d" % j, ctx.cases, "TypeIdSim", consts={"Decls": 5, "Exprs": 14}, sim=(ctx.q(180, 700), 8), seed=ctx.seed + 1000 * j)
    r = par.join()
    cases = pinned() + [c for k in sorted(r) if k != "mc" for c in r[k]]
    recs = []
    for i in range(0, len(cases), 300):
        recs += collect(ctx, cases[i:i + 300])
    ctx.validate("TypeIdTrace", recs, corrupt=corrupted(recs))


CHECKS = {"C25": check}
TECHNIQUE = {
    "C25": ("TLA+ specification of type identities and names: TLC check that equal identities mean equal schemas over all small programs; TLC-generated programs of same-named, renamed and generic types compiled, and their real "
            "identities, names and schemas, alone and together in one document, judged by the specification",
            "Random programs of 5 declared types in two modules (structs, enums, inline and transparent types; type, constant and lifetime parameters; with, schema_with, associated types, self reference) and 14 or more type expressions each."),
}
