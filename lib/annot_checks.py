"""C22, C23: annotated types against their plain twins and the specification of what annotations do."""
import copy, json
from vp import Par, ToolError
import derive


def rlit(s):
    """A Rust string literal."""
    out = ""
    for c in s:
        out += {"\"": "\\\"", "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c) or (c if c >= " " and c != "\x7f" else "\\u{%x}" % ord(c))
    return "\"" + out + "\""


def untag(v):
    """JSON text of a tagged value."""
    k = v[0]
    if k == "z":
        return "null"
    if k == "b":
        return "true" if v[1] else "false"
    if k == "s":
        return rlit(v[1])
    if k == "n":
        return ("-" if v[1] else "") + v[2] + ("." + v[3] if v[3] else "")
    if k == "a":
        return "[" + ", ".join(untag(x) for x in v[1]) + "]"
    return "{" + ", ".join("%s: %s" % (rlit(n), untag(x)) for n, x in v[1].items()) + "}"


def num(v, style):
    """A number as an expression in one of the accepted spellings."""
    n = untag(v)
    if n == "5" and style % 4 == 1:
        return "crate::rt::N5"
    if len(n) > 9 and "." not in n:
        n += "u64"
    return {1: "{ %s }" % n, 2: rlit(n), 3: "(%s)" % n}.get(style % 4, n)


def bounds(x, o):
    parts = ["%s = %s" % (n, num(x[k][0], o)) for n, k in (("min", "min"), ("max", "max"), ("equal", "eq")) if x[k]]
    if o % 2 and len(parts) == 2:
        parts.reverse()
    if x["ns"] == "validate" and o % 3 == 0:
        parts.append("message = \"m\"")
    return parts


def item(x, o):
    """One validation item as written in its namespace."""
    kw, ns = x["kw"], x["ns"]
    if kw in ("length", "range"):
        return "%s(%s)" % (kw, ", ".join(bounds(x, o)))
    if kw == "format":
        return x["s"] + ("(message = \"m\")" if ns == "validate" and o % 2 else "")
    if kw == "required":
        return kw + ("(message = \"m\")" if ns == "validate" and o % 2 else "")
    if kw == "inner":
        return "inner(%s)" % ", ".join(item(y, o) for y in x["items"])
    text = rlit(x["s"]) if o % 3 else "crate::rt::Rx(%s)" % rlit(x["s"])
    if kw == "pattern":
        return "pattern(%s)" % text
    if kw == "regex":
        if ns == "schemars":
            return "regex(pattern = %s)" % text
        text = "crate::rt::Rx(%s)" % rlit(x["s"])
        return "regex(path = %s%s)" % (rlit(text) if o % 2 else text, ", code = \"c\"" if o % 3 else "")
    if ns == "validate" or (ns == "schemars" and o % 2):
        return "contains(pattern = %s%s)" % (text, ", message = \"m\"" if ns == "validate" and o % 3 else "")
    return "contains(%s)" % text


def example(v, o):
    if v[0] == "s":
        return ("" if " " in v[1] or v[1] == "" else "&") + rlit(v[1]) if o % 2 else "&" + rlit(v[1])
    if v[0] in ("b", "n") and o % 2:
        return untag(v)
    return "crate::rt::js(%s)" % rlit(untag(v))


def render(a):
    o = a["o"]
    groups = [[], [], []]
    for i, ln in enumerate(a["doc"]):
        plain = "\n" not in ln and "\r" not in ln and not ln.startswith("/")
        groups[0].append("\n///" + ln + "\n" if plain and (o + i) % 3 else "#[doc = %s] " % rlit(ln))
    s = []
    if a["title"]:
        s.append("title = " + rlit(a["title"][0]))
    if a["desc"]:
        s.append("description = " + rlit(a["desc"][0]))
    s += ["example = " + example(v, o) for v in a["ex"]]
    ext = ["%s = %s" % (rlit(k), untag(v)) for k, v in a["ext"]]
    s += ["extend(%s)" % ", ".join(ext)] if ext and o % 2 else ["extend(%s)" % e for e in ext]
    s += ["transform = " + ("crate::rt::tfa" if t == "tfa" else "crate::rt::Tf(\"%s\")" % t) for t in a["tf"]]
    if o % 3 == 0:
        s.reverse()
        for w in ("example", "extend", "transform"):       # these are listed in order
            at = [i for i, x in enumerate(s) if x.startswith(w)]
            for i, x in zip(at, [s[i] for i in reversed(at)]):
                s[i] = x
    groups[1] = ["#[schemars(%s)] " % ", ".join(s)] if s and o % 2 else ["#[schemars(%s)] " % x for x in s]
    if a["dep"]:
        groups[2].append(["#[deprecated] ", "#[deprecated = \"x\"] ", "#[deprecated(note = \"x\")] "][o % 3])
    by = {}
    for x in a["val"]:
        by.setdefault(x["ns"], []).append(item(x, o))
    for ns in sorted(by, reverse=o % 2 == 0):
        xs = by[ns] + {"garde": ["dive"], "validate": ["nested"]}.get(ns, [])[:o % 2]
        groups[2] += ["#[%s(%s)] " % (ns, ", ".join(xs))] if o % 4 < 2 else ["#[%s(%s)] " % (ns, x) for x in xs]
    n = o % 3
    return "".join("".join(g) for g in groups[n:] + groups[:n])


class Annotated(derive.Program):
    """The annotated types T1.. and their plain twins B1.., which refer to the annotated ones."""
    derives = "JsonSchema, Debug, Clone, PartialEq"

    def ann(self, where):
        an = self.case["subj"][where[1] - 1]["an"]
        if where[0] == "c":
            return an["c"]
        if where[0] == "v":
            return an["v"][where[2]]["c"]
        return (an["f"] if where[2] is None else an["v"][where[2]]["f"])[where[3]]

    def attrs(self, items, where):
        return derive.serde_attr(items) + ("" if self.plain else render(self.ann(where)))

    def doc(self, a):
        return ""

    def source(self):
        case, out = self.case, ""
        n = len(case["types"])
        self.plain = False
        for k in range(n):
            out += self.type_src(k + 1)
        self.plain = True
        types = copy.deepcopy(case["types"])
        for k, t in enumerate(types):
            t["name"] = "B%d" % (k + 1)
            an = case["subj"][k]["an"]
            for fs, anns in [(t["fields"], an["f"])] + [(v["fields"], a["f"]) for v, a in zip(t["variants"], an["v"])]:
                for f, a in zip(fs, anns):
                    if any(x["kw"] == "required" for x in a["val"]):
                        f["ty"] = f["ty"][1]
        self.case = dict(case, types=types)
        for k in range(n):
            out += self.type_src(k + 1)
        self.case = case
        both = lambda x: "json!({\"ser\": rt::defs::<%s>(\"ser\"), \"de\": rt::defs::<%s>(\"de\")})" % (x, x)
        return out + "\n".join(self.fns) + "\npub fn run(c: &Value) -> Value {\n json!({\"t\": [%s], \"b\": [%s]}) }\n" % (
            ", ".join(both("T%d" % (k + 1)) for k in range(n)), ", ".join(both("B%d" % (k + 1)) for k in range(n)))

    def type_src(self, k):
        s = super().type_src(k)
        return s.split("impl Default for")[0] if self.plain else s      # a twin is never made


def records(case, out):
    n = len(case["types"])
    for k in range(n):
        rec = {}
        for m in ("ser", "de"):
            t, b = out["t"][k][m], out["b"][k][m]
            own = {}
            for j in range(n):
                own.update({x: y for x, y in out["t"][j][m].items() if x == "T%d" % (j + 1)})
            # a transparent type without annotations has no definition of its own
            rec[m] = {"t": t.get("T%d" % (k + 1), t[""]), "b": b.get("B%d" % (k + 1), b[""]), "defsT": {x: y for x, y in t.items() if x},
                      "defsB": {x: y for x, y in b.items() if x and not x.startswith("B")}, "own": own}
        yield dict(types=case["types"], k=k + 1, subj=case["subj"], an=case["subj"][k]["an"], rec=rec)


def collect(ctx, cases):
    exes = derive.emit(ctx, [Annotated(c) for c in cases])
    if exes is None:
        return []
    out, recs = derive.run(ctx, exes, cases), []
    for i, c in enumerate(cases):
        o = out.get(i)
        if o is None:
            raise ToolError("program %d was not run" % i)
        if "panic" in o:
            if o["panic"]:
                ctx.violations.append({"module": "derived programs", "case": c, "rejects": ["panicked: " + o["panic"]], "expected": None})
            continue
        recs += records(c, o)
    return recs


NO = {"doc": [], "title": [], "desc": [], "ex": [], "dep": False, "ext": [], "tf": [], "val": [], "o": 0}


def handmade(prop):
    """A record written by hand and wrong versions of it."""
    from derive_checks import fld, typ, tag, STR
    ty = typ(1, "struct", [fld("a", STR), fld("b", ["vec", STR])])
    meta = prop == "C23"
    fa = dict(NO, doc=[" # Head ", "", "  text"], ex=[["n", False, "1", ""]], title=["T"]) if meta else \
        dict(NO, val=[{"ns": "validate", "kw": "length", "min": [["n", False, "2", ""]], "max": [], "eq": []}, {"ns": "garde", "kw": "contains", "s": "a.b"}])
    fb = dict(NO, dep=True, ext=[["x", ["z"]]]) if meta else dict(NO, val=[{"ns": "schemars", "kw": "inner", "items": [{"ns": "schemars", "kw": "format", "s": "url"}]}])
    b = {"type": "object", "properties": {"a": {"type": "string"}, "b": {"type": "array", "items": {"type": "string"}}}, "required": ["a", "b"]}

    def put(a, bb):
        d = copy.deepcopy(b)
        d["properties"]["a"].update(a)
        d["properties"]["b"].update(bb)
        return d
    if meta:
        right = put({"title": "T", "description": "text", "examples": [1]}, {"deprecated": True, "x": None})
        wrong = [put({"title": "Head", "description": "text", "examples": [1]}, {"deprecated": True, "x": None}), put({"title": "T", "description": " text", "examples": [1]}, {"deprecated": True, "x": None}),
                 put({"title": "T", "description": "text", "examples": [1]}, {"deprecated": True}), put({"title": "T", "description": "text", "examples": [1, 1]}, {"deprecated": True, "x": None})]
    else:
        right = put({"minLength": 2, "pattern": "a\\.b"}, {"items": {"type": "string", "format": "uri"}})
        wrong = [put({"minLength": 2, "pattern": "a.b"}, {"items": {"type": "string", "format": "uri"}}), put({"minItems": 2, "pattern": "a\\.b"}, {"items": {"type": "string", "format": "uri"}}),
                 put({"minLength": 2, "pattern": "a\\.b"}, {"format": "uri"}), put({"minLength": 2, "maxLength": 2, "pattern": "a\\.b"}, {"items": {"type": "string", "format": "uri"}})]

    def rec(t):
        d = {"T1": tag(t)}
        one = {"t": tag(t), "b": tag(b), "defsT": d, "defsB": {}, "own": d}
        an = {"c": NO, "f": [fa, fb], "v": []}
        return {"types": [ty], "k": 1, "subj": [{"an": an, "dv": ""}], "an": an, "rec": {"ser": one, "de": copy.deepcopy(one)}}
    bad = [rec(w) for w in wrong] + [rec(right)]
    bad[-1]["rec"]["de"]["defsB"] = {"T1": tag(b)}         # a shared definition that differs
    return rec(right), bad


def sim(ctx, kind, foc, n, j):
    return ctx.cases("AnnotSim", consts={"Focus": '"%s"' % foc, "NTypes": 3, "Kind": '"%s"' % kind}, spec="Spec3", sim=(n, 10), seed=ctx.seed + 1000 * j)


def check(prop, kind, mix):
    def f(ctx):
        good, bad = handmade(prop)
        if hasattr(ctx, "replay_case"):
            c = ctx.replay_case["case"]
            ctx.validate("AnnotTrace", collect(ctx, [{"types": c["types"], "subj": c["subj"]}]), env={"WANT": prop})
            return
        par = Par()
        for i, (foc, q, t) in enumerate(mix):
            for j in range(ctx.q(1, 4)):
                par.go("%d.%d" % (i, j), sim, ctx, kind, foc, ctx.q(q, t) // ctx.q(1, 4), j)
        par.go("warm", ctx.build, "core")
        r = par.join()
        cases = [c for k in sorted(r) if k != "warm" for c in r[k]]
        recs = []
        for i in range(0, len(cases), 400):
            recs += collect(ctx, cases[i:i + 400])
        ctx.validate("AnnotTrace", recs + [good], corrupt=[(x, prop) for x in bad], env={"WANT": prop})
    return f


CHECKS = {"C22": check("C22", "val", [("plain", 260, 2500), ("plainf", 130, 1200)]), "C23": check("C23", "meta", [("plain", 260, 2500), ("plainf", 60, 600)])}
_t = "TLA+ specification of annotations (spec/Annot.tla): TLC generates annotated programs, compiled with the real derive macro next to plain twins; TLC recomputes every annotated place from the twin's recorded schema and compares "
TECHNIQUE = {"C22": (_t + "(validation: namespaces, precedence between them, applicability by type, inner, escaping of contained text as a pattern that denotes exactly that text)",
                     "Hundreds (thorough: thousands) of three-type programs per run, both contracts, definitions before transforms; nesting of inner up to two; numbers from small pools."),
             "C23": (_t + "(doc comment text, headings, explicit title, description, examples, deprecation, extensions, transforms; and that shared definitions are the same wherever they are used)",
                     "Hundreds (thorough: thousands) of three-type programs per run, both contracts, definitions before transforms; text from pools of awkward lines.")}
