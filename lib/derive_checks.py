"""C14-C19, C27: derived schemas against the specification of the data format and against serde itself."""
import copy, json
from vp import Par, ToolError, log
import derive

NOF = {"renS": "", "renD": "", "hasRen": False, "skipS": False, "skipD": False, "ssi": "", "dflt": "", "flat": False}
NOV = {"renS": "", "renD": "", "hasRen": False, "raS": "", "raD": "", "skipS": False, "skipD": False, "unt": False, "doc": False}
NOC = {"renS": "", "renD": "", "hasRen": False, "raS": "", "raD": "", "rafS": "", "rafD": "", "tag": "ext", "t": "", "c": "",
       "deny": False, "dflt": "", "transp": False, "doc": False, "from": 0, "into": 0, "gen": []}


def fld(id, ty, **a):
    return {"id": id, "ty": ty, "a": dict(NOF, **a), "dv": ""}


def var(id, kind, fields=(), **a):
    return {"id": id, "kind": kind, "fields": list(fields), "a": dict(NOV, **a)}


def typ(i, kind, fields=(), variants=(), **a):
    return {"name": "T%d" % i, "kind": kind, "a": dict(NOC, **a), "fields": list(fields), "variants": list(variants)}


def prog(pin, types, subj):
    """subj: (default value, values, documents) of each type."""
    from vp import norm
    n = len(types)
    return {"pin": pin, "types": types,
            "subj": [{"dv": d, "vals": v, "docs": [tag(j) for j in js]} for d, v, js in subj]}


def tag(j):
    if j is None:
        return ["z"]
    if isinstance(j, bool):
        return ["b", j]
    if isinstance(j, str):
        return ["s", j]
    if isinstance(j, int):
        return ["n", j < 0, str(abs(j)), ""]
    if isinstance(j, list):
        return ["a", [tag(x) for x in j]]
    return ["o", {k: tag(x) for k, x in j.items()}]


U8, STR, MAPU8 = ["i", "u8"], ["str"], ["map", ["i", "u8"]]
PINS = [
    prog("typed-map-alternative",
         [typ(1, "enum", variants=[var("A", "struct", [fld("m", MAPU8, flat=True)]), var("B", "struct", [fld("x", STR)])], tag="unt"),
          typ(2, "struct", [fld("e", ["ref", 1], flat=True), fld("y", STR)])],
         [("T1::B { x: String::new() }", [], []),
          ("T2 { e: T1::B { x: String::new() }, y: String::new() }", ["T2 { e: T1::A { m: BTreeMap::from([(\"k\".to_string(), 1u8)]) }, y: \"s\".to_string() }"],
           [{"k": 1, "y": "s"}])]),
    prog("deny-behind-ref",
         [typ(1, "struct", [fld("a", U8)], deny=True),
          typ(2, "enum", variants=[var("A", "newtype", [fld("", ["ref", 1])])], tag="unt"),
          typ(3, "struct", [fld("e", ["ref", 2], flat=True), fld("y", U8)])],
         [("T1 { a: 0 }", [], []), ("T2::A(T1 { a: 0 })", [], []),
          ("T3 { e: T2::A(T1 { a: 0 }), y: 0 }", ["T3 { e: T2::A(T1 { a: 0 }), y: 1 }"], [{"a": 1, "y": 2}])]),
    prog("deny-behind-ref",
         [typ(1, "struct", [fld("m", MAPU8, flat=True)]),
          typ(2, "newtype", [fld("", ["ref", 1])]),
          typ(3, "struct", [fld("e", ["ref", 2], flat=True), fld("y", STR)])],
         [("T1 { m: BTreeMap::new() }", [], []), ("T2(T1 { m: BTreeMap::new() })", [], []),
          ("T3 { e: T2(T1 { m: BTreeMap::new() }), y: String::new() }", ["T3 { e: T2(T1 { m: BTreeMap::new() }), y: String::new() }"], [{"k": 1, "y": "s"}])]),
    prog("newtype-skip-one-side",
         [typ(1, "enum", variants=[var("A", "newtype", [fld("", U8, skipS=True)]), var("B", "unit")])],
         [("T1::B", ["T1::A(1)"], [])]),
    prog("newtype-skip-one-side",
         [typ(1, "enum", variants=[var("A", "newtype", [fld("", U8, skipD=True)]), var("B", "unit")])],
         [("T1::B", [], ["A"])]),
    prog("lossy-unevaluated",
         [typ(1, "struct", [fld("a", U8)]),
          typ(2, "enum", variants=[var("X", "newtype", [fld("", ["ref", 1])])], tag="unt"),
          typ(3, "struct", [fld("o", ["ref", 2], flat=True), fld("q", U8)], deny=True)],
         [("T1 { a: 0 }", [], []), ("T2::X(T1 { a: 0 })", [], []),
          ("T3 { o: T2::X(T1 { a: 0 }), q: 0 }", ["T3 { o: T2::X(T1 { a: 0 }), q: 1 }"], [{"a": 1, "q": 2}])]),
]


def handmade():
    """A record written by hand and wrong versions of it, each of which the specification must reject for that property."""
    types = [typ(1, "struct", [fld("a", U8), fld("b_c", STR, dflt="trait")], raS="UPPERCASE", raD="UPPERCASE", deny=True),
             typ(2, "enum", variants=[var("X", "unit"), var("Y", "newtype", [fld("", U8)])]),
             typ(3, "struct", [fld("f", ["ref", 1], flat=True), fld("o", ["opt", U8])])]

    def u8(**k):
        return dict({"type": "integer", "minimum": 0, "maximum": 255, "format": "uint8"}, **k)

    def rec(k, ser, de, vals, docs, dflts):
        r = {"types": types, "k": k, "settings": derive.SETTINGS, "schemas": {}, "vals": [[tag(v)] for v in vals],
             "docs": [{"j": tag(j), "ok": ok, "back": []} for j, ok in docs], "dflts": dflts}
        for s in derive.SETTINGS:
            r["schemas"]["ser_" + s], r["schemas"]["de_" + s] = tag(ser), tag(de)
        return r
    st = {"type": "object", "properties": {"A": u8(), "B_C": {"type": "string", "default": ""}}, "required": ["A", "B_C"], "additionalProperties": False}
    d1 = [{"v": 0, "f": 2, "skip": False, "j": [tag("")]}]
    r1 = rec(1, st, dict(st, required=["A"]), [{"A": 1, "B_C": "q"}], [({"A": 1}, True), ({"B_C": ""}, False), ({"A": 1, "z": 1}, False)], d1)
    al = [{"type": "string", "enum": ["X"]}, {"type": "object", "properties": {"Y": u8()}, "required": ["Y"], "additionalProperties": False}]
    en = {"oneOf": al}
    r2 = rec(2, en, en, ["X", {"Y": 3}], [("X", True), ("Z", False)], [])
    op = {"type": ["integer", "null"], "minimum": 0, "maximum": 255}
    fl = {"type": "object", "properties": {"A": u8(), "B_C": {"type": "string", "default": ""}, "o": op}, "required": ["A", "B_C", "o"]}
    r3 = rec(3, fl, dict(fl, required=["A"]), [{"A": 1, "B_C": "q", "o": None}], [({"A": 1}, True), ({"o": 1}, False)], [])

    def w(r, m, s, sets=derive.SETTINGS):
        r = copy.deepcopy(r)
        for x in sets:
            r["schemas"][m + "_" + x] = tag(s)
        return r
    de1 = dict(st, required=["A"])
    bad = {"C14": [w(r1, "ser", dict(st, required=["A", "B_C", "Q"]), ["d07"]), w(r2, "ser", {"oneOf": al[1:]}), w(r3, "ser", dict(fl, additionalProperties={"type": "null"}, properties={"A": u8()}))],
           "C15": [w(r1, "de", st, ["oas"]), w(r2, "de", {"oneOf": al[1:]}), w(r3, "de", fl, ["d19"])],
           "C16": [w(r1, "de", st), w(r1, "ser", de1), w(r1, "de", dict(de1, properties={"A": u8(), "B_C": {"type": "string"}})),
                   w(r1, "de", dict(de1, properties={"A": u8(readOnly=True), "B_C": {"type": "string", "default": ""}})), w(r3, "ser", dict(fl, required=["A", "B_C"]))],
           "C17": [w(r1, "de", dict(de1, properties={"a": u8(), "B_C": {"type": "string", "default": ""}})), w(r2, "ser", {"oneOf": [{"type": "string", "enum": ["x"]}, al[1]]}),
                   w(r2, "de", {"oneOf": [al[0], {"type": "object", "properties": {"y": u8()}, "required": ["y"], "additionalProperties": False}]})],
           "C18": [w(r2, "ser", {"oneOf": al[1:]}), w(r2, "de", {"oneOf": al + al[:1]}), w(r2, "de", {"oneOf": al + [{"type": "string", "const": "W"}]})],
           "C19": [w(r3, "ser", dict(fl, properties={"A": u8(), "o": op})), w(r3, "de", dict(fl, required=["A", "o"])), w(r3, "de", dict(fl, required=["A"], additionalProperties=False))],
           "C27": [w(r1, "de", dict(de1, required=[]), ["d20i"]), w(r1, "de", {k: v for k, v in de1.items() if k != "additionalProperties"}), w(r2, "de", {"oneOf": [{"type": "string"}, al[1]]})]}
    return [r1, r2, r3], bad


def records(case, rec):
    """One record per type."""
    src = [{"dv": s["dv"], "vals": s["vals"]} for s in case["subj"]]
    for k, s in enumerate(rec["subj"]):
        r = dict(types=case["types"], k=k + 1, settings=derive.SETTINGS, src=src, **s)
        if "pin" in case:
            r["pin"] = case["pin"]
        yield r


def collect(ctx, cases, cls=derive.Program):
    """Compile and run the programs; their records, and violations for those that fail."""
    cases = [dict(c, settings=derive.SETTINGS) for c in cases]
    exes = derive.emit(ctx, [cls(c) for c in cases])
    if exes is None:
        return []
    out = derive.run(ctx, exes, cases)
    recs = []
    for i, c in enumerate(cases):
        o = out.get(i)
        if o is None:
            raise ToolError("program %d was not run" % i)
        if "panic" in o:
            if o["panic"]:
                ctx.violations.append({"module": "derived programs", "case": c, "rejects": ["panicked: " + o["panic"]], "expected": None})
            continue
        recs += records(c, o)
    return recs


# programs per focus: quick, thorough
MIX = {
    "C14": [("mixed", 170, 1500), ("enum", 120, 1000), ("flatten", 120, 1000)],
    "C15": [("mixed", 150, 1500), ("enum", 120, 1000), ("fields", 120, 1000)],
    "C16": [("fields", 330, 3000), ("mixed", 60, 500)],
    "C17": [("rename", 350, 3000), ("enum", 60, 500)],
    "C18": [("enum", 400, 3500)],
    "C19": [("flatten", 420, 3500)],
    "C27": [("mixed", 170, 1500), ("enum", 120, 1000), ("fields", 120, 1000)],
}
PIN_FOR = {"C14": None, "C15": None, "C19": {"typed-map-alternative", "deny-behind-ref", "lossy-unevaluated"}, "C18": {"newtype-skip-one-side"}}


def derive_check(prop):
    def f(ctx):
        good, bad = handmade()
        corrupt = [(r, prop) for r in bad[prop]]
        if hasattr(ctx, "replay_case"):
            c = ctx.replay_case["case"]
            if "k" in c:
                c = dict(types=c["types"], subj=[dict(s, docs=[d["j"] for d in c["docs"]] if i == c["k"] - 1 else []) for i, s in enumerate(c["src"])])
            ctx.validate("DeriveTrace", collect(ctx, [c]), env={"WANT": prop})
            return
        par = Par()
        for i, (foc, q, t) in enumerate(MIX[prop]):
            n = ctx.q(q, t)
            for j in range(ctx.q(1, 4)):
                par.go("%d.%d" % (i, j), sim, ctx, foc, n // ctx.q(1, 4), j)
        par.go("warm", ctx.build, "core")          # fails here rather than below when schemars itself does not build
        r = par.join()
        cases = [c for c in PINS if prop in PIN_FOR and (PIN_FOR[prop] is None or c["pin"] in PIN_FOR[prop])]
        cases += [c for k in sorted(r) if k != "warm" for c in r[k]]
        recs = []
        for i in range(0, len(cases), 500):
            recs += collect(ctx, cases[i:i + 500])
        ctx.validate("DeriveTrace", recs + good, corrupt=corrupt, env={"WANT": prop})
    return f


def sim(ctx, foc, n, j):
    return ctx.cases("DeriveSim", consts={"Focus": '"%s"' % foc, "NTypes": 3}, sim=(n, 10), seed=ctx.seed + 1000 * j)


PROPS = ["C14", "C15", "C16", "C17", "C18", "C19", "C27"]
CHECKS = {p: derive_check(p) for p in PROPS}
_how = {
    "C14": "values' real serialisations (and re-serialisations of what serde read) are validated by the specified JSON Schema semantics against the real schemas under six settings",
    "C15": "documents generated from the specified format, whole and mutated, that serde reads and the specification calls well-formed are validated against the real schemas under six settings",
    "C16": "required lists, defaults, readOnly and writeOnly of the real schemas are compared with what the specification derives for each contract",
    "C17": "member, variant, tag and content names of the real schemas are compared with the specified rename rules for each contract",
    "C18": "alternatives of the real schemas are compared one by one with the specified representation of each variant",
    "C19": "merged members, requirements and openness of the real schemas are compared with the specified merge, and documents and values judged as for C14, C15 and C27",
    "C27": "mutated documents that serde rejects and that are malformed by the specification must be rejected by the real schemas",
}
TECHNIQUE = {p: ("TLA+ specification of the serde data format (attributes, contracts, enum representations, flattening): TLC generates Rust programs with documents and values, "
                 "which are compiled with the real derive macros; TLC then judges each recorded schema: " + _how[p],
                 "Hundreds (thorough: thousands) of generated three-type programs per run; bounded by type depth, three types per program and fourteen documents and four values per type.") for p in PROPS}
