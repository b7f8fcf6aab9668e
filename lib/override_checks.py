"""C21: types whose settings are spread over serde and schemars attributes, against their plainly annotated twins."""
import copy
from vp import Par, ToolError
import derive

SETS = ["d20", "d07i"]


class Twin(derive.Program):
    """One module of the program: mixed places the attributes as generated, base writes only the wanted settings."""
    derives = "JsonSchema, Debug, Clone, PartialEq"

    def __init__(self, case, mixed):
        super().__init__(case)
        self.mixed = mixed

    def place(self, where):
        sp = self.case["subj"][where[1] - 1]["sp"]
        if where[0] == "c":
            return sp["c"]
        if where[0] == "v":
            return sp["v"][where[2]]["c"]
        return (sp["f"] if where[2] is None else sp["v"][where[2]]["f"])[where[3]]

    def fields(self, T, k, v, fields, tuple_, pub):
        self.tys = {("f", k, v, i): derive.ty(f["ty"]) for i, f in enumerate(fields)}
        return super().fields(T, k, v, fields, tuple_, pub)

    def item(self, x, where):
        if x[0] == "!":
            return "!" + x[1]
        if len(x) == 1:
            return x[0]
        if x[1] == "eq":
            return "%s = %s" % (x[0], derive.lit(self.tys[where] if x[2] == "@TY" else x[2]))
        return "%s(%s)" % (x[0], ", ".join("%s = %s" % (w, derive.lit(n)) for w, n in (("serialize", x[2]), ("deserialize", x[3])) if n or x[0] == "rename"))

    def attrs(self, items, where):
        p = self.place(where)
        if not self.mixed:
            return derive.serde_attr(items)
        return "".join("#[%s(%s)] " % (a["w"], ", ".join(self.item(x, where) for x in a["items"])) for a in p["attrs"])

    def source(self):
        types = "".join(self.type_src(k + 1) for k in range(len(self.case["types"])))
        for T in self.case["types"]:
            types += "impl serde::Serialize for %s { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(\"%s\") } }\n" % (T["name"], T["name"])
        return types + "\n".join(self.fns) + "\n"


class Both:
    def __init__(self, case):
        self.case = case

    def source(self):
        out = ""
        for name, mixed in (("base", False), ("mixed", True)):
            out += "mod %s {\n%s%s}\n" % (name, derive.PRELUDE.replace("super::rt", "crate::rt"), Twin(self.case, mixed).source())
        subj = ",\n".join("json!({\"base\": rt::schemas(&c[\"settings\"], rt::root::<base::%s>), \"mixed\": rt::schemas(&c[\"settings\"], rt::root::<mixed::%s>)})"
                          % (T["name"], T["name"]) for T in self.case["types"])
        return out + "pub fn run(c: &Value) -> Value {\n json!({\"subj\": [%s]}) }\n" % subj


def places(sp):
    yield sp["c"]
    yield from sp["f"]
    for v in sp["v"]:
        yield v["c"]
        yield from v["f"]


def records(case, rec):
    for k, (s, r) in enumerate(zip(case["subj"], rec["subj"])):
        yield dict(types=case["types"], k=k + 1, src=case["subj"], places=list(places(s["sp"])), **r)


def collect(ctx, cases):
    cases = [dict(c, settings=SETS) for c in cases]
    exes = derive.emit(ctx, [Both(c) for c in cases])
    if exes is None:
        return []
    out, recs = derive.run(ctx, exes, cases), []
    for i, c in enumerate(cases):
        o = out.get(i)
        if o is None:
            raise ToolError("program %d was not run" % i)
        if "panic" in o:
            if o["panic"]:
                ctx.violations.append({"module": "derived programs", "case": c, "rejects": ["panicked: " + o["panic"]], "expected": None})
            continue
        recs += records(c, o)
    return recs


def handmade():
    """One type written out by hand, and wrong schemas for it."""
    from derive_checks import tag
    good = {"places": [{"want": [["rename", "eq", "x"]], "attrs": [{"w": "serde", "items": [["rename", "eq", "y"]]}, {"w": "schemars", "items": [["rename", "eq", "x"]]}]},
                       {"want": [], "attrs": [{"w": "schemars", "items": [["!", "skip"]]}, {"w": "serde", "items": [["skip"]]}]}],
            "base": {"d20": tag({"properties": {"x": {}}})}, "mixed": {"d20": tag({"properties": {"x": {}}})}}
    bad = copy.deepcopy(good)
    bad["mixed"]["d20"] = tag({"properties": {"y": {}}})
    return good, bad


def sim(ctx, foc, n, j):
    return ctx.cases("OverrideSim", consts={"Focus": '"%s"' % foc, "NTypes": 3}, spec="Spec2", sim=(n, 10), seed=ctx.seed + 1000 * j)


def c21(ctx):
    good, bad = handmade()
    if hasattr(ctx, "replay_case"):
        c = ctx.replay_case["case"]
        ctx.validate("OverrideTrace", collect(ctx, [{"types": c["types"], "subj": c.get("src") or c["subj"]}]))
        return
    par = Par()
    par.go("mc", ctx.mc, "OverrideMC", consts={"MaxLen": ctx.q(3, 4)}, invariants=["ItemByItem", "OrderFree", "Independent"])
    for i, (foc, q, t) in enumerate([("mixed", 200, 1500), ("fields", 200, 1500), ("enum", 200, 1500), ("rename", 120, 1000)]):
        for j in range(ctx.q(1, 4)):
            par.go("%d.%d" % (i, j), sim, ctx, foc, ctx.q(q, t) // ctx.q(1, 4), j)
    par.go("warm", ctx.build, "core")
    r = par.join()
    cases = [c for k in sorted(r) if k not in ("mc", "warm") for c in r[k]]
    recs = []
    for i in range(0, len(cases), 400):
        recs += collect(ctx, cases[i:i + 400])
    ctx.validate("OverrideTrace", recs + [good], corrupt=[(bad, "C21")])


CHECKS = {"C21": c21}
TECHNIQUE = {"C21": ("TLA+ specification of attribute items (spec/Override.tla), model checked for item-by-item overriding, order freedom and independence; TLC generates programs whose settings are "
                     "spread over serde and schemars attributes with overridden and cancelled decoys; each compiled type's schemas are compared by TLC with those of its plainly annotated twin",
                     "Model: item lists up to three (thorough: four) items per attribute kind. Programs: hundreds (thorough: thousands) of three-type programs under two settings and both contracts; "
                     "the keywords are those schemars documents; `with` is exercised on fields only.")}
