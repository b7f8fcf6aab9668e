"""C20, C24, C26: wrapper, map and built-in types."""
import copy, json
from vp import Par, ToolError


def _t(name, body, inline=True):
    return {"name": name, "inline": inline, "body": body}


PIN20 = [{"mode": "opt", "types": [_t("Inner", ["o", b]), _t("V", ["b", True]), _t("D", ["b", True], False)]} for b in (
    {"type": ["s", "string"], "not": ["o", {"const": ["z"]}]},       # recorded finding
    {"const": ["z"]}, {"not": ["o", {"type": ["s", "null"]}]}, {"type": ["s", "null"]}, {"$ref": ["s", "x-sub:3"]})]


def corrupt_wrap(trace, prop):
    out = []
    for i, c in enumerate(trace):
        if len(out) >= 6 or not c["ok"] or any('"%s"' % k in json.dumps(c["types"]) for k in ("not", "const", "enum")) and prop == "C20":
            continue
        d = copy.deepcopy(c)
        if prop == "C20":
            if i % 2 and c["inner"][0] == "o":
                d["opt"] = c["inner"] if rejects_null(c["inner"]) else ["b", False]
            else:
                d["opt"] = ["b", False]
        else:
            if c["key"][0] != "o":
                continue
            d["map"] = ["o", {"type": ["s", "string"]}] if i % 2 else ["o", {}]
            d["hash"] = d["map"]
        out.append((d, prop))
    return out


def rejects_null(s):
    return set(s[1]) <= {"type", "title", "$schema"} and s[1].get("type", [0, 0])[1] in ("string", "integer", "object")


def wrap_check(mode, prop):
    def f(ctx):
        par = Par()
        par.go("exe", ctx.build, "core")
        par.go("mc", ctx.mc, "WrapMC", workers=4, label="(model)", consts={"Big": ctx.q("FALSE", "TRUE")}, invariants=["OptionOk", "OptionIdem", "MapsOk"])
        par.go("cases", ctx.cases, "WrapSim", consts={"Mode": '"%s"' % mode}, sim=(ctx.q(7000 if mode == "opt" else 2600, 60000 if mode == "opt" else 30000), 10))
        r = par.join()
        rep = hasattr(ctx, "replay_case")
        cases = [{"mode": mode, "types": ctx.replay_case["case"]["types"]}] if rep else (PIN20 if mode == "opt" else []) + r["cases"]
        trace = ctx.run_harness(r["exe"], "wrap", cases)
        ctx.validate("WrapTrace", trace, corrupt=[] if rep else corrupt_wrap(trace, prop))
    return f


CHECKS = {"C20": wrap_check("opt", "C20"), "C24": wrap_check("map", "C24")}
TECHNIQUE = {
    "C20": ("TLA+ specification of optional schemas over a specified JSON Schema validator: TLC exhaustive check of the construction on small schemas, and TLC-generated wrapped types built by the real Option implementation and compared instance by instance",
            "Exhaustive over a small-schema grammar for the model; the real schemas are compared on thousands of generated wrapped types over a fixed set of probing instances. Bounded by schema size and probes."),
    "C24": ("TLA+ specification of map schemas: TLC exhaustive check of the construction for small key schemas, and TLC-generated key and value types built by the real map implementations and compared name by name",
            "Exhaustive over small key schemas for the model; the real map schemas are compared for thousands of generated key/value types over probing names and values. Bounded by key alternatives and probes."),
}
