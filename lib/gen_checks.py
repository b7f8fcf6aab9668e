"""C01-C05: the schema generator."""
import copy
from vp import Par, ToolError

INV = {
    "C01": (["RefsResolve", "RefsResolveFresh"], []),
    "C02": (["NamesInjective"], ["NamesStable", "CloneKeepsNames"]),
    "C03": (["NoPlaceholderWhenIdle", "CleanWhenIdle", "PlaceholderIsRunning", "StackBounded"], ["Terminates"]),
    "C04": (["InlineDecision"], []),
    "C05": (["RefsResolveFresh", "RootComplete", "CleanWhenIdle"], []),
}
T = lambda name, i, ops=(), kind="obj", inline=False, title="": {
    "name": name, "id": "T%d" % i, "inline": inline, "kind": kind, "title": title,
    "ops": [{"op": o, "to": t} for o, t in ops]}
S0 = {"path": "/$defs", "meta": "https://json-schema.org/draft/2020-12/schema", "inline": False, "contract": "de", "tf": []}
PINNED = [
    # a definition built while T1 was the borrowed root says "#", and is reused under T3 (known finding)
    {"types": [T("A", 1, [("sub", 2)]), T("B", 2, [("sub", 1)]), T("C", 3, [("sub", 2)])], "settings": S0,
     "calls": [{"op": "root", "g": 1, "t": 1}, {"op": "root", "g": 1, "t": 3}]},
    # names that pre-empt a suffix, three ways, then a clone and an unrelated clash
    {"types": [T("A2", 1), T("A", 2), T("A", 3), T("A", 4, [("sub", 1), ("sub", 2), ("sub", 3)])], "settings": S0,
     "calls": [{"op": "sub", "g": 1, "t": 2}, {"op": "sub", "g": 1, "t": 3}, {"op": "clone", "g": 1},
               {"op": "sub", "g": 2, "t": 1}, {"op": "root", "g": 2, "t": 4}, {"op": "sub", "g": 1, "t": 1}]},
    # control characters in a name
    {"types": [T("tab\there", 1), T("nl\n\x01", 2, [("sub", 1)])], "settings": S0,
     "calls": [{"op": "sub", "g": 1, "t": 2}, {"op": "into_root", "g": 1, "t": 2}]},
]


def corruptions(trace, prop):
    """Recorded cases with one field falsified: each must be rejected for `prop`."""
    out = []
    for c in trace:
        if len(out) >= 6:
            break
        for i, e in enumerate(c["events"]):
            d = copy.deepcopy(c)
            x = d["events"][i]
            op = x["call"]["op"]
            ok = False
            if not x["ok"]:
                break
            if prop == "C01" and op in ("root", "into_root"):
                s = str(x["res"])
                o = x["res"][1]
                if "properties" in o and "p1" in o["properties"][1] and "$ref" in (o["properties"][1]["p1"][1] or {}):
                    o["properties"][1]["p1"][1]["$ref"][1] += "x"
                    ok = True
            elif prop == "C02" and x["subs"] and x["subs"][-1][1] not in ("", "#"):
                x["subs"][-1][1] += "2"
                ok = True
            elif prop == "C03":
                if x["gens"] and x["gens"][0].get("live") and x["gens"][0]["defs"][1]:
                    k = sorted(x["gens"][0]["defs"][1])[0]
                    if x["gens"][0]["defs"][1][k][0] == "o":
                        x["gens"][0]["defs"][1][k] = ["b", False]
                        ok = not any(t["kind"] == "false" for t in c["types"])
            elif prop == "C04" and x["subs"] and x["subs"][-1][1] not in ("", "#"):
                x["subs"][-1][1] = ""
                ok = True
            elif prop == "C05" and op in ("root", "into_root") and "title" in x["res"][1]:
                x["res"][1]["title"][1] += "!"
                ok = True
            if ok:
                d["events"] = d["events"][:i + 1]
                out.append((d, prop))
                break
    if not out:
        raise ToolError("no event to corrupt for " + prop)
    return out


def check_gen(ctx):
    inv, props = INV[ctx.prop]
    par = Par()
    par.go("mc", ctx.mc, "GenMC", workers=4, label="(model)",
           consts={"NTypes": 2, "MaxOps": ctx.q(1, 2), "MaxCalls": 3, "Names": '{"A", "A2"}', "Paths": '{"/$defs"}',
                   "Inlines": "{TRUE, FALSE}", "WithDir": "FALSE"}, invariants=inv, properties=props)
    par.go("exe", ctx.build, "core")
    par.go("cases", ctx.cases, "GenSim", consts={"MaxTypes": 5, "MaxOps": 3, "MaxCalls": 6}, sim=(ctx.q(3500, 20000), 4000))
    if ctx.thorough:
        par.go("cases2", ctx.cases, "GenSim", consts={"MaxTypes": 8, "MaxOps": 4, "MaxCalls": 9}, sim=(3000, 9000))
        par.go("mc2", ctx.mc, "GenMC", workers=4, label="(3 types)",
               consts={"NTypes": 3, "MaxOps": 1, "MaxCalls": 2, "Names": '{"A", "A2"}', "Paths": '{"/$defs", ""}',
                       "Inlines": "{TRUE, FALSE}", "WithDir": "TRUE"}, invariants=inv, properties=props)
    r = par.join()
    cases = PINNED + r["cases"] + r.get("cases2", [])
    if hasattr(ctx, "replay_case"):
        c = ctx.replay_case["case"]
        cases = [{"types": c["types"], "settings": c["settings"], "calls": [e["call"] for e in c["events"]]}]
    trace = ctx.run_harness(r["exe"], "gen", cases, crash_props=("C01", "C03", "C05"))
    ctx.validate("GenTrace", trace, corrupt=[] if hasattr(ctx, "replay_case") else corruptions(trace, ctx.prop))


CHECKS = {p: check_gen for p in INV}
TECHNIQUE = {p: (
    "TLA+ state machine of the generator: TLC exhaustive check, and TLC-generated call histories replayed in the real generator and validated against the machine",
    "Exhaustive small-scope model checking of the generator's state machine; every generated history runs in the real code and each call's result, definitions, references and settings are compared with the specification. Bounded by graph and history size.")
    for p in INV}
