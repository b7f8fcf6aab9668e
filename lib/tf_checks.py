"""C06-C09: transforms and dialects."""
import copy, json, random
from vp import Par, ToolError

MODE = {"C06": ["visit"], "C07": ["pipeline", "meaning"], "C08": ["meaning", "pipeline"], "C09": ["formats"]}
INV = {"C06": ["Visits"], "C07": ["FormsHold", "Pipelines"], "C08": ["Meaning", "Idempotent", "Frame", "Pipelines"]}
O = lambda **k: ["o", {a.replace("_", "$", 1) if a.startswith("_") else a: b for a, b in k.items()}]
PIN = {
    "C08": [
        # recorded finding: properties declared behind a reference
        {"mode": "meaning", "dialect": "", "defs": ["o", {}], "ts": [{"k": "uneval"}],
         "doc": O(_defs=O(D=O(properties=O(a=["b", True]))), _ref=["s", "#/$defs/D"], unevaluatedProperties=["b", False])},
    ],
}


def swap(v, rnd):
    """Change one leaf or member of a tagged value."""
    if v[0] == "o" and v[1]:
        k = rnd.choice(sorted(v[1]))
        if rnd.random() < 0.5:
            v[1][k + "x"] = v[1].pop(k)
        else:
            swap(v[1][k], rnd)
    elif v[0] == "a" and v[1]:
        swap(rnd.choice(v[1]), rnd)
    elif v[0] == "b":
        v[1] = not v[1]
    elif v[0] == "s":
        v[1] += "x"
    else:
        v[:] = ["o", {"x-new": ["z"]}]


FORBIDDEN = {"07": "prefixItems", "2019": "prefixItems", "oas": "const"}


def corruptions(trace, prop):
    out, rnd = [], random.Random(7)
    for c in trace:
        if len(out) >= 8:
            break
        if not c["events"] or not all(e["ok"] for e in c["events"]):
            continue
        d = copy.deepcopy(c)
        e = d["events"][-1]
        if prop == "C07":
            if d["mode"] != "pipeline" or d["dialect"] not in FORBIDDEN or e["out"][0] != "o":
                continue
            e["out"][1].setdefault("properties", ["o", {}])[1]["zz"] = ["o", {FORBIDDEN[d["dialect"]]: ["a", []]}]
        elif prop == "C06":
            if e["calls"] < 2:
                continue
            if rnd.random() < 0.5:
                e["calls"] += 1
            else:
                swap(e["out"], rnd)
                if '["o", {"x-new"' in json.dumps(e["out"]):
                    continue
        else:
            if d["mode"] == "pipeline":
                continue
            swap(e["out"], rnd)
        out.append((d, prop))
    if not out:
        raise ToolError("nothing to corrupt for " + prop)
    return out


def check_tf(ctx):
    par = Par()
    par.go("exe", ctx.build, "core")
    inv = INV.get(ctx.prop)
    if inv:
        par.go("mc", ctx.mc, "TransMC", workers=5, label="(model)",
               consts={"Rich": ctx.q("FALSE", "TRUE"), "MaxSteps": ctx.q(2, 3) if ctx.prop in ("C07", "C08") else 0, "Sample": ctx.q(12, 60)},
               invariants=inv)
    if ctx.prop == "C09":
        par.go("mc", ctx.mc, "FormatsMC", workers=4, label="(model)", consts={"Deep": ctx.q("FALSE", "TRUE")}, invariants=["Exact", "Frame"])
    for m in MODE[ctx.prop]:
        n = ctx.q({"visit": 4000, "formats": 5000, "pipeline": 1200, "meaning": 1500}[m], {"visit": 20000, "formats": 20000, "pipeline": 6000, "meaning": 6000}[m])
        par.go("cases" + m, ctx.cases, "TransSim", consts={"Mode": '"%s"' % m, "Depth": 2}, sim=(n, 10))
        if ctx.thorough:
            par.go("deep" + m, ctx.cases, "TransSim", consts={"Mode": '"%s"' % m, "Depth": 3}, sim=(n // 5, 10))
    r = par.join()
    cases = list(PIN.get(ctx.prop, []))
    for k in sorted(r):
        if k.startswith(("cases", "deep")):
            cases += r[k]
    if hasattr(ctx, "replay_case"):
        cases = [{k: v for k, v in ctx.replay_case["case"].items() if k != "events"}]
    trace = ctx.run_harness(r["exe"], "tf", cases)
    ctx.validate("TransTrace", trace, corrupt=[] if hasattr(ctx, "replay_case") else corruptions(trace, ctx.prop))


CHECKS = {p: check_tf for p in MODE}
TECHNIQUE = {p: (
    "TLA+ state machine of schema documents under the built-in transforms: TLC exhaustive check on small documents, and TLC-generated documents pushed through the real transforms and validated step by step",
    "Exhaustive over a small-document grammar for the model; the real transforms are run on every generated document and each result is compared with the specification and checked for meaning (against an explicit JSON Schema validator in TLA+), frame, idempotence and dialect. Bounded by document depth and instance set.")
    for p in MODE}
