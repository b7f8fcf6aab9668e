"""C10-C12: schema values, their serialisation, and reference names."""
import copy, random
from vp import Par, ToolError

PIN10 = [
    # recorded finding: the whole document handed out mutably
    {"init": {"k": "map", "v": ["o", {"a": ["b", True]}]}, "ops": [{"k": "pointermut", "p": "", "v": ["n", False, "5", ""]}]},
    {"init": {"k": "bool", "b": False}, "ops": [{"k": "pointer", "p": ""}, {"k": "pointer", "p": "#"}, {"k": "insert", "key": "x", "v": ["z"]}]},
]


def corrupt10(trace):
    out, rnd = [], random.Random(3)
    for c in trace[3:]:
        if len(out) >= 6 or not c["events"]:
            continue
        d = copy.deepcopy(c)
        e = d["events"][-1]
        if not e["ok"] or e["op"]["k"] == "pointermut":
            continue
        w = rnd.choice(["res", "val", "eq", "isobj"])
        if w == "res":
            e["res"] = [["s", "never written"]]
        elif w == "val":
            e["obs"]["val"] = ["o", {"never": ["z"]}]
        elif w == "eq":
            e["obs"]["eqs"][0] = False
        else:
            e["obs"]["isobj"] = not e["obs"]["isobj"]
        out.append((d, "C10"))
    return out


def check_obj(ctx):
    par = Par()
    par.go("exe", ctx.build, "core")
    par.go("mc", ctx.mc, "SchemaObjMC", workers=4, label="(model)", consts={"MaxOps": ctx.q(3, 4)},
           invariants=["BoolOrObject", "InsertIsWrite", "RemoveIsErase", "ReadsOnly", "BoolFindsNothing", "WritesOnlyExisting", "PointerWriteRead", "PointerFacts"])
    par.go("cases", ctx.cases, "SchemaObjSim", consts={"MaxOps": 8}, sim=(ctx.q(4000, 40000), 20))
    r = par.join()
    cases = PIN10 + r["cases"]
    if hasattr(ctx, "replay_case"):
        k = ctx.replay_case["case"]
        cases = [{"init": k["init"], "ops": [e["op"] for e in k["events"]]}]
    trace = ctx.run_harness(r["exe"], "obj", cases)
    ctx.validate("SchemaObjTrace", trace, corrupt=[] if hasattr(ctx, "replay_case") else corrupt10(trace))


def corrupt11(trace):
    out = []
    for i, c in enumerate(trace):
        if len(out) >= 6 or c["out"][0] != "p" or len(c["out"][1]) < 2:
            continue
        d = copy.deepcopy(c)
        m = d["out"][1]
        if i % 3 == 0:
            m.append(m[0])
        elif i % 3 == 1:
            m[0], m[-1] = m[-1], m[0]
        else:
            m.pop()
        d["pretty"] = d["nested"] = d["val"] = d["out"]
        out.append((d, "C11"))
    return out


def check_ser(ctx):
    par = Par()
    par.go("exe", ctx.build, "core")
    par.go("exepo", ctx.build, "core", ("po",))
    par.go("mc", ctx.mc, "CanonMC", workers=4, label="(model)", consts={"Deep": ctx.q("FALSE", "TRUE")}, invariants=["Lossless", "Stable", "InOrder", "DataKept"])
    par.go("cases", ctx.cases, "CanonSim", consts={"Depth": 2}, sim=(ctx.q(4000, 30000), 10))
    if ctx.thorough:
        par.go("cases2", ctx.cases, "CanonSim", consts={"Depth": 4}, sim=(6000, 10))
    r = par.join()
    cases = r["cases"] + r.get("cases2", [])
    rep = hasattr(ctx, "replay_case")
    if rep:
        cases = [{"doc": ctx.replay_case["case"]["doc"]}]
    for po in (False, True):
        trace = ctx.run_harness(r["exepo" if po else "exe"], "ser", cases, name="trace%d" % po)
        ctx.validate("CanonTrace", trace, consts={"PreserveOrder": "TRUE" if po else "FALSE"}, corrupt=[] if rep else corrupt11(trace))


def corrupt12(trace):
    out = []
    for i, c in enumerate(trace):
        if len(out) >= 4 or not c["ok"]:
            continue
        d = copy.deepcopy(c)
        if i % 2:
            d["refs"][0] += "%"
        else:
            d["found"][0] = []
        out.append((d, "C12"))
    return out


def check_enc(ctx):
    par = Par()
    par.go("exe", ctx.build, "core")
    par.go("mc", ctx.mc, "EncodingMC", workers=4, label="(model)",
           consts={"MaxLen": ctx.q(4, 5)},
           invariants=["RoundTrip", "Fragment", "Finds", "LiteralPercent"])
    n = ctx.q(3000, 20000)
    par.go("cases", ctx.cases, "EncSim", consts={"Lo": 0, "Hi": n})
    par.go("ptrs", ctx.cases, "SchemaObjSim", consts={"MaxOps": 6}, sim=(ctx.q(2500, 20000), 20))
    r = par.join()
    rep = hasattr(ctx, "replay_case")
    names, hist = r["cases"], r["ptrs"]
    if rep:
        k = ctx.replay_case["case"]
        names = [{"names": k["names"], "path": k["path"]}] if "names" in k else []
        hist = [{"init": k["init"], "ops": [e["op"] for e in k["events"]]}] if "init" in k else []
    if names:
        trace = ctx.run_harness(r["exe"], "enc", names, name="names")
        ctx.validate("EncTrace", trace, corrupt=[] if rep else corrupt12(trace))
    if hist:
        trace = ctx.run_harness(r["exe"], "obj", hist, name="ptrs")
        ctx.validate("SchemaObjTrace", trace)


def corrupt13(trace):
    out = []
    for i, c in enumerate(trace):
        o = c["outs"][0]
        if len(out) >= 8 or not o["ok"] or o["schema"][0] != "o":
            continue
        d = copy.deepcopy(c)
        s = d["outs"][0]["schema"][1]
        if i % 4 == 0 and "type" in s:
            s["type"] = ["s", "never"]
        elif i % 4 == 1 and s.get("properties", ["o", {}])[1]:
            s["properties"][1].pop(sorted(s["properties"][1])[0])
        elif i % 4 == 2 and "examples" in s:
            s["examples"] = ["a", []]
        elif i % 4 == 3 and "prefixItems" in s:
            s["maxItems"] = ["n", False, "9", ""]
        else:
            continue
        out.append((d, "C13"))
    return out


def check_infer(ctx):
    par = Par()
    par.go("exe", ctx.build, "core")
    par.go("mc", ctx.mc, "InferMC", workers=4, label="(model)", consts={"Wide": ctx.q("FALSE", "TRUE")},
           invariants=["InferredAccepts", "InferredDescribes", "Sharp"])
    par.go("cases", ctx.cases, "InferSim", consts={"Depth": ctx.q(3, 4)}, sim=(ctx.q(20000, 120000), 10))
    r = par.join()
    rep = hasattr(ctx, "replay_case")
    cases = [{"sv": ctx.replay_case["case"]["sv"]}] if rep else r["cases"]
    trace = ctx.run_harness(r["exe"], "infer", cases)
    ctx.validate("InferTrace", trace, corrupt=[] if rep else corrupt13(trace))


CHECKS = {"C10": check_obj, "C11": check_ser, "C12": check_enc, "C13": check_infer}
TECHNIQUE = {
    "C13": ("TLA+ specification of the serde data model, its JSON and the schema inferred for it: TLC exhaustive check of small values, and TLC-generated values serialised by the real code, with the inferred schema checked by the specified JSON Schema validator",
            "Exhaustive over small values for the model; thousands of generated values run through the real inference under every built-in settings profile. Bounded by value depth."),
    "C10": ("TLA+ state machine of a Schema value: TLC exhaustive check of short operation histories, and TLC-generated histories replayed on a real Schema with every observer compared after every operation",
            "Exhaustive over short histories for the model; the real Schema is driven by thousands of generated histories. Bounded by history length and value size."),
    "C11": ("TLA+ specification of the canonical writing order: TLC exhaustive check on small documents, and TLC-generated documents serialised by the real code under both map orderings and validated member by member",
            "Exhaustive over a small-document grammar for the model; every generated document is serialised by the real code, with duplicates and order observed from the text. Bounded by document depth."),
    "C12": ("TLA+ specification of reference encoding and pointer decoding: TLC exhaustive check over all short names, and TLC-generated names and pointers run through the real generator and pointer lookups",
            "Exhaustive over all names up to a bounded length over an alphabet with every character class for the model; the real encoder, decoder and lookups are compared on generated names and pointers (all code points below U+0800 and some above)."),
}
