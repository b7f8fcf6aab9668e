"""Rust programs for descriptors generated from the specification, compiled against /repo and run."""
import json, os, re, shutil, subprocess, threading, time
from vp import BUILD, REPO, ROOT, ToolError, cargo_env, log, trim

SETTINGS = ["d20", "d20i", "d19", "d07", "d07i", "oas"]


def lit(s):
    return json.dumps(s, ensure_ascii=False)


def ty(t):
    k = t[0]
    if k == "i":
        return t[1]
    if k in ("bool", "char", "f64"):
        return k
    if k == "str":
        return "String"
    if k == "unit":
        return "()"
    if k == "any":
        return "Value"
    if k == "opt":
        return "Option<%s>" % ty(t[1])
    if k == "vec":
        return "Vec<%s>" % ty(t[1])
    if k == "map":
        return "BTreeMap<String, %s>" % ty(t[1])
    if k == "box":
        return "Box<%s>" % ty(t[1])
    if k == "arr":
        return "[%s; %d]" % (ty(t[1]), t[2])
    if k == "tup":
        return "(%s,)" % ", ".join(ty(x) for x in t[1])
    if k == "ref":
        return "T%d" % t[1]
    raise ToolError("type " + str(t))


def two(name, s, d):
    """name = "..", or the form with separate names; empty means unset."""
    if s == d:
        return "%s = %s" % (name, lit(s))
    return "%s(%s)" % (name, ", ".join("%s = %s" % (w, lit(x)) for w, x in (("serialize", s), ("deserialize", d)) if x is not None))


def rule(name, s, d):
    if not s and not d:
        return []
    return [two(name, s or None, d or None)]


def skips(a):
    if a["skipS"] and a["skipD"]:
        return ["skip"]
    return (["skip_serializing"] if a["skipS"] else []) + (["skip_deserializing"] if a["skipD"] else [])


def ren(a):
    return [two("rename", a["renS"], a["renD"])] if a["hasRen"] else []


def ssi(n):
    return {"is_none": "Option::is_none"}.get(n, "crate::rt::" + n)


def field_items(a, dfn):
    out = ren(a) + skips(a)
    if a["ssi"]:
        out.append("skip_serializing_if = " + lit(ssi(a["ssi"])))
    if a["dflt"] == "trait":
        out.append("default")
    elif a["dflt"] == "path":
        out.append("default = " + lit(dfn))
    if a["flat"]:
        out.append("flatten")
    return out


def variant_items(a):
    return ren(a) + rule("rename_all", a["raS"], a["raD"]) + skips(a) + (["untagged"] if a["unt"] else [])


def cont_items(a, dfn):
    out = ren(a) + rule("rename_all", a["raS"], a["raD"]) + rule("rename_all_fields", a["rafS"], a["rafD"])
    if a["tag"] == "int":
        out.append("tag = " + lit(a["t"]))
    elif a["tag"] == "adj":
        out += ["tag = " + lit(a["t"]), "content = " + lit(a["c"])]
    elif a["tag"] == "unt":
        out.append("untagged")
    if a["deny"]:
        out.append("deny_unknown_fields")
    if a["dflt"] == "trait":
        out.append("default")
    elif a["dflt"] == "path":
        out.append("default = " + lit(dfn))
    if a["transp"]:
        out.append("transparent")
    return out


def serde_attr(items):
    return "#[serde(%s)] " % ", ".join(items) if items else ""


class Program:
    """Source of one program; subclasses change how attributes are written."""
    derives = "Serialize, Deserialize, JsonSchema, Debug, Clone, PartialEq"

    def __init__(self, case):
        self.case, self.fns = case, []

    def attrs(self, items, where):
        return serde_attr(items)

    def doc(self, a):
        return "/// Some text.\n" if a.get("doc") else ""

    def fields(self, T, k, v, fields, tuple_, pub):
        out = []
        for i, f in enumerate(fields):
            dfn = "d_%d_%s_%d" % (k, "s" if v is None else v, i)
            if f["a"]["dflt"] == "path":
                self.fns.append("fn %s() -> %s { %s }" % (dfn, ty(f["ty"]), f["dv"]))
            at = self.attrs(field_items(f["a"], dfn), ("f", k, v, i))
            out.append("%s%s%s" % (at, pub, ty(f["ty"])) if tuple_ else "%s%s%s: %s" % (at, pub, f["id"], ty(f["ty"])))
        return out

    def type_src(self, k):
        T = self.case["types"][k - 1]
        cfn = "c_%d" % k
        a = T["a"]
        at = self.doc(a) + self.attrs(cont_items(a, cfn), ("c", k)) + "\n"
        head = "#[derive(%s)]\n%s" % (self.derives, at)
        if a["dflt"] == "path":
            self.fns.append("fn %s() -> %s { %s }" % (cfn, T["name"], self.case["subj"][k - 1]["dv"]))
        n = T["name"]
        if T["kind"] == "unit":
            body = "pub struct %s;" % n
        elif T["kind"] == "struct":
            body = "pub struct %s { %s }" % (n, ", ".join(self.fields(T, k, None, T["fields"], False, "pub ")))
        elif T["kind"] in ("tuple", "newtype"):
            body = "pub struct %s(%s);" % (n, ", ".join(self.fields(T, k, None, T["fields"], True, "pub ")))
        else:
            vs = []
            for i, v in enumerate(T["variants"]):
                va = self.doc(v["a"]) + self.attrs(variant_items(v["a"]), ("v", k, i))
                if v["kind"] == "unit":
                    vs.append(va + v["id"])
                elif v["kind"] == "struct":
                    vs.append("%s%s { %s }" % (va, v["id"], ", ".join(self.fields(T, k, i, v["fields"], False, ""))))
                else:
                    vs.append("%s%s(%s)" % (va, v["id"], ", ".join(self.fields(T, k, i, v["fields"], True, ""))))
            body = "pub enum %s { %s }" % (n, ", ".join(vs))
        d = "impl Default for %s { fn default() -> Self { %s } }" % (n, self.case["subj"][k - 1]["dv"])
        return head + body + "\n" + d + "\n"

    def facts(self, k):
        """Default values and skip predicates, evaluated by the real types."""
        T = self.case["types"][k - 1]
        out = []

        def one(v, i, f, cdef):
            a = f["a"]
            dfn = "d_%d_%s_%d" % (k, "s" if v is None else v, i)
            if a["dflt"] == "path":
                e = dfn + "()"
            elif a["dflt"] == "trait" or (a["skipD"] and not cdef):    # serde fills in a field it does not read
                e = "<%s as Default>::default()" % ty(f["ty"])
            elif cdef:
                e = ("<%s as Default>::default()" % T["name"] if T["a"]["dflt"] == "trait" else "c_%d()" % k) + "." + f["id"]
            else:
                return
            out.append("{ let d: %s = %s; json!({\"v\": %d, \"f\": %d, \"skip\": %s, \"j\": rt::ser(&d)}) }"
                       % (ty(f["ty"]), e, 0 if v is None else v + 1, i + 1, ssi(a["ssi"]) + "(&d)" if a["ssi"] else "false"))
        if T["kind"] == "struct" and not T["a"]["transp"]:
            for i, f in enumerate(T["fields"]):
                one(None, i, f, T["a"]["dflt"])
        for vi, v in enumerate(T["variants"]):
            if v["kind"] == "struct":
                for i, f in enumerate(v["fields"]):
                    one(vi, i, f, "")
        return "Value::Array(vec![%s])" % ", ".join(out)

    def subject(self, k):
        n = self.case["types"][k - 1]["name"]
        return ("json!({\"schemas\": rt::schemas(&c[\"settings\"], rt::root::<%s>), \"docs\": rt::docs(&c[\"subj\"][%d][\"docs\"], rt::de::<%s>), "
                "\"vals\": Value::Array(vec![%s]), \"dflts\": %s})"
                % (n, k - 1, n, ", ".join("rt::ser::<%s>(&%s)" % (n, e) for e in self.case["subj"][k - 1]["vals"]), self.facts(k)))

    def source(self):
        types = "".join(self.type_src(k + 1) for k in range(len(self.case["types"])))
        run = "pub fn run(c: &Value) -> Value {\n json!({\"subj\": [%s]}) }\n" % ",\n".join(
            self.subject(k + 1) for k in range(len(self.case["types"])))
        return types + "\n".join(self.fns) + "\n" + run


PRELUDE = "use super::rt;\nuse schemars::JsonSchema;\nuse serde::{Deserialize, Serialize};\nuse serde_json::{json, Value};\nuse std::collections::BTreeMap;\n"


def emit(ctx, programs, name="prog", bins=8, crate="derive", features=(), deps="", prelude=PRELUDE):
    """Write, compile and return the executables; a program the derive macro cannot compile is a violation."""
    d = os.path.join(ctx.dir, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    rt = open(os.path.join(ROOT, "harness", "derive", "rt.rs")).read()
    open(os.path.join(d, "src", "rt.rs"), "w").write(rt.replace("TAGRS", os.path.join(ROOT, "harness", "core", "src", "tag.rs")))
    shutil.copy(os.path.join(ROOT, "harness", crate, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    bins = min(bins, len(programs))
    toml = ("[package]\nname = \"derive-harness\"\nversion = \"0.0.0\"\nedition = \"2021\"\nautobins = false\n[dependencies]\n"
            "schemars = { path = \"%s/schemars\", features = [%s] }\nserde = { version = \"1\", features = [\"derive\", \"rc\"] }\n"
            "serde_json = { version = \"1\"%s }\n%s[profile.dev]\ndebug = false\nincremental = false\nopt-level = 0\n[workspace]\n"
            % (REPO, ", ".join(lit(f) for f in features), ", features = [\"raw_value\"]" if "raw_value" in features else "", deps))
    for b in range(bins):
        toml += "[[bin]]\nname = \"b%d\"\npath = \"src/b%d.rs\"\n" % (b, b)
        src = "#![allow(warnings)]\nmod rt;\nuse serde_json::Value;\n"
        mine = [i for i in range(len(programs)) if i % bins == b]
        for i in mine:
            src += "mod p%d {\n%s%s}\n" % (i, prelude, programs[i].source())
        src += "fn run(i: usize, c: &Value) -> Value { match i { %s, _ => panic!() } }\nfn main() { rt::main(run) }\n" % \
               ", ".join("%d => p%d::run(c)" % (i, i) for i in mine)
        open(os.path.join(d, "src", "b%d.rs" % b), "w").write(src)
    open(os.path.join(d, "Cargo.toml"), "w").write(toml)
    target = os.path.join(BUILD, crate)
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(d, "Cargo.toml"), "--message-format=short"],
                       env=cargo_env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=850)
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode != 0:
        open(os.path.join(d, "build.log"), "w").write(out)
        errs = [x for x in out.split("\n") if "error" in x]
        # what fails to compile is code written by the derive macros, for programs that are valid for serde
        if not any(re.match(r"src/b\d+\.rs:", x) for x in errs):
            raise ToolError("generated programs do not build:\n" + "\n".join(errs)[:3000])
        bad = {}
        for x in errs:
            m = re.match(r"src/(b\d+)\.rs:(\d+):", x)
            if m:
                ln = open(os.path.join(d, "src", m.group(1) + ".rs")).read().split("\n")
                i = int(m.group(2)) - 1
                while i > 0 and not ln[i].startswith("mod p"):
                    i -= 1
                bad.setdefault(int(ln[i][5:-2]), []).append(x)
        for i in sorted(bad)[:5]:
            ctx.violations.append({"module": "derived programs", "case": programs[i].case, "rejects": ["does not compile"] + bad[i][:5], "expected": None})
        return None
    log("compiled %d programs in %.1fs" % (len(programs), time.time() - t))
    return [os.path.join(target, "debug", "b%d" % b) for b in range(bins)]


def run(ctx, exes, cases, timeout=200):
    """Recorded output by program index."""
    out = {}

    def one(b, e):
        todo = [i for i in range(len(cases)) if i % len(exes) == b]
        for attempt in range(5):        # a program that ends the process is noted and left out
            cf, tf = (os.path.join(ctx.dir, "b%d.%s" % (b, x)) for x in ("cases", "trace"))
            with open(cf, "w") as f:
                for i in todo:
                    f.write(json.dumps(dict(cases[i], pid=i), ensure_ascii=False) + "\n")
            try:
                p = subprocess.run([e, cf, tf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
                rc, msg = p.returncode, p.stdout.decode("utf-8", "replace")[-1000:]
            except subprocess.TimeoutExpired:
                rc, msg = "timeout", ""
            for ln in open(tf) if os.path.exists(tf) else ():
                if ln.endswith("\n"):
                    r = json.loads(ln)
                    out[r["pid"]] = r["rec"]
            todo = [i for i in todo if i not in out]
            if rc == 0 or not todo:
                return
            log("program %d ended the process: %s %s" % (todo[0], rc, msg))
            out[todo[0]] = {"panic": "process ended: %s %s" % (rc, msg)}
            todo = todo[1:]
        for i in todo:
            out[i] = {"panic": None}    # not run, after too many of these
    ts = [threading.Thread(target=one, args=x) for x in enumerate(exes)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return out
