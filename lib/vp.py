"""Shared machinery: running TLC, building and running the Rust harnesses, verdicts, evidence."""
import json, os, re, resource, shutil, subprocess, sys, threading, time, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
REPO = "/repo"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def log(*a):
    print("[%7.1fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()


def repo_hash():
    h = hashlib.sha256()
    for crate in ("schemars", "schemars_derive"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, crate))):
            if "/target" in d[len(REPO):] or "/tests" in d[len(REPO):]:
                continue
            for f in sorted(fs):
                if f.endswith((".rs", ".md", ".toml")):
                    h.update(os.path.join(d, f).encode() + b"\0")
                    with open(os.path.join(d, f), "rb") as i:
                        h.update(i.read() + b"\0")
    return h.hexdigest()


def cargo_env(target):
    """Also forgets what cargo knows of builds from other contents: it goes by modification times only."""
    mark, h = os.path.join(target, ".repo-hash"), repo_hash()
    old = open(mark).read() if os.path.exists(mark) else None
    if old != h:
        fp = os.path.join(target, "debug", ".fingerprint")
        for d in os.listdir(fp) if os.path.isdir(fp) else []:
            if d.startswith("schemars"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        os.makedirs(target, exist_ok=True)
        with open(mark, "w") as f:
            f.write(h)
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUST_BACKTRACE", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
    return e


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        self.generated = self.distinct = 0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"Progress: ([\d,]+) states checked, ([\d,]+) traces generated", out)
        if m:
            self.generated = self.distinct = int(m[-1][0].replace(",", ""))
        self.ok = rc == 0 and "Error:" not in out

    def lines(self, tag):
        """Payloads of PrintT("TAG ...") lines."""
        pre = '"' + tag + " "
        for ln in self.out.split("\n"):      # not splitlines: names may contain U+2028 and the like
            if ln.startswith(pre) and ln.endswith('"'):
                yield unescape(ln[len(pre):-1])


def norm(x):
    """TLC writes the empty function as []; make it an empty object again inside tagged objects."""
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "o" and x[1] == []:
            return ["o", {}]
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    return x


def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            c = s[i + 1]
            out.append({"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(c, c))
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def cfg_text(spec="Spec", consts=None, invariants=(), properties=(), constraints=(), postcondition=None):
    t = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    if consts:
        t.append("CONSTANTS")
        t += ["  %s = %s" % kv for kv in consts.items()]
    for kw, xs in (("INVARIANTS", invariants), ("PROPERTIES", properties), ("CONSTRAINTS", constraints)):
        if xs:
            t.append(kw + " " + " ".join(xs))
    if postcondition:
        t.append("POSTCONDITION " + postcondition)
    return "\n".join(t) + "\n"


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = os.path.join(BUILD, "run", prop)
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes = [], {}
        self.violations, self.known = [], {}
        self.n = 0
        self.lock = threading.Lock()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=8, sim=None, timeout=None, xmx="5g", label=None, seed=None):
        with self.lock:
            self.n += 1
            tag = "%02d-%s" % (self.n, module)
        d = os.path.join(self.dir, tag)
        os.makedirs(d)
        cfgf = os.path.join(d, module + ".cfg")
        open(cfgf, "w").write(cfg)
        cmd = ["java", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Xss256m", "-Xmx" + xmx,
               "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Djava.io.tmpdir=" + d, "-cp", TLA_CP, "tlc2.TLC", "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-workers", str(workers), "-seed", str(self.seed if seed is None else seed), "-fp", "1", "-config", cfgf]
        if sim:
            cmd += ["-simulate", "num=%d" % sim[0], "-depth", str(sim[1])]
        cmd.append(module + ".tla")
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout or self.q(700, 7200))
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % module)
        out = p.stdout.decode("utf-8", "replace")
        open(os.path.join(d, "out.txt"), "w").write(out)
        r = TlcResult(out, p.returncode)
        log("TLC %-12s %s: %d states, %d distinct, %.1fs" % (module, label or "", r.generated, r.distinct, time.time() - t))
        if not r.ok:
            i = out.find("Error:")
            te = ToolError("TLC failed on %s (rc %s):\n%s" % (module, p.returncode, out[max(0, i - 200):i + 3000]))
            te.out = out
            raise te
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return r

    def mc(self, module, **kw):
        """Exhaustive check of the design; a failure here is a defect of the specification."""
        run = {k: kw.pop(k) for k in ("workers", "timeout", "label") if k in kw}
        r = self.tlc(module, cfg_text(**kw), **run)
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.notes.setdefault("model_checking", []).append(
                {"module": module, "constants": kw.get("consts"), "invariants": list(kw.get("invariants", ())),
                 "properties": list(kw.get("properties", ())), "distinct_states": r.distinct, "states_generated": r.generated})
        return r

    def cases(self, module, consts=None, sim=None, tag="CASE", env=None, workers=1, seed=None, spec="Spec"):
        """Cases generated from the specification, as parsed JSON."""
        r = self.tlc(module, cfg_text(consts=consts, spec=spec), sim=sim, workers=workers, env=env, label="(generate)", seed=seed)
        cs = []
        seen = set()
        for x in r.lines(tag):
            if x not in seen:
                seen.add(x)
                cs.append(norm(json.loads(x)))
        if not cs:
            raise ToolError("no cases from " + module)
        with self.lock:
            self.notes.setdefault("generated", []).append({"module": module, "cases": len(cs), "states": r.generated})
        return cs

    # ------------------------------------------------------------ harness
    def build(self, crate, features=(), target=None):
        src = os.path.join(ROOT, "harness", crate)
        target = target or os.path.join(BUILD, crate)
        cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(src, "Cargo.toml")]
        if features:
            cmd += ["--features", ",".join(features)]
            target += "-" + "-".join(features)
        t = time.time()
        p = subprocess.run(cmd, env=cargo_env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=850)
        out = p.stdout.decode("utf-8", "replace")
        if p.returncode != 0:
            raise ToolError("harness %s does not build:\n%s" % (crate, out[-4000:]))
        log("built harness %s %s in %.1fs" % (crate, "+".join(features), time.time() - t))
        return os.path.join(target, "debug", crate + "-harness")

    def run_harness(self, exe, mode, cases, name="trace", timeout=300, crash_props=None):
        """Replay cases in the real code; one recorded trace per case.  A case on which the process dies or hangs
        is a violation of crash_props (default: whatever property is being checked)."""
        out, todo, crashes = [], list(cases), 0
        cf, tf = (os.path.join(self.dir, "%s.%s" % (name, x)) for x in ("cases", "trace"))
        while todo:
            with open(cf, "w") as f:
                for c in todo:
                    f.write(json.dumps(c, ensure_ascii=False) + "\n")
            if os.path.exists(tf):
                os.remove(tf)
            try:
                p = subprocess.run([exe, mode, cf, tf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                                   preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30)))
                rc, msg = p.returncode, p.stdout.decode("utf-8", "replace")[-2000:]
            except subprocess.TimeoutExpired:
                rc, msg = "timeout", ""
            got = []
            if os.path.exists(tf):
                for ln in open(tf):
                    if ln.endswith("\n"):
                        got.append(json.loads(ln))
            out += got
            if rc == 0:
                if len(got) != len(todo):
                    raise ToolError("harness recorded %d of %d cases" % (len(got), len(todo)))
                break
            bad = todo[len(got)]
            crashes += 1
            log("harness died (%s) on case %s" % (rc, trim(bad, 300)))
            if crash_props is None or self.prop in crash_props:
                self.violations.append({"module": "harness " + mode, "case": bad, "rejects": ["process ended: %s %s" % (rc, msg[-500:])],
                                        "expected": None})
            todo = todo[len(got) + 1:]
            if crashes >= 5:
                break
        return out

    # -------------------------------------------------- trace validation
    def validate(self, module, trace, consts=None, env=None, corrupt=(), known=None, xmx="8g", workers=8):
        """In chunks, because TLC's state queue, once it spills to disk, keeps only the low byte of a character."""
        rej, off, step = {}, 0, 3000
        while True:
            part = trace[off:off + step]
            last = off + step >= len(trace)
            r, rj = self._validate(module, part, consts, env, corrupt if last else (), known, xmx, workers)
            rej.update({off + i: x for i, x in rj.items()})
            off += step
            if last:
                return r, rej

    def _validate(self, module, trace, consts, env, corrupt, known, xmx, workers):
        """Check recorded cases against the specification.
        corrupt: list of (case record, property) that must be rejected for that property (binding self-test)."""
        self.nval = getattr(self, "nval", 0) + 1
        tf = os.path.join(self.dir, "validate%d.ndjson" % self.nval)
        trace = list(trace)
        e = {"TRACE": tf}
        e.update(env or {})
        odd = 0
        while True:
            allc = trace + [c for c, _ in corrupt]
            with open(tf, "w") as f:
                for c in allc:
                    f.write(json.dumps(c, ensure_ascii=False) + "\n")
            try:
                r = self.tlc(module, cfg_text(consts=consts), env=e, workers=workers, label="(validate %d traces)" % len(allc), xmx=xmx)
                break
            except ToolError as err:
                # A record so malformed that the specification cannot even be evaluated on it: not a behaviour of the specification.
                m = re.search(r"behavior up to this point is:\s*State 1: <[^>]*>\s*(?:/\\ \w+ = [^\n]*\n)*?/\\ c = (\d+)", str(err.out if hasattr(err, "out") else err))
                i = int(m.group(1)) if m else 0
                if not 1 <= i <= len(trace) or odd >= 8:
                    raise
                odd += 1
                bad = trace.pop(i - 1)
                log("record %d cannot be evaluated: %s" % (i, trim(bad, 300)))
                self.violations.append({"module": module, "case": bad, "rejects": ["cannot be evaluated: " + str(err)[:600]], "expected": None})
        done = {int(x) for x in r.lines("DONE")}
        rejects = {}
        for x in r.lines("REJECT"):
            j = json.loads(x)
            rejects.setdefault(j["case"], []).append(j)
        expect = {}
        for x in r.lines("EXPECT"):
            j = json.loads(x)
            expect.setdefault(j["case"], j)
        n = len(trace)
        unaccounted = [i for i in range(1, len(allc) + 1) if i not in done and i not in rejects]
        if unaccounted:
            raise ToolError("%s: %d recorded cases were not consumed, e.g. %s" % (module, len(unaccounted), unaccounted[:5]))
        validated = 0
        for i in range(1, n + 1):
            hard = [p for j in rejects.get(i, []) for p in j["props"] if not p.startswith("K:")]
            for j in rejects.get(i, []):
                for p in j["props"]:
                    if p.startswith("K:"):
                        _, prop, fid = p.split(":", 2)
                        if prop == self.prop:
                            self.known.setdefault(fid, []).append({"case": trace[i - 1], "event": j["event"]})
            if self.prop in hard:
                self.violations.append({"module": module, "case": trace[i - 1], "rejects": rejects[i], "expected": expect.get(i)})
            if i in done and not hard:
                validated += 1
        bad = []
        for k, (c, prop) in enumerate(corrupt):
            i = n + 1 + k
            got = {p for j in rejects.get(i, []) for p in j["props"]}
            if prop not in got:
                bad.append((k, prop, sorted(got)))
        if bad and not self.violations:
            raise ToolError("%s: corrupted traces were accepted: %s" % (module, bad[:5]))
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.traces += validated
            self.notes.setdefault("validation", []).append(
                {"module": module, "recorded_cases": n, "accepted": validated, "corrupted_rejected": len(corrupt) - len(bad),
                 "other_property_rejects": sum(1 for i in rejects if i <= n and self.prop not in [p for j in rejects[i] for p in j["props"]])})
            for c in trace[:2]:
                if len(self.samples) < 4:
                    self.samples.append(trim(c))
        return r, rejects


def trim(x, n=1500):
    s = json.dumps(x, ensure_ascii=False)
    return x if len(s) <= n else s[:n] + "..."


def load_known():
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", ln.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main(checks, level_of):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop = a.prop
    ctx = Ctx(prop, a.tier, a.seed)
    try:
        if a.replay:
            ctx.replay_case = json.load(open(a.replay))
        checks[prop](ctx)
    except ToolError as e:
        print("ERROR: %s" % e, flush=True)
        return 2
    except subprocess.TimeoutExpired as e:
        print("ERROR: timeout: %s" % e, flush=True)
        return 2
    known = load_known()
    rc = 0
    for fid in list(ctx.known):
        if (prop, fid) not in known:
            for k in ctx.known[fid]:
                ctx.violations.append({"module": "known-finding", "case": k["case"], "rejects": [fid], "expected": None})
    for (p, fid), text in known.items():
        if p == prop and fid in ctx.known:
            print("KNOWN-FINDING: property=%s %s: %s (%d cases in this run)" % (prop, fid, text, len(ctx.known[fid])))
    if ctx.violations:
        rdir = os.path.join(ROOT, "replay", prop)
        shutil.rmtree(rdir, ignore_errors=True)
        os.makedirs(rdir)
        for i, v in enumerate(ctx.violations[:20]):
            path = os.path.join(rdir, "%03d.json" % i)
            with open(path, "w") as f:
                json.dump(v, f, indent=1, ensure_ascii=False)
            if i < 5:
                print("VIOLATION property=%s replay=%s" % (prop, path))
        log("%d violating cases" % len(ctx.violations))
        rc = 1
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": level_of(prop),
          "coverage": {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
                       "samples": ctx.samples or ["none"], "violating_cases": len(ctx.violations),
                       "known_finding_cases": {k: len(v) for k, v in ctx.known.items()}, **ctx.notes},
          "wall_s": round(time.time() - T0, 2)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    log("%s: %s" % (prop, "VIOLATED" if rc else "held on everything explored"))
    return rc


class Par:
    """Run independent steps concurrently; first error wins."""
    def __init__(self):
        self.res, self.err, self.th = {}, [], []

    def go(self, name, f, *a, **k):
        def w():
            try:
                self.res[name] = f(*a, **k)
            except BaseException as e:
                self.err.append(e)
        t = threading.Thread(target=w)
        t.start()
        self.th.append(t)

    def join(self):
        for t in self.th:
            t.join()
        if self.err:
            raise self.err[0]
        return self.res
