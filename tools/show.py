"""Pretty-print replay files with untagged JSON."""
import json, sys
def un(v):
    if isinstance(v, list) and v and v[0] in ("z","b","s","n","a","o"):
        t = v[0]
        if t == "z" and len(v) == 1: return None
        if t in "bs" and len(v) == 2: return v[1]
        if t == "n" and len(v) == 4: return float(("-" if v[1] else "")+v[2]+"."+(v[3] or "0"))
        if t == "a" and len(v) == 2: return [un(x) for x in v[1]]
        if t == "o" and len(v) == 2: return {k: un(x) for k, x in (v[1].items() if v[1] else [])}
    if isinstance(v, list): return [un(x) for x in v]
    if isinstance(v, dict): return {k: un(x) for k, x in v.items()}
    return v
for f in sys.argv[1:]:
    j = json.load(open(f))
    print("==", f, j.get("module"), j.get("rejects"))
    print(json.dumps(un(j["case"]), indent=None)[:6000])
    print("EXPECTED", json.dumps(un(j["expected"]))[:3000])
