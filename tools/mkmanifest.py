"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "lib")); sys.path.insert(0, os.path.join(R, "bin"))
import check
def main():
    props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in check.CHECKS:
            t = check.TECHNIQUE[i]
            checks.append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                           "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
                           "technique": t[0], "level": "model_checking", "level_note": t[1]})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    json.dump({"version": 1, "setup_cmd": "python3 bin/check.py --list", "checks": checks, "not_applicable": na},
              open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
main()
