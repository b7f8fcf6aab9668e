#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import vp
import gen_checks, tf_checks, schema_checks, type_checks, derive_checks, override_checks, annot_checks, builtin_checks, id_checks
CHECKS, TECHNIQUE = {}, {}
for m in (gen_checks, tf_checks, schema_checks, type_checks, derive_checks, override_checks, annot_checks, builtin_checks, id_checks):
    CHECKS.update(m.CHECKS)
    TECHNIQUE.update(m.TECHNIQUE)
if __name__ == "__main__":
    if sys.argv[1:] == ["--list"]:
        print(" ".join(sorted(CHECKS)))
        sys.exit(0)
    sys.exit(vp.main(CHECKS, lambda p: "model_checking"))
