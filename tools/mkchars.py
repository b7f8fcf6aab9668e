#!/usr/bin/env python3
"""Writes spec/chars.json: code point <-> one-character string, for Uri.tla."""
import json, os
cps = list(range(0, 0x800)) + [0x20AC, 0x65E5, 0x1F680, 0x1F600, 0xFFFD]
d = {"ch": {str(c): chr(c) for c in cps}, "cp": {chr(c): c for c in cps}}
with open(os.path.join(os.path.dirname(__file__), "..", "spec", "chars.json"), "w") as f:
    json.dump(d, f)
