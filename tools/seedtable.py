#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md"""
import glob, json, os
print("| bug | property | needs |\n|---|---|---|")
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "../seeded/*/meta.json"))):
    m = json.load(open(f))
    print("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"]))
