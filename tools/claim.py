#!/usr/bin/env python3
"""claim.py ID technique note  |  claim.py -n ID reason"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, "checks", "meta.json")
m = json.load(open(p))
a = sys.argv[1:]
if a[0] == "-n":
    m["claimed"].pop(a[1], None)
    m["not_applicable"][a[1]] = a[2]
else:
    m["not_applicable"].pop(a[0], None)
    m["claimed"][a[0]] = dict(technique=a[1], note=a[2])
m["claimed"] = dict(sorted(m["claimed"].items()))
json.dump(m, open(p, "w"), indent=1)
os.system("python3 " + os.path.join(R, "tools", "mkmanifest.py"))
