"""Runs one decider in its own process: decide.py MODULE FACTORY KWARGS-JSON INFO-JSON DUMP"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
mod, fac, kw, info, dump = sys.argv[1:6]


class J:
    pass


j = J()
j.__dict__.update(json.loads(info))
f = getattr(importlib.import_module(mod), fac)(**json.loads(kw))
out = f(None, j, dump)
print("\n@@" + json.dumps(out))
