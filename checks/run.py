import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
pid = sys.argv[1]
reg = {}
for m in ("zq", "codec", "samp", "ntt", "verif", "keys", "fp", "gmp"):
    mod = importlib.import_module("c_" + m)
    reg.update(mod.CHECKS)
c = vf.Check(pid)
try:
    reg[pid](c)
except Exception:
    c.undecided.append(("driver", traceback.format_exc()[-1500:]))
c.finish()
