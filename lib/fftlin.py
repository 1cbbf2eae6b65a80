"""C19: the outputs of a transform are linear forms in its inputs (inputs in [-1, 1]).

Every floating-point node of the dump is a linear form; its distance from the exact form is
bounded by a running rounding-error analysis.  For each output z3 (linear real arithmetic)
discharges: no inputs in the box make |computed - exact| exceed the tolerance."""
import struct, time
import numpy as np
import z3
from fractions import Fraction
from dump import Dump
from real import d2f

U = 2.0 ** -53
SLACK = 1e-17  # rounding of this analysis itself (80-bit), per coefficient
TOL = 1e-13
LD = np.longdouble


def bits(d):
    return str(struct.unpack("<Q", struct.pack("<d", d))[0])


def brv(v, w):
    r = 0
    for i in range(w):
        r |= ((v >> i) & 1) << (w - 1 - i)
    return r


def fftlin_decider(inverse=False):
    def dec(chk, job, path):
        t0 = time.time()
        d = Dump(path)
        lg = job.params.get("lg", 10)
        n = 1 << lg
        out = dict(n=0, proved=0, unknown=[], viol=[], queries=0)
        outs = {(nm, i): x for _, nm, i, x in d.outs}
        if len(outs) != 2 * n:
            out["unknown"].append("expected %d outputs, got %d" % (2 * n, len(outs)))
            return out
        need = {}
        order = sorted(d.n)
        roots = {x.id for x in outs.values()}
        live = set()
        st = [x for x in outs.values()]
        while st:
            x = st.pop()
            if x.id in live:
                continue
            live.add(x.id)
            st += x.k
        for i in live:
            for y in d.n[i].k:
                need[y.id] = need.get(y.id, 0) + 1
        val, err = {}, {}
        ang = LD(4) * np.arctan(LD(1)) * np.arange(2 * n).astype(LD) / n
        C, S = np.cos(ang), np.sin(ang)

        def const(x):
            return x.op == "fconst"
        try:
            for i in order:
                if i not in live:
                    continue
                x = d.n[i]
                k = x.k
                if x.op == "fconst":
                    v = np.zeros(2 * n + 1, LD)
                    v[2 * n] = d2f(x.val)
                    e = 0.0
                elif x.op == "opq":
                    nm, ix = x.val.rstrip("]").split("[")
                    v = np.zeros(2 * n + 1, LD)
                    v[int(ix) + (n if nm == "y" else 0)] = 1.0
                    if nm not in "xy":
                        raise ValueError("unexpected input " + x.val)
                    e = 0.0
                elif x.op in ("fadd", "fsub"):
                    a, b = val[k[0].id], val[k[1].id]
                    v = a + b if x.op == "fadd" else a - b
                    e = err[k[0].id] + err[k[1].id]
                    e += U * (float(np.abs(v).sum()) + e)
                elif x.op == "f32":
                    v, e = val[k[0].id], err[k[0].id]
                    e += 2.0 ** -24 * (float(np.abs(v).sum()) + e)
                elif x.op == "fneg":
                    v, e = -val[k[0].id], err[k[0].id]
                elif x.op in ("fmul", "fdiv"):
                    a, b = k
                    if x.op == "fmul" and const(a):
                        a, b = b, a
                    if not const(b):
                        raise ValueError("product of two inputs")
                    c = LD(d2f(b.val))
                    if x.op == "fdiv":
                        c = 1 / c
                    v = val[a.id] * c
                    e = float(abs(c)) * err[a.id]
                    e += 2 * U * (float(np.abs(v).sum()) + e) + 1e-300
                else:
                    raise ValueError("not linear: " + x.op)
                val[i], err[i] = v, e
                for y in k:
                    need[y.id] -= 1
                    if need[y.id] == 0 and y.id not in roots:
                        del val[y.id], err[y.id]
        except (ValueError, OverflowError) as ex:
            out["unknown"].append(str(ex))
            return out
        tol = TOL * (1 if inverse else n)
        memo = {}
        for k in range(n):
            if inverse:
                t = (np.array([2 * brv(j, lg) + 1 for j in range(n)]) * -k) % (2 * n)
                c, s = C[t] / n, S[t] / n
            else:
                t = ((2 * brv(k, lg) + 1) * np.arange(n)) % (2 * n)
                c, s = C[t], S[t]
            for nm, ex in (("re", np.concatenate([c, -s, [LD(0)]])), ("im", np.concatenate([s, c, [LD(0)]]))):
                x = outs[(nm, k)]
                diff = val[x.id] - ex
                sl = SLACK * (1.0 / n if inverse else 1.0)
                # bucket the coefficients by magnitude (rounded up): y_b is the sum of the inputs of a bucket
                mag = np.abs(diff) + sl
                b = np.ceil(np.log2(mag)).astype(int)
                us, cs = np.unique(b, return_counts=True)
                key = (tuple(zip(us.tolist(), cs.tolist())), float(err[x.id]))
                out["n"] += 1
                if key not in memo:
                    sol = z3.Solver()
                    tot = z3.RealVal(str(Fraction(float(err[x.id])))) * z3.Real("rnd")
                    sol.add(z3.Real("rnd") >= -1, z3.Real("rnd") <= 1)
                    for u, ct in key[0]:
                        y = z3.Real("y%d" % (u + 2000))
                        sol.add(y >= -ct, y <= ct)
                        tot = tot + z3.RealVal(str(Fraction(2) ** u)) * y
                    T = z3.RealVal(str(Fraction(tol)))
                    sol.add(z3.Or(tot > T, tot < -T))
                    memo[key] = str(sol.check())
                    out["queries"] += 1
                if memo[key] == "unsat":
                    out["proved"] += 1
                    continue
                m = {}
                for j in range(n):
                    m["x[%d]" % j] = bits(1.0 if diff[j] >= 0 else -1.0)
                    m["y[%d]" % j] = bits(1.0 if diff[n + j] >= 0 else -1.0)
                if len(out["viol"]) < 3:
                    out["viol"].append(("check", "%s of output %d differs by up to %.3g (tolerance %.3g)" % (
                        nm, k, np.abs(diff).sum() + err[x.id], tol), m))
                elif len(out["unknown"]) < 3:
                    out["unknown"].append("output %d exceeds the tolerance" % k)
        out["solver_s"] = time.time() - t0
        return out
    return dec
