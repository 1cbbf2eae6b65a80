"""Deciders for obligations over Z_q terms."""
import time
import z3
from dump import Dump, BV, cone, model_of, Q


def power_decider(base="a[0]", ref="ref[0]", exp="n[0]"):
    """result == base^n, where every Z_q term of the result is a power of the base whose
    exponent is an affine expression of one-bit terms over n; z3 decides E == n."""

    def dec(chk, job, path):
        d = Dump(path)
        t0 = time.time()
        out = dict(n=0, proved=0, unknown=[], viol=[], queries=0)
        memo = {}
        idx = {}

        def lin(x):
            # exponent as ({bit node id: coeff}, const)
            if x.id in memo:
                return memo[x.id]
            if x.op == "var" and x.val == base:
                r = ({}, 1)
            elif x.op == "const" and x.val == 1:
                r = ({}, 0)
            elif x.op == "zmul":
                a, b = lin(x.k[0]), lin(x.k[1])
                r = None
                if a and b:
                    c = dict(a[0])
                    for k, v in b[0].items():
                        c[k] = c.get(k, 0) + v
                    r = (c, a[1] + b[1])
            elif x.op == "ite":
                a, b = lin(x.k[1]), lin(x.k[2])
                r = None
                if a and b and a[0] == b[0]:
                    c = dict(b[0])
                    idx[x.k[0].id] = x.k[0]
                    c[x.k[0].id] = c.get(x.k[0].id, 0) + a[1] - b[1]
                    r = (c, b[1])
            else:
                r = None
            memo[x.id] = r
            return r

        for o in d.obl:
            out["n"] += 1
            if o["kind"] != "zeq":
                out["unknown"].append(o["msg"])
                continue
            r, rf = (o["a"], o["b"]) if o["b"].op == "var" and o["b"].val == ref else (o["b"], o["a"])
            E = None
            if rf.op == "var" and rf.val == ref:
                for x in cone([r]):
                    lin(x)
                E = memo.get(r.id)
            if E is None:
                out["unknown"].append("not a power of the base: " + o["msg"])
                continue
            bv = BV()
            s = z3.SolverFor("QF_AUFLIA") if False else z3.Solver()
            s.set("timeout", 10000)
            n = z3.BitVec(exp, 64)
            tot = z3.IntVal(E[1])
            for k, v in E[0].items():
                tot = tot + z3.If(bv.cond(idx[k]), z3.IntVal(v), z3.IntVal(0))
            nn = z3.IntVal(0)
            for i in range(64):
                nn = nn + z3.If(z3.Extract(i, i, n) == 1, z3.IntVal(1 << i), z3.IntVal(0))
            for p in o["pc"]:
                s.add(bv.cond(p))
            s.add(*bv.side)
            s.add(tot != nn)
            out["queries"] += 1
            q = s.check()
            if q == z3.unsat:
                out["proved"] += 1
            elif q == z3.sat:
                m = model_of(s.model(), bv)
                m.setdefault("n[0]", str(s.model().eval(n, model_completion=True).as_long()))
                for g in (11, 2, 0, 12288):
                    out["viol"].append(("check", "exponent differs", dict(m, **{base: str(g)})))
            else:
                out["unknown"].append("z3: " + o["msg"])
        out["solver_s"] = time.time() - t0
        return out
    return dec
