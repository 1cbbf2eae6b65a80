"""Seeds as functions of the device's output: every value possible, instances independent.

The outputs named "seed" are bytes over the variables rd[k].  Bytes are grouped into
connected components by shared variables; a component must stay inside one instance and
map onto all its values: decided by z3, either value by value (one byte), or by
injectivity when a component has as many input bits as output bits (pigeonhole), or by
a quantified query."""
import time
import z3
from dump import Dump, BV, cone


def seed_decider(inst=2, size=32):
    def dec(chk, job, path):
        t0 = time.time()
        d = Dump(path)
        out = dict(n=0, proved=0, unknown=[], viol=[], queries=0)
        outs = {i: x for _, nm, i, x in d.outs if nm == "seed"}
        out["n"] = inst * size
        if set(outs) != set(range(inst * size)):
            out["viol"].append(("seed", "seed bytes absorbed: %d, expected %d" % (len(outs), inst * size), {}))
            return out
        sup = {i: frozenset(v.val for v in cone([x]) if v.op == "var") for i, x in outs.items()}
        comp = {}
        par = {}

        def find(a):
            while par.setdefault(a, a) != a:
                par[a] = par[par[a]]
                a = par[a]
            return a
        for i, s in sup.items():
            for v in s:
                par[find(("b", i))] = find(("v", v))
            find(("b", i))
        for i in outs:
            comp.setdefault(find(("b", i)), []).append(i)
        for bs in comp.values():
            if len({b // size for b in bs}) > 1:
                out["viol"].append(("seed", "seeds of separate generators share device output (bytes %s)" % bs[:4], {}))
                continue
            r = onto(out, [outs[b] for b in sorted(bs)])
            if r == "ok":
                out["proved"] += len(bs)
            elif r == "no":
                out["viol"].append(("seed", "seed bytes %s can not take every value" % bs[:8], {}))
            else:
                out["unknown"].append("seed bytes %s: %s" % (bs[:8], r))
        out["solver_s"] = time.time() - t0
        return out
    return dec


def onto(out, xs):
    bv = BV()
    ts = [bv.t(x) for x in xs]
    vs = [v for v, x in bv.vars.values()]
    if any(x.op != "var" for v, x in bv.vars.values()):
        return "not a bit-vector function of the device output"
    if not vs:
        return "no"
    nin = sum(v.size() for v in vs)
    # plain bits: distinct variable bits in every place
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(*bv.side)
    if len(ts) == 1:
        for v in range(256):
            s.push()
            s.add(ts[0] == v)
            q = s.check()
            out["queries"] += 1
            s.pop()
            if q == z3.unsat:
                return "no"
            if q != z3.sat:
                return "undecided"
        return "ok"
    F = z3.Concat(*ts)
    w = F.size()
    if nin < w:
        return "no"
    # restrict to w input bits: those that appear; injective there means onto
    used = []
    for v in vs:
        for b in range(v.size()):
            s.push()
            v2 = v ^ (1 << b)
            s.add(z3.substitute(F, (v, v2)) != F)
            q = s.check()
            out["queries"] += 1
            s.pop()
            if q != z3.unsat:
                used.append((v, b))
    if len(used) < w:
        return "no"
    if len(used) == w:
        vs2 = [z3.BitVec(str(v) + "'", v.size()) for v in vs]
        G = z3.substitute(F, *zip(vs, vs2))
        s.push()
        s.add(F == G)
        s.add(z3.Or([z3.Extract(b, b, v) != z3.Extract(b, b, vs2[[str(x) for x in vs].index(str(v))]) for v, b in used]))
        q = s.check()
        out["queries"] += 1
        s.pop()
        return "ok" if q == z3.unsat else "no" if q == z3.sat else "undecided"
    y = z3.BitVec("y", w)
    s = z3.Solver()
    s.set("timeout", 60000)
    s.add(z3.ForAll(vs, F != y))
    q = s.check()
    out["queries"] += 1
    return "ok" if q == z3.unsat else "no" if q == z3.sat else "undecided"
