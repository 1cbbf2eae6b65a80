"""Equality of two "sum of squares <= bound" tests over Z_q terms (C11).

Both sums are flattened (mod 2^64) into atoms.  Z_q leaves are identified by their linear or
bilinear normal form (lin.Lin); the remaining atoms are paired by the leaf or variable they
depend on, and z3 decides the equality of each pair for all values of that leaf."""
import time
import numpy as np
import z3
from dump import Dump, BV, cone, model_of, Q
from lin import Lin, Undecided, Quad, unify

ZOPS = ("zadd", "zsub", "zneg", "zmul", "zinv")


def flatten(x):
    """{id: coeff}, const  (mod 2^w)"""
    M = 1 << x.w
    acc, const, st, nodes = {}, 0, [(x, 1)], {}
    while st:
        y, c = st.pop()
        if y.op == "add":
            st += [(y.k[0], c), (y.k[1], c)]
        elif y.op == "sub":
            st += [(y.k[0], c), (y.k[1], -c)]
        elif y.op == "const":
            const = (const + c * y.val) % M
        elif y.op == "mul" and (y.k[0].op == "const" or y.k[1].op == "const"):
            a, b = (y.k[0], y.k[1]) if y.k[0].op == "const" else (y.k[1], y.k[0])
            st.append((b, c * a.val))
        else:
            acc[y.id] = (acc.get(y.id, 0) + c) % M
            nodes[y.id] = y
    return acc, const, nodes


def norm_decider(witness="s1"):
    def dec(chk, job, path):
        t0 = time.time()
        d = Dump(path)
        out = dict(n=0, proved=0, unknown=[], viol=[], queries=0)
        for o in d.obl:
            out["n"] += 1
            try:
                one(d, o, out)
            except Undecided as e:
                out["unknown"].append("%s: %s" % (o["msg"], e))
        out["solver_s"] = time.time() - t0
        return out

    def one(d, o, out):
        c = o["cond"]
        if o["kind"] != "check" or c is None or c.op not in ("eq", "xor"):
            raise Undecided("not a comparison of two decisions")
        A, B = c.k
        neg = c.op == "xor"
        while A.op == "xor" and A.k[1].op == "const" and A.k[1].val == 1:
            A, neg = A.k[0], not neg
        while B.op == "xor" and B.k[1].op == "const" and B.k[1].val == 1:
            B, neg = B.k[0], not neg

        def cmp(x):
            # -> (sum node, threshold t, sense): sum < t (True) or sum >= t
            if x.op not in ("ult", "ule", "slt", "sle"):
                raise Undecided("decision is not a comparison")
            a, b = x.k
            s = x.op[1:] == "lt"
            if b.op == "const":
                return a, b.val + (0 if s else 1), True
            if a.op == "const":
                return b, a.val + (1 if s else 0), False
            raise Undecided("no constant bound")
        sa, ta, fa = cmp(A)
        sb, tb, fb = cmp(B)
        if (fa == fb) == neg:
            raise Undecided("decisions of opposite sense")
        fA, cA, nA = flatten(sa)
        fB, cB, nB = flatten(sb)
        # Z_q leaves of the atoms
        leaves, seen = {}, set()
        st = list(nA.values()) + list(nB.values())
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in ZOPS:
                leaves[x.id] = x
            else:
                st += x.k
        outs = {}
        for _, nm, i, x in d.outs:
            while x.op in ("zext", "sext"):
                x = x.k[0]
            if nm == witness:
                outs[x.id] = i
        key = {}
        if leaves:
            L = Lin(list(leaves.values()))
            unify(L, out)
            pk, rep = {}, []
            for i, (u, w) in enumerate(L.prods):
                k = tuple(sorted((u.tobytes(), w.tobytes())))
                rep.append(pk.setdefault(k, i))
            rep = np.array(rep)
            for i in leaves:
                v, p = L.m[i]
                q = np.zeros(len(L.prods), np.int64)
                if L.prods:
                    np.add.at(q, rep, L.vec(p, len(L.prods)))
                    q %= Q
                key[i] = (v.tobytes(), q.tobytes())
        cls = {}
        for i in sorted(leaves):
            cls.setdefault(key[i], []).append(i)
        repz = {i: g[0] for g in cls.values() for i in g}
        idx = {}
        for g in cls.values():
            for i in g:
                if i in outs:
                    idx[g[0]] = outs[i]
        # structural hash of the atoms with representatives for the leaves
        hm, tab = {}, {}

        def sh(x):
            for y in cone_stop(x, leaves):
                if y.id in hm:
                    continue
                if y.id in leaves:
                    k = ("z", repz[y.id])
                elif y.op == "var":
                    k = ("v", y.val)
                else:
                    ks = [hm[z.id] for z in y.k]
                    if y.op in ("add", "mul", "and", "or", "xor", "eq"):
                        ks.sort()
                    k = (y.op, y.w, y.aux, y.val, tuple(ks))
                hm[y.id] = tab.setdefault(k, len(tab))
            return hm[x.id]

        def grouped(f, n):
            r = {}
            for i, c2 in f.items():
                h = sh(n[i])
                e = r.setdefault(h, [0, n[i]])
                e[0] = (e[0] + c2) % (1 << sa.w)
            return r
        gA, gB = grouped(fA, nA), grouped(fB, nB)
        for h in list(gA):
            if h in gB and gA[h][0] == gB[h][0]:
                del gA[h], gB[h]
        # the rest, by support
        sup = {}

        def support(x):
            s = set()
            for y in cone_stop(x, leaves):
                if y.id in leaves:
                    s.add(("z", repz[y.id]))
                elif y.op == "var":
                    s.add(("v", y.val))
            return tuple(sorted(s))
        for side, g in ((0, gA), (1, gB)):
            for h, (c2, x) in g.items():
                sup.setdefault(support(x), [[], []])[side].append((c2, x))
        bad = []
        memo = {}
        for s, (l, r) in sup.items():
            if len(bad) > 3:
                break
            q, m = equal(l, r, leaves, repz, out, memo)
            if q != "ok":
                bad.append((s, q, m))
        cd = (ta - cA) - (tb - cB)
        if not bad and cd == 0 and sa.w == sb.w:
            out["proved"] += 1
            return
        # witnesses: the differing value, with the norm around the bound, on a path that can be taken
        pcv = {y.val for x in o["pc"] for y in cone_stop(x, {}) if y.op == "var"}
        base = {k: v for k, v in o["model"].items() if k in pcv and not k.startswith(("c[", "s2["))}
        ms = []
        for s, q, m in bad[:2]:
            w = dict(base, **{"model[0]": "7"})
            for k in s:
                if k[0] == "z" and k[1] in idx and m and k in m:
                    v = m[k]
                    w["set1[%d]" % idx[k[1]]] = "1"
                    w["s1[%d]" % idx[k[1]]] = str((v if v <= 6144 else v - Q) % (1 << 14))
                elif k[0] == "v" and m and k in m and k[1].startswith("s2["):
                    w["set2[" + k[1][3:]] = "1"
                    w[k[1]] = str(m[k])
            ms.append(w)
        if not bad:
            ms.append(dict(base, **{"model[0]": "7"}))
        for w in ms:
            for dd in (1, 2, 0):
                for on2 in ("0", "1"):
                    out["viol"].append(("check", o["msg"], dict(w, **{"d[0]": str(dd), "on2[0]": on2})))

    def equal(l, r, leaves, repz, out, memo):
        bv = ZBV(leaves, repz)
        w = (l or r)[0][1].w

        def tot(g):
            t = z3.BitVecVal(0, w)
            for c, x in g:
                t = t + z3.BitVecVal(c, w) * bv.t(x)
            return t
        # the same pair of functions over another leaf has been decided before
        try:
            a, b = tot(l), tot(r)
        except Exception as e:
            return "no translation %r" % (e,), None
        names = sorted(bv.used, key=str)
        sub = [(v, z3.BitVec("L%d_%d" % (i, v.size()), v.size())) for i, v in enumerate(bv.used[n] for n in names)]
        ca, cb = z3.substitute(a, *sub) if sub else a, z3.substitute(b, *sub) if sub else b
        k = (ca.sexpr(), cb.sexpr(), tuple(bv.side_s(n) for n in names))
        if k in memo and memo[k][0] == "ok":
            return memo[k]
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*bv.side)
        # squares: equal or opposite bases first
        if len(l) == 1 and len(r) == 1 and l[0][0] == r[0][0] and l[0][1].op == "mul" and r[0][1].op == "mul" \
                and l[0][1].k[0] is l[0][1].k[1] and r[0][1].k[0] is r[0][1].k[1]:
            x, y = bv.t(l[0][1].k[0]), bv.t(r[0][1].k[0])
            s2 = z3.Solver()
            s2.set("timeout", 20000)
            s2.add(*bv.side)
            s2.add(x != y, x != -y)
            out["queries"] += 1
            q = s2.check()
            if q == z3.unsat:
                memo[k] = ("ok", None)
                return memo[k]
            if q == z3.sat:
                s = s2
                s.add(x * x != y * y)
        else:
            s.add(a != b)
        out["queries"] += 1
        q = s.check()
        if q == z3.unsat:
            memo[k] = ("ok", None)
            return memo[k]
        if q == z3.sat:
            m = s.model()
            return "sat", {n: m.eval(v, model_completion=True).as_long() for n, v in bv.used.items()}
        return "unknown", None

    return dec


def cone_stop(root, leaves):
    seen, out, st = set(), [], [root]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        if x.id not in leaves:
            st.extend(x.k)
    out.sort(key=lambda x: x.id)
    return out


class ZBV(BV):
    def __init__(self, leaves, repz):
        super().__init__()
        self.leaves, self.repz, self.used, self.rngs = leaves, repz, {}, {}

    def side_s(self, n):
        return self.rngs.get(n, "")

    def t(self, root):
        for x in cone_stop(root, self.leaves):
            if x.id in self.m:
                continue
            if x.id in self.leaves:
                r = self.repz[x.id]
                v = z3.BitVec("z%d" % r, 16)
                if ("z", r) not in self.used:
                    self.side.append(z3.ULT(v, Q))
                    self.used[("z", r)] = v
                self.m[x.id] = v
            elif x.op == "var":
                self.m[x.id] = self.mk(x)
                self.used[("v", x.val)] = self.m[x.id]
                self.rngs[("v", x.val)] = str(x.rng)
            else:
                self.m[x.id] = self.mk(x)
        return self.m[root.id]
