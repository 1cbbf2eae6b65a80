"""Deciders for obligations over unbounded integers (C14, C15).

Terms are read as polynomials with integer coefficients over the harness's variables; an
inexact operation (division, shift to the right, conversion) is a free variable.
  ipoly_decider   equalities, under linear consequences of the path's integer equalities:
                  z3 decides, over the monomials as unknowns, that the two sides cannot differ
  karat_decider   a recursion step of the product: results of the inner products are read as
                  the products of their logged operands (linear forms in a and b)
"""
import time
import numpy as np
import z3
from dump import Dump, cone
from real import padd, pmul, mmul, Undecided

LIM = 400000


class IP:
    def __init__(self, lim=LIM):
        self.m = {}
        self.lim = lim
        self.atoms = {}

    def t(self, root):
        for x in cone([root]):
            if x.id not in self.m:
                self.m[x.id] = self.mk(x)
        return self.m[root.id]

    def atom(self, x, n=None):
        n = n or (x.val if x.op in ("ivar", "opq") else "t%d" % x.id)
        self.atoms[n] = x
        return {((n, 1),): 1}

    def mk(self, x):
        o = x.op
        if x.sort != 2:
            return None
        k = [self.m.get(y.id) for y in x.k]
        if o == "iconst":
            return {(): x.val} if x.val else {}
        if o == "ivar":
            return self.atom(x)
        if o == "ifroms":
            y = x.k[0]
            if y.op == "const":
                v = y.val
                if v >> (y.w - 1):
                    v -= 1 << y.w
                return {(): v} if v else {}
            return self.atom(x)
        if o == "iadd":
            r = padd(k[0], k[1])
        elif o == "isub":
            r = padd(k[0], k[1], -1)
        elif o == "imul":
            r = pmul(k[0], k[1], self.lim)
        elif o == "ineg":
            r = {m: -c for m, c in k[0].items()}
        elif o == "ishl":
            c = x.k[1]
            if c.op == "const":
                r = {m: v << c.val for m, v in k[0].items()}
            else:
                r = {mmul(m, (("pow2_%d" % c.id, 1),)): v for m, v in k[0].items()}
        else:
            return self.atom(x)
        if len(r) > self.lim:
            raise Undecided("polynomial too large")
        return r


def filled(o, ip):
    return dict(o["model"])


def ipoly_decider(lim=LIM, models=8):
    def dec(chk, job, path):
        t0 = time.time()
        d = Dump(path)
        out = dict(n=0, proved=0, unknown=[], viol=[], queries=0)
        ip = IP(lim)
        known = set()  # equalities that hold whatever the path
        for o in d.obl:
            out["n"] += 1
            if o["kind"] != "ieq":
                out["unknown"].append("%s: not an integer equality" % o["msg"])
                continue
            if (o["a"].id, o["b"].id) in known:
                out["proved"] += 1
                continue
            try:
                r = padd(ip.t(o["a"]), ip.t(o["b"]), -1)
            except Undecided as e:
                out["unknown"].append("%s: %s" % (o["msg"], e))
                continue
            s = z3.Solver()
            s.set("timeout", 10000)
            v = {}

            def lin(p):
                return z3.Sum([z3.IntVal(p.get((), 0))] + [c * v.setdefault(m, z3.Int("m%d" % len(v))) for m, c in p.items() if m])
            if not r:
                s.add(lin(ip.t(o["a"])) != lin(ip.t(o["b"])))
                out["queries"] += 1
                if s.check() == z3.unsat:
                    out["proved"] += 1
                    known.add((o["a"].id, o["b"].id))
                else:
                    out["unknown"].append(o["msg"])
                continue
            # equalities on the path
            for p, want in ((q, True) for q in o["pc"]):
                while p.op == "xor" and p.k[1].op == "const" and p.k[1].val == 1:
                    p, want = p.k[0], not want
                if p.op == "icmp" and p.aux == 0:
                    try:
                        a, b = ip.t(p.k[0]), ip.t(p.k[1])
                    except Undecided:
                        continue
                    e = lin(padd(a, b, -1)) == 0
                    s.add(e if want else z3.Not(e))
            s.add(lin(r) != 0)
            out["queries"] += 1
            q = s.check()
            if q == z3.unsat:
                out["proved"] += 1
                continue
            if q != z3.sat:
                out["unknown"].append("%s: %s" % (o["msg"], q))
                continue
            if len(out["viol"]) < models:
                m = max(r, key=lambda k: abs(r[k]))
                txt = "%s: difference has %s" % (o["msg"], "*".join("%s^%d" % w for w in m) or "a constant")
                k = len(out["viol"])
                mm = dict(o["model"])
                mm.update({"rnd[0]": str(k + 1), "sz[0]": str(k % 4)})
                out["viol"].append(("ieq", txt, mm))
            else:
                out["unknown"].append(o["msg"])
            if len(out["unknown"]) > 20:
                break
        # a handful of inputs for a violated equality
        if out["viol"]:
            base = out["viol"][0]
            for k in range(len(out["viol"]), 6):
                out["viol"].append((base[0], base[1], dict(base[2], **{"rnd[0]": str(k + 11), "sz[0]": str(k % 4)})))
        out["solver_s"] = time.time() - t0
        return out
    return dec


def karat_decider(reduced=False):
    def dec(chk, job, path):
        t0 = time.time()
        d = Dump(path)
        out = dict(n=0, proved=0, unknown=[], viol=[], queries=0)
        n = int(job.params["n"])
        ip = IP()
        R, U, V = {}, {}, {}
        for _, nm, i, x in d.outs:
            {"r": R, "u": U, "v": V}[nm][i] = x

        def linear(x, nm):
            """operand of a product: (indices, coefficients) of a linear form in nm"""
            f = ip.t(x)
            ix, cs = [], []
            for m, c in f.items():
                if len(m) != 1 or m[0][1] != 1 or not m[0][0].startswith(nm + "["):
                    return None
                ix.append(int(m[0][0][len(nm) + 1:-1]))
                cs.append(c)
            return np.array(ix, np.int64), np.array(cs, np.int64)
        bad = None
        try:
            for o in d.obl:
                out["n"] += 1
                if o["kind"] == "ieq" and not padd(ip.t(o["a"]), ip.t(o["b"]), -1):
                    out["proved"] += 1
                else:
                    bad = bad or o["msg"]
            calls = {}
            for i, x in U.items():
                k, j = divmod(i, 4096)
                calls.setdefault(k, {})[j] = x
            ops, conv = {}, {}
            for k, a in calls.items():
                w = len(a)
                us, vs = [], []
                la = [linear(a[j], "a") for j in range(w)]
                lb = [linear(V[k * 4096 + j], "b") for j in range(w)]
                if any(z is None for z in la + lb):
                    la2 = [linear(V[k * 4096 + j], "a") for j in range(w)]
                    lb2 = [linear(a[j], "b") for j in range(w)]
                    if any(z is None for z in la2 + lb2):
                        raise Undecided("operand of an inner product is not a linear form")
                    la, lb = la2, lb2
                ops[k] = (la, lb, w)

            def pconv(k, i):
                """coefficient i of the product of call k: {a index * n + b index: coefficient}"""
                if (k, i) in conv:
                    return conv[(k, i)]
                la, lb, w = ops[k]
                ks, cs = [], []
                for s in range(max(0, i - w + 1), min(w, i + 1)):
                    (x, c), (y, e) = la[s], lb[i - s]
                    ks.append((x[:, None] * n + y[None, :]).ravel())
                    cs.append((c[:, None] * e[None, :]).ravel())
                r = (np.concatenate(ks), np.concatenate(cs)) if ks else (np.zeros(0, np.int64), np.zeros(0, np.int64))
                conv[(k, i)] = r
                return r
            sol_t = 0
            for m in sorted(R):
                out["n"] += 1
                f = ip.t(R[m])
                ks, cs = [], []
                for mono, c in f.items():
                    if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].startswith("p["):
                        k, i = divmod(int(mono[0][0][2:-1]), 4096)
                        x, y = pconv(k, i)
                        ks.append(x)
                        cs.append(y * c)
                    elif len(mono) == 2 and {mono[0][0][0], mono[1][0][0]} == {"a", "b"} and mono[0][1] == mono[1][1] == 1:
                        ks.append(np.array([int(mono[0][0][2:-1]) * n + int(mono[1][0][2:-1])]))
                        cs.append(np.array([c]))
                    else:
                        raise Undecided("unexpected term in the result: %r" % (mono,))
                if reduced:
                    s = np.arange(n)
                    t = m - s
                    ex = s * n + np.where(t >= 0, t, t + n)
                    ec = np.where(t >= 0, -1, 1)
                else:
                    s = np.arange(max(0, m - n + 1), min(n, m + 1))
                    ex, ec = s * n + (m - s), -np.ones(len(s), np.int64)
                ks.append(ex)
                cs.append(ec)
                K, C = np.concatenate(ks), np.concatenate(cs)
                if len(K):
                    u, inv = np.unique(K, return_inverse=True)
                    tot = np.zeros(len(u), np.int64)
                    np.add.at(tot, inv, C)
                    nz = np.nonzero(tot)[0]
                else:
                    nz = []
                # no values of the products a_i b_j make the residual non-zero
                sv = z3.Solver()
                e = z3.IntVal(0)
                for j in list(nz)[:50]:
                    e = e + int(tot[j]) * z3.Int("ab%d" % int(u[j]))
                sv.add(e != 0)
                out["queries"] += 1
                if sv.check() == z3.unsat:
                    out["proved"] += 1
                else:
                    bad = bad or "coefficient %d of the product: wrong multiple of a[%d]*b[%d]" % (m, u[nz[0]] // n, u[nz[0]] % n)
        except Undecided as e:
            out["unknown"].append(str(e))
        if bad:
            for k in range(6):
                out["viol"].append(("ieq", bad, {"rnd[0]": str(k + 1), "sz[0]": str(k % 4)}))
        out["solver_s"] = time.time() - t0
        return out
    return dec
