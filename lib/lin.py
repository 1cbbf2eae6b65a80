"""Linear and bilinear normal forms over Z_q (q = 12289) for terms of the executor.

Every 16-bit term built from field operations becomes a linear form over its leaves
(input variables, other bit-vector terms) and over products of two linear forms, which are
expanded into the coefficients of the degree-2 monomials.  Two terms are equal for all
inputs iff all coefficients of the difference vanish; z3 is asked for values of the
leaves on which the (remaining) difference is not zero mod q."""
import time
import numpy as np
import z3
from dump import Dump, BV, cone, model_of, Q


class Undecided(Exception):
    pass


def brev(v, lg):
    r = 0
    for i in range(lg):
        r |= ((v >> i) & 1) << (lg - 1 - i)
    return r


class Lin:
    def __init__(self, roots):
        self.c = cone(roots)
        ref = {}
        self.leaf = {}      # node id -> column
        self.leaves = []
        prods = []
        self.prods = prods
        self.differ = {}    # leaf -> values on which it differs from another leaf of the same inputs
        zops = ("zadd", "zsub", "zneg", "zmul", "zinv")
        # columns: leaves first
        need = set()
        st = [r for r in roots]
        seen = set()
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in ("zadd", "zsub", "zneg", "zmul"):
                st.extend(x.k)
            elif x.op == "const":
                pass
            else:
                need.add(x.id)
        byid = {x.id: x for x in self.c}
        for i in sorted(need):
            self.leaf[i] = len(self.leaves)
            self.leaves.append(byid[i])
        self.nl = len(self.leaves)
        W = self.nl + 1
        # products of two non-constant forms become extra columns, kept sparse
        self.m = {}
        for x in self.c:
            if x.id not in seen:
                continue
            if x.op == "const":
                v = np.zeros(W, np.int64)
                v[-1] = x.val % Q
                self.m[x.id] = (v, {})
            elif x.id in self.leaf:
                v = np.zeros(W, np.int64)
                v[self.leaf[x.id]] = 1
                self.m[x.id] = (v, {})
            elif x.op in ("zadd", "zsub"):
                a, b = self.m[x.k[0].id], self.m[x.k[1].id]
                s = 1 if x.op == "zadd" else -1
                self.m[x.id] = ((a[0] + s * b[0]) % Q, self.padd(a[1], b[1], s))
            elif x.op == "zneg":
                a = self.m[x.k[0].id]
                self.m[x.id] = ((-a[0]) % Q, self.padd({}, a[1], -1))
            elif x.op == "zmul":
                a, b = self.m[x.k[0].id], self.m[x.k[1].id]
                if self.isc(b):
                    a, b = b, a
                if self.isc(a):
                    c = int(a[0][-1])
                    self.m[x.id] = (b[0] * c % Q, self.pscale(b[1], c))
                else:
                    if self.pnz(a[1]) or self.pnz(b[1]):
                        raise Undecided("degree above 2")
                    k = len(prods)
                    prods.append((a[0], b[0]))
                    self.m[x.id] = (np.zeros(W, np.int64), {k: 1})

    # product parts: dict when few, numpy vector when many
    def vec(self, p, n):
        if isinstance(p, dict):
            v = np.zeros(n, np.int64)
            for k, c in p.items():
                v[k] = c
            return v
        if len(p) < n:
            return np.concatenate([p, np.zeros(n - len(p), np.int64)])
        return p

    def padd(self, a, b, s):
        if isinstance(a, dict) and isinstance(b, dict) and len(a) + len(b) < 64:
            r = dict(a)
            for k, c in b.items():
                r[k] = (r.get(k, 0) + s * c) % Q
            return r
        n = max(len(self.prods), 1)
        return (self.vec(a, n) + s * self.vec(b, n)) % Q

    def pscale(self, a, c):
        if isinstance(a, dict):
            return {k: v * c % Q for k, v in a.items()}
        return a * c % Q

    def pnz(self, a):
        return any(a.values()) if isinstance(a, dict) else bool(a.any())

    def isc(self, a):
        return not a[0][:-1].any() and not self.pnz(a[1])

    def form(self, x):
        return self.m[x.id]

    def pvec(self, x):
        return self.vec(self.m[x.id][1], len(self.prods)) if self.prods else np.zeros(0, np.int64)


class Quad:
    """expands product columns: T = sum_i M[i] * outer(U_i, W_i)"""

    def __init__(self, L):
        U = np.array([p[0] for p in L.prods], np.int64)
        W = np.array([p[1] for p in L.prods], np.int64)
        n = L.nl + 1
        su, sw = U.any(axis=0), W.any(axis=0)
        # orient the factors so that the supports are disjoint, when possible
        self.disjoint = False
        first = int(np.argmax(U[0] != 0))
        for i in range(len(U)):
            if U[i][first] == 0 and W[i][first] != 0:
                U[i], W[i] = W[i].copy(), U[i].copy()
        su, sw = np.nonzero(U.any(axis=0))[0], np.nonzero(W.any(axis=0))[0]
        if not set(su) & set(sw):
            self.disjoint = True
            self.cu, self.cw = su, sw
        else:
            self.cu = self.cw = np.arange(n)
        self.U = U[:, self.cu].astype(np.float64)
        self.W = W[:, self.cw].astype(np.float64)

    def expand(self, m):
        nz = np.nonzero(m)[0]
        T = np.mod((self.U[nz] * m[nz, None] % Q).T @ self.W[nz], Q)
        if self.disjoint:
            return T
        return np.mod(T + T.T, Q)


def discharge(residuals):
    """residuals: list of coefficient lists (mod q); asks z3 for leaves making one nonzero"""
    s = z3.Solver()
    s.set("timeout", 5000)
    alts = []
    for r in residuals[:4]:
        nz = [(j, int(c)) for j, c in r if c % Q][:32]
        if nz:
            t = z3.Sum([z3.Int("x%d" % j) * c for j, c in nz])
            for j, _ in nz:
                s.add(z3.Int("x%d" % j) >= 0, z3.Int("x%d" % j) < Q)
            alts.append(t % Q != 0)
    s.add(z3.Or(alts) if alts else z3.BoolVal(False))
    return s.check()


def leafname(x):
    return x.val if x.op == "var" else None


def linear_decider(spec=None, N=512):
    lg = N.bit_length() - 1
    G = 49 if N == 512 else 7

    def V():
        e = np.array([pow(G, k, Q) for k in range(2 * N)], np.int64)
        i = np.array([2 * brev(i, lg) + 1 for i in range(N)], np.int64)
        return e[np.outer(i, np.arange(N)) % (2 * N)]

    def dec(chk, job, path):
        t0 = time.time()
        d = Dump(path)
        out = dict(n=0, proved=0, unknown=[], viol=[], queries=0)
        def low(x):
            while x.op in ("zext", "sext") or (x.op == "extract" and x.aux == 0 and x.w >= 16):
                x = x.k[0]
            return x
        outs = [(i, low(x)) for _, nm, i, x in d.outs if nm == spec]
        roots = [x for _, x in outs]
        for o in d.obl:
            if o["kind"] == "zeq":
                roots += [o["a"], o["b"]]
        try:
            L = Lin(roots)
        except Undecided as e:
            out["unknown"].append(str(e))
            return out
        names = [leafname(x) for x in L.leaves]
        unify(L, out)
        quad = Quad(L) if L.prods else None
        if spec:
            if len(outs) != N:
                out["unknown"].append("expected %d outputs, got %d" % (N, len(outs)))
                return out
            outs.sort()
            A = np.array([L.form(x)[0] for _, x in outs], np.int64)
            col = {n: j for j, n in enumerate(names) if n}
        if spec in ("ntt", "intt"):
            idx = [col.get("a[%d]" % j, -1) for j in range(N)]
            R = np.where(np.array(idx)[None, :] >= 0, A[:, idx], 0)
            rest = np.delete(A, [j for j in idx if j >= 0], axis=1)
            if spec == "ntt":
                D = (R - V()) % Q
            else:
                D = (np.mod(V().astype(np.float64) @ R.astype(np.float64), Q).astype(np.int64) - np.eye(N, dtype=np.int64)) % Q
            out["n"] = N
            bad = np.nonzero(D.any(axis=1) | rest.any(axis=1))[0]
            out["queries"] += 1
            q = discharge([list(enumerate(D[i])) for i in bad])
            out["proved"] = N - len(bad)
            for i in bad[:3]:
                j = int(np.nonzero(D[i])[0][0]) if D[i].any() else 0
                out["viol"].append(("zeq", "%s output %d: wrong coefficient of input %d" % (spec, i, j), {"a[%d]" % j: "1"}))
        elif spec == "prod":
            out["n"] = N
            if not L.prods or not quad.disjoint:
                out["unknown"].append("not a bilinear form in the two operands")
                return out
            pos = {names[c]: k for k, c in enumerate(quad.cu)}, {names[c]: k for k, c in enumerate(quad.cw)}
            if "a[0]" not in pos[0]:
                pos = pos[1], pos[0]
                quad.U, quad.W = quad.W, quad.U
            try:
                ia = np.array([pos[0]["a[%d]" % j] for j in range(N)])
                ib = np.array([pos[1]["b[%d]" % j] for j in range(N)])
            except KeyError:
                out["unknown"].append("operand missing from the product")
                return out
            ii, jj = np.meshgrid(np.arange(N), np.arange(N), indexing="ij")
            s = (ii + jj)
            sel = range(N) if getattr(job, "tier", "quick") == "thorough" or N == 512 else range(0, N, 16)
            bad = []
            for k in sel:
                T = quad.expand(L.pvec(outs[k][1]))[np.ix_(ia, ib)]
                E = np.where(s == k, 1, 0) + np.where(s == k + N, Q - 1, 0)
                if L.form(outs[k][1])[0].any() or (T != E).any():
                    w = np.argwhere(T != E)
                    bad.append((k, w[0] if len(w) else (0, 0)))
                    if len(bad) > 2:
                        break
            out["queries"] += 1
            discharge([[(0, 1)] for _ in bad])
            out["n"] = len(sel)
            out["proved"] = len(sel) - len(bad)
            for k, (i, j) in bad:
                out["viol"].append(("zeq", "product coefficient %d: wrong at a[%d]*b[%d]" % (k, i, j), {"a[%d]" % i: "1", "b[%d]" % j: "1"}))
        res = []
        for o in d.obl:
            out["n"] += 1
            if o["kind"] != "zeq":
                r = bvcheck(o)
                out["queries"] += 1
                if r[0] == "ok":
                    out["proved"] += 1
                elif r[0] == "sat":
                    out["viol"].append((o["kind"], o["msg"], r[1]))
                else:
                    out["unknown"].append("%s: %s" % (o["msg"], r[0]))
                continue
            D = (L.form(o["a"])[0] - L.form(o["b"])[0]) % Q
            P = (L.pvec(o["a"]) - L.pvec(o["b"])) % Q if L.prods else np.zeros(0)
            T = quad.expand(P) if P.any() else None
            if not D.any() and (T is None or not T.any()):
                out["proved"] += 1
            else:
                m = dict(o["model"])
                ok = True
                if D.any():
                    j = int(np.nonzero(D)[0][0])
                    if j < L.nl and names[j]:
                        m = {names[j]: "1"}
                    elif j in L.differ:
                        m = L.differ[j]
                    else:
                        ok = False
                elif quad.disjoint or True:
                    i, j = np.argwhere(T)[0]
                    a, b = names[quad.cu[i]] if quad.cu[i] < L.nl else None, names[quad.cw[j]] if quad.cw[j] < L.nl else None
                    m = {}
                    if a:
                        m[a] = "1"
                    if b:
                        m[b] = "1"
                res.append((o["msg"], m))
        if res:
            out["queries"] += 1
            for msg, m in res[:3]:
                out["viol"].append(("zeq", msg, m))
        elif d.obl:
            out["queries"] += 1
            discharge([])
        out["solver_s"] = time.time() - t0
        return out
    return dec


def unify(L, out):
    """leaves that are not variables: merge those z3 proves equal (same support)"""
    cand = [j for j, x in enumerate(L.leaves) if x.op not in ("var", "zinv")]
    if not cand:
        return
    groups = {}
    for j in cand:
        vs = tuple(sorted(v.val for v in cone([L.leaves[j]]) if v.op == "var"))
        groups.setdefault(vs, []).append(j)
    merge = {}
    for vs, js in groups.items():
        if len(js) < 2 or not vs:
            continue
        reps = []
        for j in js:
            for r in reps:
                bv = BV()
                try:
                    a, b = bv.t(L.leaves[r]), bv.t(L.leaves[j])
                except Exception:
                    continue
                s = z3.Solver()
                s.set("timeout", 3000)
                s.add(*bv.side)
                s.add(a != b)
                out["queries"] += 1
                q = s.check()
                if q == z3.unsat:
                    merge[j] = r
                    break
                if q == z3.sat:
                    md = model_of(s.model(), bv)
                    L.differ[j] = md
                    L.differ[r] = md
            else:
                reps.append(j)
    if not merge:
        return
    js = np.array(list(merge)); rs = np.array([merge[j] for j in js])

    def fold(v):
        v = v.copy()
        np.add.at(v, rs, v[js])
        v[js] = 0
        return v % Q
    for k, (v, p) in list(L.m.items()):
        if v[js].any():
            L.m[k] = (fold(v), p)
    for i, (a, b) in enumerate(L.prods):
        L.prods[i] = (fold(a), fold(b))


def bvcheck(o):
    bv = BV()
    s = z3.Solver()
    s.set("timeout", 10000)
    try:
        for p in o["pc"]:
            s.add(bv.cond(p))
        s.add(z3.Not(bv.cond(o["cond"])))
    except Exception as e:
        return ("no translation: %r" % e,)
    s.add(*bv.side)
    q = s.check()
    if q == z3.unsat:
        return ("ok",)
    if q == z3.sat:
        return ("sat", model_of(s.model(), bv))
    return ("unknown",)
