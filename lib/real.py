"""Exact-real deciders for obligations over floating-point terms.

The terms are read as exact real arithmetic (constants are the doubles of the code).
  rational_decider   normal forms num/den over the input variables; the difference of
                     the two sides is a polynomial whose coefficients must be zero up
                     to the rounding of the constants; z3 discharges
                     "|difference| > tol * scale for some values of the monomials"
  fpabs              comparisons: every floating-point term is a real unknown inside the
                     interval the executor derived; z3 (LRA + bit-vectors) discharges
"""
import math, struct, time
from fractions import Fraction
import z3
from dump import Dump, cone

TOL = Fraction(1, 2 ** 40)


def d2f(bits):
    return struct.unpack("<d", struct.pack("<Q", bits & (2 ** 64 - 1)))[0]


class Undecided(Exception):
    pass


# polynomials: dict monomial (sorted tuple of (atom, power)) -> Fraction
def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b, lim=200000):
    if len(a) * len(b) > lim * 20:
        raise Undecided("polynomial too large")
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0) + c * d
    r = {k: v for k, v in r.items() if v != 0}
    if len(r) > lim:
        raise Undecided("polynomial too large")
    return r


def pconst(c):
    return {(): Fraction(c)} if c else {}


class Rat:
    __slots__ = ("n", "d")

    def __init__(s, n, d=None):
        s.n, s.d = n, d or {(): Fraction(1)}

    def isc(s):
        return all(m == () for m in s.n) and all(m == () for m in s.d)

    def cv(s):
        return s.n.get((), Fraction(0)) / s.d[()]


ONE = {(): Fraction(1)}


def radd(a, b, s=1):
    if a.d == b.d:
        return Rat(padd(a.n, b.n, s), a.d)
    if len(a.d) == 1 and () in a.d and len(b.d) == 1 and () in b.d:
        return Rat(padd({m: c / a.d[()] for m, c in a.n.items()}, {m: c / b.d[()] for m, c in b.n.items()}, s))
    # shared denominators are common: try divisibility by equality with one side's factor
    if b.d == ONE:
        return Rat(padd(a.n, pmul(b.n, a.d), s), a.d)
    if a.d == ONE:
        return Rat(padd(pmul(a.n, b.d), b.n, s), b.d)
    return Rat(padd(pmul(a.n, b.d), pmul(b.n, a.d), s), pmul(a.d, b.d))


def rmul(a, b):
    if a.d == b.n and b.n != ONE and a.d != ONE:
        return Rat(a.n, b.d)
    if b.d == a.n and a.n != ONE and b.d != ONE:
        return Rat(b.n, a.d)
    return Rat(pmul(a.n, b.n), pmul(a.d, b.d) if a.d != ONE and b.d != ONE else (a.d if b.d == ONE else b.d))


class Norm:
    """normal forms of the terms of one dump; atoms: variables and opaque terms"""

    def __init__(self):
        self.m = {}
        self.atoms = {}
        self.roots = {}

    def atom(self, x, name=None):
        n = name or ("%s" % x.val if x.op == "fvar" else "t%d" % x.id)
        self.atoms[n] = x
        return Rat({((n, 1),): Fraction(1)})

    def t(self, root):
        for x in cone([root]):
            if x.id not in self.m:
                self.m[x.id] = self.mk(x)
        return self.m[root.id]

    def mk(self, x):
        o = x.op
        if x.sort != 1:
            return None
        k = [self.m.get(y.id) for y in x.k]
        if o == "fconst":
            return Rat(pconst(Fraction(d2f(x.val))))
        if o == "fvar":
            return self.atom(x)
        if o == "fadd":
            return radd(k[0], k[1])
        if o == "fsub":
            return radd(k[0], k[1], -1)
        if o == "fmul":
            return rmul(k[0], k[1])
        if o == "fneg":
            return Rat({m: -c for m, c in k[0].n.items()}, k[0].d)
        if o == "fdiv":
            if not k[1].n:
                raise Undecided("division by zero")
            return rmul(k[0], Rat(k[1].d, k[1].n))
        if o in ("si2f", "ui2f", "i2f", "opq", "fite", "ffloor", "fround", "fceil", "ftrunc", "frint", "fabs", "fsqrt", "bits2f", "f32"):
            return self.atom(x)
        raise Undecided("no exact-real reading of " + o)


def same(nm, a, b, tol=TOL, solver=None):
    """'ok', or ('diff', text)"""
    A, B = nm.t(a), nm.t(b)
    l, r = pmul(A.n, B.d), pmul(B.n, A.d)
    d = padd(l, r, -1)
    if not d:
        return "ok", None
    # scale: sum of the magnitudes of the coefficients of both products
    sc = max(abs(c) for c in list(l.values()) + list(r.values()))
    s = z3.Solver()
    s.set("timeout", 10000)
    tot = z3.RealVal(0)
    for i, (m, c) in enumerate(d.items()):
        v = z3.Real("m%d" % i)
        s.add(v >= -1, v <= 1)
        tot = tot + z3.RealVal(str(c / sc)) * v
    t = z3.RealVal(str(tol))
    s.add(z3.Or(tot > t, tot < -t))
    q = s.check()
    if q == z3.unsat:
        return "ok", None
    m, c = max(d.items(), key=lambda kv: abs(kv[1]))
    return "diff", "term %s differs by %.3g" % ("*".join("%s^%d" % ve for ve in m) or "1", float(c))


def addends(x):
    """x as a sum of constant multiples of terms"""
    out, st = [], [(x, Fraction(1))]
    while st:
        y, c = st.pop()
        k = y.k
        if y.op in ("fadd", "fsub"):
            st += [(k[0], c), (k[1], c if y.op == "fadd" else -c)]
        elif y.op == "fneg":
            st.append((k[0], -c))
        elif y.op == "fmul" and k[0].op == "fconst":
            st.append((k[1], c * Fraction(d2f(k[0].val))))
        elif y.op == "fmul" and k[1].op == "fconst":
            st.append((k[0], c * Fraction(d2f(k[1].val))))
        elif y.op == "fdiv" and k[1].op == "fconst" and d2f(k[1].val) != 0:
            st.append((k[0], c / Fraction(d2f(k[1].val))))
        else:
            out.append((c, y))
    return out


def same_sum(nm, a, b, tol=TOL):
    """equality of two sums of rational functions: terms whose denominators share no variable are
    compared separately (a sum over disjoint variables vanishes only if each part is constant)"""
    g = {}
    for side, x in ((1, a), (-1, b)):
        for c, y in addends(x):
            r = nm.t(y)
            vs = frozenset(v for m in r.d for v, _ in m)
            if not r.n:
                continue
            g.setdefault(vs, []).append(Rat({m: c * side * w for m, w in r.n.items()}, r.d))
    ks = list(g)
    # merge groups whose supports meet
    root = {}

    def find(v):
        while root.setdefault(v, v) != v:
            v = root[v]
        return v
    for k in ks:
        k = sorted(k)
        for v in k[1:]:
            root[find(v)] = find(k[0])
    gg = {}
    for k, rs in g.items():
        gg.setdefault(find(min(k)) if k else None, []).extend(rs)
    n = 0
    for k, rs in gg.items():
        tot = Rat({})
        byden = {}
        for r in rs:
            byden.setdefault(tuple(sorted(r.d.items())), []).append(r)
        for l in byden.values():
            t = {}
            for r in l:
                t = padd(t, r.n)
            byd = Rat(t, l[0].d)
            tot = radd(tot, byd)
        if not tot.n:
            continue
        sc = max(abs(c) for r in rs for c in r.n.values())
        den = max(abs(c) for c in tot.d.values())
        w = max(abs(c) for c in tot.n.values()) / den
        ref = max(max(abs(c) for c in r.n.values()) / max(abs(c) for c in r.d.values()) for r in rs)
        s = z3.Solver()
        v = z3.Real("v")
        s.add(v >= -1, v <= 1, v * z3.RealVal(str(w)) > z3.RealVal(str(tol * ref * max(1, len(tot.n)))))
        if s.check() != z3.unsat:
            return "diff", "part over %s differs" % (k,)
        n += 1
    return "ok", None


def same_any(nm, a, b, tol=TOL):
    if len(addends(a)) + len(addends(b)) > 64:
        return same_sum(nm, a, b, tol)
    try:
        return same(nm, a, b, tol)
    except Undecided:
        return same_sum(nm, a, b, tol)


def literal(p):
    """path condition as (a, b, allowed orderings): 1 equal, 2 greater, 4 less"""
    neg = False
    while True:
        if p.op == "xor" and p.w == 1 and p.k[1].op == "const":
            neg ^= bool(p.k[1].val & 1)
            p = p.k[0]
        elif p.op == "eq" and p.k[1].op == "const" and p.k[0].w == 1:
            neg ^= not (p.k[1].val & 1)
            p = p.k[0]
        else:
            break
    if p.op != "fcmp":
        return None
    m = p.aux & 7
    return p.k[0], p.k[1], (7 ^ m) if neg else m


def excused(nm, o, tol):
    """the two sides differ, but the path is infeasible, or forces them equal"""
    lits = [l for l in map(literal, o["pc"]) if l]
    if len(lits) > 8:
        return False
    memo = {}

    def eq(x, y):
        if x is y:
            return True
        k = (x.id, y.id)
        if k not in memo:
            try:
                memo[k] = same_any(nm, x, y, tol)[0] == "ok"
            except Undecided:
                memo[k] = False
        return memo[k]
    for i, (a, b, m) in enumerate(lits):
        for (c, d, q) in lits[i:]:
            if eq(a, c) and eq(b, d):
                r = m & q
            elif eq(a, d) and eq(b, c):
                r = m & ((q & 1) | (2 if q & 4 else 0) | (4 if q & 2 else 0))
            else:
                continue
            if r == 0:
                return True
            if r == 1 and ((eq(o["a"], a) and eq(o["b"], b)) or (eq(o["a"], b) and eq(o["b"], a))):
                return True
    return False


def pinned(o):
    """the model of the path, with inputs that a comparison pins (exactly, or in single precision) set accordingly"""
    base, pins = dict(o["model"]), {}
    for l in map(literal, o["pc"]):
        if not l or l[2] & 7 != 1:
            continue
        for a, b in ((l[0], l[1]), (l[1], l[0])):
            if b.op != "fconst":
                continue
            if a.op == "f32" and a.k[0].op == "fvar":
                pins[a.k[0].val] = (d2f(b.val), True)
            elif a.op == "fvar":
                pins[a.val] = (d2f(b.val), False)
    if not pins:
        return [base]
    out = []
    for s in (1, -1):
        m = dict(base)
        for v, (d, single) in pins.items():
            w = d * (1 + s * 2.0 ** -25.5) if single else d
            m[v] = str(struct.unpack("<Q", struct.pack("<d", w))[0])
        out.append(m)
    return out


def rational_decider(tol=TOL, exact=False):
    def dec(chk, job, path):
        d = Dump(path)
        t0 = time.time()
        out = dict(n=0, proved=0, unknown=[], viol=[], queries=0)
        nm = Norm()
        for o in d.obl:
            out["n"] += 1
            if o["kind"] != "feq":
                r = fpabs(o, exact)
                out["queries"] += 1
                if r == "ok":
                    out["proved"] += 1
                elif isinstance(r, dict):
                    out["viol"].append((o["kind"], o["msg"], r))
                else:
                    out["unknown"].append("%s: %s" % (o["msg"], r))
                continue
            try:
                r, txt = same_any(nm, o["a"], o["b"], tol)
                out["queries"] += 1
                if r != "ok" and o["pc"] and excused(nm, o, tol):
                    r = "ok"
            except Undecided as e:
                r, txt = "?", str(e)
            if r == "ok":
                out["proved"] += 1
            elif r == "diff":
                for m in pinned(o):
                    out["viol"].append(("feq", o["msg"] + ": " + txt, m))
            else:
                out["unknown"].append("%s: %s" % (o["msg"], txt))
        out["solver_s"] = time.time() - t0
        return out
    return dec


class FpAbs:
    exact = False

    def __init__(self):
        self.m = {}
        self.nodes = {}
        self.side = []

    def t(self, root):
        for x in cone([root]):
            if x.id not in self.m:
                self.m[x.id] = self.mk(x)
                self.nodes[x.id] = x
        return self.m[root.id]

    def mk(self, x):
        o = x.op
        if x.sort == 1:
            if o == "fconst":
                return z3.RealVal(str(Fraction(d2f(x.val))))
            if o == "fneg":
                return -self.m[x.k[0].id]
            if self.exact and o in ("fadd", "fsub"):
                a, b = self.m[x.k[0].id], self.m[x.k[1].id]
                return a + b if o == "fadd" else a - b
            v = z3.Real("f%d" % x.id)
            if getattr(x, "frng", None):
                lo, hi = x.frng
                if lo > -1e300:
                    self.side.append(v >= z3.RealVal(str(Fraction(lo))))
                if hi < 1e300:
                    self.side.append(v <= z3.RealVal(str(Fraction(hi))))
            return v
        if o == "fcmp":
            a, b = self.m[x.k[0].id], self.m[x.k[1].id]
            p = x.aux & 7
            f = {1: a == b, 2: a > b, 3: a >= b, 4: a < b, 5: a <= b, 6: a != b, 7: True, 0: False}[p]
            return z3.If(f, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if o == "const":
            return z3.BitVecVal(x.val, x.w)
        if o in ("and", "or", "xor") and x.w == 1:
            a, b = self.m[x.k[0].id], self.m[x.k[1].id]
            return a & b if o == "and" else a | b if o == "or" else a ^ b
        if o == "ite" and x.w == 1:
            return z3.If(self.m[x.k[0].id] == z3.BitVecVal(1, 1), self.m[x.k[1].id], self.m[x.k[2].id])
        if x.sort == 0:
            return z3.BitVec("b%d" % x.id, x.w)
        return z3.Int("i%d" % x.id)


def fpabs(o, exact=False):
    """the obligation's condition holds whatever the (interval-bounded) FP terms are"""
    if o["cond"] is None:
        return "no condition"
    f = FpAbs()
    f.exact = exact
    s = z3.Solver()
    s.set("timeout", 10000)
    one = z3.BitVecVal(1, 1)
    for p in o["pc"]:
        s.add(f.t(p) == one)
    s.add(f.t(o["cond"]) != one)
    s.add(*f.side)
    q = s.check()
    if q != z3.sat:
        return "ok" if q == z3.unsat else str(q)
    m, out = s.model(), dict(o["model"])
    for i, x in f.nodes.items():
        v = m.eval(f.m[i])
        if x.op == "fvar" and z3.is_rational_value(v):
            d = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            out[x.val] = str(struct.unpack("<Q", struct.pack("<d", d))[0])
        elif x.op == "var" and z3.is_bv_value(v):
            out[x.val] = str(v.as_long())
    return out
