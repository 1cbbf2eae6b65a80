"""Terms and obligations written by fse --dump, and their z3 translation."""
import json
import z3

Q = 12289


class N:
    __slots__ = ("id", "op", "sort", "w", "aux", "val", "k", "rng", "frng")


class Dump:
    def __init__(self, path):
        self.n = {}
        self.obl = []
        self.outs = []
        rng = {}
        with open(path) as f:
            for line in f:
                t = line.rstrip("\n").split(" ")
                if t[0] == "N":
                    x = N()
                    x.id, x.op, x.sort, x.w, x.aux = int(t[1]), t[2], int(t[3]), int(t[4]), int(t[5])
                    v = t[6]
                    x.val = v if x.op in ("var", "fvar", "ivar", "iconst", "opq") else int(v)
                    if x.op == "iconst":
                        x.val = int(v)
                    x.k = [self.n[int(i)] for i in t[7:]]
                    x.rng = None
                    x.frng = None
                    self.n[x.id] = x
                elif t[0] == "R":
                    self.n[int(t[1])].rng = (t[2], int(t[3]), int(t[4]))
                elif t[0] == "F":
                    self.n[int(t[1])].frng = (float(t[2]), float(t[3]))
                elif t[0] == "D":
                    # the message holds no blanks (written with '_')
                    ids = [int(i) for i in t[4:]]
                    g = lambda i: self.n[i] if i >= 0 else None
                    self.obl.append(dict(path=int(t[1]), kind=t[2], msg=t[3], cond=g(ids[0]), a=g(ids[1]), b=g(ids[2]),
                                         pc=[self.n[i] for i in ids[3:]], model={}))
                elif t[0] == "M":
                    self.obl[-1]["model"] = json.loads(line[2:])
                elif t[0] == "O":
                    self.outs.append((int(t[1]), t[2], int(t[3]), self.n[int(t[4])]))


def cone(roots):
    seen, st, out = set(), list(roots), []
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        st.extend(x.k)
    out.sort(key=lambda x: x.id)
    return out


class BV:
    """bit-vector translation; algebraic nodes become fresh variables"""

    def __init__(self):
        self.m = {}
        self.side = []
        self.vars = {}

    def t(self, root):
        for x in cone([root]):
            if x.id not in self.m:
                self.m[x.id] = self.mk(x)
        return self.m[root.id]

    def b(self, e):
        return z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

    def cond(self, x):
        e = self.t(x)
        return e == z3.BitVecVal(1, 1)

    def mk(self, x):
        k = [self.m[y.id] for y in x.k]
        o = x.op
        if x.sort != 0 or (o in ("f2si", "f2ui", "fcmp", "fbits", "icmp", "itobv", "opq") or o.startswith("z") and o != "zext"):
            if o.startswith("z") and x.sort == 0 and o != "zext":
                v = z3.BitVec("alg%d" % x.id, 16)
                self.side.append(z3.ULT(v, Q))
                self.vars["alg%d" % x.id] = (v, x)
                return v
            if x.sort == 0:
                v = z3.BitVec("alg%d" % x.id, x.w)
                self.vars["alg%d" % x.id] = (v, x)
                return v
            return None
        if o == "const":
            return z3.BitVecVal(x.val, x.w)
        if o == "var":
            v = z3.BitVec(x.val, x.w)
            self.vars[x.val] = (v, x)
            if x.rng:
                s, lo, hi = x.rng
                if s == "u":
                    self.side += [z3.UGE(v, lo), z3.ULE(v, hi)]
                elif x.w < 64:
                    self.side += [v >= lo, v <= hi]
            return v
        f = dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b, udiv=z3.UDiv, urem=z3.URem,
                 sdiv=lambda a, b: a / b, srem=z3.SRem, xor=lambda a, b: a ^ b, shl=lambda a, b: a << b,
                 lshr=z3.LShR, ashr=lambda a, b: a >> b, concat=z3.Concat)
        f["and"] = lambda a, b: a & b
        f["or"] = lambda a, b: a | b
        if o in f:
            return f[o](*k)
        if o == "extract":
            return z3.Extract(x.aux + x.w - 1, x.aux, k[0])
        if o == "zext":
            return z3.ZeroExt(x.w - x.k[0].w, k[0])
        if o == "sext":
            return z3.SignExt(x.w - x.k[0].w, k[0])
        if o == "ite":
            return z3.If(k[0] == z3.BitVecVal(1, 1), k[1], k[2])
        c = dict(eq=lambda a, b: a == b, ult=z3.ULT, ule=z3.ULE, slt=lambda a, b: a < b, sle=lambda a, b: a <= b)
        if o in c:
            return self.b(c[o](*k))
        raise ValueError("no BV translation for " + o)


def model_of(m, bv):
    out = {}
    for name, (v, x) in bv.vars.items():
        if x.op == "var":
            r = m.eval(v, model_completion=True)
            out[name] = str(r.as_long())
    return out
