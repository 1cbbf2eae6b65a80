from vf import Job
from c_codec import CLZ

DIMS = (512, 1024)
NT = ["--replace", "ntt::ntt=hk_ntt", "--replace", "ntt::intt=hk_ntt"]


def c10(c):
    c.bounds.append("N = 512 and 1024; public keys: all bytes symbolic; signatures: header and salt symbolic, windows of 3 symbolic bytes over "
                    "valid, truncated, overlong and exact-fit bodies; norm computation: all s2 in [-60000, 60000], all canonical s1; "
                    "overflow, shift, conversion and bounds traps compiled in; every access checked against its buffer")
    c.assume.append("outside the window the signature body is one concrete string (several patterns)")
    th = c.tier == "thorough"
    js = []
    for d in DIMS:
        c.harness("codec%d" % d, "codec.cpp", ["DIM=%d" % d])
        c.harness("verif%d" % d, "verif.cpp", ["DIM=%d" % d])
        h, v = "codec%d" % d, "verif%d" % d
        L = (666 if d == 512 else 1280) - 41
        slack = 8 * L - 9 * d
        js.append(Job(h, "e_pk_decode", ub=True, random=3, timeout=400))
        for bad in (0, 1):
            js.append(Job(h, "e_decode_sig", dict(bad=bad, seed=c.seed), ub=True, random=2))
        js.append(Job(h, "e_decompress", dict(n=0, pat=4, sum=slack - 20, s0=d - 40, sn=40, nosg=1, pad=1), flags=CLZ, ub=True, timeout=400, random=2))
        ws = [(w, 0, 0, d) for w in ((0, 3, L // 2, 9 * d // 8 - 1, L - 3) if not th else range(0, L - 2, 9))]
        ws += [(w, p, s, t) for w in (L - 3, L - 2, L - 1) for p, s, t in ((4, slack, d), (4, slack + 1, d), (4, slack - 7, d), (0, 0, d - 2), (1, 0, 1), (6, slack - 3, d))]
        for w, p, s, t in ws:
            js.append(Job(h, "e_decompress", dict(w=w, n=min(3, L - w), pat=p, sum=max(0, s), trunc=t, seed=2), ub=True, timeout=400, random=2))
        for wi in (0, d // 2, d - 1):
            for neg in (0, 1):
                js.append(Job(v, "e_large", dict(wi=wi, neg=neg), flags=NT + ["--zq"], ub=True, random=2))
    c.run(js)


def c11(c):
    c.bounds.append("N = 512 and 1024; all s2 with |coefficient| <= floor(sqrt(bound)), all c, all h at once; one coefficient of s2 "
                    "beyond that radius (up to 60000) for every other coefficient; message length 0, 3 and any up to 2^40")
    c.assume += ["field operations are exact (C01), transforms are the NTT (C04)",
                 "signature decoding (C09) and hashing (C12) are stand-ins returning arbitrary polynomials"]
    th = c.tier == "thorough"
    js = []
    for d in DIMS:
        v = "verif%d" % d
        c.harness(v, "verif.cpp", ["DIM=%d" % d])
        js.append(Job(v, "e_verify", flags=["--zq"], decide=("norm", "norm_decider", {}), timeout=300, random=40))
        for m in (dict(mlen=0), dict(big=1)):
            js.append(Job(v, "e_verify", m, flags=["--zq"], decide=("norm", "norm_decider", {}), timeout=300, random=2))
        js.append(Job(v, "e_verify", dict(dec=0), flags=["--zq"], random=4))
        js.append(Job(v, "e_verify", dict(dec=0, half=1), flags=["--zq"], random=4))
        for wi in ((0, 1, d // 2, d - 1) if not th else range(d)):
            for neg in (0, 1):
                js.append(Job(v, "e_large", dict(wi=wi, neg=neg), flags=NT + ["--zq"], random=2))
    c.run(js)


def c12(c):
    th = c.tier == "thorough"
    n = 8 if not th else 11
    c.bounds.append("N = 512 and 1024; windows of %d fully symbolic 16-bit words (all accept/reject combinations) at the start, around block "
                    "boundaries and at the end; every other word is any accepted value or, by 6 patterns (up to 3000 rejections in a row), any rejected value; message lengths "
                    "0..300, all bytes symbolic, and any length up to 2^33 by address" % n)
    c.assume.append("the SHAKE256 submodule is absent: its output bytes are free variables and what it absorbs is logged")
    js = []
    for d in DIMS:
        h = "hash%d" % d
        c.harness(h, "hash.cpp", ["DIM=%d" % d])
        ws = [0, 64, 66, d - 9, d - 4] if not th else [0] + list(range(8, d, 20)) + [d - 9, d - 4, d - 2]
        for w in ws:
            for pat in ((0, 4) if w else (0,)):
                js.append(Job(h, "e_hash", dict(w=w, n=n, pat=pat, mlen=5), random=3, timeout=600))
        for pat in range(6):
            for m in ((0, 1, 32, 300) if pat in (0, 3) else (7,)):
                js.append(Job(h, "e_hash", dict(pat=pat, mlen=m), random=3))
        js.append(Job(h, "e_hash", dict(pat=1, mlen=9, slen=0), random=1))
        js.append(Job(h, "e_word", random=20))
        js.append(Job(h, "e_len", random=3))
    c.run(js)


CHECKS = dict(C10=c10, C11=c11, C12=c12)
