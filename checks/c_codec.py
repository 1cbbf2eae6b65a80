from vf import Job

DIMS = (512, 1024)
CLZ = ["--replace", "std::countl_zero<unsigned char>=hk_clz", "--replace", "std::__countl_zero<unsigned char>=hk_clz"]


def _h(c, kind="codec"):
    for d in DIMS:
        c.harness("%s%d" % (kind, d), kind + ".cpp", ["DIM=%d" % d])


def c06(c):
    _h(c)
    c.bounds.append("N = 512 and 1024, every coefficient / every byte of the key symbolic")
    js = []
    for d in DIMS:
        for u in (False, True):
            js += [Job("codec%d" % d, "e_pk_encode", ub=u, random=5), Job("codec%d" % d, "e_pk_decode", ub=u, random=5, timeout=400)]
    c.run(js)


def c07(c):
    _h(c)
    c.bounds.append("N = 512 and 1024, every coefficient (|f|,|g| <= 31 or 15, |F| <= 127) / every byte of the key symbolic")
    js = []
    for d in DIMS:
        for u in (False, True):
            js += [Job("codec%d" % d, "e_sk_encode", ub=u, random=5), Job("codec%d" % d, "e_sk_decode", ub=u, random=5, timeout=400)]
    c.run(js)


def c08(c):
    _h(c)
    c.bounds.append("N = 512 and 1024; all coefficients have symbolic low bits; a window of one or two coefficients has a fully symbolic "
                    "value in [-5833, 5833] (window of two: [-300, 300]), the unary lengths of the others follow a pattern; windows at every "
                    "bit alignment, at both ends, and with total lengths on both sides of the exact-fit boundary")
    c.assume.append("outside the window the sign and the unary length of a coefficient follow the pattern")
    js = []
    th = c.tier == "thorough"
    for d in DIMS:
        h = "codec%d" % d
        slack = 8 * (666 if d == 512 else 1280) - 328 - 9 * d  # zeros available in total
        one = [0, 1, 2, 3, 4, 5, 6, 7, d // 2, d - 1] if not th else list(range(0, d, 7)) + [d - 1]
        for w in one:
            R = 5833 if w in (0, 5, d - 1) or th else 1100
            js.append(Job(h, "e_compress", dict(w=w, n=1, R=R), timeout=600, random=1))
        for w in (3, d - 2) if not th else range(0, d - 1, 29):
            js.append(Job(h, "e_compress", dict(w=w, n=2, R=300, pat=7, seed=c.seed), timeout=600, random=1))
        for k, w in ((3, 0), (8, d - 1), (1, d // 3)):
            js.append(Job(h, "e_compress", dict(w=w, n=1, R=1500, pat=4 if w else 6, sum=slack - k), timeout=600, random=1))
        for w in (0, d - 1):  # all bits at the maximum
            js.append(Job(h, "e_compress", dict(w=w, n=1, R=600, pat=2), timeout=600, random=1))
    js.sort(key=lambda j: -j.params["R"] * (2 if "1024" in j.harness else 1))
    c.run(js)


def c09(c):
    _h(c)
    c.bounds.append("N = 512 and 1024; the body is a valid encoding overlaid by a window of 2-3 fully symbolic bytes; windows at both ends, "
                    "in the middle, across the end of the encoding, exact-fit and overlong bodies, long unary runs; besides, windows of 64 coefficients with symbolic sign and low bits together with all padding bits; header and salt symbolic")
    c.assume.append("outside the window the body is one concrete valid encoding (several patterns)")
    js = []
    th = c.tier == "thorough"
    for d in DIMS:
        h = "codec%d" % d
        L = (666 if d == 512 else 1280) - 41
        slack = 8 * L - 9 * d
        end = 9 * d // 8
        ws = [0, 1, 2, 5, L // 3, end - 3, end - 1, end, L - 3] if not th else sorted(set(list(range(0, L - 3, 5)) + [end - 2, end - 1, end, L - 3]))
        for w in ws:
            js.append(Job(h, "e_decompress", dict(w=w, n=3 if w < L - 2 else 2, pat=0, seed=c.seed), timeout=500, random=2))
        for s in (slack - 1, slack, slack + 1, slack - 9):
            for w in (L - 3, L - 1, 0):
                js.append(Job(h, "e_decompress", dict(w=w, n=min(3, L - w), pat=4, sum=max(0, s), seed=2), timeout=500, random=2))
        for w in (0, L // 2, L - 3):
            js.append(Job(h, "e_decompress", dict(w=w, n=3, pat=5 if d == 1024 else 4, sum=0, seed=3), timeout=500, random=2))
            js.append(Job(h, "e_decompress", dict(w=w, n=3, pat=0, trunc=d - 2, seed=4), timeout=500, random=2))
        for s0, s in ((0, 0), (d // 2 - 30, slack - 20), (d - 64, slack // 2)) if not th else [(i, slack // 2) for i in range(0, d, 64)]:
            js.append(Job(h, "e_decompress", dict(n=0, pat=4, sum=s, s0=s0, sn=64, pad=1), flags=CLZ, timeout=500, random=2))
        for bad in (0, 1):
            js.append(Job(h, "e_decode_sig", dict(bad=bad, seed=c.seed), random=2))
    c.run(js)


CHECKS = dict(C06=c06, C07=c07, C08=c08, C09=c09)
