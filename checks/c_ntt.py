from vf import Job

DIMS = (512, 1024)


def L(spec, d):
    return ("lin", "linear_decider", dict(spec=spec, N=d))


def c04(c):
    c.bounds.append("N = 512 and 1024, all input polynomials (linear normal forms over Z_q); every butterfly layer unrolled")
    c.assume.append("field operations are exact (C01, C02)")
    js = []
    for d in DIMS:
        h = "zqp%d" % d
        c.harness(h, "zqp.cpp", ["DIM=%d" % d])
        for e, s in (("e_ntt", "ntt"), ("e_intt", "intt"), ("e_round", None)):
            js.append(Job(h, e, flags=["--zq"], decide=L(s, d), timeout=400, random=4))
    c.run(js)


def c05(c):
    c.bounds.append("Z_q: N = 512 and 1024, all operands, all indices; complex: every size 2..1024, exact real arithmetic; transform product: "
                    "all coefficients for N = 512, every 16th coefficient for N = 1024 (thorough: all)")
    c.assume.append("field operations are exact (C01, C02); complex arithmetic is compared in exact real arithmetic")
    js = []
    for d in DIMS:
        h = "zqp%d" % d
        c.harness(h, "zqp.cpp", ["DIM=%d" % d])
        js.append(Job(h, "e_elem", flags=["--zq"], decide=L(None, d), random=6))
        js.append(Job(h, "e_prod", flags=["--zq"], decide=L("prod", d), timeout=600, random=4))
    for lg in range(1, 11):
        js.append(Job("zqp512", "e_cpx", dict(lg=lg), decide=("real", "rational_decider", {}), random=3))
    c.run(js)


CHECKS = dict(C04=c04, C05=c05)
