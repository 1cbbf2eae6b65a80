from vf import Job

Q = 12289


def c01(c):
    c.harness("ff")
    c.bounds.append("all operands in [0,12289) (constructor: all 16-bit values); no loops")
    js = [Job("ff", e, ub=u, qt=60000, timeout=200, random=20) for e in ("e_mul", "e_mula", "e_sqr", "e_ctor", "e_add", "e_sub", "e_cmp")
          for u in ((False, True) if c.tier == "thorough" else (False,))]
    c.run(js)


def c02(c):
    c.harness("ff")
    n = 16
    w = (Q + n - 1) // n
    c.bounds.append("all 12289 elements, split into %d windows; Euclid unrolled until every path ends" % n)
    js = [Job("ff", "e_inv", dict(lo=i * w, hi=min(Q - 1, i * w + w - 1)), flags=["--quick", "150"], qt=60000, timeout=500, random=5) for i in range(n)]
    js.append(Job("ff", "e_div", flags=["--zq"], random=20))
    c.run(js)


def c03(c):
    c.harness("ff")
    c.bounds.append("all bases, all 64-bit exponents, every bit length one path")
    c.assume.append("ff_t multiplication is exact (decided by C01)")
    c.run([Job("ff", "e_pow", flags=["--zq"], decide=("zq", "power_decider", {}), timeout=200, random=40)])


CHECKS = dict(C01=c01, C02=c02, C03=c03)
