from vf import Job

RAT = ("real", "rational_decider", {})

HB = ["--replace", "samplerz::approx_exp=hk_exp"]
HZ = ["--replace", "samplerz::ber_exp(double, double, prng::prng_t&)=hk_ber",
      "--replace", "samplerz::base_sampler(prng::prng_t&)=hk_base_rng",
      "--replace", "samplerz::ber_exp(double, double, unsigned char const*, unsigned long)=hk_ber_buf",
      "--replace", "samplerz::base_sampler(std::array<unsigned char, 9ul>&&)=hk_base"]


def c21(c):
    c.harness("samp")
    c.bounds.append("all 2^72 inputs; loop of 18 comparisons fully unrolled")
    c.assume.append("the SHAKE256 submodule is absent: its output bytes are free variables")
    js = [Job("samp", e, ub=u, qt=60000, random=20) for e in ("e_base", "e_base_rng") for u in (False, True)]
    c.run(js)


def c22(c):
    c.harness("samp")
    th = c.tier == "thorough"
    ss = list(range(0, 130)) if th else [0, 1, 2, 3, 5, 8, 10, 21, 40, 61, 62, 63, 64, 65, 100, 127, 200]
    c.bounds.append("x in (s ln2, (s+1) ln2) for s in %s, and x within 2^-50 relative of s ln2; all ccs in [0.5,1); all 63-bit values of the "
                    "exponential; all random bytes; buffers of 1 to 9 bytes" % ss)
    c.assume.append("the exponential (decided by C28) is replaced by a free 63-bit value")
    js = []
    for s in ss:
        js.append(Job("samp", "e_ber_rng", dict(s=s), flags=HB, random=3, decide=RAT))
        for n in ((8,) if s not in (0, 3, 63) and not th else (1, 2, 7, 8, 9)):
            js.append(Job("samp", "e_ber_buf", dict(s=s, len=n), flags=HB, random=3, decide=RAT))
    for s in ([1, 2, 3, 7, 62, 63, 64, 90] if not th else range(1, 130)):
        for b in (0, 1):
            js.append(Job("samp", "e_ber_gap", dict(s=s, buf=b), flags=HB, random=1, decide=RAT))
    c.run(js)


def c23(c):
    c.harness("samp")
    th = c.tier == "thorough"
    zs = range(19) if th else (0, 1, 2, 5, 18)
    c.bounds.append("every centre mu in [k, k+1) for k in 0, 3, -1, -4, 500, -500, 5000 (thorough: more), every sigma' and sigma_min in the "
                    "admissible ranges, base samples %s, both signs, 0 to 3 and 300 rejections" % list(zs))
    c.assume.append("base sampler and Bernoulli trial (decided by C21, C22) are replaced by free outcomes")
    js = []
    for k, neg in [(0, 0), (3, 0), (1, 1), (4, 1), (500, 0), (500, 1), (5000, 1)] + ([(7, 0), (31, 1), (100, 0), (100000, 0), (100000, 1)] if th else []):
        for z in zs:
            for b in (0, 1):
                for rej in ((0, 1, 3) if z == 5 or th else (0, 1) if z == 1 else (0,)):
                    for e in ("e_z_rng", "e_z_buf"):
                        js.append(Job("samp", e, dict(k=k, neg=neg, z=z, b=b, rej=rej), flags=HZ, random=2, decide=RAT))
    for e in ("e_z_rng", "e_z_buf"):
        for z in zs:
            js.append(Job("samp", e, dict(k=1, neg=1, z=z, b=z % 2, rej=1, low=1), flags=HZ, random=2, decide=RAT))
        js.append(Job("samp", e, dict(k=3, neg=0, z=1, b=0, rej=300), flags=HZ, random=2, decide=RAT))
    c.run(js)


def c24(c):
    c.harness("samp")
    c.bounds.append("all pairs of 72-bit operands, all 9-byte strings")
    js = [Job("samp", e, ub=u, qt=60000, random=20) for e in ("e_u72_add", "e_u72_sub", "e_u72_cmp", "e_u72_bytes") for u in (False, True)]
    c.run(js)


def c28(c):
    c.harness("samp")
    c.bounds.append("all 2^128 operand pairs of the multiplication, all 126-bit products, all x and ccs in [0, 1), 12 Horner steps unrolled")
    c.assume.append("in e_exp the limb multiplication is replaced by the exact product, which e_mul proves it returns")
    js = [Job("samp", "e_mul", qt=60000, random=20), Job("samp", "e_top63", qt=60000, random=20),
          Job("samp", "e_exp", flags=["--replace", "samplerz::full_mul_u64=hk_mul", "--no-defer"], qt=60000, random=40)]
    js += [Job("samp", "e_exp_step", dict(u=u), qt=120000, timeout=300, random=0) for u in range(1, 13)]
    c.run(js)


CHECKS = dict(C21=c21, C22=c22, C23=c23, C24=c24, C28=c28)
