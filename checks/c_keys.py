from vf import Job

DIMS = (512, 1024)
RAT = ("real", "rational_decider", {})
RATX = ("real", "rational_decider", {"exact": True})


def L(d):
    return ("lin", "linear_decider", dict(N=d))


def keys(c, d, v, *defs):
    n = "keys%d_%d%s" % (d, v, "r" if defs else "")
    if n not in c.h:
        c.harness(n, "keys.cpp", ["DIM=%d" % d, "VAR=%d" % v] + list(defs))
    return n


def c13(c):
    c.bounds.append("N = 512 and 1024; all f, g with coefficients within ±6144; invertibility: every vector of evaluations at once; "
                    "public key: symbolic forms of all N evaluations of h")
    c.assume += ["field operations are exact (C01, C02) and the transforms are the NTT (C04)",
                 "h*f = g follows where no evaluation of f is zero: x * (1/x) = 1 (C02)"]
    js = []
    for d in DIMS:
        h = keys(c, d, 1)
        nt = ["--zq", "--replace", "ntt::ntt=hk_ntt"]
        js.append(Job(h, "e_inv", flags=nt, random=30))
        js.append(Job(h, "e_inv_arg", flags=nt, random=20))
        js.append(Job(h, "e_pub_arg", flags=nt + ["--replace", "ntt::intt=hk_intt"], random=4))
        js.append(Job(h, "e_pub", flags=["--zq"], decide=L(d), timeout=400, random=4))
    c.run(js)


def gen_jobs(c, live):
    th = c.tier == "thorough"
    js = []
    for d in DIMS:
        h = keys(c, d, 2)
        r = 12 if live else 6
        if live:
            js.append(Job(h, "e_live", dict(k=1, st=1, tag=0), flags=["--ieee"], random=r, timeout=300))
            js.append(Job(h, "e_live", dict(k=2, st=8, tag=d - 8), flags=["--ieee"], random=r, timeout=300))
            js.append(Job(h, "e_live", dict(k=3, st=64, tag=0), flags=["--ieee"], random=r, timeout=300))
        else:
            js.append(Job(h, "e_gen", dict(k=1, st=1 if d == 512 or th else 2, tag=0), flags=["--ieee"], random=r, timeout=600))
            js.append(Job(h, "e_gen", dict(k=1, st=2 if not th else 1, tag=d - 2 if not th else d - 1), flags=["--ieee"], random=r, timeout=600))
            js.append(Job(h, "e_gen", dict(k=2, st=16, tag=0), flags=["--ieee"], random=r, timeout=300))
            js.append(Job(h, "e_gen", dict(k=3, st=64, tag=0), flags=["--ieee"], random=r, timeout=300))
        js.append(Job(h, "e_live" if live else "e_gen", dict(k=2, st=64, tag=64, half=1), flags=["--ieee"], random=r, timeout=300))
        js.append(Job(h, "e_live" if live else "e_gen", dict(k=262, late=260, st=64, tag=0), flags=["--ieee"], random=2, timeout=300))
    return js


def c16(c):
    c.bounds.append("N = 512 and 1024; up to 3 candidates (also 2 after 260 failing for each reason by turns); sampled coefficients within ±600 and F, G within ±2^40, all at once with 1 candidate, "
                    "every 16th (64th) coefficient with 2 (3) candidates; every outcome of invertibility, quality, NTRU solving; encoding: all f, g, F, h in range")
    c.assume += ["sampling, invertibility (C13), quality (C29), NTRU solving (C14) and the public key (C13) are stand-ins with arbitrary results",
                 "each sample carries its number in one coefficient (two positions are tried)"]
    js = gen_jobs(c, False)
    for d in DIMS:
        js.append(Job(keys(c, d, 5), "e_keygen", random=4, timeout=400))
    c.run(js)


def c25(c):
    c.bounds.append("N = 512 and 1024; up to 3 attempts per signature, also after 260 (40) attempts that fail by turns for either reason, two signatures from one generator; every norm in [0, 1e9], every outcome of "
                    "compression, every candidate coefficient in [-3000, 3000]; message length 0, 5 and any up to 2^40")
    c.assume += ["hashing (C12), transforms (C19), tree sampling (C20), compression (C08) are stand-ins returning arbitrary values",
                 "sums of the two half norms are read as exact; the bound has relative tolerance 1e-12"]
    js = []
    for d in DIMS:
        h = "sign%d" % d
        c.harness(h, "sign.cpp", ["DIM=%d" % d])
        for p in (dict(k=3), dict(k=2, calls=2), dict(k=1, mlen=0, used=7), dict(k=2, big=1, smin=1, calls=2, used=40)):
            js.append(Job(h, "e_sign", p, decide=RATX, random=15))
        js.append(Job(h, "e_sign", dict(k=262 if d == 512 else 42, late=260 if d == 512 else 40), decide=RATX, random=2, timeout=300))
    c.run(js)


def c26(c):
    c.bounds.append("N = 512 and 1024, all bases B, all c, all sampled z0, z1 in transform representation (every index), up to 2 attempts; exact real arithmetic")
    c.assume += ["transforms, hashing, tree sampling and compression are stand-ins (C19, C12, C20, C08)",
                 "s0 + s1*h = c follows from s = (c,0) - zB with B = [[g,-f],[G,-F]], h*f = g (C13) and fG - gF = q (C14, C17)",
                 "rounding of floating-point arithmetic is outside: terms are read in exact real arithmetic"]
    js = []
    for d in DIMS:
        h = "sign%d" % d
        c.harness(h, "sign.cpp", ["DIM=%d" % d])
        for p in (dict(k=1), dict(k=2, calls=1)):
            js.append(Job(h, "e_content", p, decide=RATX, random=6, timeout=300))
        c.harness("fp%d" % d, "fp.cpp", ["DIM=%d" % d, "VAR=1"])
        js.append(Job("fp%d" % d, "e_norm", decide=RAT, random=6))
    c.run(js)


def c27(c):
    c.harness("prng")
    c.bounds.append("2 and 3 generators; every 32-bit output of the device; up to 3 reads of 0 to 201 bytes interleaved over two generators, all "
                    "combinations; one sequence of 9 reads up to 512 bytes")
    c.assume += ["std::random_device is the source of entropy: its outputs are free variables", "SHAKE256 is a stand-in whose output bytes are free variables"]
    js = [Job("prng", "e_seed", dict(inst=k), decide=("seed", "seed_decider", dict(inst=k)), random=1, timeout=300) for k in (1, 2, 3)]
    js += [Job("prng", "e_read", dict(cnt=3, max=m), random=4, timeout=300) for m in (3, 4)]
    js += [Job("prng", "e_long", random=2)]
    c.run(js)


def c30(c):
    c.bounds.append("N = 512 and 1024; every byte of keys, message and signature symbolic; decodable and undecodable keys; message length 0, 5 and any up to 2^40; "
                    "all wrong header bytes through the real decoders")
    c.assume += ["decoding (C06, C07), basis reconstruction (C17), tree (C18), signing (C25) and verification (C11) are stand-ins that check their arguments"]
    js = []
    for d in DIMS:
        h = keys(c, d, 3)
        for m in (dict(mlen=0), dict(mlen=5), dict(big=1)):
            js.append(Job(h, "e_sign", m, random=4))
            js.append(Job(h, "e_verify", m, random=8))
        js.append(Job(h, "e_len", random=1))
        for pk in (0, 1):
            js.append(Job(keys(c, d, 3, "REALDEC"), "e_bad", dict(pk=pk), random=3))
        js.append(Job(keys(c, d, 4), "e_tree", random=1))
    c.run(js)


CHECKS = dict(C13=c13, C16=c16, C25=c25, C26=c26, C27=c27, C30=c30)
