from vf import Job

P = ("ipoly", "ipoly_decider", {})
BL = ["--replace", "ntru_gen::approx_bit_len=hk_bitlen", "--replace",
      "unsigned long const& std::max<unsigned long>(unsigned long const&, unsigned long const&)=hk_max"]


def c15(c):
    top = 128 if c.tier != "quick" else 64
    c.bounds.append("integers of any size; whole product for N = 1 to %d, all 2N-1 coefficients; larger sizes up to 1024 by one recursion step "
                    "(the half-size products are stand-ins logged with their operands), reduction modulo x^N+1 for N = 1 to 1024" % top)
    c.assume += ["libgmp's addition, subtraction, multiplication and shift to the left are exact",
                 "for N above %d the product is decided by induction over the recursion steps" % top]
    js = []
    c.harness("karat1", "karat.cpp", ["VAR=1"])
    c.harness("karat20", "karat.cpp", ["VAR=2", "PAR=0"])
    c.harness("karat21", "karat.cpp", ["VAR=2", "PAR=1"])
    c.harness("karat3", "karat.cpp", ["VAR=3"])
    n = 1024
    while n >= 2:
        js.append(Job("karat2%d" % ((n.bit_length() - 1) & 1), "e_step", dict(n=n), decide=("ipoly", "karat_decider", {}), random=3))
        n //= 2
    n = 1024
    while n >= 1:
        js.append(Job("karat3", "e_red", dict(n=n), decide=("ipoly", "karat_decider", dict(reduced=True)), random=3))
        if n <= top:
            js.append(Job("karat1", "e_full", dict(n=n), decide=P, random=6))
        n //= 2
    c.run(js)


def c14(c):
    q = c.tier == "quick"
    k = 12 if q else 40
    c.bounds.append("integers of any size; extended gcd up to %d divisions; field norm for N = 2 to %d (real products), larger by C15; one recursion level for N = 2 to 32 "
                    "(real products and norms) and 512, 1024 (products and norms as stand-ins); reduction from any state with any quotient: N = 2 to 16, up to %d rounds, "
                    "N = 512 and 1024 one round" % (k, 16 if q else 128, 3 if q else 8))
    c.assume += ["libgmp's addition, subtraction, multiplication and shift to the left are exact; its division, shift to the right and conversion to double return anything",
                 "bit lengths and the rounded quotient are arbitrary in the reduction (quotient coefficients within ±9e15)",
                 "levels compose by induction: the recursive call and the reduction are stand-ins that log their operands"]
    for v, f in (("1", ["VAR=1"]), ("2", ["VAR=2"]), ("2b", ["VAR=2", "BIGMUL"]), ("3", ["VAR=3"]), ("3b", ["VAR=3", "BIGMUL"]), ("40", ["VAR=4", "PAR=0"]),
                 ("41", ["VAR=4", "PAR=1"]), ("50", ["VAR=5", "PAR=0"]), ("51", ["VAR=5", "PAR=1"])):
        if v != "2b" or not q:
            c.harness("ntru" + v, "ntru.cpp", f)
    js = [Job("ntru1", "e_xgcd", dict(k=k), decide=P, random=200), Job("ntru1", "e_base", dict(k=k), decide=P, random=200)]
    for n in (2, 8, 32):
        js.append(Job("ntru41", "e_solve", dict(n=n), decide=P, random=30))
    for n in (4, 16):
        js.append(Job("ntru40", "e_solve", dict(n=n), decide=P, random=30))
    js += [Job("ntru51", "e_solve", dict(n=512), decide=P, random=1), Job("ntru50", "e_solve", dict(n=1024), decide=P, random=1)]
    for n in (2, 4, 8, 16):
        js.append(Job("ntru3", "e_reduce", dict(n=n, k=3 if q else 8), flags=BL, decide=P, random=30))
    for n in (512, 1024):
        js.append(Job("ntru3b", "e_reduce", dict(n=n, k=1), flags=BL, decide=P, random=10))
    for n in (2, 4, 8, 16):
        js.append(Job("ntru2", "e_fnorm", dict(n=n), decide=P, random=10))
    if not q:
        for n in (32, 64, 128):
            js.append(Job("ntru2b", "e_fnorm", dict(n=n), decide=P, random=3, timeout=600))
    n = 1
    while n <= 512:
        js.append(Job("ntru2", "e_linear", dict(n=n), random=2))
        n *= 2
    c.run(js)


CHECKS = dict(C14=c14, C15=c15)
