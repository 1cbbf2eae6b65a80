from vf import Job
import c_keys

DIMS = (512, 1024)
X = ("real", "rational_decider", {"exact": True})
ROUND = "rounding of floating-point arithmetic is outside: terms are read in exact real arithmetic (C19 bounds it for the transforms)"


def fp(c, d, v, par=None):
    n = "fp%d_%d%s" % (d, v, "" if par is None else "p%d" % par)
    if n not in c.h:
        c.harness(n, "fp.cpp", ["DIM=%d" % d, "VAR=%d" % v] + ([] if par is None else ["PAR=%d" % par]))
    return n


def c17(c):
    c.bounds.append("N = 512 and 1024; f, g, F, G with coefficients within ±127, transforms are arbitrary complex vectors, quotient coefficients within ±1e6")
    c.assume += ["the transforms are stand-ins (C19): transform of a key polynomial = vector of free complex numbers, of its negative the negated vector", ROUND,
                 "in keygen the NTRU solver, Gram matrix, tree and public key are stand-ins (C14, C18, C13)"]
    js = []
    for d in DIMS:
        js.append(Job(fp(c, d, 1), "e_G", decide=X, random=6))
        js.append(Job(fp(c, d, 1), "e_B", decide=X, random=4))
        js.append(Job(fp(c, d, 4), "e_keygen", decide=X, random=4))
    c.run(js)


def levels(c, entry):
    js = []
    for d, lg in ((1024, 10), (512, 9)):
        for l in range(lg):
            js.append(Job(fp(c, d, 2, (l & 1) ^ 1), entry, dict(level=l), decide=X, random=4, timeout=300))
    return js


def c18(c):
    c.bounds.append("N = 512 and 1024: each level of the tree (sizes 2 to 1024) with every entry of the Gram matrix symbolic, induction over the levels; "
                    "storage and leaf normalisation: whole trees of height 1 to 10, leaves symbolic; Gram matrix: all bases")
    c.assume += [ROUND, "the recursive call is a stand-in: the claim for the whole tree follows by induction over the levels"]
    js = levels(c, "e_ldl")
    for d in DIMS:
        js.append(Job(fp(c, d, 2, 1), "e_gram", decide=X, random=4))
    for h in range(10, 0, -1):
        js.append(Job(fp(c, 512, 3), "e_storage", dict(h=h), decide=X, random=2))
    for d in DIMS:
        js.append(Job(c_keys.keys(c, d, 4), "e_tree", random=1))
    c.run(js)


def c19(c):
    c.bounds.append("sizes 2 to 1024; every input in [-1, 1] symbolic; tolerance 1e-13*N (transform), 1e-13 (inverse), 2^-40 relative (split, merge)")
    c.assume.append("IEEE double rounding is bounded by the standard model |fl(x) - x| <= 2^-53 |x| applied to every operation (no overflow, no underflow)")
    js = []
    for lg in range(10, 0, -1):
        js.append(Job("fftt", "e_ifft", dict(lg=lg), decide=("fftlin", "fftlin_decider", dict(inverse=True)), random=2))
        js.append(Job("fftt", "e_halves", dict(lg=lg), decide=X, random=2))
        js.append(Job("fftt", "e_fft", dict(lg=lg), decide=("fftlin", "fftlin_decider", {}), random=2))
    c.harness("fftt")
    c.run(js)


def c20(c):
    c.bounds.append("N = 512 and 1024: each level (sizes 1 to 1024) with all targets, tree entries and child results symbolic, induction over the levels; leaf samples within ±100000")
    c.assume += [ROUND, "the recursive calls and the integer sampler (C23) are stand-ins recording their arguments",
                 "node positions are compared with those used by the tree construction (C18) at every level"]
    js = levels(c, "e_samp")
    js.append(Job(fp(c, 512, 2, 0), "e_leaf", decide=X, random=6))
    js.append(Job(fp(c, 1024, 2, 1), "e_leaf", decide=X, random=6))
    c.run(js)


def c29(c):
    c.bounds.append("N = 512 and 1024; f, g within ±6144, transforms arbitrary; threshold: up to 3 candidates with arbitrary quality")
    c.assume += ["the transform is a stand-in (C19)", ROUND]
    js = []
    for d in DIMS:
        js.append(Job(fp(c, d, 1), "e_gs", decide=X, random=8, timeout=300))
        js.append(Job(fp(c, d, 1), "e_norm", decide=X, random=4))
    js += c_keys.gen_jobs(c, True)
    c.run(js)


CHECKS = dict(C17=c17, C18=c18, C19=c19, C20=c20, C29=c29)
