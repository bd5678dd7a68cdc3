"""HMM and HSMM adapters."""
from vt.contract import *
from .chain import *


def ints(E, name, dims, lo, hi):
    SCHEMAS[name] = lambda args, val: [le(lo, val), le(val, hi)]
    return input_tensor(name, dims, int64)


@contract("C13", "LinearChain.hmm", ["LinearChain.hmm"])
def hmm(E):
    B, N, C, V = E.size("B"), E.size("N", 2), E.size("C"), E.size("V")
    tr, em, init = E.tensor("tr", [C, C]), E.tensor("em", [V, C]), E.tensor("init", [C])
    x = ints(E, "obs", [B, N], P(0), V - 1)
    o = lambda b, n: app("obs", b, n, sort="I")
    r = E.ts.LinearChain.hmm(tr, em, init, x)

    def edge(b, n, i, j):
        return app("tr", i, j) + app("em", o(b, n + 1), i) + nite(eq(n, 0), app("init", j) + app("em", o(b, P(0)), j), P(0))
    E.equals("edge scores", r, [B, N - 1, C, C], edge)
    # the score of a state sequence z under those edges is the joint HMM score
    b, k = fresh("b"), fresh("k")
    SCHEMAS["z"] = lambda args, val: [le(0, val), le(val, C - 1)]
    z = lambda n: app("z", n, sort="I")
    with under(le(0, b), lt(b, B)) as c:
        path = bsum(k.as_atom(), 0, N - 1, edge(b, k, z(k + 1), z(k)))
        joint = app("init", z(P(0))) + app("em", o(b, P(0)), z(P(0))) + bsum(k.as_atom(), 0, N - 1, app("em", o(b, k + 1), z(k + 1))) \
            + bsum(k.as_atom(), 0, N - 1, app("tr", z(k + 1), z(k)))
        prove("a state sequence scores init + emissions + transitions", path, joint, c)
    E.frame()


def hsmm(E, per_batch):
    B, N, K, C = E.size("B"), E.size("N"), E.size("K"), E.size("C")
    tr, dur = E.tensor("tr", [C, C]), E.tensor("dur", [C, K])
    em = E.tensor("em", [B, N, K, C])
    init = E.tensor("init", [B, C] if per_batch else [C])
    r = E.ts.SemiMarkov.hsmm(init, tr, dur, em)
    E.equals("edge scores", r, [B, N, K, C, C], lambda b, n, k, c2, c1: app("tr", c1, c2) + app("dur", c2, k) + app("em", b, n, k, c2)
             + nite(eq(n, 0), app("init", b, c1) if per_batch else app("init", c1), P(0)))
    E.frame()


contract("C13", "SemiMarkov.hsmm, shared initial scores", ["SemiMarkov.hsmm"])(lambda E: hsmm(E, False))
contract("C13", "SemiMarkov.hsmm, initial scores per batch element", ["SemiMarkov.hsmm"])(lambda E: hsmm(E, True))


def facade(E, with_len):
    """HMM(...).partition is the linear-chain sum of the adapter's edge scores."""
    B, N1, C, S, V = E.size("B"), E.size("N1"), E.size("C"), E.size("S"), E.size("V")
    N = N1 + 1
    tr, em, init = E.tensor("tr", [C, C]), E.tensor("em", [V, C]), E.tensor("init", [C])
    x = ints(E, "obs", [B, N], P(0), V - 1)
    o = lambda b, n: app("obs", b, n, sort="I")
    L = E.lengths("len", B, P(1), N) if with_len else None
    if with_len:
        assume(eq(pl(smax(L)), N))
    ln = (lambda b: app("len", b, sort="I")) if with_len else (lambda b: N)

    def edge(b, n, i, j):
        return app("tr", i, j) + app("em", o(b, n + 1), i) + nite(eq(n, 0), app("init", j) + app("em", o(b, P(0)), j), P(0))

    def leaf(b, p, i, j):
        return vite(lt(p, ln(b) - 1), vin(edge(b, p, i, j)), vite(eq(i, j), ONE, ZERO))
    sr = AbsSemiring(S)
    T = scan_spec(E, C, leaf)
    ST.templates = [scan_template(sr, S, B, C, T)]
    v = E.partition(sr, lambda: E.ts.HMM(tr, em, init, x, L))
    k = E.log2(N1)
    i, j = fresh("i"), fresh("j")
    E.equals("partition is the sum of the scan product of the edge scores", v, [B],
             lambda b: vun(vsum(i.as_atom(), 0, C, vsum(j.as_atom(), 0, C, T(k, b, P(0), i, j)))))
    E.frame()


for _l in (False, True):
    contract("C13", "HMM.partition, " + ("lengths" if _l else "no lengths"), ["HMM.__init__", "StructDistribution.partition", "LinearChain.hmm", "LinearChain.logpartition"])(
        lambda E, l=_l: facade(E, l))
