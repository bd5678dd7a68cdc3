"""Semi-Markov sums: matrices over (remaining duration, label), multiplied by the binary scan."""
from vt.contract import *


def setup(E, with_len):
    B, N1, C, S = E.size("B"), E.size("N1"), E.size("C"), E.size("S")
    K1 = E.size("K1")
    N, K = N1 + 1, K1 + 1
    edge = E.tensor("phi", [B, N1, K, C, C])
    L = E.lengths("len", B, P(1), N) if with_len else None
    if with_len:
        assume(eq(pl(smax(L)), N))
    ln = (lambda b: app("len", b, sort="I")) if with_len else (lambda b: N)

    def leaf(b, p, k1, i, k2, j):
        """Row (k1, i): a segment of width k1+1 with label i starts here when k2 = 0; a running segment of k2 more steps shrinks."""
        start = vite(lt(p, ln(b) - 1), vin(app("phi", b, p, k1 + 1, i, j)), vite(conj(eq(k1, 0), eq(i, j)), ONE, ZERO))
        shift = vite(conj(eq(k1 + 1, k2), eq(i, j), lt(p, ln(b) - 1 - (k2 - 1))), ONE, ZERO)
        return vite(eq(k2, 0), start, shift)

    def unfold(k, b, p, k1, i, k2, j):
        m, c = fresh("m"), fresh("c")
        rec = vsum(m.as_atom(), 0, K1, vsum(c.as_atom(), 0, C, vtimes(
            vapp("T", k - 1, b, 2 * p + 1, k1, i, m, c), vapp("T", k - 1, b, 2 * p, m, c, k2, j))))
        return vite(eq(k, 0), leaf(b, p, k1, i, k2, j), rec)
    prover.UNFOLD["T"] = unfold
    T = lambda *a: vapp("T", *a)
    ST.templates = [template(S, B, K1, C, T, leaf)]
    return B, N1, K1, C, S, edge, L, T, AbsSemiring(S)


def template(S, B, K1, C, T, leaf):
    def tf(loop, dims, st):
        return []

    def loc(loop, name, v0, v1):
        if isinstance(v0, Tensor) and v0.dim() == 5:
            n0 = gsize(v0.groups[2])

            def at(k):
                return mk([(S,), (B,), (n0 * pow2(-k),), (K1, C), (K1, C)],
                          lambda ix: comp(ix[0][0], T(k, ix[1][0], ix[2][0], ix[3][0], ix[3][1], ix[4][0], ix[4][1])), userfloat)
            yield "scan", at
    tf.locals = loc
    return tf


def facade(E, with_len):
    B, N1, K1, C, S, edge, L, T, sr = setup(E, with_len)
    v = E.partition(sr, lambda: E.ts.SemiMarkovCRF(edge, L))
    k = E.log2(N1)
    i, j = fresh("i"), fresh("j")
    E.equals("partition is the sum of the scan product between duration 0 states", v, [B],
             lambda b: vun(vsum(i.as_atom(), 0, C, vsum(j.as_atom(), 0, C, T(k, b, P(0), P(0), i, P(0), j)))))
    E.frame()


def run(E, with_len):
    B, N1, K1, C, S, edge, L, T, sr = setup(E, with_len)
    ST.fn = "SemiMarkov.logpartition"
    v, edges = E.ts.SemiMarkov(sr).logpartition(edge, L)
    k = E.log2(N1)
    i, j = fresh("i"), fresh("j")
    E.equals("result is the sum of the scan product between duration 0 states", v, [S, B],
             lambda s, b: comp(s, vsum(i.as_atom(), 0, C, vsum(j.as_atom(), 0, C, T(k, b, P(0), P(0), i, P(0), j)))))
    E.holds("the scan covers all positions", le(N1, pow2(k)))
    E.frame()


FS = ["SemiMarkov.logpartition", "SemiMarkov._check_potentials", "_Struct._chart", "_Struct._make_chart", "_Struct._bin_length"]


@contract("C02", "SemiMarkov.logpartition, no lengths", FS)
def nolen(E):
    run(E, False)


@contract("C02", "SemiMarkov.logpartition, lengths", FS)
def withlen(E):
    run(E, True)


for _l in (False, True):
    contract("C02", "SemiMarkovCRF.partition, " + ("lengths" if _l else "no lengths"), ["StructDistribution.partition", "StructDistribution._struct", "_Struct.sum", "SemiMarkov.logpartition"])(
        lambda E, l=_l: facade(E, l))
