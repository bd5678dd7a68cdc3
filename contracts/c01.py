"""Linear-chain sums."""
from vt.contract import *
from .chain import *


def setup(E, with_len):
    B, N1, C, S = E.size("B"), E.size("N1"), E.size("C"), E.size("S")
    N = N1 + 1
    edge = E.tensor("phi", [B, N1, C, C])
    L = E.lengths("len", B, P(1), N) if with_len else None
    if with_len:
        assume(eq(pl(smax(L)), N))
    ln = (lambda b: app("len", b, sort="I")) if with_len else (lambda b: N)

    def leaf(b, p, i, j):
        return vite(lt(p, ln(b) - 1), vin(app("phi", b, p, i, j)), vite(eq(i, j), ONE, ZERO))
    sr = AbsSemiring(S)
    T = scan_spec(E, C, leaf)
    ST.templates = [scan_template(sr, S, B, C, T)]
    return B, N1, C, S, edge, L, T, sr


def facade(E, with_len):
    B, N1, C, S, edge, L, T, sr = setup(E, with_len)
    v = E.partition(sr, lambda: E.ts.LinearChainCRF(edge, L))
    k = E.log2(N1)
    i, j = fresh("i"), fresh("j")
    E.equals("partition is the sum of the scan product", v, [B],
             lambda b: vun(vsum(i.as_atom(), 0, C, vsum(j.as_atom(), 0, C, T(k, b, P(0), i, j)))))
    E.frame()


def run(E, with_len):
    B, N1, C, S, edge, L, T, sr = setup(E, with_len)
    ST.fn = "LinearChain.logpartition"
    v, edges = E.ts.LinearChain(sr).logpartition(edge, L)
    k = E.log2(N1)
    i, j = fresh("i"), fresh("j")
    E.equals("result is the sum of the scan product", v, [S, B],
             lambda s, b: comp(s, vsum(i.as_atom(), 0, C, vsum(j.as_atom(), 0, C, T(k, b, P(0), i, j)))))
    E.holds("the scan covers all positions", le(N1, pow2(k)))
    E.frame()


@contract("C01", "LinearChain.logpartition, no lengths", ["LinearChain.logpartition", "LinearChain._check_potentials", "_Struct._chart", "_Struct._make_chart", "_Struct._bin_length"])
def nolen(E):
    run(E, False)


@contract("C01", "LinearChain.logpartition, lengths", ["LinearChain.logpartition", "LinearChain._check_potentials", "_Struct._chart", "_Struct._make_chart", "_Struct._bin_length"])
def withlen(E):
    run(E, True)


for _l in (False, True):
    contract("C01", "LinearChainCRF.partition, " + ("lengths" if _l else "no lengths"), ["StructDistribution.partition", "StructDistribution._struct", "_Struct.sum", "LinearChain.logpartition"])(
        lambda E, l=_l: facade(E, l))
