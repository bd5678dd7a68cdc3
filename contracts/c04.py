"""Span trees (CKY_CRF)."""
from vt.contract import *


def inside(phi, B, N, NT):
    """I(b,i,j): sum over binary bracketings of words i..j with one label per span."""
    def label(b, i, j):
        t = fresh("nt")
        return vsum(t.as_atom(), 0, NT, vin(phi(b, i, j, t)))

    def unfold(b, i, j):
        k = fresh("k")
        rec = vtimes(vsum(k.as_atom(), 0, j - i, vtimes(vapp("I", b, i, i + k), vapp("I", b, i + k + 1, j))), label(b, i, j))
        return vite(eq(i, j), label(b, i, i), rec)
    prover.UNFOLD["I"] = unfold
    return lambda b, i, j: vapp("I", b, i, j)


def charts(S, N, spec):
    """Chart invariants: after k iterations all spans narrower than k+1 are final, the rest is zero."""
    def tf(loop, dims, st):
        if len(dims) != 4:
            return

        def A(k, fl):
            s, b, i, d = fl
            return nite(conj(lt(d, k + 1), lt(i + d, N)), comp(s, spec(b, i, i + d)), comp(s, ZERO))

        def Bc(k, fl):
            s, b, j, e = fl
            d = N - 1 - e
            return nite(conj(lt(d, k + 1), le(0, j - d)), comp(s, spec(b, j - d, j)), comp(s, ZERO))
        yield "left chart", A
        yield "right chart", Bc
    return tf


def setup(E, with_len):
    B, N, NT, S = E.size("B"), E.size("N"), E.size("NT"), E.size("S")
    edge = E.tensor("phi", [B, N, N, NT])
    L = E.lengths("len", B, P(1), N) if with_len else None
    I = inside(lambda b, i, j, t: app("phi", b, i, j, t), B, N, NT)
    ST.templates = [charts(S, N, I)]
    sr = AbsSemiring(S)
    return B, N, NT, S, edge, L, I, sr


def facade(E, with_len):
    B, N, NT, S, edge, L, I, sr = setup(E, with_len)
    v = E.partition(sr, lambda: E.ts.TreeCRF(edge, L))
    E.equals("partition is the inside sum of words 0..length-1", v, [B],
             lambda b: vun(I(b, P(0), (app("len", b, sort="I") if with_len else N) - 1)))
    E.frame()


def run(E, with_len):
    B, N, NT, S, edge, L, I, sr = setup(E, with_len)
    ST.fn = "CKY_CRF.logpartition"
    v, edges = E.ts.CKY_CRF(sr).logpartition(edge, L)
    E.equals("result is the inside sum of words 0..length-1", v, [S, B],
             lambda s, b: comp(s, I(b, P(0), (app("len", b, sort="I") if with_len else N) - 1)))
    E.frame()


@contract("C04", "CKY_CRF.logpartition, no lengths", ["CKY_CRF.logpartition", "CKY_CRF._check_potentials", "Chart"])
def c04_nolen(E):
    run(E, False)


@contract("C04", "CKY_CRF.logpartition, lengths", ["CKY_CRF.logpartition", "CKY_CRF._check_potentials", "Chart"])
def c04_len(E):
    run(E, True)


for _l in (False, True):
    contract("C04", "TreeCRF.partition, " + ("lengths" if _l else "no lengths"), ["StructDistribution.partition", "StructDistribution._struct", "_Struct.sum", "CKY_CRF.logpartition"])(
        lambda E, l=_l: facade(E, l))
