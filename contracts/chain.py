"""Linear chains: shared specification of the binary scan."""
from vt.contract import *


def scan_spec(E, C, leaf):
    """T(k,b,p,i,j): product of the leaf matrices p*2^k .. (p+1)*2^k-1, later positions on the left."""
    def unfold(k, b, p, i, j):
        m = fresh("m")
        rec = vsum(m.as_atom(), 0, C, vtimes(vapp("T", k - 1, b, 2 * p + 1, i, m), vapp("T", k - 1, b, 2 * p, m, j)))
        return vite(eq(k, 0), leaf(b, p, i, j), rec)
    prover.UNFOLD["T"] = unfold
    return lambda k, b, p, i, j: vapp("T", k, b, p, i, j)


def scan_template(sr, S, B, C, T):
    """After k rounds the chart holds T(k, ...) for 2^(L-k) blocks."""
    def tf(loop, dims, st):
        return []

    def loc(loop, name, v0, v1):
        if isinstance(v0, Tensor) and v0.dim() == 5:
            n0 = gsize(v0.groups[2])

            def at(k):
                return mk([(S,), (B,), (n0 * pow2(-k),), (C,), (C,)],
                          lambda ix: comp(ix[0][0], T(k, ix[1][0], ix[2][0], ix[3][0], ix[4][0])), userfloat)
            yield "scan", at
    tf.locals = loc
    return tf
