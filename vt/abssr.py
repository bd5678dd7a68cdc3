"""The semiring contract as an executable abstract semiring over uninterpreted values.

Structure code is verified against this class only; every concrete semiring is verified separately (C06)."""
import builtins
from .terms import *
from .state import *
from .stensor import *
from .stensor import mk, bto, bcast, bool_, userfloat, DEVICE
from . import prover
from .sops import gsize

SV = P(var("s*"))


def tov(e):
    """Semiring value whose s*-component is e."""
    if isinstance(e, Cond):
        raise Unsupported("boolean used as a semiring value")
    if e.is_const():
        return vraw(e)
    a = e.as_atom()
    if a is not None:
        if a.kind == "comp" and a.args[0] is SV and SV.as_atom() not in fv(a.args[1]):
            return a.args[1]
        if a.kind == "ite" and SV.as_atom() not in fv(a.args[0]):
            return vite(a.args[0], tov(a.args[1]), tov(a.args[2]))
    if SV.as_atom() not in fv(e):
        return vraw(e)
    raise Unsupported("not a semiring value: %r" % (e,))


class AbsSemiring:
    """Commutative semiring (zero, one, plus, times) with tensors of shape (size, ...)."""
    name = "any commutative semiring"

    def __init__(self, S):
        self.S = P(S)
        assume(le(1, self.S), le(0, SV), lt(SV, self.S))

    # -- values
    def pack(self, t):
        if not isinstance(t, Tensor):
            raise Unsupported("semiring operation on %r" % type(t))
        if t.dim() == 0:
            raise ShadowError("semiring tensor without semiring axis")
        if not same(gsize(t.groups[0]), self.S):
            raise Unsupported("first axis is not the semiring axis: %r" % (t.groups,))
        rd = t.reader()
        g0 = t.groups[0]
        s = (SV,) if g0 else ()
        if len(g0) > 1:
            raise Unsupported("merged semiring axis")
        return t.groups[1:], lambda idx: tov(rd((s,) + idx))

    def unpack(self, gs, f):
        return mk([(self.S,)] + list(gs), lambda idx: comp(idx[0][0], f(idx[1:])), userfloat)

    def const(self, v):
        return mk([(self.S,)], lambda idx: comp(idx[0][0], v), userfloat)

    @property
    def zero(self):
        return self.const(ZERO)

    @property
    def one(self):
        return self.const(ONE)

    def size(self):
        return mkint(self.S)

    # -- operations
    def _fold(self, gs, d, f):
        """Semiring sum over axis d (counted without the semiring axis)."""
        g = gs[d]
        rest = list(gs[:d]) + list(gs[d + 1:])

        def out(idx):
            from .sops import fold
            return fold(g, lambda k: f(idx[:d] + (k,) + idx[d:]), vplus, vsum, ZERO)
        return rest, out

    def sum(self, xs, dim=-1):
        d = xs._d(dim)
        if d == 0:
            raise Unsupported("sum over the semiring axis")
        gs, f = self.pack(xs)
        return self.unpack(*self._fold(gs, d - 1, f))

    def _bin(self, a, b):
        ga, fa = self.pack(a)
        gb, fb = self.pack(b)
        n = builtins.max(len(ga), len(gb))
        pad = lambda g: [()] * (n - len(g)) + list(g)
        # the semiring axis is first: ranks must agree, as in torch broadcasting
        if len(ga) != len(gb):
            raise Unsupported("times of operands of different rank")
        gs = [bgroup(x, y) for x, y in zip(pad(ga), pad(gb))]
        ma = [gmap(g, h) for g, h in zip(ga, gs)]
        mb = [gmap(g, h) for g, h in zip(gb, gs)]
        return gs, lambda idx: vtimes(fa(tuple(m(i) for m, i in zip(ma, idx))), fb(tuple(m(i) for m, i in zip(mb, idx))))

    def mul(self, a, b):
        return self.unpack(*self._bin(a, b))

    def times(self, *ls):
        cur = ls[0]
        for l in ls[1:]:
            cur = self.mul(cur, l)
        return cur

    def plus(self, a, b):
        ga, fa = self.pack(a)
        gb, fb = self.pack(b)
        if len(ga) != len(gb):
            raise Unsupported("plus of operands of different rank")
        for x, y in zip(ga, gb):
            if not same(gsize(x), gsize(y)):
                raise Unsupported("plus of operands of different shape")
        return self.unpack(ga, lambda idx: vplus(fa(idx), fb(idx)))

    def prod(self, xs, dim=-1):
        raise Unsupported("prod in the abstract semiring")

    def matmul(self, a, b):
        if a.dim() < 3 or b.dim() < 3:
            raise Unsupported("matmul rank")
        ka, kb = gsize(a.groups[-1]), gsize(b.groups[-2])
        if not same(ka, kb) and not truth(eq(ka, kb)):
            raise ShadowError("matmul: inner sizes differ %r %r" % (ka, kb))
        gs, f = self._bin(a.unsqueeze(-1), b.unsqueeze(-3))
        return self.unpack(*self._fold(gs, len(gs) - 2, f))

    def dot(self, a, b):
        ka, kb = gsize(a.groups[-1]), gsize(b.groups[-1])
        if not same(ka, kb) and not truth(eq(ka, kb)):
            raise ShadowError("dot: sizes differ %r %r" % (ka, kb))
        gs, f = self._bin(a, b)
        return self.unpack(*self._fold(gs, len(gs) - 1, f))

    def fill(self, c, mask, v):
        gs, fc = self.pack(c)
        gv, fv_ = self.pack(v)
        if gv:
            raise Unsupported("fill value with extra axes")
        z = fv_(())
        cg = [(self.S,)] + list(gs)
        tgt = bcast([mask, c])
        if len(tgt) != len(cg):
            raise Unsupported("fill mask of larger rank")
        if mask.dtype.kind != "b":
            raise ShadowError("where expected condition to be a boolean tensor")
        m = bto(mask, tgt)
        ms = [gmap(g, h) for g, h in zip(gs, tgt[1:])]

        def f(idx):
            c_ = m(((SV,),) + idx)
            old = lambda: fc(tuple(mm(i) for mm, i in zip(ms, idx)))
            if SV.as_atom() in fv(c_):
                c_ = self.converted_mask(c_, old, z)
            return ite_v(c_, lambda: z, old)
        return self.unpack(tgt[1:], f)

    def converted_mask(self, c, old, z):
        """Mask derived from a converted mask: in components where it is arbitrary it may only choose between zero and one."""
        kind = lambda b: "same" if b.args[0] == "cmask" else "junk" if b.args[0].startswith("cjunk") else None
        pick = lambda d: subst_bapp(c, lambda b: d.get(kind(b), b))
        m = pick({"same": TRUE})
        t, f = pick({"same": FALSE, "junk": TRUE}), pick({"same": FALSE, "junk": FALSE})
        if SV.as_atom() in fv((m, t, f)):
            raise Unsupported("mask depends on the semiring component")
        with under(conj(t, neg(f))) as ctx:
            if not ctx.dead():
                for leaf in leaves(prover.simp(old(), ctx)) + leaves(z):
                    if leaf not in (ZERO, ONE):
                        raise Unsupported("converted mask selects a value other than zero and one")
        return m

    def convert(self, x):
        if not isinstance(x, Tensor):
            raise Unsupported("convert of a list of potentials")
        rd = x.reader()
        if x.dtype.kind == "b":
            # boolean masks: component s is the mask itself, or arbitrary where zero and one agree in component s (checked per semiring, C06)
            def f(idx):
                s_, m = idx[0][0], rd(idx[1:])
                same_ = bapp("cmask", s_)
                return disj(conj(same_, m), conj(neg(same_), m, bapp("cjunk1", s_)), conj(neg(same_), neg(m), bapp("cjunk0", s_)))
            return mk([(self.S,)] + list(x.groups), f, bool_)
        if x.dtype.kind != "f":
            raise Unsupported("convert of integers")
        r = self.unpack(x.groups, lambda idx: vconv(rd(idx)))
        r.st.dtype = x.dtype
        return r

    def unconvert(self, x):
        gs, f = self.pack(x)
        return mk(gs, lambda idx: vun(f(idx)), userfloat)


def leaves(v):
    return leaves(v.args[1]) + leaves(v.args[2]) if v.kind == "ite" else [v]


def subst_bapp(c, f):
    if c.kind == "bapp":
        return f(c)
    if c.kind == "not":
        return neg(subst_bapp(c.args[0], f))
    if c.kind in ("and", "or"):
        return (conj if c.kind == "and" else disj)(*[subst_bapp(x, f) for x in c.args])
    if c.kind in ("all", "any"):
        return (ball if c.kind == "all" else bany)(c.args[0], c.args[1], c.args[2], subst_bapp(c.args[3], f))
    return c


def vconv(e):
    """convert of a number."""
    a = e.as_atom()
    if a is not None and a.kind == "ite":
        return vite(a.args[0], vconv(a.args[1]), vconv(a.args[2]))
    if a is not None and a.kind == "unconv":
        return vin(e)
    return vin(e)


def vun(v):
    if v.kind == "in":
        return v.args[0]
    if v.kind == "ite":
        return nite(v.args[0], vun(v.args[1]), vun(v.args[2]))
    return P(atom("unconv", v))


def ite_v(c, fa, fb):
    c = prover.simp_cond(c, ST.ctx)
    if c is TRUE:
        return fa()
    if c is FALSE:
        return fb()
    with under(c) as k:
        a = None if k.dead() else fa()
    with under(neg(c)) as k:
        b = None if k.dead() else fb()
    if a is None:
        return b
    if b is None:
        return a
    return vite(c, a, b)
