"""Symbolic tensors: symbolic sizes, mutable shared storage, views, elements as terms."""
import builtins
import sys
from fractions import Fraction
from .terms import *
from . import terms as T
from .state import *
from . import prover


# ------------------------------------------------------------------ symbolic python scalars

def pl(x):
    """Integer/real python value, SymInt or 0-dim tensor -> Poly."""
    if isinstance(x, Poly):
        return x
    if isinstance(x, SymInt):
        return x.p
    if isinstance(x, (bool, int, float, Fraction)):
        return P(x)
    if isinstance(x, Tensor):
        if x.dim() == 0:
            e = x.elem(())
            return b2n(e) if isinstance(e, Cond) else e
        if builtins.all(not g for g in x.groups):
            e = x.elem(((),) * x.dim())
            return b2n(e) if isinstance(e, Cond) else e
    if isinstance(x, SymBool):
        return b2n(x.c)
    raise Unsupported("not a scalar: %r" % (type(x),))


def mkint(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return c if isinstance(c, int) else float(c)
    return SymInt(p)


class SymInt:
    """Symbolic number (integer unless its polynomial is real)."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "SymInt(%r)" % self.p

    def _bin(self, o, f):
        if isinstance(o, Tensor):
            return NotImplemented
        if isinstance(o, (tuple, list, str)) or o is None:
            return NotImplemented
        return mkint(f(self.p, pl(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return self.__rmul__(o)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, list):
            from .slist import repeat
            return repeat(o, self.p)
        if isinstance(o, tuple):
            raise Unsupported("tuple repeated a symbolic number of times")
        return self._bin(o, lambda a, b: b * a)

    def __neg__(self):
        return mkint(-self.p)

    def __floordiv__(self, o):
        return self._bin(o, ifloordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: ifloordiv(b, a))

    def __mod__(self, o):
        return self._bin(o, ifmod)

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: ifmod(b, a))

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a)

    def __pow__(self, o):
        if isinstance(o, int) and o >= 0:
            r = P(1)
            for _ in range(o):
                r = r * self.p
            return mkint(r)
        raise Unsupported("power")

    def __rlshift__(self, o):
        if isinstance(o, int) and truth(le(0, self.p)):
            return mkint(P(o) * pow2(self.p))
        raise Unsupported("shift")

    def bit_length(self):
        from .storch import bit_length
        return bit_length(self.p)

    def __abs__(self):
        return mkint(nite(lt(self.p, 0), -self.p, self.p))

    def __int__(self):
        raise Unsupported("int() of a symbolic integer")

    def __rpow__(self, o):
        if o == 2:
            return mkint(pow2(self.p))
        raise Unsupported("power")

    def _cmp(self, o, f):
        if isinstance(o, Tensor):
            return NotImplemented
        if o is None or isinstance(o, (str, tuple, list)):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            o = NINF if o < 0 else -NINF
        return mkbool(f(self.p, pl(o)))

    def __lt__(self, o):
        return self._cmp(o, lt)

    def __le__(self, o):
        return self._cmp(o, le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: le(b, a))

    def __eq__(self, o):
        return self._cmp(o, eq)

    def __ne__(self, o):
        return self._cmp(o, ne)

    def __hash__(self):
        raise Unsupported("hash of a symbolic integer")

    def __bool__(self):
        return truth(ne(self.p, 0))

    def __index__(self):
        raise Unsupported("symbolic integer used as a concrete index")

    def __float__(self):
        raise Unsupported("float() of a symbolic integer")

    def item(self):
        return self


def ifloordiv(a, b):
    r = prover.split_divmod(a, b, ST.ctx)
    return r[0] if r else idiv(a, b)


def ifmod(a, b):
    x = P(a).as_atom()
    if x is not None and x.kind == "ite" and is_int(P(a)):
        return nite(x.args[0], ifmod(x.args[1], b), ifmod(x.args[2], b))
    r = prover.split_divmod(a, b, ST.ctx)
    return r[1] if r else imod(a, b)


class SymBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return truth(self.c)

    def __and__(self, o):
        return mkbool(conj(self.c, cb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(disj(self.c, cb(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(neg(self.c))

    def __eq__(self, o):
        o = cb(o)
        return mkbool(disj(conj(self.c, o), conj(neg(self.c), neg(o))))

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = None

    def item(self):
        return self

    def __repr__(self):
        return "SymBool(%r)" % self.c


def cb(o):
    if isinstance(o, SymBool):
        return o.c
    if isinstance(o, Cond):
        return o
    if isinstance(o, Tensor):
        e = o.elem(((),) * o.dim())
        return e if isinstance(e, Cond) else n2b(e)
    return TRUE if o else FALSE


def mkbool(c):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    d = None if ST.raw else ST.ctx.decide(c)
    if d is not None:
        return d
    return SymBool(c)


# ------------------------------------------------------------------ dtypes

class DType:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind      # kind: f, i, b
        self.is_floating_point = kind == "f"

    def __repr__(self):
        return "torch." + self.name


float32 = DType("float32", "f")
float64 = DType("float64", "f")
userfloat = DType("userfloat", "f")
int64 = DType("int64", "i")
int32 = DType("int32", "i")
uint8 = DType("uint8", "i")
bool_ = DType("bool", "b")


class Size(tuple):
    def __new__(cls, xs=()):
        return tuple.__new__(cls, xs)

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return Size(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return Size(tuple(self) + tuple(o))

    def __radd__(self, o):
        return Size(tuple(o) + tuple(self))

    def __eq__(self, o):
        if not isinstance(o, tuple) or len(o) != len(self):
            return False
        r = True
        for a, b in zip(self, o):
            e = (a == b)
            if e is False:
                return False
            if e is not True:
                r = e if r is True else (r & e)
        return r

    def __ne__(self, o):
        e = self == o
        return (not e) if isinstance(e, bool) else ~e

    __hash__ = None

    def numel(self):
        p = P(1)
        for a in self:
            p = p * pl(a)
        return mkint(p)


def gsize(g):
    p = P(1)
    for a in g:
        p = p * a
    return p


# ------------------------------------------------------------------ elements

def ite(c, fa, fb):
    """Conditional on thunks, resolved under the current context."""
    c = prover.simp_cond(c, ST.ctx)
    if c is TRUE:
        return fa()
    if c is FALSE:
        return fb()
    with under(c) as k:
        a = None if k.dead() else fa()
    with under(neg(c)) as k:
        b = None if k.dead() else fb()
    if a is None:
        return b
    if b is None:
        return a
    return mkite(c, a, b)


def mkite(c, a, b):
    if isinstance(a, Cond) or isinstance(b, Cond):
        a = a if isinstance(a, Cond) else n2b(a)
        b = b if isinstance(b, Cond) else n2b(b)
        if a is b:
            return a
        return disj(conj(c, a), conj(neg(c), b))
    return nite(c, a, b)


def num(e):
    return b2n(e) if isinstance(e, Cond) else e


def boolean(e):
    return e if isinstance(e, Cond) else n2b(e)


def ndet(p):
    """Element cut from the autograd graph."""
    if not ST.track_det or isinstance(p, Cond):
        return p
    if p.is_const() or p is NINF:
        return p
    a = p.as_atom()
    if a is not None:
        if a.kind == "comp":
            return comp(a.args[0], vdet(a.args[1]))
        if a.kind == "ite":
            return nite(a.args[0], ndet(a.args[1]), ndet(a.args[2]))
        if a.kind == "det":
            return p
    if is_int(p):
        return p
    return P(atom("det", p))


def undet(p):
    a = p.as_atom() if isinstance(p, Poly) else None
    if a is None:
        return None
    if a.kind == "det":
        return a.args[0]
    if a.kind == "comp" and a.args[1].kind == "det":
        return comp(a.args[0], a.args[1].args[0])
    return None


def restore_data(new, old):
    """Write through `.data`: an element written back to itself keeps its graph."""
    if not ST.track_det or isinstance(new, Cond):
        return new
    if new is ndet(old) or new is old:
        return old
    a = new.as_atom()
    if a is not None and a.kind == "ite":
        c = a.args[0]
        oa = ndet_simplify(old, c)
        ob_ = ndet_simplify(old, neg(c))
        return nite(c, restore_data(a.args[1], oa), restore_data(a.args[2], ob_))
    if a is not None and a.kind == "comp" and a.args[1].kind == "ite":
        s, v = a.args
        c = v.args[0]
        x = restore_data(comp(s, v.args[1]), ndet_simplify(old, c))
        y = restore_data(comp(s, v.args[2]), ndet_simplify(old, neg(c)))
        p, q = x.as_atom(), y.as_atom()
        if p is not None and q is not None and p.kind == q.kind == "comp" and p.args[0] is q.args[0] is s:
            return comp(s, vite(c, p.args[1], q.args[1]))
        return nite(c, x, y)
    ctx = ST.ctx
    if prover.holds_eq(new, ndet(old), ctx):
        return old
    return new


def ndet_simplify(old, c):
    return prover.simp(old, ST.ctx.plus(c))


class Storage:
    __slots__ = ("fn", "dims", "dtype", "id", "name", "memo", "input", "__weakref__")

    def __init__(self, dims, fn, dtype, name=None, inp=False):
        self.dims, self.fn, self.dtype = tuple(dims), fn, dtype
        self.id = ST.tick()
        self.name = name
        self.memo = {}
        self.input = inp

    def get(self, idx, fn=None):
        fn = fn or self.fn
        key = (id(fn), idx, ST.ctx.id)
        r = self.memo.get(key)
        if r is None:
            ST.check_time()
            r = fn(idx)
            self.memo[key] = r
            self.memo[("keep", id(fn))] = fn
        return r

    def set(self, fn):
        ST.journal.append((self, self.fn))
        self.fn = fn


def rollback(mark, born):
    """Undo the writes since mark; what was created after `born` belongs to one run of the body and keeps its content."""
    while len(ST.journal) > mark:
        o, old = ST.journal.pop()
        if o.id > born:
            continue
        if isinstance(o, Storage):
            o.fn = old
        else:
            o._restore(old)


def flat(idx):
    return tuple(p for g in idx for p in g)


def regroup(fl, groups):
    out = []
    i = 0
    for g in groups:
        out.append(tuple(fl[i:i + len(g)]))
        i += len(g)
    return tuple(out)


class Grad:
    """Grad function object of a custom autograd Function."""

    def __init__(self, cls, ctx, args):
        self.cls, self.ctx, self.args = cls, ctx, args


class Device:
    type = "cpu"

    def __eq__(self, o):
        return True

    def __hash__(self):
        return 0


DEVICE = Device()
SL = slice(None)


class Tensor:
    __array_priority__ = 1000

    def __init__(self, st, groups, fwd=None, inv=None, isdata=False, copyish=False):
        self.st = st
        self.groups = [tuple(g) for g in groups]
        self.fwd = fwd or flat
        self.inv = inv if inv is not None or fwd is not None else (lambda fl, gs=tuple(self.groups): (TRUE, regroup(fl, gs)))
        self.isdata = isdata
        self.copyish = copyish
        self._rg = None
        self.grad_fn = None
        self.grad = None
        self.tag = None

    # ---- basic info
    def dim(self):
        return len(self.groups)

    ndim = property(dim)
    ndimension = dim

    @property
    def shape(self):
        return Size(mkint(gsize(g)) for g in self.groups)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def numel(self):
        return self.shape.numel()

    @property
    def dtype(self):
        return self.st.dtype

    @property
    def device(self):
        return DEVICE

    @property
    def is_cuda(self):
        return False

    @property
    def requires_grad(self):
        return SymBool(bapp("requires_grad", P(self.st.id))) if self._rg is None and self.st.input else bool(self._rg)

    @requires_grad.setter
    def requires_grad(self, v):
        self._rg = v

    def requires_grad_(self, v=True):
        self._rg = bool(v) if not isinstance(v, SymBool) else None
        return self

    def __repr__(self):
        return "Tensor(%s, %s)" % (list(self.shape), self.dtype)

    def __len__(self):
        s = self.shape[0]
        if isinstance(s, int):
            return s
        raise Unsupported("len() of a symbolic dimension")

    def __hash__(self):
        return id(self)

    # ---- element access
    def reader(self):
        fn, st, fwd, isd = self.st.fn, self.st, self.fwd, self.isdata

        def rd(idx):
            e = st.get(fwd(idx), fn)
            return ndet(e) if isd else e
        return rd

    def elem(self, idx):
        e = self.st.get(self.fwd(idx))
        return ndet(e) if self.isdata else e

    def ranges(self, idx):
        return [c for g, ix in zip(self.groups, idx) for n, i in zip(g, ix) for c in (le(0, i), lt(i, n))]

    def fresh_idx(self, names=None):
        return tuple(tuple(fresh("i") for _ in g) for g in self.groups)

    # ---- functional construction
    def map(self, f, dtype=None):
        rd = self.reader()
        return mk(self.groups, lambda idx: f(rd(idx)), dtype or self.dtype)

    # ---- views
    def _view(self, groups, g, ginv=None, copyish=None):
        fwd, inv = self.fwd, self.inv
        nfwd = lambda idx: fwd(g(idx))
        ninv = None
        if inv is not None and ginv is not None:
            def ninv(fl):
                c, ix = inv(fl)
                if c is FALSE:
                    return FALSE, None
                c2, ix2 = ginv(ix)
                return conj(c, c2), ix2
        t = Tensor(self.st, groups, nfwd, ninv, self.isdata, self.copyish if copyish is None else copyish)
        if ninv is None:
            t.inv = None
        t._rg = self._rg
        return t

    @property
    def data(self):
        t = self._view(self.groups, lambda i: i, lambda i: (TRUE, i))
        t.isdata = True
        t._rg = False
        return t

    def detach(self):
        return self.data

    def clone(self):
        rd = self.reader()
        return mk(self.groups, rd, self.dtype)

    def contiguous(self):
        if self.fwd is flat:
            return self
        rd = self.reader()
        t = mk(self.groups, rd, self.dtype)
        t.copyish = True
        t._rg = self._rg
        return t

    def _d(self, d, extra=0):
        d = pl(d).const() if not isinstance(d, int) else d
        if d is None:
            raise Unsupported("symbolic axis")
        n = self.dim() + extra
        if not -n <= d < n and not (n == 0 and d in (0, -1)):
            raise ShadowError("Dimension out of range %d for %d" % (d, n))
        return d % n if n else 0

    def unsqueeze(self, d):
        d = self._d(d, 1)
        gs = self.groups[:d] + [()] + self.groups[d:]
        return self._view(gs, lambda i: i[:d] + i[d + 1:], lambda i: (TRUE, i[:d] + ((),) + i[d:]))

    def squeeze(self, d=None):
        if d is None:
            t = self
            for i in reversed(range(self.dim())):
                if truth(eq(gsize(t.groups[i]), 1)):
                    t = t.squeeze(i)
            return t
        d = self._d(d)
        g = self.groups[d]
        if g:
            if not truth(eq(gsize(g), 1)):
                return self
            z = tuple(P(0) for _ in g)
            return self._view(self.groups[:d] + self.groups[d + 1:], lambda i: i[:d] + (z,) + i[d:],
                              lambda i: (TRUE, i[:d] + i[d + 1:]))
        return self._view(self.groups[:d] + self.groups[d + 1:], lambda i: i[:d] + ((),) + i[d:],
                          lambda i: (TRUE, i[:d] + i[d + 1:]))

    def permute(self, *ds):
        if len(ds) == 1 and isinstance(ds[0], (tuple, list)):
            ds = tuple(ds[0])
        ds = [self._d(d) for d in ds]
        if sorted(ds) != list(range(self.dim())):
            raise ShadowError("permute")
        inv = [ds.index(j) for j in range(len(ds))]
        return self._view([self.groups[d] for d in ds], lambda i: tuple(i[inv[j]] for j in range(len(ds))),
                          lambda i: (TRUE, tuple(i[d] for d in ds)))

    def transpose(self, a, b):
        a, b = self._d(a), self._d(b)
        ds = list(range(self.dim()))
        ds[a], ds[b] = ds[b], ds[a]
        return self.permute(*ds)

    def t(self):
        return self.transpose(0, 1)

    @property
    def T(self):
        return self.permute(*reversed(range(self.dim())))

    def expand(self, *sizes):
        if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)):
            sizes = tuple(sizes[0])
        n = len(sizes)
        if n < self.dim():
            raise ShadowError("expand")
        src = [()] * (n - self.dim()) + self.groups
        off = n - self.dim()
        gs = []
        keep = []
        for j, s in enumerate(sizes):
            p = pl(s)
            if p.const() == -1:
                gs.append(src[j])
                keep.append(True)
            elif src[j] == () and p.const() != 1:
                gs.append((p,))
                keep.append(False)
            else:
                if not same(gsize(src[j]), p):
                    if src[j] and truth(eq(gsize(src[j]), 1)):
                        gs.append((p,))
                        keep.append(None)
                        continue
                    if decide(eq(gsize(src[j]), p)) is False:
                        raise ShadowError("expand: %r to %r" % (gsize(src[j]), p))
                    if not truth(eq(gsize(src[j]), p)):
                        raise ShadowError("expand: %r to %r" % (gsize(src[j]), p))
                gs.append(src[j])
                keep.append(True)
        if all(k is True for k in keep) and off == 0:
            return self._view(gs, lambda i: i, lambda i: (TRUE, i))

        def g(i):
            return tuple(i[j] if keep[j] else (tuple(P(0) for _ in src[j])) for j in range(off, n))
        t = self._view(gs, g, None)
        return t

    def expand_as(self, o):
        t = self.expand(*o.shape)
        t.groups = [tuple(og) if len(og) != len(sg) and False else sg for og, sg in zip(o.groups, t.groups)]
        return t

    def view(self, *sizes):
        if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)):
            sizes = tuple(sizes[0])
        if len(sizes) == 1 and isinstance(sizes[0], DType):
            raise Unsupported("view(dtype)")
        return reshape(self, sizes)

    def reshape(self, *sizes):
        if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)):
            sizes = tuple(sizes[0])
        t = reshape(self, sizes)
        if self.fwd is not flat:
            t.copyish = True
        return t

    def view_as(self, o):
        return self.view(*o.shape)

    def flatten(self, start_dim=0, end_dim=-1):
        a, b = self._d(start_dim), self._d(end_dim)
        s = list(self.shape)
        n = P(1)
        for x in s[a:b + 1]:
            n = n * pl(x)
        return self.reshape(*(s[:a] + [mkint(n)] + s[b + 1:]))

    def diagonal(self, offset=0, dim1=0, dim2=1):
        d1, d2 = self._d(dim1), self._d(dim2)
        off = pl(offset)
        n1, n2 = gsize(self.groups[d1]), gsize(self.groups[d2])
        if truth(le(0, off)):
            o1, o2 = P(0), off
        else:
            o1, o2 = -off, P(0)
        a, b = n1 - o1, n2 - o2
        if same(a, b):
            n = a
        elif truth(le(a, b)):
            n = a
        else:
            n = b
        rest = [j for j in range(self.dim()) if j not in (d1, d2)]
        one1, one2 = not self.groups[d1], not self.groups[d2]
        gs = [self.groups[j] for j in rest] + [(n,) if n.const() != 1 else ()]
        for d in (d1, d2):
            if len(self.groups[d]) > 1:
                raise Unsupported("diagonal of a merged dimension")

        def g(i):
            k = i[-1][0] if i[-1] else P(0)
            out = [None] * (len(rest) + 2)
            for j, r in enumerate(rest):
                out[r] = i[j]
            out[d1] = () if one1 else (k + o1,)
            out[d2] = () if one2 else (k + o2,)
            return tuple(out)

        def ginv(ix):
            x = ix[d1][0] if ix[d1] else P(0)
            y = ix[d2][0] if ix[d2] else P(0)
            k = x - o1
            c = conj(eq(k, y - o2), le(0, k), lt(k, n))
            return c, tuple(ix[r] for r in rest) + ((() if n.const() == 1 else (k,)),)
        return self._view(gs, g, ginv)

    def select(self, d, i):
        return self[(SL,) * self._d(d) + (i,)]

    def narrow(self, d, start, length):
        d = self._d(d)
        return self[(SL,) * d + (slice(start, mkint(pl(start) + pl(length))),)]

    def unbind(self, dim=0):
        d = self._d(dim)
        n = gsize(self.groups[d]).const()
        if n is None:
            from .slist import SymList
            return SymList(gsize(self.groups[d]), lambda i: self.select(d, mkint(i)))
        return tuple(self.select(d, i) for i in range(n))

    def __iter__(self):
        n = gsize(self.groups[0]).const()
        if n is None:
            raise Unsupported("iteration over a symbolic dimension outside an instrumented loop")
        return iter([self[i] for i in range(n)])

    def unfold(self, *a):
        raise Unsupported("unfold")

    def __getitem__(self, ind):
        return getitem(self, ind)

    def __setitem__(self, ind, val):
        setitem(self, ind, val)

    # ---- writes
    def _write(self, rd):
        """Overwrite every element of this view by rd(idx)."""
        if self.copyish:
            raise Unsupported("write to a tensor that may or may not be a copy")
        if self.inv is None:
            raise Unsupported("write through an expanded view")
        st, old, inv, isd = self.st, self.st.fn, self.inv, self.isdata
        kind = st.dtype.kind

        def fn(fl):
            c, ix = inv(fl)
            def new():
                e = rd(ix)
                e = boolean(e) if kind == "b" else num(e)
                if isd:
                    e = restore_data(e, st.get(fl, old))
                return e
            return ite(c, new, lambda: st.get(fl, old))
        st.set(fn)

    def fill_(self, v):
        e = scalar_elem(v)
        e = conv(e, self.dtype)
        self._write(lambda idx: e)
        return self

    def zero_(self):
        return self.fill_(0)

    def copy_(self, o):
        self[...] = o
        return self

    def masked_fill_(self, mask, v):
        m = bcast_reader(mask, self)
        rd = self.reader()
        e = conv(scalar_elem(v), self.dtype)
        self._write(lambda idx: ite(boolean(m(idx)), lambda: e, lambda: rd(idx)))
        return self

    def masked_fill(self, mask, v):
        gs = bcast([self, mask])
        a, m = bto(self, gs), bto(mask, gs)
        e = conv(scalar_elem(v), self.dtype)
        return mk(gs, lambda idx: ite(boolean(m(idx)), lambda: e, lambda: a(idx)), self.dtype)

    def _iop(self, o, f):
        r = f(self, o)
        narrowing(self.dtype, r)
        m = bcast_reader(r, self)
        self._write(m)
        return self

    def add_(self, o):
        return self._iop(o, lambda a, b: a + b)

    def mul_(self, o):
        return self._iop(o, lambda a, b: a * b)

    def sub_(self, o):
        return self._iop(o, lambda a, b: a - b)

    def div_(self, o):
        return self._iop(o, lambda a, b: a / b)

    def __iadd__(self, o):
        return self.add_(o)

    def __isub__(self, o):
        return self.sub_(o)

    def __imul__(self, o):
        return self.mul_(o)

    def clamp_(self, *a, **k):
        return self._iop(None, lambda x, _: x.clamp(*a, **k))

    # ---- arithmetic
    def __add__(self, o):
        return arith(self, o, lambda a, b: a + b)

    __radd__ = __add__

    def add(self, o, alpha=1):
        return self + (o if alpha == 1 else o * alpha)

    def __sub__(self, o):
        return arith(self, o, lambda a, b: a - b)

    sub = __sub__

    def __rsub__(self, o):
        return arith(self, o, lambda a, b: b - a)

    def __mul__(self, o):
        if self.dtype.kind == "b" and isinstance(o, Tensor) and o.dtype.kind == "b":
            return elementwise([self, o], lambda a, b: conj(a, b), bool_)
        return arith(self, o, lambda a, b: a * b)

    __rmul__ = __mul__
    mul = __mul__

    def __truediv__(self, o):
        r = arith(self, o, lambda a, b: a / b)
        if r.dtype.kind != "f":
            r.st.dtype = float32
        return r

    div = __truediv__

    def __rtruediv__(self, o):
        return arith(self, o, lambda a, b: b / a)

    def __floordiv__(self, o):
        return arith(self, o, ifloordiv)

    def __mod__(self, o):
        return arith(self, o, ifmod)

    def __neg__(self):
        return self.map(lambda a: -a)

    def __pow__(self, o):
        if isinstance(o, int) and o >= 0:
            r = P(1)
            def f(a):
                r = P(1)
                for _ in range(o):
                    r = r * a
                return r
            return self.map(f)
        raise Unsupported("power")

    pow = __pow__

    def __invert__(self):
        if self.dtype.kind != "b":
            raise Unsupported("bitwise not of integers")
        return self.map(lambda a: neg(a))

    logical_not = __invert__

    def __and__(self, o):
        if not isinstance(o, Tensor):
            o = scalar_tensor(o)
        if self.dtype.kind != "b" or o.dtype.kind != "b":
            raise Unsupported("bitwise and of integers")
        return elementwise([self, o], lambda a, b: conj(a, b), bool_)

    __rand__ = __and__

    def __or__(self, o):
        if not isinstance(o, Tensor):
            o = scalar_tensor(o)
        if self.dtype.kind != "b" or o.dtype.kind != "b":
            raise Unsupported("bitwise or of integers")
        return elementwise([self, o], lambda a, b: disj(a, b), bool_)

    __ror__ = __or__

    def logical_and(self, o):
        return self.bool() & o.bool()

    def logical_or(self, o):
        return self.bool() | o.bool()

    def __lt__(self, o):
        return compare(self, o, lt)

    def __le__(self, o):
        return compare(self, o, le)

    def __gt__(self, o):
        return compare(self, o, lambda a, b: lt(b, a))

    def __ge__(self, o):
        return compare(self, o, lambda a, b: le(b, a))

    def __eq__(self, o):
        return compare(self, o, eq)

    def __ne__(self, o):
        return compare(self, o, ne)

    def eq(self, o):
        return compare(self, o, T.eq)

    def ne(self, o):
        return compare(self, o, T.ne)

    def lt(self, o):
        return self < o

    def le(self, o):
        return self <= o

    def gt(self, o):
        return self > o

    def ge(self, o):
        return self >= o

    def exp(self):
        return self.map(lambda a: nexp(num(a)))

    def log(self):
        return self.map(lambda a: nlog(num(a)))

    def clamp(self, min=None, max=None):
        def f(a):
            if min is not None:
                m = pl(min)
                a = nite(lt(a, m), m, a) if not T.le(m, a) is TRUE else a
            if max is not None:
                m = pl(max)
                a = nite(lt(m, a), m, a)
            return a
        return self.map(f)

    def abs(self):
        return self.map(lambda a: nite(lt(a, 0), -a, a))

    def relu(self):
        return self.clamp(min=0)

    # ---- conversions
    def to(self, *args, **kw):
        t = self
        for a in list(args) + [kw.get("dtype"), kw.get("device")]:
            if isinstance(a, DType):
                t = cast(t, a)
            elif isinstance(a, Tensor):
                t = cast(t, a.dtype)
        return t

    def type(self, d=None):
        if d is None:
            return self.dtype
        return cast(self, d)

    def type_as(self, o):
        return cast(self, o.dtype)

    def float(self):
        return cast(self, float32)

    def double(self):
        return cast(self, float64)

    def long(self):
        return cast(self, int64)

    def int(self):
        return cast(self, int32)

    def byte(self):
        return cast(self, uint8)

    def bool(self):
        return cast(self, bool_)

    def cpu(self):
        return self

    def cuda(self):
        return self

    def item(self):
        if any(g for g in self.groups):
            raise ShadowError("item() of a non-scalar")
        e = self.elem(((),) * self.dim())
        if isinstance(e, Cond):
            return mkbool(e)
        return mkint(e)

    def tolist(self):
        if self.dim() == 0:
            return self.item()
        n = gsize(self.groups[0]).const()
        if n is None:
            from .slist import SymList
            c = self.clone()
            return SymList(gsize(self.groups[0]), lambda k: c[mkint(k)].tolist())
        return [self[i].tolist() for i in range(n)]

    def new_zeros(self, *sizes, **k):
        return zeros(*sizes, dtype=k.get("dtype", self.dtype))

    def new_ones(self, *sizes, **k):
        return full(sizes, 1, dtype=k.get("dtype", self.dtype))

    def new_full(self, size, v, **k):
        return full(size, v, dtype=k.get("dtype", self.dtype))

    def __bool__(self):
        if any(g for g in self.groups):
            raise ShadowError("truth value of a non-scalar tensor")
        return truth(boolean(self.elem(((),) * self.dim())))

    def __index__(self):
        p = pl(self)
        c = p.const()
        if isinstance(c, int):
            return c
        raise Unsupported("symbolic tensor used as a concrete index")

    __int__ = __index__

    def __float__(self):
        c = pl(self).const()
        if c is None:
            raise Unsupported("float() of a symbolic tensor")
        return float(c)

    # ---- reductions: filled in by sops
    def __matmul__(self, o):
        from . import sops
        return sops.matmul(self, o)


# ------------------------------------------------------------------ construction

def mk(groups, f, dtype):
    """Fresh tensor with element function f(index groups)."""
    gs = tuple(tuple(g) for g in groups)
    dims = tuple(p for g in gs for p in g)
    if ST.track_det and not ST.gradmode:
        st = Storage(dims, lambda fl: ndet(f(regroup(fl, gs))), dtype)
    else:
        st = Storage(dims, lambda fl: f(regroup(fl, gs)), dtype)
    return Tensor(st, gs)


def dims_of(sizes):
    if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)):
        sizes = tuple(sizes[0])
    out = []
    for s in sizes:
        p = pl(s)
        if p.const() is not None and p.const() < 0:
            raise ShadowError("negative dimension")
        if p.const() is None and decide(le(0, p)) is False:
            raise ShadowError("negative dimension")
        out.append(() if p.const() == 1 else (p,))
    return out


def full(sizes, v, dtype=None, **k):
    gs = dims_of(tuple(sizes))
    e = scalar_elem(v)
    if dtype is None:
        dtype = bool_ if isinstance(e, Cond) else (int64 if isinstance(v, int) else float32)
    e = conv(e, dtype)
    return mk(gs, lambda idx: e, dtype)


def zeros(*sizes, dtype=None, device=None, requires_grad=False, **k):
    return full(dims_or(sizes), 0, dtype or float32)


def dims_or(sizes):
    if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)):
        return tuple(sizes[0])
    return sizes


def ones(*sizes, dtype=None, device=None, requires_grad=False, **k):
    return full(dims_or(sizes), 1, dtype or float32)


def scalar_elem(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, SymBool):
        return v.c
    if isinstance(v, Tensor):
        if any(g for g in v.groups):
            raise Unsupported("fill with a non-scalar")
        return v.elem(((),) * v.dim())
    return pl(v)


def scalar_tensor(v, dtype=None):
    e = scalar_elem(v)
    if dtype is None:
        if isinstance(v, Tensor):
            dtype = v.dtype
        else:
            dtype = bool_ if isinstance(e, Cond) else (float32 if isinstance(v, float) or not is_int(e) else int64)
    return mk([], lambda idx: e, dtype)


def conv(e, dtype):
    """Element conversion to a dtype."""
    if dtype.kind == "b":
        return boolean(e)
    e = num(e)
    if dtype.kind == "i":
        if dtype is uint8:
            if is_int(e):
                return ifmod(e, P(256))
            raise Unsupported("real to uint8")
        if not is_int(e):
            a = e.as_atom()
            if a is not None and a.kind == "ite":
                return nite(a.args[0], conv(a.args[1], dtype), conv(a.args[2], dtype))
            if e.const() is not None:
                return P(int(e.const()))
            return P(atom("trunc", e, sort="I"))
    return e


def narrowing(dst, src):
    """A value of the inputs' precision goes into a tensor of the default precision: noted for the rounding obligation."""
    if dst is float32 and isinstance(src, Tensor) and src.dtype is userfloat:
        f = sys._getframe(1)
        while f is not None and not f.f_code.co_filename.startswith("torch_struct"):
            f = f.f_back
        ST.narrowed.append("%s:%d" % (f.f_code.co_filename, f.f_lineno) if f else "?")


def cast(t, dtype):
    if t.dtype is dtype:
        return t
    narrowing(dtype, t)
    if t.dtype.kind == dtype.kind and dtype not in (uint8,) and t.dtype.kind != "i":
        r = t.map(lambda e: e, dtype)
    else:
        r = t.map(lambda e: conv(e, dtype), dtype)
    r._rg = t._rg if dtype.kind == "f" else False
    return r


def input_tensor(name, dims, dtype=userfloat, sort=None):
    """Uninterpreted input with the given sizes."""
    srt = sort or ("I" if dtype.kind == "i" else "R")
    gs = [() if P(d).const() == 1 else (P(d),) for d in dims]
    ps = [P(d) for d in dims]

    def f(idx):
        args = tuple(i[0] if i else P(0) for i in idx)
        if dtype.kind == "b":
            return bapp(name, *args)
        return app(name, *args, sort=srt)
    t = mk(gs, f, dtype)
    t.st.input = True
    t.st.name = name
    ST.inputs[name] = (t, t.st.fn, ps)
    return t


# ------------------------------------------------------------------ broadcasting

def bgroup(a, b):
    """Broadcast two dimension groups."""
    if not a:
        return b
    if not b:
        return a
    if len(a) == len(b) and builtins.all(same(x, y) for x, y in zip(a, b)):
        return a
    sa, sb = gsize(a), gsize(b)
    if same(sa, sb):
        return a if len(a) >= len(b) else b
    if truth(eq(sa, sb)):
        return a if len(a) >= len(b) else b
    if truth(eq(sa, 1)):
        return b
    if truth(eq(sb, 1)):
        return a
    raise ShadowError("size mismatch: %r vs %r" % (sa, sb))


def bcast(ts):
    n = max([t.dim() for t in ts] + [0])
    gs = [()] * n
    for t in ts:
        off = n - t.dim()
        for j, g in enumerate(t.groups):
            gs[off + j] = bgroup(gs[off + j], g)
    return gs


def gmap(src, dst):
    """Function turning an index of group dst into an index of group src (broadcast)."""
    if not src:
        return lambda i: ()
    if len(src) == len(dst):
        if builtins.all(same(x, y) for x, y in zip(src, dst)):
            return lambda i: i
        if len(src) == 1 and same(src[0], 1):
            return lambda i: (P(0),)
    ss, ds = gsize(src), gsize(dst)
    if same(ss, 1) and not same(ds, 1):
        return lambda i: tuple(P(0) for _ in src)
    if same(ss, ds):
        return lambda i: unlin(lin(i, dst), src)
    raise ShadowError("cannot broadcast %r to %r" % (src, dst))


def lin(i, g):
    p = P(0)
    for x, n in zip(i, g):
        p = p * n + x
    return p


def unlin(p, g):
    out = []
    for n in reversed(g[1:]):
        out.append(ifmod(p, n))
        p = ifloordiv(p, n)
    out.append(p)
    return tuple(reversed(out))


def bto(t, gs):
    """Reader of t at indices of the broadcast groups gs."""
    rd = t.reader()
    off = len(gs) - t.dim()
    if off < 0:
        raise ShadowError("cannot broadcast to fewer dimensions")
    ms = [gmap(g, gs[off + j]) for j, g in enumerate(t.groups)]
    return lambda idx: rd(tuple(m(idx[off + j]) for j, m in enumerate(ms)))


def bcast_reader(val, target):
    """Reader of val broadcast to the shape of target (for writes)."""
    if not isinstance(val, Tensor):
        e = scalar_elem(val)
        return lambda idx: e
    t = val
    while t.dim() > target.dim():
        if t.groups[0] == ():
            t = t.squeeze(0)
        else:
            raise ShadowError("cannot broadcast value to target")
    for j in range(t.dim()):
        g, h = t.groups[j], target.groups[target.dim() - t.dim() + j]
        if g and not h and not same(gsize(g), 1):
            if not truth(eq(gsize(g), 1)):
                raise ShadowError("shape mismatch in assignment: %r to 1" % (gsize(g),))
        if g and h and not same(gsize(g), gsize(h)):
            if not truth(eq(gsize(g), gsize(h))):
                if not truth(eq(gsize(g), 1)):
                    raise ShadowError("shape mismatch in assignment: %r vs %r" % (gsize(g), gsize(h)))
    return bto(t, target.groups)


def result_dtype(ts):
    ks = {"b": 0, "i": 1, "f": 2}
    best = None
    for t in ts:
        d = t.dtype if isinstance(t, Tensor) else None
        if d is None:
            continue
        # 0-dim tensors do not promote within a category
        if best is None or ks[d.kind] > ks[best.kind] or (d.kind == best.kind and t.dim() > 0 and best is float32):
            best = d
    return best


def elementwise(ts, f, dtype):
    gs = bcast(ts)
    rds = [bto(t, gs) for t in ts]
    r = mk(gs, lambda idx: f(*[rd(idx) for rd in rds]), dtype)
    return r


def arith(a, o, f):
    if isinstance(o, (list, tuple, str)) or o is None:
        raise Unsupported("tensor arithmetic with %r" % type(o))
    if not isinstance(o, Tensor):
        e = scalar_elem(o)
        isf = isinstance(o, float) or not is_int(num(e))
        dt = float32 if (isf and a.dtype.kind != "f") else (a.dtype if a.dtype.kind != "b" else int64)
        rd = a.reader()
        return mk(a.groups, lambda idx: f(num(rd(idx)), num(e)), dt)
    dt = result_dtype([a, o])
    if dt.kind == "b":
        raise Unsupported("arithmetic on booleans")
    r = elementwise([a, o], lambda x, y: f(num(x), num(y)), dt)
    if dt is uint8:
        r = r.map(lambda e: ifmod(e, P(256)))
    return r


def lift_eq(a, b, fuel=4):
    """a == b with the case distinctions of a - b made outside (only for sums of integer case distinctions)."""
    if not (is_int(P(a)) and is_int(P(b))):
        return eq(a, b)
    d = P(a) - P(b)
    conds = []
    for m, _ in d.items:
        if not m:
            continue
        if len(m) != 1 or m[0][0].kind != "ite" or m[0][1] != 1:
            return eq(d, 0)
        if m[0][0].args[0] not in conds:
            conds.append(m[0][0].args[0])
    if not conds or not fuel:
        return eq(d, 0)
    n = {c: sum(1 for m, _ in d.items if m and m[0][0].args[0] is c) for c in conds}
    c = max(conds, key=lambda x: n[x])
    yes, no = P(0), P(0)
    for m, k in d.items:
        if m and m[0][0].args[0] is c:
            yes, no = yes + P(k) * m[0][0].args[1], no + P(k) * m[0][0].args[2]
        else:
            q = P(k) * P(m[0][0]) if m else P(k)
            yes, no = yes + q, no + q
    yes, no = lift_eq(yes, 0, fuel - 1), lift_eq(no, 0, fuel - 1)
    return disj(conj(c, yes), conj(neg(c), no))


def compare(a, o, f):
    if o is None or isinstance(o, str):
        return f is ne
    f = {eq: lift_eq, ne: lambda x, y: neg(lift_eq(x, y))}.get(f, f)
    if not isinstance(o, Tensor):
        e = num(scalar_elem(o))
        rd = a.reader()
        return mk(a.groups, lambda idx: f(num(rd(idx)), e), bool_)
    return elementwise([a, o], lambda x, y: f(num(x), num(y)), bool_)


# ------------------------------------------------------------------ reshape

def reshape(t, sizes):
    ps = [pl(s) for s in sizes]
    atoms = [p for g in t.groups for p in g]
    neg1 = [j for j, p in enumerate(ps) if p.const() == -1]
    if len(neg1) > 1:
        raise ShadowError("only one dimension can be inferred")
    if neg1:
        tot = P(1)
        for a in atoms:
            tot = tot * a
        rest = P(1)
        for j, p in enumerate(ps):
            if j != neg1[0]:
                rest = rest * p
        # consume from both ends
        left, i = take_groups(atoms, ps[:neg1[0]], False)
        if left is not None:
            right, k = take_groups(atoms[i:][::-1], [p for p in ps[neg1[0] + 1:]][::-1], True)
            if right is not None:
                mid = atoms[i:len(atoms) - k] if k else atoms[i:]
                right = [r[::-1] for r in right][::-1]
                gs = left + [tuple(mid)] + right
                return t._view(gs, lambda idx, og=tuple(t.groups): regroup(flat(idx), og),
                               lambda idx, gs=tuple(gs): (TRUE, regroup(flat(idx), gs)))
        q = tot * recip(rest) if rest.const() != 0 else P(0)
        if not is_int(q):
            raise Unsupported("cannot infer dimension %r / %r" % (tot, rest))
        ps[neg1[0]] = q
    gs, i = take_groups(atoms, ps, False)
    if gs is not None and all(same(a, 1) for a in atoms[i:]):
        if i != len(atoms):
            gs = gs[:-1] + [gs[-1] + tuple(atoms[i:])] if gs else [tuple(atoms[i:])]
        return t._view(gs, lambda idx, og=tuple(t.groups): regroup(flat(idx), og),
                       lambda idx, gs=tuple(gs): (TRUE, regroup(flat(idx), gs)))
    return split_view(t, ps)


def take_groups(atoms, ps, rev):
    """Greedy grouping of atoms by target sizes; (groups, used) or (None, 0)."""
    out = []
    i = 0
    for p in ps:
        if p.const() == 1:
            out.append(())
            continue
        cur = P(1)
        g = []
        while not same(cur, p) or not g:
            if i >= len(atoms):
                return None, 0
            if cur.const() is not None and p.const() is not None and cur.const() > p.const():
                return None, 0
            g.append(atoms[i])
            cur = cur * atoms[i]
            i += 1
            if len(g) > 8:
                return None, 0
            if cur is not p and not same(cur, p):
                q = p * recip(cur)
                if not is_int(q) and len(g) >= 3:
                    return None, 0
        out.append(tuple(g))
    return out, i


def split_view(t, ps):
    """General reshape through splitting atoms (div/mod)."""
    atoms = [p for g in t.groups for p in g]
    # refine: walk both lists; split a source atom when the target is a divisor
    plan = []            # per target: list of (atom number, stride, size)
    ai = 0
    remaining = atoms[0] if atoms else P(1)
    parts = {}           # atom -> list of sizes of its parts (outer to inner)
    order = []
    for p in ps:
        g = []
        need = p
        while not same(need, 1):
            if ai >= len(atoms):
                raise ShadowError("shape '%r' is invalid" % (ps,))
            if same(remaining, 1):
                ai += 1
                if ai >= len(atoms):
                    raise ShadowError("shape '%r' is invalid" % (ps,))
                remaining = atoms[ai]
                continue
            if same(need, remaining):
                g.append((ai, remaining))
                parts.setdefault(ai, []).append(remaining)
                need, remaining = P(1), P(1)
                continue
            q = remaining * recip(need)
            if is_int(q):
                g.append((ai, need))
                parts.setdefault(ai, []).append(need)
                remaining, need = q, P(1)
                continue
            q = need * recip(remaining)
            if is_int(q):
                g.append((ai, remaining))
                parts.setdefault(ai, []).append(remaining)
                need, remaining = q, P(1)
                continue
            raise Unsupported("reshape %r -> %r" % (atoms, ps))
        plan.append(g)
    gs = [tuple(s for _, s in g) for g in plan]
    og = tuple(t.groups)

    def fwd(idx):
        fl = flat(idx)
        pos = 0
        vals = {}
        for g in plan:
            for a, s in g:
                vals[a] = vals.get(a, P(0)) * s + fl[pos]
                pos += 1
        return regroup(tuple(vals.get(a, P(0)) for a in range(len(atoms))), og)

    def inv(idx):
        fl = flat(idx)
        pieces = {}
        for a, ss in parts.items():
            pieces[a] = list(unlin(fl[a], ss)) if len(ss) > 1 else [fl[a]]
        out = []
        for g in plan:
            out.append(tuple(pieces[a].pop(0) for a, s in g))
        return TRUE, tuple(out)
    return t._view(gs, fwd, inv)


# ------------------------------------------------------------------ indexing

def norm_index(t, ind):
    if not isinstance(ind, tuple):
        ind = (ind,)
    ind = list(ind)
    nb = 0
    for x in ind:
        if x is None or x is Ellipsis or isinstance(x, bool):
            continue
        nb += x.dim() if isinstance(x, Tensor) and x.dtype.kind == "b" else 1
    if any(x is Ellipsis for x in ind):
        k = [i for i, x in enumerate(ind) if x is Ellipsis][0]
        ind = ind[:k] + [SL] * (t.dim() - nb) + ind[k + 1:]
    else:
        ind = ind + [SL] * (t.dim() - nb)
    if nb > t.dim():
        raise ShadowError("too many indices")
    return ind


def norm_pos(p, n, what="index"):
    """Normalise an index into [0, n): negative constants wrap, bounds are checked."""
    c = p.const()
    if c is not None and c < 0:
        p = p + n
    elif c is None and decide(le(0, p)) is not True:
        if not truth(le(0, p)):
            p = p + n
    r = decide(conj(le(0, p), lt(p, n)))
    if r is True:
        return p
    if r is False or not truth(conj(le(0, p), lt(p, n))):
        raise ShadowError("%s out of range: %r of %r" % (what, p, n))
    return p


def slice_bounds(s, n):
    step = pl(s.step) if s.step is not None else P(1)
    if step.const() is None or step.const() <= 0:
        raise Unsupported("slice step %r" % step)

    def clampb(x, default):
        if x is None:
            return default
        p = pl(x)
        if decide(lt(p, 0)) is not False:
            if truth(lt(p, 0)):
                p = p + n
                if decide(lt(p, 0)) is not False and truth(lt(p, 0)):
                    p = P(0)
        if decide(le(p, n)) is not True:
            if not truth(le(p, n)):
                p = n
        return p
    a, b = clampb(s.start, P(0)), clampb(s.stop, n)
    if decide(le(a, b)) is not True:
        if not truth(le(a, b)):
            b = a
    return a, b, step


def slice_len(a, b, step):
    k = step.const()
    n = b - a
    if k == 1:
        return n
    # ceil(n/k)
    q = n * P(Fraction(1, k))
    if is_int_div(n, k):
        return q
    m = n + (k - 1)
    if is_int_div(m, k):
        return m * P(Fraction(1, k))
    for r in range(1, k):
        if is_int_div(n + r, k):
            return (n + r) * P(Fraction(1, k))
    return ifloordiv(n + k - 1, P(k))


def is_int_div(n, k):
    """n divisible by k (constants, or power-of-two atoms with positive exponent)."""
    for m, c in n.items:
        if isinstance(c, int) and c % k == 0:
            continue
        p2 = [a for a, e in m if a.kind == "pow2"]
        if p2 and k & (k - 1) == 0:
            # c * 2^e * ... : find j with c*2^j integer multiple of k and e >= j
            j = 0
            cc = Fraction(c)
            while (cc / k).denominator != 1 and j < 12:
                cc *= 2
                j += 1
            if (cc / k).denominator == 1 and decide(le(P(j), p2[0].args[0])) is True:
                continue
        return False
    return True


def getitem(t, ind):
    ind = norm_index(t, ind)
    # expand boolean tensor masks only in setitem
    v, adv = basic(t, ind)
    if not adv:
        return v
    return gather_adv(v, adv)


def basic(t, ind):
    """Apply slices/None (and integers when no tensor index is present).

    Returns (view, adv) where adv maps the dimensions of the view to index tensors."""
    has_adv = any(isinstance(x, Tensor) and x.dim() > 0 or isinstance(x, list) for x in ind)
    v = t
    d = 0
    adv = {}
    for x in ind:
        if x is None:
            v = v.unsqueeze(d)
            d += 1
        elif isinstance(x, slice):
            if not (x.start is None and x.stop is None and x.step is None):
                v = slice_dim(v, d, x)
            d += 1
        elif isinstance(x, list):
            from .storch import tensor
            adv[d] = tensor(x)
            d += 1
        elif isinstance(x, Tensor) and x.dim() > 0:
            if x.dtype.kind == "b":
                raise Unsupported("boolean mask indexing")
            adv[d] = x
            d += 1
        elif isinstance(x, bool) or isinstance(x, Tensor) and x.dtype.kind == "b":
            raise Unsupported("boolean scalar index")
        else:
            if has_adv:
                adv[d] = scalar_tensor(mkint(pl(x)))
                d += 1
            else:
                v = select_dim(v, d, pl(x))
    return v, adv


def select_dim(v, d, p):
    g = v.groups[d]
    p = norm_pos(p, gsize(g))
    ix = unlin(p, g) if len(g) > 1 else ((p,) if g else ())
    gs = v.groups[:d] + v.groups[d + 1:]

    def ginv(i):
        c = conj(*[eq(x, y) for x, y in zip(i[d], ix)])
        return c, i[:d] + i[d + 1:]
    return v._view(gs, lambda i: i[:d] + (ix,) + i[d:], ginv)


def slice_dim(v, d, s):
    g = v.groups[d]
    n = gsize(g)
    a, b, step = slice_bounds(s, n)
    m = slice_len(a, b, step)
    k = step.const()
    if a.const() == 0 and same(m, n) and k == 1:
        return v
    if len(g) > 1:
        # slicing a merged dimension: only blocks of whole inner dimensions are supported
        inner = gsize(g[1:])
        qa, qb = prover.split_divmod(a, inner, ST.ctx), prover.split_divmod(b, inner, ST.ctx)
        if k == 1 and qa and qb and qa[1].const() == 0 and qb[1].const() == 0:
            a0, b0 = qa[0], qb[0]
            gs = v.groups[:d] + [(b0 - a0,) + tuple(g[1:])] + v.groups[d + 1:]
            return v._view(gs, lambda i: i[:d] + ((i[d][0] + a0,) + i[d][1:],) + i[d + 1:],
                           lambda i: (conj(le(a0, i[d][0]), lt(i[d][0], b0)),
                                      i[:d] + ((i[d][0] - a0,) + i[d][1:],) + i[d + 1:]))
        # general: linear index
        gs = v.groups[:d] + [(m,) if m.const() != 1 else ()] + v.groups[d + 1:]

        def fw(i):
            j = i[d][0] if i[d] else P(0)
            return i[:d] + (unlin(a + j * step, g),) + i[d + 1:]

        def inv2(i):
            p = lin(i[d], g)
            if k != 1:
                raise Unsupported("write through a strided slice of a merged dimension")
            # an index of a merged dimension is below its size
            inside = le(a, p) if same(b, n) else conj(le(a, p), lt(p, b))
            return inside, i[:d] + ((p - a,) if m.const() != 1 else (),) + i[d + 1:]
        return v._view(gs, fw, inv2)
    gs = v.groups[:d] + [(m,) if m.const() != 1 else ()] + v.groups[d + 1:]
    one = not g

    def fwd(i):
        j = i[d][0] if i[d] else P(0)
        return i[:d] + (() if one else (a + j * step,),) + i[d + 1:]

    def ginv(i):
        x = i[d][0] if i[d] else P(0)
        if k != 1:
            q = ifloordiv(x - a, step)
            c = conj(le(a, x), lt(x, b), eq(ifmod(x - a, step), 0))
        else:
            q = x - a
            c = conj(le(a, x), lt(x, b))
        return c, i[:d] + ((q,) if m.const() != 1 else (),) + i[d + 1:]
    return v._view(gs, fwd, ginv)


def adv_layout(v, adv):
    """Result layout of advanced indexing: (adv groups, insertion position, plain dims)."""
    ds = sorted(adv)
    ags = bcast([adv[d] for d in ds])
    plain = [j for j in range(v.dim()) if j not in adv]
    contiguous = ds == list(range(ds[0], ds[-1] + 1))
    pos = ds[0] if contiguous else 0
    return ds, ags, pos, plain


def to_group(p, g):
    if not g:
        return ()
    if len(g) == 1:
        return (p,)
    return unlin(p, g)


def gather_adv(v, adv):
    ds, ags, pos, plain = adv_layout(v, adv)
    rds = {d: bto(adv[d], ags) for d in ds}
    rd = v.reader()
    na = len(ags)
    gs = [v.groups[j] for j in plain]
    gs = gs[:pos] + ags + gs[pos:]
    ns = {d: gsize(v.groups[d]) for d in ds}
    vgs = list(v.groups)
    check_adv(v, adv, ds, ags, rds)

    def f(idx):
        a = idx[pos:pos + na]
        rest = idx[:pos] + idx[pos + na:]
        full_ = [None] * v.dim()
        for j, r in zip(plain, rest):
            full_[j] = r
        for d in ds:
            e = rds[d](a)
            e = wrapneg(e, ns[d])
            full_[d] = to_group(e, vgs[d])
        return rd(tuple(full_))
    return mk(gs, f, v.dtype)


def wrapneg(e, n):
    c = e.const()
    if c is not None:
        return e + n if c < 0 else e
    return ite(lt(e, 0), lambda: e + n, lambda: e)


def check_adv(v, adv, ds, ags, rds):
    """Bounds of advanced indices."""
    idx = tuple(tuple(fresh("q") for _ in g) for g in ags)
    rng = [c for g, ix in zip(ags, idx) for n, i in zip(g, ix) for c in (le(0, i), lt(i, n))]
    for d in ds:
        n = gsize(v.groups[d])
        with under(*rng) as k:
            if k.dead():
                return
            e = rds[d](idx)
            ok = decide(conj(le(-n, e), lt(e, n)))
        if ok is False:
            raise ShadowError("advanced index out of range: %r of %r" % (e, n))
        if ok is None:
            fvs = [f for f in fv(e) if any(f in fv(x) for g in idx for x in g)]
            if not fvs:
                norm_pos(e, n)
            else:
                ob("index in range", False, "advanced index %r not provably within %r" % (e, n), status="unknown")


def setitem(t, ind, val):
    narrowing(t.dtype, val)
    if isinstance(ind, Tensor) and ind.dtype.kind == "b" or (
            isinstance(ind, tuple) and len(ind) == 1 and isinstance(ind[0], Tensor) and ind[0].dtype.kind == "b"):
        m = ind if isinstance(ind, Tensor) else ind[0]
        if isinstance(val, Tensor) and any(g for g in val.groups):
            raise Unsupported("masked assignment of a tensor")
        if m.dim() != t.dim():
            while m.dim() < t.dim():
                m = m.unsqueeze(-1)
        t.masked_fill_(m, val)
        return
    ind = norm_index(t, ind)
    v, adv = basic(t, ind)
    if not adv:
        v._write(bcast_reader(val, v))
        return
    ds, ags, pos, plain = adv_layout(v, adv)
    rds = {d: bto(adv[d], ags) for d in ds}
    check_adv(v, adv, ds, ags, rds)
    gs = [v.groups[j] for j in plain]
    gs = gs[:pos] + ags + gs[pos:]
    shell = Tensor.__new__(Tensor)
    shell.groups = [tuple(g) for g in gs]
    rd = bcast_reader(val, shell)
    na = len(ags)
    # solve the index expressions for the adv variables
    avars = tuple(tuple(fresh("a") for _ in g) for g in ags)
    rng = [c for g, ix in zip(ags, avars) for n, i in zip(g, ix) for c in (le(0, i), lt(i, n))]
    with under(*rng):
        exprs = {d: wrapneg(rds[d](avars), gsize(v.groups[d])) for d in ds}
    allv = [x.as_atom() for g in avars for x in g]
    solved = {}
    eqs = [(d, exprs[d]) for d in ds]
    order = []
    pend = list(eqs)
    while len(solved) < len(allv):
        hit = None
        for d, e in pend:
            left = [a for a in allv if a in fv(e) and a not in solved]
            if len(left) == 1:
                co = dict(e.items).get(((left[0], 1),))
                rest = e - P(left[0]) * (co or 0)
                if co in (1, -1) and left[0] not in fv(rest):
                    hit = (d, left[0], co, rest)
                    break
        if hit is None:
            raise Unsupported("advanced assignment with non-invertible indices")
        d, a, co, rest = hit
        solved[a] = (d, co, rest)
        order.append(a)
        pend = [(dd, e) for dd, e in pend if dd != d]

    def ginv(ix):
        sub = {}
        for a in order:
            d, co, rest = solved[a]
            x = lin(ix[d], v.groups[d]) if v.groups[d] else P(0)
            sub[a] = (x - subst(rest, sub)) * co
        cs = [subst(c, sub) for c in rng]
        for d, e in pend:
            x = lin(ix[d], v.groups[d]) if v.groups[d] else P(0)
            cs.append(eq(subst(e, sub), x))
        ai = tuple(tuple(sub[x.as_atom()] for x in g) for g in avars)
        rest = tuple(ix[j] for j in plain)
        return conj(*cs), rest[:pos] + ai + rest[pos:]
    w = v._view(gs, lambda i: (_ for _ in ()).throw(Unsupported("read of a write view")), ginv)
    w._write(rd)
