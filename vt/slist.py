"""Lists of symbolic length and iterables of symbolic length."""
import builtins
from .terms import *
from .state import *
from .stensor import *
from .stensor import mkint, pl


class ListBase:
    """Shared behaviour of lists whose content may be symbolic: n elements, element i is fn(i)."""

    def at(self, i):
        return self.fn(P(i))

    def snapshot(self):
        return self.fn

    def _restore(self, old):
        self.n, self.fn, self.eff = old

    def _log(self):
        ST.journal.append((self, (self.n, self.fn, self.eff)))

    def sget(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported("strided slice of a symbolic list")
            from .stensor import slice_bounds
            a, b, _ = slice_bounds(i, self.n)
            f = self.fn
            return SymList(b - a, lambda k: f(k + a))
        from .stensor import norm_pos
        p = norm_pos(pl(i), self.n, "list index")
        return self.fn(p)

    def sset(self, i, v):
        from .stensor import norm_pos
        p = norm_pos(pl(i), self.n, "list index")
        old = self.fn
        self._log()

        def fn(k):
            d = decide(eq(k, p))
            if d is True:
                return v
            if d is False:
                return old(k)
            return merge(eq(k, p), lambda: v, lambda: old(k))
        self.fn = fn
        if self.eff is not None:
            self.eff = (self.eff[0], self.eff[1] + [(p, v)])

    def sappend(self, v):
        old, n = self.fn, self.n
        self._log()

        def fn(k):
            d = decide(eq(k, n))
            if d is True:
                return v
            if d is False:
                return old(k)
            return merge(eq(k, n), lambda: v, lambda: old(k))
        self.n, self.fn = n + 1, fn
        if self.eff is not None:
            self.eff = (self.eff[0] + [v], self.eff[1])

    # -- loops
    def guard(self, n=None):
        """Inside a cut loop only the values written in the same iteration are readable."""
        self._log()
        n0 = self.n
        self.eff = ([], [])

        def fn(k):
            raise Unsupported("list read inside the loop that fills it")
        self.fn = fn
        self.n = n0 if not self.grows else fresh("len")

    grows = False

    def effect(self):
        return self.eff

    def after_loop(self, ka, n, app_, wr, sub):
        """Content after n iterations, each appending app_(k) and writing wr(k)."""
        self._log()
        old, n0 = self.fn, self.n
        c = len(app_)
        if app_ and wr:
            raise Unsupported("list both appended to and overwritten in a loop")
        self.eff = None
        if app_:
            if c > 1:
                raise Unsupported("several appends per iteration")

            def fn(i):
                d = decide(lt(i, n0))
                if d is True:
                    return old(i)
                if d is False:
                    return sub(app_[0], {ka: i - n0})
                return merge(lt(i, n0), lambda: old(i), lambda: sub(app_[0], {ka: i - n0}))
            self.n, self.fn = n0 + n, fn
        elif wr:
            if len(wr) > 1:
                raise Unsupported("several writes per iteration")
            p, v = wr[0]
            co = dict(p.items).get(((ka, 1),))
            rest = p - P(ka) * (co or 0)
            if co not in (1, -1) or ka in fv(rest):
                raise Unsupported("list index in a loop is not affine")

            def fn(i):
                k = (i - rest) * co
                cnd = conj(le(0, k), lt(k, n))
                d = decide(cnd)
                if d is True:
                    return sub(v, {ka: k})
                if d is False:
                    return old(i)
                return merge(cnd, lambda: sub(v, {ka: k}), lambda: old(i))
            self.fn = fn


class SymList(ListBase):
    """List with a symbolic number of elements."""

    def __init__(self, n, fn):
        self.n = P(n)
        self.fn = fn
        self.eff = None
        self.id = ST.tick()

    __getitem__ = ListBase.sget
    __setitem__ = ListBase.sset
    append = ListBase.sappend

    def __add__(self, o):
        if isinstance(o, (list, tuple)):
            r = SymList(self.n, self.fn)
            for x in o:
                r.append(x)
            return r
        raise Unsupported("concatenation of symbolic lists")

    def __radd__(self, o):
        o = list(o)
        m = len(o)
        f = self.fn

        def fn(k):
            c = k.const()
            if c is not None and c < m:
                return o[c]
            if decide(le(m, k)) is True:
                return f(k - m)
            raise Unsupported("symbolic index into a concatenated list")
        return SymList(self.n + m, fn)

    def __iter__(self):
        c = self.n.const()
        if c is not None:
            return iter([self.fn(P(i)) for i in builtins.range(c)])
        raise Unsupported("iteration over a symbolic list outside an instrumented loop")

    def __len__(self):
        c = self.n.const()
        if c is not None:
            return c
        raise Unsupported("len of a symbolic list")

    def __repr__(self):
        return "SymList(%r)" % self.n


class VList(list):
    """Python list with journaled mutation; turns symbolic (`sym`) after a loop of symbolic length fills it."""

    def __init__(self, xs=()):
        list.__init__(self, xs)
        self.sym = None
        self.id = ST.tick()
        self.eff = None

    def _log(self):
        ST.journal.append((self, (list(list.__iter__(self)), self.sym, self.eff)))

    def _restore(self, old):
        list.__setitem__(self, slice(None), old[0])
        self.sym, self.eff = old[1], old[2]

    # -- loop support
    glen = None
    glen_read = False

    def guard(self, n=None):
        self._log()
        self.eff = ([], [])
        self.sym = None
        self.glen, self.glen_read = n, False

    def _guarded(self):
        if self.eff is not None:
            raise Unsupported("list read inside the loop that fills it")

    def effect(self):
        return self.eff

    def after_loop(self, ka, n, app_, wr, sub):
        self._log()
        self.eff = None
        base = self.sym or SymList(P(list.__len__(self)), lambda i, xs=list(list.__iter__(self)): index_list(xs, i))
        s = SymList(base.n, base.fn)
        s.after_loop(ka, n, app_, wr, sub)
        self.sym = s

    @property
    def n(self):
        if self.eff is not None and self.glen is not None:
            self.glen_read = True
            return self.glen + len(self.eff[0])
        self._guarded()
        return self.sym.n if self.sym is not None else P(list.__len__(self))

    @property
    def fn(self):
        self._guarded()
        if self.sym is not None:
            return self.sym.fn
        xs = list(list.__iter__(self))
        return lambda i: index_list(xs, i)

    def at(self, i):
        return self.fn(P(i))

    def snapshot(self):
        return self.fn

    # -- list interface
    def append(self, v):
        self._log()
        if self.eff is not None:
            self.eff = (self.eff[0] + [v], self.eff[1])
        elif self.sym is not None:
            s = SymList(self.sym.n, self.sym.fn)
            s.append(v)
            self.sym = s
        else:
            list.append(self, v)

    def extend(self, vs):
        for v in concrete(vs):
            self.append(v)

    def __iadd__(self, vs):
        self.extend(vs)
        return self

    def __setitem__(self, i, v):
        self._log()
        if self.eff is not None:
            self.eff = (self.eff[0], self.eff[1] + [(pl(i), v)])
        elif self.sym is not None:
            s = SymList(self.sym.n, self.sym.fn)
            s[i] = v
            self.sym = s
        else:
            if isinstance(i, slice):
                list.__setitem__(self, i, v)
                return
            p = pl(i)
            if p.const() is not None:
                list.__setitem__(self, p.const(), v)
            else:
                s = SymList(self.n, self.fn)
                s[i] = v
                self.sym = s

    def __getitem__(self, i):
        if self.eff is not None:
            if not isinstance(i, slice):
                p = pl(i)
                for q, v in reversed(self.eff[1]):
                    if same(p, q):
                        return v
            self._guarded()
        if self.sym is not None:
            return self.sym[i]
        if isinstance(i, slice):
            cs = [None if x is None else pl(x).const() for x in (i.start, i.stop, i.step)]
            if builtins.all(x is None or c is not None for x, c in zip((i.start, i.stop, i.step), cs)):
                return VList(list.__getitem__(self, slice(*cs)))
            s = SymList(self.n, self.fn)
            return s[i]
        p = pl(i)
        if p.const() is not None:
            return list.__getitem__(self, p.const())
        return SymList(self.n, self.fn)[i]

    def __iter__(self):
        self._guarded()
        if self.sym is not None:
            return iter(self.sym)
        return list.__iter__(self)

    def __len__(self):
        self._guarded()
        if self.sym is not None:
            return len(self.sym)
        return list.__len__(self)

    def __add__(self, o):
        self._guarded()
        if self.sym is not None:
            return self.sym + o
        if isinstance(o, SymList) or isinstance(o, VList) and o.sym is not None:
            return (o.sym if isinstance(o, VList) else o).__radd__(list(list.__iter__(self)))
        return VList(list(list.__iter__(self)) + list(o))

    def __mul__(self, o):
        if isinstance(o, (SymInt, Tensor)):
            return repeat(self, pl(o))
        return VList(list.__mul__(self, o))

    __rmul__ = __mul__

    def pop(self, *a):
        self._log()
        if self.eff is not None or self.sym is not None:
            raise Unsupported("pop from a symbolic list")
        return list.pop(self, *a)

    def insert(self, i, v):
        self._log()
        if self.eff is not None or self.sym is not None:
            raise Unsupported("insert into a symbolic list")
        return list.insert(self, i, v)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o or (self.sym is None and isinstance(o, list) and list.__eq__(self, o))


def index_list(xs, i):
    c = i.const()
    if c is not None:
        return xs[c]
    if not xs:
        raise Unsupported("index into an empty list")

    def go(j):
        if j == len(xs) - 1:
            return xs[j]
        return merge(eq(i, j), lambda: xs[j], lambda: go(j + 1))
    return go(0)


def merge(c, fa, fb):
    """Conditional of two python values (tensors of equal shape or scalars)."""
    with under(c) as k:
        a = None if k.dead() else fa()
    with under(neg(c)) as k:
        b = None if k.dead() else fb()
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, Tensor) and isinstance(b, Tensor) and len(a.groups) == len(b.groups):
        for g, h in zip(a.groups, b.groups):
            if g != h:
                raise Unsupported("list elements of different shapes")
        ra, rb = a.reader(), b.reader()
        return mk(a.groups, lambda idx: ite(c, lambda: ra(idx), lambda: rb(idx)), a.dtype)
    if a is b:
        return a
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        return mkint(nite(c, pl(a), pl(b)))
    if isinstance(a, (int, float, SymInt, Tensor)) and isinstance(b, (int, float, SymInt, Tensor)):
        f = lambda x: x if isinstance(x, Tensor) else scalar_tensor(x)
        return merge(c, lambda: f(a), lambda: f(b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, (lambda x: (lambda: x))(x), (lambda y: (lambda: y))(y)) for x, y in zip(a, b))
    raise Unsupported("conditional list element")


def merge_paths(ps):
    """One value out of the values of all branches."""
    v = ps[-1][1]
    for c, w in reversed(ps[:-1]):
        v = merge(c, lambda w=w: w, lambda v=v: v)
    return v


def repeat(xs, n):
    if n.const() is not None:
        return VList(list(xs) * n.const())
    if len(xs) != 1:
        raise Unsupported("repetition of a longer list")
    return SymList(n, lambda i: xs[0])


class SymRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = P(lo), P(hi), step

    @property
    def n(self):
        if self.step == 1:
            return self.hi - self.lo
        if self.step == -1:
            return self.lo - self.hi
        raise Unsupported("range step")

    def at(self, k):
        return mkint(self.lo + k * self.step)

    def __len__(self):
        raise Unsupported("len of a symbolic range")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range outside an instrumented loop")

    def __getitem__(self, i):
        return self.at(pl(i))


class StepRange:
    """range(lo, hi, step) with a step >= 1 that is not one: lo + k*step for 0 <= k < n, where n is the number of blocks."""

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = P(lo), P(hi), P(step)
        if not truth(le(1, self.step)):
            raise Unsupported("range with a step that is not positive")
        if not truth(lt(self.lo, self.hi)):
            self.hi = self.lo
        self.n = fresh("blk")
        end = self.lo + self.n * self.step
        assume(le(0, self.n), le(self.hi, end), lt(end, self.hi + self.step))

    def facts(self, k):
        p = self.lo + k * self.step
        return [le(self.lo, p), lt(p, self.hi)]

    def at(self, k):
        return mkint(self.lo + k * self.step)


class SymIter:
    """Iterable of symbolic length n with item function; facts(k) hold for every position k."""

    def __init__(self, n, at, facts=None, src=None):
        self.n, self.at, self.src = P(n), at, src
        self.facts = facts or (lambda k: [])

    def shift(self, j):
        return SymIter(self.n - j, lambda k: self.at(k + j), lambda k: self.facts(k + j), self.src)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic iterable outside an instrumented loop")


class MultiMap(ListBase):
    """Dict of lists over the keys 0..size-1, as the sequence of (key, value) appends made so far."""
    grows = True

    def __init__(self, size):
        self.size = P(size)
        self.n, self.eff = P(0), None
        self.id = ST.tick()

        def fn(k):
            raise Unsupported("element of an empty list")
        self.fn = fn

    def __getitem__(self, key):
        k = pl(key)
        if not truth(conj(le(0, k), lt(k, self.size))):
            raise KeyError(key)
        return Bucket(self, k)


class Bucket:
    """One list of a MultiMap: the values appended under its key, in order."""

    def __init__(self, map_, key):
        self.map, self.key = map_, key

    def append(self, v):
        self.map.sappend((mkint(self.key), v))

    def __iter__(self):
        raise Unsupported("iteration over a symbolic iterable outside an instrumented loop")


def as_symbolic(it):
    """SymIter for symbolic iterables, None for concrete ones."""
    if isinstance(it, VList) and it.sym is None and it.eff is None:
        return None
    if isinstance(it, (SymRange, SymList, SymIter, VList)):
        c = it.n.const()
        if c is not None:
            return None
        return SymIter(it.n, it.at)
    if isinstance(it, StepRange):
        return SymIter(it.n, it.at, it.facts, it)
    if isinstance(it, Tensor):
        n = gsize(it.groups[0])
        if n.const() is None:
            return SymIter(n, lambda k: it[mkint(k)])
        return None
    return None


def concrete(it):
    if isinstance(it, (SymRange, SymList, SymIter)):
        return [it.at(P(i)) for i in builtins.range(it.n.const())]
    if isinstance(it, Tensor):
        return [it[i] for i in builtins.range(gsize(it.groups[0]).const())]
    return it


# ------------------------------------------------------------------ shadowed builtins

def srange(*a):
    a = [x if isinstance(x, int) and not isinstance(x, bool) else pl(x) for x in a]
    ps = [P(x) for x in a]
    if builtins.all(p.const() is not None for p in ps):
        return builtins.range(*[p.const() for p in ps])
    if len(ps) == 1:
        lo, hi, st = P(0), ps[0], P(1)
    else:
        lo, hi = ps[0], ps[1]
        st = ps[2] if len(ps) > 2 else P(1)
    if st.const() is None:
        return StepRange(lo, hi, st)
    if st.const() not in (1, -1):
        return StepRange(lo, hi, st)
    s = st.const()
    n = (hi - lo) * s
    if decide(le(0, n)) is not True and not truth(le(0, n)):
        return builtins.range(0)
    return SymRange(lo, hi, s)


def slen(x):
    if isinstance(x, (SymList, SymRange, SymIter, VList)):
        return mkint(x.n)
    if isinstance(x, Tensor):
        return x.shape[0]
    return builtins.len(x)


def senumerate(it, start=0):
    s = as_symbolic(it)
    if s is None:
        return builtins.enumerate(concrete(it), start)
    return SymIter(s.n, lambda k: (mkint(k + start), s.at(k)))


def szip(*its):
    ss = [as_symbolic(i) for i in its]
    if builtins.all(s is None for s in ss):
        return builtins.zip(*[concrete(i) for i in its])
    if builtins.any(s is None for s in ss):
        raise Unsupported("zip of concrete and symbolic iterables")
    n = ss[0].n
    for s in ss[1:]:
        if not same(s.n, n):
            if truth(le(s.n, n)):
                n = s.n
    return SymIter(n, lambda k: tuple(s.at(k) for s in ss))


def _fold(name, args, cmp, kw):
    if kw:
        return getattr(builtins, name)(*args, **kw)
    if len(args) == 1:
        it = args[0]
        s = as_symbolic(it)
        if s is not None:
            k = fresh("k")
            with under(le(0, k), lt(k, s.n)):
                e = pl(s.at(k))
            from . import terms as T
            m = T.mat([k.as_atom()], [s.n], e)
            return mkint(P(atom("max" if name == "max" else "min", m, sort="I" if is_int(e) else "R")))
        args = list(concrete(it))
    if not builtins.any(isinstance(a, (SymInt, Tensor)) for a in args):
        return getattr(builtins, name)(*args)
    cur = args[0]
    for a in args[1:]:
        if isinstance(cur, int) and isinstance(a, int):
            cur = getattr(builtins, name)(cur, a)
        elif decide(eq(pl(cur), pl(a))) is True:
            pass
        elif bool(cmp(a, cur)):
            cur = a
    return cur


def smax(*args, **kw):
    return _fold("max", args, lambda a, b: a > b, kw)


def smin(*args, **kw):
    return _fold("min", args, lambda a, b: a < b, kw)


def sint(x=0, *a):
    if isinstance(x, SymInt):
        if is_int(x.p):
            return x
        return mkint(P(atom("trunc", x.p, sort="I")))
    if isinstance(x, Tensor):
        return sint(x.item())
    return builtins.int(x, *a)


def sfloat(x=0.0):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, Tensor):
        return x.item()
    return builtins.float(x)


def sbool(x=False):
    return builtins.bool(x)


def ssum(it, start=0):
    s = as_symbolic(it)
    if s is None:
        r = start
        for x in concrete(it):
            r = r + x
        return r
    raise Unsupported("sum of a symbolic iterable")


def slist(it=()):
    s = as_symbolic(it)
    if s is not None:
        return SymList(s.n, s.at)
    return builtins.list(concrete(it))


def stuple(it=()):
    s = as_symbolic(it)
    if s is not None:
        return SymList(s.n, s.at)
    return builtins.tuple(concrete(it))


def sreversed(it):
    s = as_symbolic(it)
    if s is not None:
        return SymIter(s.n, lambda k: s.at(s.n - 1 - k))
    return builtins.reversed(list(concrete(it)))


def sisinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    for k in cs:
        if k in (slist, builtins.list) and isinstance(x, (builtins.list, SymList)):
            return True
        if k in (stuple, builtins.tuple) and isinstance(x, builtins.tuple):
            return True
        if k in (sint, builtins.int) and (isinstance(x, builtins.int) or isinstance(x, SymInt) and is_int(x.p)):
            return True
        if k in (sfloat, builtins.float) and (isinstance(x, builtins.float) or isinstance(x, SymInt) and not is_int(x.p)):
            return True
        if k in (sbool, builtins.bool) and isinstance(x, (builtins.bool, SymBool)):
            return True
        if isinstance(k, type) and isinstance(x, k):
            return True
    return False


def sall(it):
    r = True
    for x in concrete(it):
        if not x:
            return False
    return True


def sany(it):
    for x in concrete(it):
        if x:
            return True
    return False


BUILTINS = dict(range=srange, len=slen, enumerate=senumerate, zip=szip, max=smax, min=smin, int=sint, float=sfloat, bool=sbool,
                sum=ssum, list=slist, tuple=stuple, reversed=sreversed, isinstance=sisinstance, all=sall, any=sany)
