"""The shadow torch module."""
import sys
import types
import builtins
import math as _math
from fractions import Fraction
from .terms import *
from .state import *
from .stensor import *
from .stensor import Size, DType, float32, float64, int64, int32, uint8, bool_, userfloat, cast, full, zeros, ones, DEVICE
from . import sops, deriv
from .sops import *
from .slist import SymList, VList


def tensor(x, dtype=None, device=None, requires_grad=False):
    if isinstance(x, Tensor):
        r = x.clone()
        return cast(r, dtype) if dtype else r
    if isinstance(x, SymList) or isinstance(x, VList) and x.sym is not None:
        n = x.n
        k = fresh("k")
        with under(le(0, k), lt(k, n)):
            e0 = x.at(k)
        if isinstance(e0, (int, SymInt)):
            dt = dtype or int64
        elif isinstance(e0, float):
            dt = dtype or float32
        elif isinstance(e0, Tensor) and e0.dim() == 0:
            dt = dtype or e0.dtype
            snap = x.snapshot()
            return mk([(n,)], lambda idx: conv(num(snap(idx[0][0]).elem(())), dt), dt)
        else:
            raise Unsupported("tensor() of a symbolic list of %r" % type(e0))
        snap = x.snapshot()
        return mk([(n,)], lambda idx: conv(pl(snap(idx[0][0])), dt), dt)
    if isinstance(x, (list, tuple)):
        xs = [tensor(y, dtype) for y in x]
        if not xs:
            return mk([(P(0),)], lambda idx: P(0), dtype or float32)
        if not dtype and builtins.any(y.dtype.kind == "f" for y in xs):
            xs = [cast(y, float32) for y in xs]
        return stack(xs, 0)
    e = scalar_elem(x)
    if dtype is None:
        dtype = bool_ if isinstance(e, Cond) else (float32 if isinstance(x, float) or not is_int(e) else int64)
    return mk([], lambda idx: conv(e, dtype), dtype)


def LongTensor(x):
    return tensor(x, int64)


def zeros_like(t, dtype=None, **k):
    e = P(0)
    dt = dtype or t.dtype
    return mk(t.groups, lambda idx: conv(e, dt), dt)


def ones_like(t, dtype=None, **k):
    dt = dtype or t.dtype
    return mk(t.groups, lambda idx: conv(P(1), dt), dt)


def full_like(t, v, dtype=None, **k):
    dt = dtype or t.dtype
    e = scalar_elem(v)
    return mk(t.groups, lambda idx: conv(e, dt), dt)


class GradMode:
    on = True

    def __enter__(self):
        self.was, ST.gradmode = ST.gradmode, self.on
        return self

    def __exit__(self, *a):
        ST.gradmode = self.was
        return False

    def __call__(self, f=None):
        if f is None:
            return self

        def g(*a, **k):
            with type(self)():
                return f(*a, **k)
        return g


class NoGrad(GradMode):
    on = False


class Ctx_:
    """ctx of autograd.Function."""

    def __init__(self):
        self.saved_tensors = ()
        self.needs_input_grad = (True,) * 8

    def save_for_backward(self, *ts):
        self.saved_tensors = ts

    def mark_non_differentiable(self, *a):
        pass


class Function:
    @classmethod
    def apply(cls, *args):
        c = Ctx_()
        r = cls.forward(c, *args)
        if isinstance(r, Tensor):
            r = r.map(lambda e: e) if r.st.input else r
            r.grad_fn = Grad(cls, c, args)
            ST.grads.append(r)
        return r


GRAD_RULES = []


def autograd_grad(outputs, inputs, grad_outputs=None, retain_graph=None, create_graph=False, **kw):
    """Trusted contract of torch.autograd.grad; the gradients have a graph of their own only under create_graph."""
    r = gradients(outputs, inputs, grad_outputs)
    if not ST.track_det or create_graph:
        return r
    cut = lambda t: t.detach() if isinstance(t, Tensor) else t
    if isinstance(r, SymList):
        f = r.snapshot()
        return SymList(r.n, lambda i: cut(f(i)))
    return tuple(cut(t) for t in r) if isinstance(r, (tuple, list)) else cut(r)


def gradients(outputs, inputs, grad_outputs):
    """Element = derivative symbol of (objective term, input element)."""
    for rule in GRAD_RULES:
        r = rule(outputs, inputs, grad_outputs)
        if r is not None:
            return r
    if isinstance(outputs, (tuple, list)):
        if len(outputs) != 1:
            raise Unsupported("grad of several outputs")
        outputs = outputs[0]
    single = isinstance(inputs, Tensor)
    ins = [inputs] if single else inputs
    if grad_outputs is not None:
        raise Unsupported("grad with grad_outputs")
    if any(g for g in outputs.groups):
        raise ShadowError("grad can be implicitly created only for scalar outputs")
    obj = outputs.elem(((),) * outputs.dim())

    def one(t):
        rd = t.reader()

        def el(idx):
            x = rd(idx)
            a = x.as_atom() if isinstance(x, Poly) else None
            if a is not None and a.kind == "app" and isinstance(obj, Poly):
                try:
                    return deriv.deriv(obj, a.args[0], a.args[1])
                except deriv.NoDeriv:
                    pass
            return P(atom("grad", obj, x))
        r = mk(t.groups, el, t.dtype)
        r.tag = ("grad", obj, t)
        return r
    if isinstance(ins, SymList) or isinstance(ins, VList) and ins.sym is not None:
        f = ins.snapshot()
        return SymList(ins.n, lambda i: one(f(i)))
    return tuple(one(t) for t in ins)


class Distribution:
    has_rsample = False

    def __init__(self, batch_shape=Size(), event_shape=Size(), validate_args=None):
        self._batch_shape = Size(batch_shape)
        self._event_shape = Size(event_shape)
        self._validate_args = validate_args

    def __setattr__(self, name, v):
        if not ST.caching and sys._getframe(1).f_code.co_name != "__init__":
            ST.impure.append("%s.%s set in %s" % (type(self).__name__, name, sys._getframe(1).f_code.co_qualname))
        object.__setattr__(self, name, v)

    @property
    def batch_shape(self):
        return self._batch_shape

    @property
    def event_shape(self):
        return self._event_shape


class lazy_property:
    def __init__(self, f):
        self.f = f
        self.__doc__ = f.__doc__

    def __get__(self, inst, cls=None):
        if inst is None:
            return self
        with GradMode():
            v = self.f(inst)
        ST.caching += 1
        setattr(inst, self.f.__name__, v)
        ST.caching -= 1
        return v


def noise(kind):
    """Independent noise of one draw: a function of the positions of the enclosing loops and of the index of the drawn element."""
    name = "%s!%d" % (kind, len(ST.rng))
    pos = ()
    for i, l in enumerate(ST.loopstack):
        pos += (P(0),) * ST.peels.count(i) + (l.cur + (1 if l.peeled else 0),)
    pos += (P(0),) * ST.peels.count(len(ST.loopstack))
    ST.rng.append((name, kind, len(pos)))
    return lambda idx: app(name, *(pos + tuple(flat(idx))))


def categorical(probs, groups, row):
    """Draw of a class from probabilities along the last axis: an unspecified function of noise and probabilities that draws
    class c with probability probs[c]."""
    nz = noise("noise")
    rd = probs.reader()
    C = probs.groups[-1]

    def f(idx):
        vs = tuple(fresh("c") for _ in C)
        if len(vs) > 1:
            raise Unsupported("categorical over merged axes")
        if not vs:
            return P(0)
        with under(le(0, vs[0]), lt(vs[0], C[0])):
            m = mat([vs[0].as_atom()], [C[0]], rd(tuple(row(idx)) + (vs,)))
        return P(atom("cat", nz(idx), m, sort="I"))
    return mk(groups, f, int64)


def multinomial(t, n, replacement=False):
    """n draws per row (with replacement; without it the draws of a row exclude each other, except for a single one)."""
    k = pl(n)
    if not replacement and k.const() != 1:
        raise Unsupported("multinomial without replacement")
    p = t / t.sum(-1, keepdim=True)
    return categorical(p, list(t.groups[:-1]) + [() if k.const() == 1 else (k,)], lambda idx: idx[:-1])


class Gumbel(Distribution):
    def __init__(self, loc, scale):
        self.loc, self.scale = loc, scale

    def sample(self, shape=Size()):
        nz = noise("gumbel")
        if not all(isinstance(x, (int, float)) for x in (self.loc, self.scale)):
            raise Unsupported("Gumbel with tensor parameters")
        if self.loc == 0 and self.scale == 1:
            return mk(dims_of(tuple(shape)), nz, userfloat)
        return mk(dims_of(tuple(shape)), lambda idx: nz(idx) * P(Fraction(self.scale)) + P(Fraction(self.loc)), userfloat)


class Categorical(Distribution):
    def __init__(self, probs=None, logits=None):
        self.probs, self.logits = probs, logits

    def sample(self, shape=Size()):
        t = self.logits if self.logits is not None else self.probs
        if self.probs is None:
            t = softmax(t, -1)
        else:
            t = t / t.sum(-1, keepdim=True)
        lead = dims_of(tuple(shape))
        return categorical(t, lead + list(t.groups[:-1]), lambda idx: idx[len(lead):])


class Any_:
    def __getattr__(self, k):
        return Any_()

    def __call__(self, *a, **k):
        return Any_()


class Module:
    def __init__(self):
        pass

    def __call__(self, *a, **k):
        return self.forward(*a, **k)


def is_tensor(x):
    return isinstance(x, Tensor)


def squeeze(t, *a):
    return t.squeeze(*a)


def unsupported_fn(name):
    def f(*a, **k):
        raise Unsupported("torch." + name)
    return f


class TorchModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        m = getattr(Tensor, k, None)
        if callable(m):
            return lambda t, *a, **kw: getattr(t, k)(*a, **kw)
        return unsupported_fn(k)


def method(name):
    def f(t, *a, **k):
        return getattr(t, name)(*a, **k)
    return f


def build():
    t = TorchModule("torch")
    for k in ("tensor", "LongTensor", "zeros", "ones", "zeros_like", "ones_like", "full_like", "stack", "cat", "where", "matmul",
              "logsumexp", "softmax", "log_softmax", "topk", "sort", "cumsum", "gather", "arange", "eye", "diag_embed", "inverse",
              "logdet", "prod", "multinomial", "is_tensor", "Size", "Tensor", "minimum", "maximum", "norm", "argmax"):
        setattr(t, k, globals()[k])
    t.full = lambda size, v, dtype=None, **k: full(tuple(size), v, dtype)
    t.sum, t.max, t.min, t.any, t.all, t.bmm = sum_, tmax, tmin, any_, all_, matmul
    t.float, t.float32, t.float64, t.double = float32, float32, float64, float64
    t.long, t.int64, t.int, t.int32, t.uint8, t.bool = int64, int64, int32, int32, uint8, bool_
    t.dtype, t.device = DType, lambda *a: DEVICE
    t.FloatTensor = lambda x: tensor(x, float32)
    t.enable_grad, t.no_grad = GradMode, NoGrad
    for k in ("mul", "add", "sub", "div", "exp", "log", "transpose", "permute", "diagonal", "clamp", "unsqueeze", "reshape",
              "flatten", "abs", "pow", "relu", "masked_fill", "sqrt", "mean", "logical_not", "logical_and", "logical_or", "eq",
              "ne", "lt", "gt", "le", "ge", "clone", "nonzero", "argsort"):
        setattr(t, k, method(k))
    t.squeeze = squeeze
    t.randint = unsupported_fn("randint")
    t.rand = unsupported_fn("rand")
    ag = types.ModuleType("torch.autograd")
    ag.Function, ag.grad = Function, autograd_grad
    t.autograd = ag
    nn = types.ModuleType("torch.nn")
    nn.Module = Module
    F = types.ModuleType("torch.nn.functional")
    F.one_hot = one_hot
    F.softmax, F.log_softmax = softmax, log_softmax
    nn.functional = F
    t.nn = nn
    d = types.ModuleType("torch.distributions")
    d.Gumbel, d.Categorical, d.Distribution = Gumbel, Categorical, Distribution
    cons = Any_()
    d.constraints = cons
    dd = types.ModuleType("torch.distributions.distribution")
    dd.Distribution = Distribution
    du = types.ModuleType("torch.distributions.utils")
    du.lazy_property = lazy_property
    d.distribution, d.utils = dd, du
    t.distributions = d
    mods = {"torch": t, "torch.autograd": ag, "torch.nn": nn, "torch.nn.functional": F, "torch.distributions": d,
            "torch.distributions.distribution": dd, "torch.distributions.utils": du}
    m = types.ModuleType("math")
    for k in dir(_math):
        if not k.startswith("__"):
            setattr(m, k, getattr(_math, k))
    m.log, m.ceil, m.pow, m.floor, m.log2 = mlog, mceil, mpow, mfloor, mlog2
    mods["math"] = m
    return mods


# ---- math on symbolic integers: ceil(log2(n)) is characterised by 2^(r-1) < n <= 2^r

class SymLog2:
    def __init__(self, p):
        self.p = p


def mlog(x, base=None):
    if isinstance(x, (SymInt, Tensor)):
        p = pl(x)
        if p.const() is not None:
            return _math.log(p.const(), base) if base is not None else _math.log(p.const())
        if base == 2:
            return SymLog2(p)
        raise Unsupported("log of a symbolic number")
    return _math.log(x, base) if base is not None else _math.log(x)


def mlog2(x):
    return mlog(x, 2)


LOG2 = {}


def mceil(x):
    if isinstance(x, SymLog2):
        if x.p not in LOG2:
            LOG2[x.p] = P(var("log%d" % len(LOG2)))
        L = LOG2[x.p]
        if not truth(le(1, x.p)):
            raise ShadowError("math domain error")
        # rounding may make the float result one too large at powers of two, never too small
        assume(le(0, L), le(x.p, pow2(L)))
        return mkint(L)
    if isinstance(x, SymInt):
        if is_int(x.p):
            return x
        raise Unsupported("ceil")
    return _math.ceil(x)


def bit_length(p):
    if not truth(le(0, p)):
        raise Unsupported("bit_length of a negative number")
    q = p + 1           # 2^L >= p + 1
    if q not in LOG2:
        LOG2[q] = P(var("log%d" % len(LOG2)))
    L = LOG2[q]
    assume(le(0, L), le(q, pow2(L)))
    return mkint(L)


def mfloor(x):
    if isinstance(x, SymInt) and is_int(x.p):
        return x
    if isinstance(x, (SymInt, SymLog2)):
        raise Unsupported("floor")
    return _math.floor(x)


def mpow(a, b):
    if isinstance(b, SymInt) and a == 2:
        return mkint(pow2(b.p))
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        raise Unsupported("pow")
    return _math.pow(a, b)
