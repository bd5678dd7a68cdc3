"""Sampling: the backward pass of the sampled sums draws one element per slice from its softmax, 16 draws packed into the bits of the
gradient, and sample() unpacks every bit once."""
from vt import prover
from vt.contract import *
from .algebra import *
from .family import Fam, recorded
from . import c06

BITS = 16
PERIODS = (10, 16, 15, 8, 1)


def slices(rank, dim):
    d = dim % rank
    return (lambda idx: list(idx[:d]) + list(idx[d + 1:])), (lambda r, v: list(r[:d]) + [v] + list(r[d:]))


def setup(E, rank, dim):
    dims = [E.size("d%d" % i, 1) for i in range(rank)]
    x = E.tensor("x", dims)
    rest, put = slices(rank, dim)
    return dims, x, dims[dim % rank], rest, put


def choice(n, put, r):
    """The drawn position of a slice, its own noise left out."""
    v = fresh("v")
    with under(le(0, v), lt(v, n)):
        u = fresh("u")
        z = bsum(u.as_atom(), 0, n, nexp(app("x", *put(r, u))))
        m = mat([v.as_atom()], [n], nexp(app("x", *put(r, v))) * recip(z))
    return P(atom("cat", P(0), m, sort="I"))


def silent(t):
    """Draws without their noise."""
    return t.map(lambda e: expand(e, {nm: (lambda *a: P(0)) for nm, _, _ in ST.rng}))


def atoms(x, out):
    if isinstance(x, (tuple, list)):
        for y in x:
            atoms(y, out)
    elif isinstance(x, Poly):
        for mono, _ in x.items:
            for a, _e in mono:
                atoms(a, out)
    elif isinstance(x, (Cond, Atom)):
        if isinstance(x, Atom) and x.kind == "cat":
            out.append(x)
        if not (isinstance(x, Atom) and x.kind in ("var", "ninf")):
            atoms(tuple(x.args), out)
    return out


def independent(name, t, d, count):
    """Every slice and every packed sample has its own noise."""
    idx = tuple(tuple(fresh("i") for _ in g) for g in t.groups)
    with under(*[c for g, ix in zip(t.groups, idx) for n, i in zip(g, ix) for c in (le(0, i), lt(i, n))]):
        cs = atoms(t.elem(idx), [])
    own = {i for j, ix in enumerate(idx) for i in ix if j != d}
    nz = {a.args[0] for a in cs}
    ok = len(nz) == count
    for a in nz:
        b = a.as_atom()
        ok = ok and b is not None and b.kind == "app" and own <= set(b.args[1])
    ob(name, ok, "noise of the draws: %s" % sorted(map(str, nz))[:4], status=None if ok else "unknown")


def backward(r, g):
    return r.grad_fn.cls.backward(r.grad_fn.ctx, g)[0]


def single(E, rank, dim):
    dims, x, n, rest, put = setup(E, rank, dim)
    m = E.mod("torch_struct.semirings.sample")
    ST.fn = "SampledSemiring.sum"
    r = m.SampledSemiring.sum(x, dim)
    out = rest(dims)
    E.equals("sum is log-sum-exp", r, out, lambda *i: lse_(lambda k: app("x", *put(list(i), k)), n))
    g = E.tensor("g", out)
    gi = backward(r, g)
    E.equals("gradient selects the drawn element", silent(gi), dims,
             lambda *idx: app("g", *rest(idx)) * b2n(eq(choice(n, put, rest(idx)), idx[dim % rank])))
    independent("draws are independent", gi, dim % rank, 1)
    E.frame()


def packed(name, on, all_):
    """Encoded set of samples: 1 stands for all of them, otherwise bit i + 1 for sample i."""
    s = P(0)
    for i in range(BITS):
        s = s + b2n(on(i)) * (2 << i)
    return nite(all_, P(1), s)


def multi(E, rank, dim):
    dims, x, n, rest, put = setup(E, rank, dim)
    m = E.mod("torch_struct.semirings.sample")
    ST.fn = "MultiSampledSemiring.sum"
    r = m.MultiSampledSemiring.sum(x, dim)
    out = rest(dims)
    E.equals("sum is log-sum-exp", r, out, lambda *i: lse_(lambda k: app("x", *put(list(i), k)), n))
    on = lambda i, *ix: bapp("on", P(i), *ix)
    al = lambda *ix: bapp("root", *ix)
    g = mk([(d,) for d in out], lambda ix: packed("g", lambda i: on(i, *[j[0] for j in ix]), al(*[j[0] for j in ix])), userfloat)
    gi = backward(r, g)

    def spec(*idx):
        s = rest(idx)
        pick = b2n(eq(choice(n, put, s), idx[dim % rank]))
        t = P(0)
        for i in range(BITS):
            t = t + b2n(disj(al(*s), on(i, *s))) * pick * (2 << i)
        return t
    E.equals("gradient packs the drawn elements of the samples that pass through the slice", silent(gi), dims, spec)
    independent("draws are independent", gi, dim % rank, BITS)
    E.frame()


def decode(E, rank):
    dims = [E.size("d%d" % i) for i in range(rank)]
    m = E.mod("torch_struct.semirings.sample")
    ST.fn = "MultiSampledSemiring.to_discrete"
    f = lambda ix: [j[0] for j in ix]
    on = lambda i, *ix: bapp("on", P(i), *ix)
    x = mk([(d,) for d in dims], lambda ix: packed("x", lambda i: on(i, *f(ix)), bapp("root", *f(ix))), userfloat)
    for j in range(BITS):
        E.equals("to_discrete reads sample %d" % j, m.MultiSampledSemiring.to_discrete(x, j), dims, lambda *ix: b2n(disj(bapp("root", *ix), on(j, *ix))))


def where():
    """Positions of the enclosing loops: what identifies one execution of a statement."""
    return tuple(l.cur for l in ST.loopstack)


def schedule(E, rank, lens, fixed=None):
    """sample(): every returned sample is one of the packed ones, read once."""
    F = Fam(E, rank, lens)
    sr = E.mod("torch_struct.semirings.sample").MultiSampledSemiring
    calls = []

    def enc(at):
        return mk([(n,) for n in [F.B] + F.D], lambda ix: app("enc", *at, *[j[0] for j in ix]), userfloat)

    def marginals(self, pot, lengths=None, _raw=False):
        recorded(ST.gradmode)
        ob("sample: sums in the multi-sampling semiring", self.semiring is sr, repr(self.semiring))
        ob("sample: the potentials are handed on", pot is F.pot, "")
        F.ok_lengths(lengths)
        calls.append(where())
        return enc(calls[-1])

    def to_discrete(xs, j):
        j = pl(j)
        ob("sample: 0 <= j < 16 in to_discrete", holds_(conj(le(0, j), lt(j, BITS))), "j = %r" % (j,))
        return xs.map(lambda e: expand(e, {"enc": lambda *a: b2n(F.part(a[-1 - rank], app("Z", *a[:-1 - rank], j, a[-1 - rank], sort="I"), *a[-rank:]))}))

    def tf(loop, dims, o):
        return []

    def loc(loop, name, v0, v1):
        if not isinstance(v1, Tensor) or v1.dim() != rank + 1:
            return []
        return [("last draw every %d" % c, lambda kk, c=c: enc((c * idiv(kk - 1, P(c)),))) for c in PERIODS]
    tf.locals, tf.late = loc, True
    ST.templates = [tf]
    F.Stub.marginals = marginals
    real = vars(sr)["to_discrete"]
    sr.to_discrete = staticmethod(to_discrete)
    n = E.size("n", 1) if fixed is None else P(fixed)
    ST.fn = "StructDistribution.sample"
    t = F.Dist(F.pot, F.lens).sample((mkint(n),))
    sr.to_discrete = real
    out = [n, F.B] + F.D
    if not E.shape("n samples", t, out):
        return
    ix = [fresh("k"), fresh("b")] + [fresh("e") for _ in F.D]
    rg = lambda v: [c for i, m in zip(v, out) for c in (le(0, i), lt(i, m))]
    idx = lambda v: tuple((i,) if g else () for g, i in zip(t.groups, v))
    k, b = ix[:2]
    with under(*rg(ix)) as c:
        code = num(t.elem(idx(ix)))
        zs = named(code, "Z", []) + [app("Z", m * idiv(k, P(m)), imod(k, P(m)) + j, b, sort="I").as_atom() for m in PERIODS for j in (1, 0)]
        # which draw sample k is: one of the terms the code reads, or draw k modulo a period of the last re-draw
        z = next((z for z in zs if prover.holds_eq(code, b2n(F.part(b, P(z), *ix[2:])), c)), None)
    if z is not None:
        E.equals("sample k is the indicator of one drawn structure of its batch element", t, out, lambda *v: b2n(
            F.part(v[1], subst(P(z), dict(zip([i.as_atom() for i in ix], v))), *v[2:])))
        k2 = fresh("k")
        z2 = subst(P(z), {k.as_atom(): k2}).as_atom()
        with under(*rg(ix), le(0, k2), lt(k2, n), neg(eq(k, k2))):
            differ = neg(conj(*[eq(x, y) for x, y in zip(z.args[1], z2.args[1])]))
            ok = holds_(differ)
            ob("no draw is returned twice", ok, "samples %r and %r" % (z, z2), status=None if ok else "unknown")
    else:
        ob("sample k is the indicator of one drawn structure of its batch element", False, "reads %s" % zs[:3], status="unknown")
    E.frame()


def relaxed(E, rank, lengths):
    """gumbel_crf reads the sub-gradients of the sum in the Gumbel semiring at the given temperature."""
    ST.weak = True
    F = Fam(E, rank, lengths)
    temp = E.tensor("temp", [])
    made = ST.made = []

    def factory(t=None):
        ST.made.append((t, type("Gumbel", (), {})))
        return ST.made[-1][1]
    E.put("torch_struct.distributions", "GumbelCRFSemiring", factory)

    def marginals(self, pot, lengths=None, _raw=False):
        recorded(ST.gradmode)
        ob("gumbel_crf: sums in the Gumbel semiring", len(made) == 1 and self.semiring is made[0][1] and not _raw, repr(self.semiring))
        ob("gumbel_crf: at the given temperature", made[-1][0] is temp, repr(made))
        ob("gumbel_crf: the potentials are handed on", pot is F.pot, "")
        F.ok_lengths(lengths)
        return mk([(n,) for n in [F.B] + F.D], lambda ix: app("edge", *[j[0] for j in ix]), userfloat)
    F.Stub.marginals = marginals
    ST.fn = "StructDistribution.gumbel_crf"
    E.equals("the marginals are returned", F.Dist(F.pot, F.lens).gumbel_crf(temp), [F.B] + F.D, lambda *i: app("edge", *i))
    E.frame()


def holds_(c):
    return ST.ctx.entails(c)


def named(x, name, out):
    if isinstance(x, (tuple, list)):
        for y in x:
            named(y, name, out)
    elif isinstance(x, Poly):
        for mono, _ in x.items:
            for a, _e in mono:
                named(a, name, out)
    elif isinstance(x, (Cond, Atom)):
        if isinstance(x, Atom) and x.kind == "app" and x.args[0] == name:
            out.append(x)
        if not (isinstance(x, Atom) and x.kind in ("var", "ninf")):
            named(tuple(x.args), name, out)
    return out


def gumbel(E, rank, dim, kind):
    """The gradient selects the arg-max of the perturbed scores of each slice."""
    dims, x, n, rest, put = setup(E, rank, dim)
    m = E.mod("torch_struct.semirings.sample")
    temp = E.tensor("temp", [])
    assume(lt(0, app("temp")))
    sr = getattr(m, kind)(temp)
    ST.fn = kind + ".sum"
    r = sr.sum(x, dim)
    out = rest(dims)
    E.equals("sum is log-sum-exp", r, out, lambda *i: lse_(lambda k: app("x", *put(list(i), k)), n))
    g = E.tensor("g", out)
    gi = backward(r, g)
    gi = gi.map(lambda e: expand(e, {nm: (lambda *a: app("G", a[-1])) for nm, _, _ in ST.rng}))

    def pick(s):
        v = fresh("v")
        return P(atom("argmax", mat([v.as_atom()], [n], (app("x", *put(s, v)) + app("G", v)) * recip(app("temp"))), sort="I"))
    E.equals("gradient selects the arg-max of the perturbed slice", gi, dims,
             lambda *idx: app("g", *rest(idx)) * b2n(eq(pick(rest(idx)), idx[dim % rank])))
    E.frame()


NOTE = ["torch.multinomial draws class c of a row with its probability, independently for every draw (with replacement)",
        "autograd calls the backward functions as documented and adds up the gradients of several uses"]
for _r in (1, 2, 3, 4):
    for _d in list(range(_r)) + list(range(-_r, 0)):
        _s = "rank %d, axis %d" % (_r, _d)
        contract("C10", "sampled sum, " + _s, ["SampledSemiring.sum", "_SampledLogSumExp.forward", "_SampledLogSumExp.backward"], NOTE)(
            lambda E, r=_r, d=_d: single(E, r, d))
        contract("C10", "multi-sampled sum, " + _s, ["MultiSampledSemiring.sum", "_MultiSampledLogSumExp.forward", "_MultiSampledLogSumExp.backward"], NOTE)(
            lambda E, r=_r, d=_d: multi(E, r, d))
for _r in (1, 2, 3, 4):
    contract("C10", "decoding, rank %d" % _r, ["MultiSampledSemiring.to_discrete"], NOTE)(lambda E, r=_r: decode(E, r))

for _k in ("GumbelCRFSemiring", "GumbelMaxSemiring"):
    for _r in (1, 2, 3, 4):
        for _d in list(range(_r)) + list(range(-_r, 0)):
            contract("C10", "%s sum, rank %d, axis %d" % (_k, _r, _d), [_k + ".sum", _k + " forward/backward"],
                     ["ties of the perturbed scores are broken as torch.max breaks them"])(lambda E, r=_r, d=_d, k=_k: gumbel(E, r, d, k))
for _r in (2, 3, 4):
    for _l in (False, True):
        contract("C10", "sample schedule, events of rank %d%s" % (_r, ", lengths" if _l else ""), ["StructDistribution.sample", "StructDistribution._struct"])(
            lambda E, r=_r, l=_l: schedule(E, r, l))
        contract("C10", "gumbel_crf, events of rank %d%s" % (_r, ", lengths" if _l else ""), ["StructDistribution.gumbel_crf", "StructDistribution._struct"])(
            lambda E, r=_r, l=_l: relaxed(E, r, l))

# the remaining operations: the values are those of the log semiring, and every reduction goes through the sampling sum
for _k in ("SampledSemiring", "MultiSampledSemiring", "GumbelCRFSemiring", "GumbelMaxSemiring"):
    for _v in (_k, _k + " via sum"):
        for _r in (0, 1, 3):
            contract("C10", "%s elementwise and reductions, rank %d" % (_v, _r), ["%s.%s" % (_k, f) for f in ("sum", "mul", "prod", "zero", "one")] +
                     ["Semiring." + f for f in ("times", "plus", "dot", "fill")])(lambda E, c=_v, r=_r: c06.ops(E, c, r))
        for _p in ("", "-", "ab"):
            contract("C10", "%s matmul and dot, broadcasting [%s]" % (_v, _p), [_k + ".matmul", "Semiring.dot", "semirings.matmul"])(
                lambda E, c=_v, p=_p: c06.matmuls(E, c, len(p), p))
    contract("C10", "%s conversions" % _k, [_k + ".convert", _k + ".unconvert"])(lambda E, c=_k: c06.conv(E, c, 3))
