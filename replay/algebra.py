"""Runtime contract checks: semiring algebra (C06), checkpointing (C15), sparsemax (C19)."""
import itertools
import math
import random
import torch
from .fam import ts, values
from .structs import Bad, close, semiring

F64 = torch.float64


def comp_ref(name, k=None):
    """Reference algebra on python values (component tuples)."""
    if name.startswith("fast"):
        name = {"fastmax": "max"}.get(name, "log")
    def lse(xs):
        m = max(xs)
        return m if m == -math.inf else m + math.log(sum(math.exp(x - m) for x in xs))

    if name == "log":
        return 1, (lambda xs: (lse([x[0] for x in xs]),)), (lambda a, b: (a[0] + b[0],)), (-1e5,), (0.0,)
    if name == "max":
        return 1, (lambda xs: (max(x[0] for x in xs),)), (lambda a, b: (a[0] + b[0],)), (-1e5,), (0.0,)
    if name == "std":
        return 1, (lambda xs: (sum(x[0] for x in xs),)), (lambda a, b: (a[0] * b[0],)), (0.0,), (1.0,)
    if name.startswith("kmax"):
        k = int(name[4:])

        def ksum(xs):
            return tuple(sorted([v for x in xs for v in x], reverse=True)[:k])

        def kmul(a, b):
            return tuple(sorted([x + y for x in a for y in b], reverse=True)[:k])
        return k, ksum, kmul, (-1e5,) * k, (0.0,) + (-1e5,) * (k - 1)
    if name == "entropy":
        def esum(xs):
            z = lse([x[0] for x in xs])
            return (z, sum(math.exp(x[0] - z) * (x[1] - (x[0] - z)) for x in xs))
        return 2, esum, (lambda a, b: tuple(x + y for x, y in zip(a, b))), (-1e5, 0.0), (0.0, 0.0)
    if name in ("ce", "kl"):
        def csum(xs):
            zp, zq = lse([x[0] for x in xs]), lse([x[1] for x in xs])
            t = 0.0
            for x in xs:
                w = math.exp(x[0] - zp)
                t += w * (x[2] - (x[1] - zq) + ((x[0] - zp) if name == "kl" else 0.0))
            return (zp, zq, t)
        return 3, csum, (lambda a, b: tuple(x + y for x, y in zip(a, b))), (-1e5, -1e5, 0.0), (0.0, 0.0, 0.0)
    raise ValueError(name)


def fast(name):
    """Semirings on top of the optional genbmm library, which is replaced by its contract when it is not installed."""
    import importlib
    import sys
    import types
    ts()
    m = importlib.import_module("torch_struct.semirings.fast_semirings")
    if not hasattr(m, "genbmm"):
        g = types.ModuleType("genbmm")
        g.BandedMatrix = type("BandedMatrix", (), {})
        pairs = lambda a, b: a.unsqueeze(-1) + b.unsqueeze(-3)
        g.logbmm = g.samplebmm = lambda a, b: pairs(a, b).logsumexp(-2)
        g.maxbmm = lambda a, b: pairs(a, b).max(-2)[0]
        m.genbmm = sys.modules["genbmm"] = g
    return getattr(m, {"fastlog": "FastLogSemiring", "fastmax": "FastMaxSemiring", "fastsample": "FastSampleSemiring"}[name])


def sr_of(name):
    if name.startswith("fast"):
        return fast(name)
    t = ts()
    if name == "ce":
        return t.CrossEntropySemiring
    if name == "kl":
        return t.KLDivergenceSemiring
    return semiring(name)


def elems(t):
    """tensor ssize x shape -> (shape, dict index -> tuple)"""
    shape = tuple(t.shape[1:])
    return shape, {i: tuple(t[(slice(None),) + i].tolist()) for i in itertools.product(*[range(n) for n in shape])}


def rand(S, shape, seed, name, kind="normal"):
    gen = torch.Generator().manual_seed(seed)
    x = values((S,) + tuple(shape), kind, gen)
    if name.startswith("kmax"):
        x = x.sort(0, descending=True)[0]
    return x


def check(got, want, shape, case, what):
    if tuple(got.shape[1:]) != tuple(shape):
        raise Bad("%s: shape %s, expected %s" % (what, tuple(got.shape[1:]), tuple(shape)))
    for i, w in want.items():
        close(got[(slice(None),) + i], torch.tensor(w, dtype=F64), case, "%s at %s" % (what, i), 10)


def bshape(a, b):
    return tuple(torch.broadcast_shapes(a, b))


def bidx(i, shape):
    """index i of the broadcast result in a tensor of `shape`"""
    i = i[len(i) - len(shape):]
    return tuple(0 if n == 1 else x for x, n in zip(i, shape))


def run_algebra(case):
    name, op = case["sr"], case["op"]
    S, rsum, rmul, zero, one = comp_ref(name)
    sr = sr_of(name)
    if sr.size() != S:
        raise Bad("size() is %r, expected %d" % (sr.size(), S))
    shape = tuple(case["shape"])
    kind = case.get("kind", "normal")
    seed = case["seed"]
    if op == "sum":
        x = rand(S, shape, seed, name, kind)
        dim = case.get("dim", -1)
        d = dim % (len(shape) + 1) - 1
        _, e = elems(x)
        want = {}
        oshape = shape[:d] + shape[d + 1:]
        for i in itertools.product(*[range(n) for n in oshape]):
            want[i] = rsum([e[i[:d] + (j,) + i[d:]] for j in range(shape[d])])
        check(sr.sum(x) if case.get("default") else sr.sum(x, dim=dim), want, oshape, case, "sum")
    elif op == "plus":
        a, b = rand(S, shape, seed, name, kind), rand(S, shape, seed + 1, name, kind)
        _, ea = elems(a)
        _, eb = elems(b)
        check(sr.plus(a, b), {i: rsum([ea[i], eb[i]]) for i in ea}, shape, case, "plus")
        z = sr.fill(torch.zeros_like(a), torch.tensor(True), sr.zero)
        if kind in ("normal", "wide"):
            check(sr.plus(a, z), ea, shape, case, "plus with zero")
            check(sr.plus(z, a), ea, shape, case, "zero plus")
    elif op == "times":
        n = case.get("n", 2)
        ls = [rand(S, case["shapes"][i] if "shapes" in case else shape, seed + i, name, kind) for i in range(n)]
        es = [elems(x) for x in ls]
        osh = es[0][0]
        for s, _ in es[1:]:
            osh = bshape(osh, s)
        want = {}
        for i in itertools.product(*[range(m) for m in osh]):
            v = es[0][1][bidx(i, es[0][0])]
            for s, e in es[1:]:
                v = rmul(v, e[bidx(i, s)])
            want[i] = v
        check(sr.times(*ls), want, osh, case, "times")
        if n == 2:
            check(sr.mul(*ls), want, osh, case, "mul")
        o = sr.fill(torch.zeros_like(ls[0]), torch.tensor(True), sr.one)
        if kind in ("normal", "wide"):
            check(sr.times(ls[0], o), es[0][1], es[0][0], case, "times one")
            z = sr.fill(torch.zeros_like(ls[0]), torch.tensor(True), sr.zero)
            r = sr.times(ls[0], z)
            if name == "std":
                if bool((r != 0).any()):
                    raise Bad("times zero is not zero")
            else:
                comp = r if name.startswith("kmax") else r[:2] if name in ("ce", "kl") else r[:1]
                if bool((comp > -5e4).any()):
                    raise Bad("times zero is not (minus infinity)")
    elif op == "prod":
        # product over an axis; components of input potentials
        x = rand(S, shape, seed, name, kind)
        if name.startswith("kmax"):
            return
        dim = case.get("dim", -1)
        d = dim % (len(shape) + 1) - 1
        _, e = elems(x)
        oshape = shape[:d] + shape[d + 1:]
        want = {}
        for i in itertools.product(*[range(n) for n in oshape]):
            v = e[i[:d] + (0,) + i[d:]]
            for j in range(1, shape[d]):
                v = rmul(v, e[i[:d] + (j,) + i[d:]])
            want[i] = v
        check(sr.prod(x) if case.get("default") else sr.prod(x, dim=dim), want, oshape, case, "prod")
    elif op in ("matmul", "dot"):
        sa, sb = tuple(case["sa"]), tuple(case["sb"])
        a, b = rand(S, sa, seed, name, kind), rand(S, sb, seed + 1, name, kind)
        _, ea = elems(a)
        _, eb = elems(b)
        want = {}
        if op == "matmul":
            lead = bshape(sa[:-2], sb[:-2])
            osh = lead + (sa[-2], sb[-1])
            for i in itertools.product(*[range(m) for m in osh]):
                l, r, c = i[:-2], i[-2], i[-1]
                want[i] = rsum([rmul(ea[bidx(l, sa[:-2]) + (r, j)], eb[bidx(l, sb[:-2]) + (j, c)]) for j in range(sa[-1])])
            check(sr.matmul(a, b), want, osh, case, "matmul")
        else:
            lead = bshape(sa[:-1], sb[:-1])
            for i in itertools.product(*[range(m) for m in lead]):
                want[i] = rsum([rmul(ea[bidx(i, sa[:-1]) + (j,)], eb[bidx(i, sb[:-1]) + (j,)]) for j in range(sa[-1])])
            check(sr.dot(a, b), want, lead, case, "dot")
    elif op == "fill":
        x = rand(S, shape, seed, name, kind)
        gen = torch.Generator().manual_seed(seed + 5)
        mask = torch.rand(shape, generator=gen) < 0.5
        keep = x.clone()
        for vname, v in (("zero", zero), ("one", one)):
            _, e = elems(x)
            got = sr.fill(x, mask, getattr(sr, vname))
            want = {i: (v if bool(mask[i]) else e[i]) for i in e}
            check(got, want, shape, case, "fill with %s" % vname)
        if not torch.equal(x, keep):
            raise Bad("fill modified its argument")
    elif op == "convert":
        gen = torch.Generator().manual_seed(seed)
        if name in ("ce", "kl"):
            p = [values(shape, kind, gen), values(shape, kind, gen)]
            got = sr.convert(p)
            want = {i: (p[0][i].item(), p[1][i].item(), 0.0) for i in itertools.product(*[range(m) for m in shape])}
        else:
            p = values(shape, kind, gen)
            got = sr.convert(p)
            rest = (0.0,) if name == "entropy" else (-1e5,) * (S - 1)
            want = {i: (p[i].item(),) + rest for i in itertools.product(*[range(m) for m in shape])}
        check(got, want, shape, case, "convert")
        y = rand(S, shape, seed + 3, name, kind)
        u = sr.unconvert(y)
        close(u, y[-1] if name in ("ce", "kl", "entropy") else y[0], case, "unconvert")


# --------------------------------------------------------------------------- checkpoint

def run_checkpoint(case):
    t = ts()
    cls = sr_of(case["sr"])
    S = cls.size()
    a = rand(S, case["sa"], case["seed"], case["sr"], case.get("kind", "normal"))
    b = rand(S, case["sb"], case["seed"] + 1, case["sr"], case.get("kind", "normal"))
    if case["wrap"] == "check":
        w = t.CheckpointSemiring(cls, case["min_size"]) if "min_size" in case else t.CheckpointSemiring(cls)
    else:
        w = t.CheckpointShardSemiring(cls, case["max_size"], case.get("min_size", 0))
    res = []
    for sr in (cls, w):
        x, y = a.clone(), b.clone()
        if case["grad"] in ("a", "ab"):
            x.requires_grad_(True)
        if case["grad"] in ("b", "ab"):
            y.requires_grad_(True)
        r = sr.dot(x, y) if case.get("op") == "dot" else sr.matmul(x, y)
        gen = torch.Generator().manual_seed(case["seed"] + 2)
        g = torch.randn(r.shape, generator=gen, dtype=r.dtype)
        if case["seed"] % 3 == 0 and g.dim() > 1:
            g = g.transpose(0, -1).contiguous().transpose(0, -1)
        gr = []
        if case["grad"]:
            ins = [z for z in (x, y) if z.requires_grad]
            gr = list(torch.autograd.grad(r, ins, g))
        if not torch.equal(x.detach(), a) or not torch.equal(y.detach(), b):
            raise Bad("operands modified")
        res.append([r] + gr)
    for i, (p, q) in enumerate(zip(*res)):
        close(q, p, case, "value" if i == 0 else "gradient of operand %d" % i)


# --------------------------------------------------------------------------- sparsemax

def project(v):
    """Euclidean projection by bisection on the threshold."""
    lo, hi = min(v) - 2.0, max(v)
    for _ in range(200):
        m = (lo + hi) / 2
        if sum(max(x - m, 0) for x in v) > 1:
            lo = m
        else:
            hi = m
    return [max(x - hi, 0.0) for x in v]


def run_sparsemax(case):
    t = ts()
    gen = torch.Generator().manual_seed(case["seed"])
    x = values(tuple(case["shape"]), case.get("kind", "normal"), gen) * case.get("scale", 1.0)
    x.requires_grad_(True)
    dim = case["dim"]
    y = t.SparseMaxSemiring.sum(x, dim=dim) if not case.get("default") else t.SparseMaxSemiring.sum(x)
    osh = list(x.shape)
    del osh[dim]
    if list(y.shape) != osh:
        raise Bad("shape %s" % (tuple(y.shape),))
    go = torch.randn(y.shape, generator=gen, dtype=F64)
    (g,) = torch.autograd.grad(y, x, go, create_graph=True)
    xs = x.detach().transpose(dim, -1).reshape(-1, x.shape[dim])
    w = torch.tensor([project(r.tolist()) for r in xs], dtype=F64)
    want = (w.view(x.detach().transpose(dim, -1).shape).transpose(dim, -1)) * go.unsqueeze(dim)
    close(g, want, case, "gradient")


def run_sparsejac(case):
    """Jacobian of the projection as used in the second backward pass."""
    t = ts()
    gen = torch.Generator().manual_seed(case["seed"])
    x = values(tuple(case["shape"]), case.get("kind", "normal"), gen) * case.get("scale", 1.0)
    dim = case["dim"]
    moved = x.transpose(dim, -1)
    w = torch.tensor([project(r) for r in moved.reshape(-1, moved.shape[-1]).tolist()], dtype=F64).view(moved.shape).transpose(dim, -1)
    w = w * (w > 1e-9)
    u = torch.randn(x.shape, generator=gen, dtype=F64)
    supp = (w > 0).double()
    mean = (u * supp).sum(dim, keepdim=True) / supp.sum(dim, keepdim=True)
    want = supp * (u - mean)
    xr = x.clone().requires_grad_(True)
    (g,) = torch.autograd.grad(t.SparseMaxSemiring.sum(xr, dim).sum(), xr, create_graph=True)
    close(g, w, case, "gradient")
    (h,) = torch.autograd.grad(g, xr, u)
    # the Jacobian is not defined where an element sits exactly on the threshold
    margin = (x - (x - w).where(supp > 0, torch.full_like(x, -1e9)).amax(dim, keepdim=True)).abs()
    if float(margin.min()) < 1e-9:
        return
    close(h, want, case, "second-order gradient")
