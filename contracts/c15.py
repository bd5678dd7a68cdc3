"""Checkpointed and sharded matmul: value and gradients of the wrapped semiring, for every shard size."""
import builtins
from vt.contract import *
from vt import storch
from vt.stensor import Tensor, bto

NOTE = ["matmul of the wrapped semiring treats the leading axes independently (its own contract, C06), so its vector-Jacobian product at a batch "
        "index is a function of the operands and the incoming gradient at that index, summed over axes an operand is broadcast along",
        "torch.autograd.Function.apply calls forward and, in the backward pass with gradient recording switched off, backward"]


def one_mat(dims, f):
    vs = [fresh("m") for _ in dims]
    with under(*[c for v, d in zip(vs, dims) for c in (le(0, v), lt(v, d))]):
        return mat([v.as_atom() for v in vs], dims, f(*vs))


def vjp(which, A, B, G, *ix):
    return P(atom("vjp", which, A, B, G, *ix))


class Wrapped:
    """The wrapped semiring (any commutative semiring) and two operands; axis i: sizes agree and exceed one (n), both are
    one (1), or only operand a or b has size one."""

    def __init__(self, E, pat, single):
        self.S, self.pat, n = E.size("S"), pat, len(pat)
        self.D = [P(1) if pat[i] == "1" else E.size("d%d" % i, 2) for i in builtins.range(n)]
        self.I, self.K, self.J = E.size("I"), E.size("K"), E.size("J")
        for nm, v in (("S", self.S), ("I", self.I), ("K", self.K)):
            assume(eq(v, 1) if nm in single else le(2, v))
        side = lambda q: [P(1) if pat[i] == q else self.D[i] for i in builtins.range(n)]
        self.da, self.db = side("a"), side("b")
        self.single = single
        self.ab = AbsSemiring(self.S)
        val = lambda nm, dims: mk([(self.S,)] + [() if d.const() == 1 else (d,) for d in dims],
                                  lambda ix: comp(ix[0][0], vapp(nm, *[i[0] if i else P(0) for i in ix[1:]])), userfloat)
        self.a, self.b = val("a", self.da + [self.I, self.K]), val("b", self.db + [self.K, self.J])
        for t in (self.a, self.b):
            t.st.input = True
        self.g = E.tensor("g", [self.S] + self.D + [self.I, self.J])
        me = self

        class Cls:
            @staticmethod
            def matmul(a, b):
                r = me.ab.matmul(a, b)
                r.tag = ("mm", a, b, ST.gradmode)
                return r
        self.cls = Cls
        storch.GRAD_RULES[:] = [self.rule]

    def na(self, n):
        return tuple(P(0) if p == "a" else i for p, i in zip(self.pat, n))

    def nb(self, n):
        return tuple(P(0) if p == "b" else i for p, i in zip(self.pat, n))

    def value(self, s, n, i, j):
        if "K" in self.single:
            return comp(s, vtimes(vapp("a", *self.na(n), i, P(0)), vapp("b", *self.nb(n), P(0), j)))
        k = fresh("k")
        return comp(s, vsum(k.as_atom(), 0, self.K, vtimes(vapp("a", *self.na(n), i, k), vapp("b", *self.nb(n), k, j))))

    def at(self, which, n, *ix):
        """Gradient contribution of batch index n."""
        S, I, K, J = self.S, self.I, self.K, self.J
        return vjp(which, one_mat([S, I, K], lambda s, i, k: comp(s, vapp("a", *self.na(n), i, k))),
                   one_mat([S, K, J], lambda s, k, j: comp(s, vapp("b", *self.nb(n), k, j))),
                   one_mat([S, I, J], lambda s, i, j: app("g", s, *n, i, j)), *ix)

    def grad(self, which, s, n, x, y):
        """Gradient with respect to an operand: contributions summed over the axes it is broadcast along."""
        full, vs = [], []
        for p, i, d in zip(self.pat, n, self.D):
            if p == which:
                v = fresh("n")
                vs.append((v.as_atom(), d))
                full.append(v)
            else:
                full.append(i)
        r = self.at(which, tuple(full), s, x, y)
        for v, d in vs:
            r = bsum(v, 0, d, r)
        return r

    # contract of torch.autograd.grad for outputs of the wrapped matmul
    def rule(self, q, ins, gout):
        tag = getattr(q, "tag", None)
        if not tag or tag[0] != "mm":
            return None
        _, a, b, mode = tag
        if gout is None:
            return None
        ob("the recomputed matmul is recorded", mode is True, "gradient recording is off where the matmul is recomputed")
        ins = list(ins) if isinstance(ins, (tuple, list)) else [ins]
        if not builtins.all(builtins.any(t is u for u in (a, b)) for t in ins):
            ob("differentiated with respect to the operands", False, "gradient with respect to tensors that are not operands of the matmul")
            raise Unsupported("gradient of an unrelated tensor")
        for t in ins:
            ob("the operand of the recomputed matmul requires gradients", t.requires_grad is True, "requires_grad is not set")
        batch = q.groups[1:-2]
        gr = bto(gout, q.groups)
        if [gsize(x).const() or gsize(x) for x in gout.groups] != [gsize(x).const() or gsize(x) for x in q.groups]:
            for x, y in zip(gout.groups, q.groups):
                if len(gout.groups) != len(q.groups) or not same(gsize(x), gsize(y)):
                    raise ShadowError("Mismatch in shape: grad_output has shape %r, output %r" % (gout.groups, q.groups))
        ra, rb = a.reader(), b.reader()
        I, K, J = self.I, self.K, self.J
        w = lambda g, x: () if not g else (x,)

        def contribution(which, n, s, x, y):
            pa = tuple(() if not ga else i for ga, i in zip(a.groups[1:-2], n))
            pb = tuple(() if not gb else i for gb, i in zip(b.groups[1:-2], n))
            A = one_mat([self.S, I, K], lambda s_, i, k: ra(((s_,),) + pa + (w(a.groups[-2], i), w(a.groups[-1], k))))
            B = one_mat([self.S, K, J], lambda s_, k, j: rb(((s_,),) + pb + (w(b.groups[-2], k), w(b.groups[-1], j))))
            G = one_mat([self.S, I, J], lambda s_, i, j: gr(((s_,),) + n + (w(q.groups[-2], i), w(q.groups[-1], j))))
            return vjp(which, A, B, G, s, x, y)

        def one(which, t):
            def el(idx):
                n, vs = [], []
                for g, h, i in zip(t.groups[1:-2], batch, idx[1:-2]):
                    if not g and h:
                        v = [fresh("n") for _ in h]
                        vs += list(zip(v, h))
                        n.append(tuple(v))
                    else:
                        n.append(i)
                x, y = [i[0] if i else P(0) for i in idx[-2:]]
                with under(*[c for v, d in vs for c in (le(0, v), lt(v, d))]):
                    r = contribution(which, tuple(n), idx[0][0], x, y)
                for v, d in vs:
                    r = bsum(v.as_atom(), 0, d, r)
                return r
            return mk(t.groups, el, t.dtype)
        return tuple(one("a" if t is a else "b", t) for t in ins)

    # loop invariants: the blocks before the current one are done
    def template(self, loop, dims, st):
        src = loop.it.src
        if src is None or len(dims) != sum(d.const() != 1 for d in self.D) + 3:
            return

        def done(f):
            def content(k, fl):
                it = iter(fl[1:-2])
                n = tuple(P(0) if d.const() == 1 else next(it) for d in self.D)
                r = P(0)
                for i, d in zip(n, self.D):
                    r = r * d + i
                return nite(lt(r, k * src.step), f(fl[0], n, *fl[-2:]), P(0))
            return content
        yield "finished shards of the product", done(lambda s, n, i, j: self.value(s, n, i, j))
        yield "finished shards of the first gradient", done(lambda s, n, i, k: self.at("a", n, s, i, k))
        yield "finished shards of the second gradient", done(lambda s, n, k, j: self.at("b", n, s, k, j))


def run(E, pat, kind, single):
    W = Wrapped(E, pat, single)
    ST.templates = [W.template]
    m = E.mod("torch_struct.semirings.checkpoint")
    mn = E.size("min_size", 0)
    if kind == "shard":
        sr = m.CheckpointShardSemiring(W.cls, mkint(E.size("max_size", 0)), mkint(mn))
        ST.fn = "CheckpointShardSemiring.matmul"
    else:
        sr = m.CheckpointSemiring(W.cls, mkint(mn))
        ST.fn = "CheckpointSemiring.matmul"
    c = sr.matmul(W.a, W.b)
    out = [W.S] + W.D + [W.I, W.J]
    E.equals("value of the wrapped matmul", c, out, lambda s, *n: W.value(s, n[:-2], *n[-2:]))
    if c.grad_fn is None:
        # not wrapped: the wrapped semiring's own graph
        ob("the result is the wrapped semiring's own", getattr(c, "tag", None) is not None and c.tag[0] == "mm" and c.tag[3] is True, "")
        return
    fn, ctx = c.grad_fn.cls, c.grad_fn.ctx
    ST.gradmode = False
    ga, gb = fn.backward(ctx, W.g)
    ST.gradmode = True
    E.equals("gradient of the first operand", ga, [W.S] + W.da + [W.I, W.K], lambda s, *n: W.grad("a", s, n[:-2], *n[-2:]))
    E.equals("gradient of the second operand", gb, [W.S] + W.db + [W.K, W.J], lambda s, *n: W.grad("b", s, n[:-2], *n[-2:]))
    E.frame()


SMALL = ["".join(x) for x in (("",), "S", "I", "K", "SI", "SK", "IK", "SIK")]
QUICK2 = ["nn", "na", "ab"]
for _k in ("check", "shard"):
    for _p in ["", "n", "1", "a", "b"] + [x + y for x in "nab1" for y in "nab1"]:
        for _s in SMALL:
            _q = len(_p) < 2 or _p in QUICK2 and not _s
            contract("C15", "%s, leading axes %s%s" % ({"check": "CheckpointSemiring", "shard": "CheckpointShardSemiring"}[_k], _p or "none",
                                                      ", %s = 1" % " = ".join(_s) if _s else ""),
                     ["CheckpointSemiring", "broadcast_size"] if _k == "check" else
                     ["CheckpointShardSemiring", "accumulate_", "unaccumulate_", "matmul_size", "ones"],
                     NOTE, tier="quick" if _q else "thorough")((lambda p, k, s: (lambda E: run(E, p, k, s)))(_p, _k, _s))
