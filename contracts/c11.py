"""Non-interference: the specification the code is proved equal to reads only the element's own potentials inside its own length,
and does not change with the amount of padding."""
from vt.contract import *
from vt import terms as T_
from . import c01, c02, c03, c04, c05, c14

LEN = lambda b: app("len", b, sort="I")


class Reads:
    """Checks every read of an input and every call of a specification function in a term, under the conditions it is reached."""

    def __init__(self, what, b, inside, inv):
        self.what, self.b, self.inside, self.inv = what, b, inside, inv

    def need(self, name, c, ctx):
        prove_cond("reads: %s: %s" % (self.what, name), c, ctx)

    def walk(self, x, ctx):
        if ctx.dead():
            return
        if isinstance(x, tuple):
            for y in x:
                self.walk(y, ctx)
        elif isinstance(x, Poly):
            for mono, _ in x.items:
                for a, _e in mono:
                    self.walk(a, ctx)
        elif isinstance(x, V):
            getattr(self, "v_" + x.kind)(x.args, ctx)
        elif isinstance(x, Cond):
            if x.kind in ("all", "any"):
                self.bind(x.args, ctx)
            else:
                self.walk(tuple(x.args), ctx)
        elif isinstance(x, Atom):
            if x.kind == "app":
                self.read(x.args[0], x.args[1], ctx)
            elif x.kind == "ite":
                self.v_ite(x.args, ctx)
            elif x.kind in T_.BIND_ATOMS:
                self.bind(x.args, ctx)
            elif x.kind == "mat":
                vs = [fresh("x") for _ in x.args[0]]
                self.walk(x.args[1], ctx)
                self.walk(subst(x.args[2], dict(zip(x.args[0], vs))),
                          ctx.plus(*[q for v, n in zip(vs, x.args[1]) for q in (le(0, v), lt(v, n))]))
            elif x.kind not in ("var", "ninf"):
                self.walk(tuple(x.args), ctx)

    def bind(self, args, ctx):
        v, lo, hi, body = args
        self.walk((lo, hi), ctx)
        w = fresh("x", v.sort)
        self.walk(subst(body, {v: w}), ctx.plus(le(lo, w), lt(w, hi)))

    v_sum = bind

    def v_zero(self, args, ctx):
        pass
    v_one = v_zero

    def v_in(self, args, ctx):
        self.walk(tuple(args), ctx)
    v_plus = v_raw = v_det = v_in

    def v_ite(self, args, ctx):
        c, x, y = args
        self.walk(c, ctx)
        self.walk(x, ctx.plus(c))
        self.walk(y, ctx.plus(neg(c)))

    def v_times(self, args, ctx):
        # a factor is looked at only where the others are not the semiring zero
        for i, f in enumerate(args):
            live = [neg(g.args[0]) if g.args[1] is ZERO else g.args[0] for j, g in enumerate(args)
                    if j != i and g.kind == "ite" and ZERO in (g.args[1], g.args[2])]
            self.walk(f, ctx.plus(*live) if live else ctx)

    def v_app(self, args, ctx):
        name, a = args
        self.walk(a, ctx)
        b, inv = self.inv[name](*a)
        self.need("%s is asked about the same batch element" % name, eq(b, self.b), ctx)
        self.need("%s is asked about spans inside the length" % name, inv, ctx)

    def read(self, name, a, ctx):
        self.walk(a, ctx)
        if name == "len":
            self.need("own length", eq(a[0], self.b), ctx)
            return
        f = self.inside.get(name)
        if f is None:
            ob("reads: %s: only potentials and lengths are read" % self.what, False, "reads %s" % name, status="unknown")
            return
        self.need("own %s" % name, eq(a[0], self.b), ctx)
        self.need("%s inside the length" % name, f(*a), ctx)


def reads(E, top, inside, inv, args, B):
    """top: the result for element b; inv: name -> (batch argument, precondition); args: name -> parameters."""
    b = fresh("b")
    base = ST.ctx.plus(le(0, b), lt(b, B), le(1, LEN(b)))
    Reads("the result", b, inside, inv).walk(top(b), base)
    for f in inv:
        a = args[f](b)
        own, pre = inv[f](*a)
        Reads("the definition of " + f, b, inside, inv).walk(prover.UNFOLD[f](*a), base.plus(pre))


def only_unknown(E, f):
    """The value obligations of the structure are sufficient, not necessary, for this property."""
    n = len(ST.obls)
    f()
    for o in ST.obls[n:]:
        if o.status == "refuted":
            o.status = "unknown"


def eqv(name, x, y, ctx):
    s = fresh("s")
    prove("padding: " + name, comp(s, x), comp(s, y), ctx.plus(le(0, s), lt(s, P(var("S")))))


def vs(n):
    return [fresh("v") for _ in range(n)]


def ranged(xs, n):
    return [q for x in xs for q in (le(0, x), lt(x, n))]


def chain(E):
    only_unknown(E, lambda: c01.run(E, True))
    B, C = P(var("B")), P(var("C"))
    ST.fn = "LinearChain.logpartition"
    T = lambda *a: vapp("T", *a)
    k = E.log2(P(var("N1")))
    i, j = fresh("i"), fresh("j")
    reads(E, lambda b: vsum(i.as_atom(), 0, C, vsum(j.as_atom(), 0, C, T(k, b, P(0), i, j))),
          {"phi": lambda b, p, *_: conj(le(0, p), lt(p, LEN(b) - 1))},
          {"T": lambda k, b, p, i, j: (b, conj(le(0, k), le(0, p)))},
          {"T": lambda b: (fresh("k"), b, fresh("p"), fresh("i"), fresh("j"))}, B)
    # more padding multiplies by the identity
    k, b, p, i, j = fresh("k"), fresh("b"), fresh("p"), fresh("i"), fresh("j")
    pad = lambda k, b, p: le(LEN(b) - 1, p * pow2(k))
    T_.APPNORM["T"] = lambda k, b, p, i, j: vite(pad(k, b, p), vite(eq(i, j), ONE, ZERO), vapp("U", k, b, p, i, j))
    U = prover.UNFOLD["T"]
    c = ST.ctx.plus(le(0, b), lt(b, B), le(1, LEN(b)), le(0, p), *ranged([i, j], C))
    eqv("a padding position is the identity", U(P(0), b, p, i, j), vite(eq(i, j), ONE, ZERO), c.plus(pad(P(0), b, p)))
    eqv("a block of padding is the identity", U(k, b, p, i, j), vite(eq(i, j), ONE, ZERO), c.plus(le(1, k), pad(k, b, p)))
    eqv("doubling the padded size changes nothing", U(k, b, P(0), i, j), T(k - 1, b, P(0), i, j), c.plus(le(1, k), le(LEN(b) - 1, pow2(k - 1))))
    del T_.APPNORM["T"]


def semi(E):
    only_unknown(E, lambda: c02.run(E, True))
    B, C, K1 = P(var("B")), P(var("C")), P(var("K1"))
    ST.fn = "SemiMarkov.logpartition"
    T = lambda *a: vapp("T", *a)
    U = prover.UNFOLD["T"]
    dead = lambda k, b, p, k2: conj(le(1, k2), lt(LEN(b) - 1, p * pow2(k) + k2))
    pad = lambda k, b, p: le(LEN(b) - 1, p * pow2(k))
    alive = lambda k, b, p, k1: disj(eq(k1, 0), le((p + 1) * pow2(k) + k1, LEN(b) - 1))
    k, b, p, i, j, k1, k2 = vs(7)
    c = ST.ctx.plus(le(0, b), lt(b, B), le(1, LEN(b)), le(0, p), *(ranged([i, j], C) + ranged([k1, k2], K1)))
    # states that cannot finish inside the length are dead
    T_.APPNORM["T"] = lambda k, b, p, k1, i, k2, j: vite(dead(k, b, p, k2), ZERO, vapp("U", k, b, p, k1, i, k2, j))
    eqv("a running segment that does not fit is dead at a position", U(P(0), b, p, k1, i, k2, j), ZERO, c.plus(dead(P(0), b, p, k2)))
    eqv("a running segment that does not fit is dead in a block", U(k, b, p, k1, i, k2, j), ZERO, c.plus(le(1, k), dead(k, b, p, k2)))
    kk = E.log2(P(var("N1")))
    x, y = fresh("i"), fresh("j")
    pre = lambda k, b, p, k1, i, k2, j: (b, conj(le(0, k), le(0, p), le(0, k1), alive(k, b, p, k1)))
    prover.UNFOLD["U"] = U
    reads(E, lambda b: vsum(x.as_atom(), 0, C, vsum(y.as_atom(), 0, C, vapp("U", kk, b, P(0), P(0), x, P(0), y))),
          {"phi": lambda b, p, w, *_: conj(le(0, p), le(1, w), le(p + w, LEN(b) - 1))}, {"U": pre},
          {"U": lambda b: (fresh("k"), b, fresh("p")) + tuple(vs(4))}, B)
    del prover.UNFOLD["U"]
    unit = lambda k1, i, k2, j: vite(conj(eq(k1, 0), eq(k2, 0), eq(i, j)), ONE, ZERO)
    T_.APPNORM["T"] = lambda k, b, p, k1, i, k2, j: vite(pad(k, b, p), unit(k1, i, k2, j), vapp("U", k, b, p, k1, i, k2, j))
    eqv("a padding position keeps duration 0 only", U(P(0), b, p, k1, i, k2, j), unit(k1, i, k2, j), c.plus(pad(P(0), b, p)))
    eqv("a block of padding keeps duration 0 only", U(k, b, p, k1, i, k2, j), unit(k1, i, k2, j), c.plus(le(1, k), pad(k, b, p)))
    eqv("doubling the padded size changes nothing", U(k, b, P(0), P(0), i, P(0), j), T(k - 1, b, P(0), P(0), i, P(0), j),
        c.plus(le(1, k), le(LEN(b) - 1, pow2(k - 1))))
    del T_.APPNORM["T"]


def dep(E, labels, multi):
    only_unknown(E, lambda: c03.run(E, True, labels, multi))
    B = P(var("B"))
    CL, CR = (lambda *a: vapp("CL", *a)), (lambda *a: vapp("CR", *a))
    span = lambda strict: (lambda b, i, j: (b, conj(le(0, i), (lt if strict else le)(i, j), le(j, LEN(b)))))

    def top(b):
        if multi:
            return CR(b, P(0), LEN(b))
        k = fresh("k")
        return vsum(k.as_atom(), 0, LEN(b), vtimes(CL(b, P(1), k + 1), CR(b, k + 1, LEN(b))))
    idx = lambda b: (b, fresh("i"), fresh("j"))
    reads(E, top, {"phi": lambda b, h, m, *_: conj(le(0, h), lt(h, LEN(b)), le(0, m), lt(m, LEN(b)))},
          {"CL": span(False), "CR": span(False), "IL": span(True), "IR": span(True)}, {n: idx for n in ("CL", "CR", "IL", "IR")}, B)


def spans(E):
    only_unknown(E, lambda: c04.run(E, True))
    reads(E, lambda b: vapp("I", b, P(0), LEN(b) - 1), {"phi": lambda b, i, j, t: conj(le(0, i), le(i, j), lt(j, LEN(b)))},
          {"I": lambda b, i, j: (b, conj(le(0, i), le(i, j), lt(j, LEN(b))))}, {"I": lambda b: (b, fresh("i"), fresh("j"))}, P(var("B")))


def cfg(E):
    only_unknown(E, lambda: c05.run(E, True))
    x = fresh("x")
    reads(E, lambda b: vsum(x.as_atom(), 0, P(var("NT")), vtimes(vapp("G", b, P(0), LEN(b) - 1, x), vin(app("roots", b, x)))),
          {"terms": lambda b, i, t: conj(le(0, i), lt(i, LEN(b))), "rules": lambda *a: TRUE, "roots": lambda *a: TRUE},
          {"G": lambda b, i, j, x: (b, conj(le(0, i), le(i, j), lt(j, LEN(b))))},
          {"G": lambda b: (b, fresh("i"), fresh("j"), fresh("x"))}, P(var("B")))


def nonproj(E, multi):
    only_unknown(E, lambda: c14.part(E, True, multi))
    B, N = P(var("B")), P(var("N"))
    w = lambda b, h, m: nite(conj(lt(h, LEN(b)), lt(m, LEN(b))), nexp(app("phi", b, h, m)), P(0))
    lap = c14.laplacian(N, LEN, w, multi)
    reads(E, lambda b: P(atom("logdet", c14.as_mat(N, lambda i, j: lap(b, i, j)))),
          {"phi": lambda b, h, m: conj(le(0, h), lt(h, LEN(b)), le(0, m), lt(m, LEN(b)))}, {}, {}, B)


NOTE = ["a result that is proved equal to a specification reading only the element's own potentials inside its length, with no other "
        "use of the batch size or of the padded size, equals the result of the element alone (congruence, induction on the recursion)",
        "gradients with respect to potentials a function does not read are zero"]
contract("C11", "linear chain: reads and padding", ["LinearChain.logpartition"], NOTE)(chain)
contract("C11", "semi-Markov: reads and padding", ["SemiMarkov.logpartition"], NOTE)(semi)
for _l in (False, True):
    for _m in (False, True):
        contract("C11", "dependency trees, %s, %s: reads" % ("labelled" if _l else "unlabelled", "multi-root" if _m else "single-root"),
                 ["DepTree.logpartition"], NOTE)((lambda l, m: (lambda E: dep(E, l, m)))(_l, _m))
contract("C11", "span trees: reads", ["CKY_CRF.logpartition"], NOTE)(spans)
contract("C11", "grammars: reads", ["CKY.logpartition"], NOTE)(cfg)
for _m in (False, True):
    contract("C11", "non-projective trees, %s: reads" % ("multi-root" if _m else "single-root"), ["deptree_part"],
             NOTE + ["the smoothing constant 1e-5 of the Laplacian grows with the padded size; its effect is not part of the property"])(
        (lambda m: (lambda E: nonproj(E, m)))(_m))
