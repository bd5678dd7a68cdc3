"""Cutting loops of symbolic trip count at inductive invariants."""
import ast
import builtins
import os
from .terms import *
from . import terms as T
from .state import *
from .stensor import *
from .stensor import Storage, rollback, mkint, mkbool, pl
from .slist import SymList, StepRange, srange, VList, SymIter, MultiMap, Bucket, as_symbolic, concrete, BUILTINS, merge, merge_paths
from . import prover


class Poison:
    """Local variable without a known value."""

    def __init__(self, name, where="", why=None):
        self.__dict__["_n"] = name
        self.__dict__["_w"] = where, why

    def _bad(self, *a, **k):
        where, why = self._w
        if why is not None and not ST.quiet:
            ST.weak = True
            ob("loop %s: invariant of local %s %s" % (where, self._n, why[0]), False, why[1], why[2], status="unknown")
        raise Unsupported("use of local %r whose value after the loop is unknown" % self._n)

    __getattr__ = __call__ = __getitem__ = __add__ = __radd__ = __sub__ = __mul__ = __iter__ = __bool__ = __len__ = \
        lambda self, *a: Poison._bad(self)


MISSING = object()


class ConcreteLoop:
    symbolic = False

    def __init__(self, it):
        self.it = iter(it)

    def step(self, loc):
        try:
            self.item = next(self.it)
            return True
        except StopIteration:
            return False

    def brk(self, loc, kind):
        pass

    def caught(self, e):
        return False


DEBUG = bool(os.environ.get("VT_DEBUG"))


class Cand:
    """Candidate content of a modified cell: at(k) gives the installer for iteration count k."""

    def __init__(self, label, content, late=False):
        self.label, self.content, self.late = label, content, late      # late: local without value before the first iteration


class SymLoop:
    """One symbolic loop: dry run, initiation, preservation over all body paths, exit."""
    symbolic = True

    def __init__(self, it, names, where):
        self.it, self.names, self.where = it, names, where
        self.n = it.n
        self.phase = "start"
        self.vals = {}
        self.key = where
        ST.loops += 1

    # every call of step sees the locals at the loop head
    def step(self, loc):
        while True:
            r = getattr(self, "ph_" + self.phase)(loc)
            if r is not None:
                return r

    def get(self, name):
        return self.vals.get(name, MISSING)

    def brk(self, loc, kind):
        raise Unsupported("break/return out of a loop of symbolic length")

    def caught(self, e):
        """Exception raised by the body: True if it is absorbed."""
        if self.phase == "probe" and isinstance(e, (Unsupported, ShadowError, Infeasible, AssertionError, IndexError)):
            self.probe_failed = True
            self.balance()
            return True
        if self.phase == "body" and isinstance(e, Infeasible):
            self.dead_path = True
            self.balance()
            return True
        return False

    def balance(self):
        """Leave the nested loops an exception escaped from."""
        i = [j for j, l in enumerate(ST.loopstack) if l is self][-1]
        for l in reversed(ST.loopstack[i + 1:]):
            if l.phase in ("dry", "probe", "scout", "guess"):
                ST.quiet -= 1
            ST.loopdepth -= 1
            ST.frames.pop()
        del ST.loopstack[i + 1:]

    def pos(self, k):
        """Item of position k of a range."""
        return pl(self.it.at(k))

    # -- phases
    entry = None

    def ph_start(self, loc):
        loc = loc if self.entry is None else self.entry
        self.loc0 = {k: loc.get(k, MISSING) for k in self.names}
        self.ctx0 = ST.ctx
        self.mark0 = len(ST.journal)
        self.stamp0 = ST.stamp
        self.rng0 = len(ST.rng)
        if not self.peeled:
            self.rng_body = []
        if decide(eq(self.n, 0)) is True:
            ST.rng += self.rng_body
            return self.finish(dict(self.loc0))
        self.mods = []          # storages / lists modified by the body
        self.lmods = []         # locals modified by the body
        ST.loopdepth += 1
        ST.loopstack.append(self)
        ST.quiet += 1
        ST.frames.append(Frame())
        self.phase = "dry"
        self.cur = P(0)
        ST.ctx = self.ctx0.plus(le(1, self.n), *self.it.facts(P(0)))
        if ST.ctx.dead():
            self.pop()
            ST.quiet -= 1
            ST.rng += self.rng_body
            return self.finish(dict(self.loc0))
        self.item = self.it.at(P(0))
        self.vals = dict(self.loc0)
        return True

    def pop(self):
        ST.frames.pop()
        ST.loopdepth -= 1
        ST.loopstack.pop()
        ST.ctx = self.ctx0

    def modified(self, mark):
        seen = []
        for o, _ in ST.journal[mark:]:
            if o.id <= self.stamp0 and not builtins.any(o is m for m in seen):
                seen.append(o)
        return seen

    def collect(self, loc, mark):
        new = False
        for o in self.modified(mark):
            if not builtins.any(o is m for m in self.mods):
                self.mods.append(o)
                new = True
        for k in self.names:
            v = loc.get(k, MISSING)
            if v is not self.vals.get(k, MISSING) and k not in self.lmods:
                self.lmods.append(k)
                new = True
        return new

    def ph_dry(self, loc):
        self.collect(loc, self.mark0)
        self.first_ctx = ST.ctx
        self.first = {k: loc.get(k, MISSING) for k in self.names}
        self.first_snap = {id(o): (o.fn if isinstance(o, Storage) else (o.n, o.fn)) for o in self.mods}
        first_n = {id(o): o.n for o in self.mods if not isinstance(o, Storage)}
        if not self.peeled and builtins.any(self.changes_kind(self.loc0[k], self.first[k]) and not self.late(k) for k in self.names):
            # a local that is None (or a tensor of another rank) until the first iteration: run that iteration on its own
            rollback(self.mark0, self.stamp0)
            del ST.rng[self.rng0:]
            self.pop()
            ST.quiet -= 1
            if truth(eq(self.n, 0)):
                return self.finish(dict(self.loc0))
            self.peeled = True
            self.phase = "peel"
            ST.peels.append(len(ST.loopstack))
            ST.ctx = ST.ctx.plus(*self.it.facts(P(0)))
            self.item = self.it.at(P(0))
            self.vals = dict(self.loc0)
            return True
        # generic iteration from the entry state, to derive candidates for independent iterations
        del ST.rng[self.rng0:]
        rollback(self.mark0, self.stamp0)
        self.grow = {id(o): (o.n, first_n[id(o)] - o.n) for o in self.mods if not isinstance(o, Storage)}
        self.phase = "probe"
        self.k = self.cur = fresh("it")
        self.kctx = self.ctx0.plus(le(0, self.k), lt(self.k, self.n), *self.it.facts(self.k))
        ST.frames[-1] = Frame()
        ST.ctx = self.kctx
        self.item = self.it.at(self.k)
        self.vals = dict(self.loc0)
        for n in self.lmods:
            v0, v1 = self.loc0[n], self.first[n]
            if isinstance(v0, (int, SymInt)) and isinstance(v1, (int, SymInt)) and not isinstance(v0, bool):
                self.vals[n] = mkint(pl(v0) + (pl(v1) - pl(v0)) * self.k)
        self.probe_fn = {}
        self.probe_ok = True
        return True

    def late(self, k):
        """A template describes the local from the first iteration on."""
        return self.loc0[k] is None and builtins.any(
            getattr(tf, "late", False) and list(tf.locals(self, k, None, self.first[k])) for tf in ST.templates)

    @staticmethod
    def changes_kind(a, b):
        if b is None or b is MISSING:
            return False
        return a is None or isinstance(a, Tensor) and isinstance(b, Tensor) and a.dim() != b.dim()

    def ph_peel(self, loc):
        # the draws of the peeled iteration are those of position 0
        ST.peels.pop()
        self.rng_body = ST.rng[self.rng0:]
        del ST.rng[self.rng0:]
        self.it = self.it.shift(1)
        self.n = self.it.n
        self.entry = None
        self.phase = "start"

    peeled = False
    probe_failed = False
    dead_path = False

    def ph_probe(self, loc):
        return self.after_probe(loc, not self.probe_failed)

    def after_probe(self, loc, ok=True):
        if ok:
            self.collect(loc, self.mark0)
            for o in self.mods:
                if isinstance(o, Storage):
                    self.probe_fn[id(o)] = o.fn
        rollback(self.mark0, self.stamp0)
        ST.ctx = self.ctx0
        ST.quiet -= 1
        self.prepare()
        return self.begin_body()

    # -- candidate selection
    def prepare(self):
        ctx = self.ctx0
        self.cands = {}
        for o in self.mods:
            cs = []
            if isinstance(o, Storage):
                cs += self.template_cands(o)
                if not builtins.any(self.initiates(o, c) and self.after_first(o, c) for c in cs):
                    cs += self.auto_cands(o)
            else:
                self.cands[id(o)] = []
                continue
            good = []
            self.why = ""
            for c in cs:
                if self.initiates(o, c):
                    good.append(c)
            if len(good) > 1 and isinstance(o, Storage):
                # several candidates hold on entry: prefer those that also hold after the first iteration
                keep = [c for c in good if self.after_first(o, c)]
                good = keep + [c for c in good if not builtins.any(c is d for d in keep)]
            self.cands[id(o)] = good
            if cs and not good:
                self.lost(describe(o), "initiation")
        self.lcands, self.lwhy = {}, {}
        for k in self.lmods:
            self.why = ""
            cs = self.local_cands(k)
            self.lcands[k] = [c for c in cs if self.l_initiates(k, c)]
            if cs and not self.lcands[k]:
                self.lwhy[k] = "initiation", self.why, self.why_model
        self.combo = {}
        self.tried = 0

    why = ""
    why_model = None

    def lost(self, what, phase):
        """No candidate invariant survives: a failed obligation, everything after the loop is weaker."""
        ST.weak = True
        ob("loop %s: invariant of %s %s" % (self.where, what, phase), False, self.why, self.why_model, status="unknown")

    def template_cands(self, o):
        out = []
        for tf in ST.templates:
            for label, f in tf(self, o.dims, o):
                out.append(Cand(label, f))
        return out

    def auto_cands(self, o):
        """new(idx, k) computed from the entry state; k solved from the index."""
        pf = self.probe_fn.get(id(o))
        if pf is None or pf is o.fn:
            return []
        old = o.fn
        idx = tuple(fresh("x") for _ in o.dims)
        rng = [c for i, n in zip(idx, o.dims) for c in (le(0, i), lt(i, n))]
        ctxs = ST.ctx
        try:
            ST.ctx = self.kctx.plus(*rng)
            e = o.get(idx, pf)
        except (Unsupported, ShadowError, Infeasible):
            return []
        finally:
            ST.ctx = ctxs
        sols = []
        ka = self.k.as_atom()
        for c in conds_in(e):
            s = T.solve_eq(c, ka)
            if s is not None and s[0] not in sols and not bound_in(s[0]):
                sols.append(s[0])
        out = []
        for s in sols:
            def content(kk, fl, s=s):
                m = dict(zip([i.as_atom() for i in idx], fl))
                sol = subst(s, m)
                m2 = dict(m)
                m2[ka] = sol
                return ite(conj(le(0, sol), lt(sol, kk)), lambda: prover.simp(subst(e, m2), ST.ctx), lambda: o.get(fl, old))
            out.append(Cand("auto[it=%r]" % (s,), content))
        out.append(Cand("unchanged", lambda kk, fl: o.get(fl, old)))
        return out

    def local_cands(self, k):
        out = []
        v0, v1 = self.loc0[k], self.first[k]
        for tf in ST.templates:
            for label, f in getattr(tf, "locals", lambda *a: [])(self, k, v0, v1):
                out.append(Cand(label, f, v0 is MISSING or v0 is None and getattr(tf, "late", False)))
        if isinstance(v0, (int, SymInt)) and isinstance(v1, (int, SymInt)) and not isinstance(v0, bool):
            d = pl(v1) - pl(v0)
            out.append(Cand("affine", lambda kk: mkint(pl(v0) + d * kk)))
        return out

    def initiates(self, o, c):
        idx = tuple(fresh("x") for _ in o.dims)
        rng = [cc for i, n in zip(idx, o.dims) for cc in (le(0, i), lt(i, n))]
        old = ST.ctx
        try:
            ST.ctx = self.ctx0.plus(*rng)
            a = o.get(idx)
            b = c.content(P(0), idx)
            try:
                prover.prove_eq(a, b, ST.ctx)
                return True
            except prover.Fail as e:
                if not self.why or c.label[:4] != "auto":
                    self.why = "%s: %s\n code %r\n inv  %r\n stuck %r vs %r" % (c.label, e, a, b, e.a, e.b)
                    self.why_model = size_model(e.ctx or ST.ctx)
                return False
        finally:
            ST.ctx = old

    def after_first(self, o, c):
        fn = self.first_snap.get(id(o))
        if fn is None:
            return True
        idx = tuple(fresh("x") for _ in o.dims)
        rng = [cc for i, n in zip(idx, o.dims) for cc in (le(0, i), lt(i, n))]
        old = ST.ctx
        try:
            ST.ctx = self.first_ctx.plus(le(1, self.n), *rng)
            prover.prove_eq(o.get(idx, fn), c.content(P(1), idx), ST.ctx)
            return True
        except prover.Fail as e:
            if DEBUG:
                builtins.print("after_first", self.where, describe(o), c.label, str(e)[:200], "\n   ", repr(e.a)[:700], "\n   ", repr(e.b)[:700])
            return False
        except (Unsupported, ShadowError, Infeasible):
            return False
        finally:
            ST.ctx = old

    def l_initiates(self, k, c):
        v0 = self.loc0[k]
        if v0 is MISSING or c.late:
            return c.late
        try:
            r = val_eq(v0, c.content(P(0)))
            if not r:
                self.why, self.why_model = "%s: %s" % (c.label, WHY[0]), WHY[1]
            return r
        except Unsupported as e:
            self.why = "%s: %s" % (c.label, e)
            return False

    grow = {}

    def length(self, o, k):
        """Length of a list at iteration k if every iteration appends as many elements as the first."""
        g = self.grow.get(id(o))
        return None if g is None or g[1].const() is None else g[0] + g[1] * k

    def begin_body(self):
        """Install the invariant at a symbolic iteration count and run the body once per path."""
        self.k = self.cur = fresh("it")
        self.kctx = self.ctx0.plus(le(0, self.k), lt(self.k, self.n), *self.it.facts(self.k))
        self.fails = []
        self.leffs = {}
        ST.frames[-1] = Frame()
        self.phase = "body"
        self.install(self.k)
        return True

    def install(self, k, final=False):
        rollback(self.mark0, self.stamp0)
        if len(ST.rng) - self.rng0 > len(self.rng_body):
            self.rng_body = ST.rng[self.rng0:]
        ST.rng[self.rng0:] = self.rng_body if final else []
        ST.ctx = self.kctx
        for o in self.mods:
            cs = self.cands[id(o)]
            if cs:
                c = cs[0]
                o.set(lambda fl, c=c, k=k: c.content(k, fl))
            else:
                if isinstance(o, Storage):
                    nm = "havoc!%d" % ST.tick()
                    srt = "I" if o.dtype.kind == "i" else "R"
                    if o.dtype.kind == "b":
                        o.set(lambda fl, nm=nm: bapp(nm, *fl))
                    else:
                        o.set(lambda fl, nm=nm, srt=srt: app(nm, *fl, sort=srt))
                elif not final:
                    o.guard(self.length(o, k))
        self.markb = len(ST.journal)
        self.vals = dict(self.loc0)
        for n in self.lmods:
            cs = self.lcands[n]
            if cs and cs[0].late and truth(eq(k, 0)):
                self.vals[n] = None if self.loc0[n] is None else Poison(n, self.where, ("initiation", "no value before the first iteration", None))
            else:
                self.vals[n] = cs[0].content(k) if cs else Poison(n, self.where, self.lwhy.get(n))
        if not final:
            self.item = self.it.at(k)

    def ph_body(self, loc):
        # end of one path through the body
        if self.dead_path:
            self.dead_path = False
            if ST.frames[-1].advance():
                self.install(self.k)
                return True
            return self.leave()
        if self.collect(loc, self.markb):
            # the modifies set grew: start over with the larger set
            self.redo()
            return True
        bad = self.check(loc)
        if bad:
            self.fails += bad
            dropped = False
            for kind, key in bad:
                lst = self.cands[key] if kind == "s" else self.lcands[key]
                if lst:
                    lst.pop(0)
                    dropped = True
                    if not lst and kind == "l":
                        self.lwhy[key] = "preservation", self.why, self.why_model
                    elif not lst:
                        self.lost([describe(o) for o in self.mods if id(o) == key][0], "preservation")
            if DEBUG:
                builtins.print("preserve", self.where, self.why[:1500])
            if dropped and self.tried < 12:
                self.tried += 1
                self.fails = []
                return self.begin_body()
        if ST.frames[-1].advance():
            ST.frames[-1].pos = 0
            self.install(self.k)
            return True
        return self.leave()

    def redo(self):
        rollback(self.mark0, self.stamp0)
        ST.ctx = self.ctx0
        self.prepare_new()
        self.begin_body()

    def prepare_new(self):
        old_c, old_l = self.cands, self.lcands
        self.probe_fn = {}
        for k in self.lmods:
            self.first.setdefault(k, MISSING)
        self.prepare()

    def check(self, loc):
        """Preservation: after the body the invariant holds at k+1."""
        bad = []
        k1 = self.k + 1
        ctx = ST.ctx
        for o in self.mods:
            cs = self.cands[id(o)]
            if not isinstance(o, Storage):
                self.list_effect(o)
                continue
            if not cs:
                continue
            if True:
                idx = tuple(fresh("x") for _ in o.dims)
                rng = [cc for i, n in zip(idx, o.dims) for cc in (le(0, i), lt(i, n))]
                with under(*rng) as c:
                    a = o.get(idx)
                    b = cs[0].content(k1, idx)
                    try:
                        prover.prove_eq(a, b, c)
                    except prover.Fail as e:
                        self.why = "%s: %s\n code %r\n inv  %r\n stuck %r vs %r" % (cs[0].label, e, a, b, e.a, e.b)
                        self.why_model = size_model(e.ctx or c)
                        bad.append(("s", id(o)))
        for nme in self.lmods:
            cs = self.lcands[nme]
            if cs:
                try:
                    ok = val_eq(loc.get(nme, MISSING), cs[0].content(k1))
                except Unsupported as e:
                    ok = False
                    WHY[:] = [str(e), None]
                if not ok:
                    self.why, self.why_model = "local %s: %s: %s" % (nme, cs[0].label, WHY[0]), WHY[1]
                    bad.append(("l", nme))
        return bad

    def list_effect(self, o):
        """Effect of one generic iteration on a list: appended values and indexed writes, per body path."""
        eff = o.effect()
        pc = conj(*[f for f in ST.ctx.facts if f not in self.kctx.fset])
        if getattr(o, "glen_read", False) and not same(self.grow[id(o)][1], len(eff[0])):
            raise Unsupported("length of a list that grows unevenly")
        old = self.leffs.setdefault(id(o), [])
        if old and (len(eff[0]) != len(old[0][1][0]) or len(eff[1]) != len(old[0][1][1]) or
                    any(x[0] is not y[0] for x, y in zip(eff[1], old[0][1][1]))):
            raise Unsupported("list updated differently on different paths of a loop body")
        old.append((pc, eff))

    def merged_effect(self, effs):
        def pick(get):
            vals = [(pc, get(e)) for pc, e in effs]
            r = vals[-1][1]
            for pc, v in reversed(vals[:-1]):
                if not (v is r):
                    r = merge(pc, lambda v=v: v, lambda r=r: r)
            return r
        _, (ap, wr) = effs[0]
        with under(le(0, self.k0), lt(self.k0, self.n)):
            return ([pick(lambda e, i=i: e[0][i]) for i in range(len(ap))],
                    [(wr[i][0], pick(lambda e, i=i: e[1][i][1])) for i in range(len(wr))])

    def apply_lists(self):
        ka = self.k0.as_atom()
        for o in self.mods:
            if isinstance(o, Storage) or id(o) not in self.leffs:
                continue
            app_, wr = self.merged_effect(self.leffs[id(o)])
            o.after_loop(ka, self.n, app_, wr, value_subst)

    def leave(self):
        # exit: invariant at n
        named = [("s", id(o), o) for o in self.mods]
        for kind, key, o in named:
            if not isinstance(o, Storage):
                continue
            cs = self.cands[key]
            lab = cs[0].label if cs else None
            nm = "loop %s: invariant of %s" % (self.where, describe(o))
            if lab:
                ob(nm + " initiation [%s]" % lab, True)
                ob(nm + " preservation [%s]" % lab, True)
            elif isinstance(o, Storage):
                ST.weak = True
                ob(nm + " found", False, self.why, self.why_model, status="unknown")
        for n in self.lmods:
            cs = self.lcands[n]
            if cs:
                ob("loop %s: local %s initiation and preservation [%s]" % (self.where, n, cs[0].label), True)
        ctx0 = self.ctx0
        self.kctx = ctx0
        kk = self.n
        self.k0 = self.k
        self.install(kk, final=True)
        self.apply_lists()
        vals = dict(self.vals)
        self.pop()
        ST.ctx = ctx0
        # the target variable keeps its last value; treat as unknown
        return self.finish(vals)

    def finish(self, vals):
        self.vals = vals
        self.phase = "done"
        return False

    def ph_done(self, loc):
        return False


class Hit(Exception):
    """break out of a search loop."""

    def __init__(self, loop):
        self.loop = loop


class SearchLoop(SymLoop):
    """Loop over the values under one key that changes nothing but locals, some iterations also leaving it: afterwards
    either some position took a changing path (its values are those of a witness) or none did."""

    def __init__(self, bucket, names, where):
        self.bucket, self.names, self.where = bucket, names, where
        self.phase = "first"
        self.key = where
        self.lmods = []
        self.vals = {}
        ST.loops += 1
        ST.weak = True          # what is known after the loop depends on the instances the contract supplies

    def brk(self, loc, kind):
        if kind != "Break":
            raise Unsupported("return out of a loop of symbolic length")
        self.left = dict(loc)
        raise Hit(self)

    def caught(self, e):
        if isinstance(e, Hit) and e.loop is self:
            return True
        if isinstance(e, Infeasible):
            self.dead_path = True
            self.balance()
            return True
        return False

    def ph_first(self, loc):
        self.loc0 = {k: loc.get(k, MISSING) for k in self.names}
        self.ctx0, self.mark0, self.stamp0 = ST.ctx, len(ST.journal), ST.stamp
        ST.loopdepth += 1
        ST.loopstack.append(self)
        ST.frames.append(Frame())
        self.cur = self.u = fresh("u")
        return self.again()

    def again(self):
        self.hits, self.lost_locals = [], set()
        ST.frames[-1] = Frame()
        return self.begin()

    def begin(self):
        m = self.bucket.map
        ST.ctx = self.ctx0.plus(le(0, self.u), lt(self.u, m.n))
        self.left = None
        self.sk, self.tainted = [self.u], False
        self.phase = "scan"
        if ST.ctx.dead():
            return self.out()
        key, self.item = m.fn(self.u)
        ST.ctx = ST.ctx.plus(eq(pl(key), self.bucket.key))
        if ST.ctx.dead():
            return self.out()
        self.vals = {k: Poison(k, self.where) if k in self.lmods else v for k, v in self.loc0.items()}
        return True

    def ph_scan(self, loc):
        if not self.dead_path:
            broke, loc = self.left is not None, self.left or loc
            if builtins.any(o.id <= self.stamp0 for o, _ in ST.journal[self.mark0:]):
                raise Unsupported("search loop that writes more than locals")
            ch = {k: loc.get(k, MISSING) for k in self.names if loc.get(k, MISSING) is not self.vals.get(k, MISSING)}
            new = [k for k in ch if k not in self.lmods and not broke]     # the others are as on entry at every loop head
            if new:
                self.lmods += new
                return self.again()
            self.lost_locals |= {k for k, v in ch.items() if isinstance(v, Poison)}
            ch = {k: v for k, v in ch.items() if k not in self.lost_locals}
            if broke or ch:
                facts = [f for f in ST.ctx.facts if f not in self.ctx0.fset and not (f.kind == "bapp" and f.args[0][:7] == "search!")]
                self.hits.append((facts, broke, ch, self.sk, self.tainted))
        self.dead_path = False
        if ST.frames[-1].advance():
            return self.begin()
        return self.out()

    def out(self):
        self.pop()
        hits = self.hits
        if builtins.any(h[1] for h in hits) and not builtins.all(h[1] for h in hits):
            raise Unsupported("search loop that leaves on some of its changing paths only")
        outer = ST.loopstack[-1] if ST.loopstack and isinstance(ST.loopstack[-1], SearchLoop) else None
        vals = {k: Poison(k, self.where) if k in self.lost_locals or k in self.lmods and v is MISSING else v for k, v in self.loc0.items()}
        for facts, _, ch, sk, tainted in hits:
            if truth(bapp("search!%d" % ST.tick())):
                ST.ctx = ST.ctx.plus(*facts)
                for h in ST.search:
                    ST.ctx = ST.ctx.plus(*h(self, sk, facts, True))
                if ST.ctx.dead():
                    raise Infeasible()
                if outer is not None:
                    outer.sk = outer.sk + sk
                    outer.tainted |= tainted
                # locals the witness leaves alone may have been set by another position
                vals.update({k: Poison(k, self.where) for k in self.lmods if k not in ch and len(hits) > 1})
                vals.update({k: v for k, v in ch.items() if k not in self.lost_locals})
                return self.finish(vals)
        if outer is not None:
            outer.tainted = True
        for facts, _, ch, sk, tainted in hits:
            if not tainted:
                for h in ST.search:
                    ST.ctx = ST.ctx.plus(*h(self, sk, facts, False))
        if ST.ctx.dead():
            raise Infeasible()
        return self.finish(vals)


class Skip(Exception):
    """The rest of the body is not run."""


class WhileLoop(SymLoop):
    """while loop: concrete as long as the test is; otherwise its trip count is guessed from the test at a generic
    iteration, and the test proved true before it and false at it."""
    symbolic = False

    def __init__(self, names, tnames, where):
        self.names, self.tnames, self.where = names, tnames, where
        self.phase = "first"
        self.vals = {}
        self.key = where
        self.turns = 0
        self.forks = None

    def brk(self, loc, kind):
        if self.symbolic:
            SymLoop.brk(self, loc, kind)

    def ph_first(self, loc):
        self.turns += 1
        if self.forks is None:
            self.forks = ST.frames[-1].pos
        if self.turns > 400 or self.turns > 3 and ST.frames[-1].pos - self.forks >= self.turns - 1:
            raise Unsupported("while loop of unknown trip count")
        self.loc0 = {k: loc.get(k, MISSING) for k in self.names}
        return True

    def caught(self, e):
        if self.phase == "guess" and isinstance(e, Skip):
            return True
        if self.phase in ("scout", "guess") and isinstance(e, (Unsupported, ShadowError, Infeasible, AssertionError, IndexError)):
            self.balance()
            self.abandon()
            raise Unsupported("first iteration of a while loop: %s" % e)
        return self.symbolic and SymLoop.caught(self, e)

    def abandon(self):
        rollback(self.mark0, self.stamp0)
        del ST.rng[self.rng0:]
        self.pop()
        ST.quiet -= 1

    def test(self, f):
        if self.phase in ("first", "scout", "guess"):
            old, ST.raw = ST.raw, True
            try:
                c = f()
            finally:
                ST.raw = old
            if isinstance(c, (VList, SymList)):
                c = mkraw(lt(0, c.n))
            if self.phase == "first":
                if not isinstance(c, SymBool):
                    return bool(c)
                return self.scout(c.c)
            self.guessed = c
            raise Skip()
        c = f()
        if isinstance(c, (VList, SymList)):
            c = mkbool(lt(0, c.n))
        if self.phase == "exit":
            self.phase = "done"
            d = decide(c.c) if isinstance(c, SymBool) else bool(c)
            if d is not False:
                raise Unsupported("while loop: the test is not refuted after the last iteration")
            return False
        d = decide(c.c) if isinstance(c, SymBool) else bool(c)
        if d is True:
            return True
        if self.phase in ("dry", "probe", "peel"):
            if d is False:
                raise Infeasible()
            ST.ctx = ST.ctx.plus(c.c)
            return True
        raise Unsupported("while loop: the test is not established before every iteration")

    def scout(self, c):
        self.symbolic = True
        ST.loops += 1
        self.entry = dict(self.loc0)
        self.ctx0, self.mark0, self.stamp0, self.rng0 = ST.ctx, len(ST.journal), ST.stamp, len(ST.rng)
        self.mods, self.lmods = [], []
        ST.loopdepth += 1
        ST.loopstack.append(self)
        ST.quiet += 1
        ST.frames.append(Frame())
        self.cur = P(0)
        self.phase = "scout"
        self.it = SymIter(fresh("trips"), lambda k: mkint(k))
        self.n = self.it.n
        ST.ctx = self.ctx0.plus(c)
        if ST.ctx.dead():
            self.abandon()
            self.phase = "done"
            return False
        self.vals = dict(self.loc0)
        return True

    def ph_scout(self, loc):
        self.collect(loc, self.mark0)
        self.first = {k: loc.get(k, MISSING) for k in self.names}
        self.mods = [o for o in self.mods if not isinstance(o, Storage)]
        first_n = {id(o): o.n for o in self.mods}
        rollback(self.mark0, self.stamp0)
        del ST.rng[self.rng0:]
        self.grow = {id(o): (o.n, first_n[id(o)] - o.n) for o in self.mods}
        ST.frames[-1] = Frame()
        self.phase = "guess"
        self.k = fresh("it")
        ST.ctx = self.ctx0.plus(le(0, self.k))
        self.vals = dict(self.loc0)
        self.why = ""
        self.counter = None
        for n in self.lmods:
            cs = [c for c in self.local_cands(n) if not c.late and self.l_initiates(n, c)]
            self.vals[n] = cs[0].content(self.k) if cs else Poison(n, self.where)
            if cs and cs[0].label == "affine" and n in self.tnames and self.counter is None:
                self.counter = cs[0].content
        for o in self.mods:
            o.guard(self.length(o, self.k))
        return True

    def ph_guess(self, loc):
        c = self.guessed
        self.abandon()
        at = self.counter or (lambda k: mkint(k))
        ka = self.k.as_atom()
        src = None
        ST.ctx = self.ctx0
        r = bound(c.c) if isinstance(c, SymBool) else None
        n = facts = None
        if r is not None:
            p, kind = r
            r0 = subst(p, {ka: P(0)})
            r1 = subst(p, {ka: P(1)}) - r0
            if same(p, r0 + r1 * self.k):
                if kind == "le":
                    if r1.const() == 1:
                        n = 1 - r0
                    elif decide(lt(0, r1)) is True:
                        v0 = pl(at(P(0)))
                        src = srange(mkint(v0), mkint(v0 + 1 - r0), mkint(r1))
                        if isinstance(src, StepRange):
                            n, facts = src.n, src.facts
                elif r1.const() in (1, -1):
                    n = -r0 * r1.const()
            if n is None:
                for a in [a for mono, _ in p.items for a, _ in mono if a.kind == "pow2"]:
                    e = P(a.args[0])
                    e0 = subst(e, {ka: P(0)})
                    d = (subst(e, {ka: P(1)}) - e0).const()
                    if d in (1, -1):
                        n = -e0 * d
                        break
        if n is None:
            raise Unsupported("trip count of a while loop: test %r at iteration %r" % (c, self.k))
        if not truth(le(0, n)):
            n = P(0)
        self.it = SymIter(n, at, facts, src)
        self.n = n
        self.phase = "start"

    def finish(self, vals):
        self.vals = vals
        self.phase = "exit"
        return True


def mkraw(c):
    return True if c is TRUE else False if c is FALSE else SymBool(c)


def bound(c):
    """Polynomial p and relation of a test `p <= 0` or `p != 0`."""
    if c.kind == "le0":
        return c.args[0], "le"
    if c.kind == "not" and c.args[0].kind == "eq0":
        return c.args[0].args[0], "ne"
    return None


def vt_while(names, tnames, where):
    return WhileLoop(names, tnames, where)


def describe(o):
    if isinstance(o, Storage):
        return "storage(%s)" % ",".join(map(repr, o.dims))
    return "list"


def bound_in(e):
    return any(v.args[0][:2] in ("_k", "_l") for v in fv(e))


def conds_in(e):
    out = []
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack += list(x)
            continue
        if not isinstance(x, (Poly, Atom, Cond, V)) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, Cond) and x.kind in ("eq0", "and"):
            out.append(x)
        stack += T.subterms(x)
    return out


def value_subst(v, m):
    """Python value with loop counter replaced."""
    if isinstance(v, Tensor):
        rd = v.reader()
        groups = [tuple(subst(p, m) for p in g) for g in v.groups]
        ka, kv = list(m.items())[0]

        def f(idx):
            with under(eq(P(ka), kv)):
                e = rd(idx)
            return prover.simp(subst(e, m), ST.ctx)
        t = mk(groups, f, v.dtype)
        t.tag = v.tag
        return t
    if isinstance(v, SymInt):
        return mkint(subst(v.p, m))
    if isinstance(v, tuple):
        return tuple(value_subst(x, m) for x in v)
    if isinstance(v, (int, float, str, type(None))):
        return v
    raise Unsupported("list element of type %r" % type(v))


WHY = ["", None]


def val_eq(a, b):
    """Semantic equality of two python values (WHY keeps the reason of the last failure)."""
    WHY[:] = ["%r vs %r" % (type(a), type(b)), None]
    if a is b:
        return True
    if isinstance(a, Tensor) and isinstance(b, Tensor):
        if a.dim() != b.dim():
            return False
        for g, h in zip(a.groups, b.groups):
            if not same(gsize(g), gsize(h)):
                WHY[:] = ["sizes %r vs %r" % (a.groups, b.groups), None]
                return False
        idx = a.fresh_idx()
        with under(*a.ranges(idx)) as c:
            if c.dead():
                return True
            x = a.elem(idx)
            y = bto(b, a.groups)(idx)
            try:
                prover.prove_eq(x, y, c)
                return True
            except prover.Fail as e:
                WHY[:] = ["%s\n code %r\n inv  %r\n stuck %r vs %r" % (e, x, y, e.a, e.b), size_model(e.ctx or c)]
                return False
    if isinstance(a, (int, SymInt, float)) and isinstance(b, (int, SymInt, float)):
        return same(pl(a), pl(b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(val_eq(x, y) for x, y in zip(a, b))
    return False


# ------------------------------------------------------------------ run-time entry points

def vt_known(x):
    """Operand of an identity test."""
    return x._bad() if type(x) is Poison else x


def vt_loop(it, names, where):
    if isinstance(it, Bucket):
        return SearchLoop(it, names, where)
    s = as_symbolic(it)
    if s is None:
        return ConcreteLoop(concrete(it))
    return SymLoop(s, names, where)


def vt_comp(it, f, kind):
    s = as_symbolic(it)
    if s is None:
        r = [f(x) for x in concrete(it)]
        return iter(r) if kind == "gen" else VList(r)
    snapf = f
    memo = {}

    def at(k):
        key = (k, ST.ctx.id)
        if key not in memo:
            memo[key] = merge_paths(paths(lambda: snapf(s.at(k))))
        return memo[key]
    # evaluate once for side effects / errors
    k = fresh("c")
    with under(le(0, k), lt(k, s.n)) as c:
        if not c.dead():
            v = merge_paths(paths(lambda: f(s.at(k))))
            if isinstance(v, list) and kind == "list":
                if v:
                    raise Unsupported("list of lists of symbolic length")
                return MultiMap(s.n)
    return SymList(s.n, at)


def vt_dict(it, f):
    s = as_symbolic(it)
    if s is None:
        return dict(f(x) for x in concrete(it))
    k = fresh("c")
    with under(le(0, k), lt(k, s.n)):
        key, v = f(s.at(k))
        if not isinstance(v, list) or v or not same(pl(key), k):
            raise Unsupported("dict comprehension of symbolic length")
    return MultiMap(s.n)


# ------------------------------------------------------------------ AST instrumentation

class Names(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store) and n.id not in self.names:
            self.names.append(n.id)

    def visit_FunctionDef(self, n):
        if n.name not in self.names:
            self.names.append(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_GeneratorExp = visit_DictComp = visit_SetComp = visit_ListComp


class Instr(ast.NodeTransformer):
    """for loops -> while vt_loop.step; single-generator comprehensions -> vt_comp."""

    def __init__(self, fname):
        self.fname = fname
        self.n = 0
        self.fn = []
        self.scopes = []

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        self.scopes.append(node)
        self.generic_visit(node)
        self.fn.pop()
        self.scopes.pop()
        return node

    def visit_ClassDef(self, node):
        self.fn.append(node.name)
        self.scopes.append(None)
        self.generic_visit(node)
        self.fn.pop()
        self.scopes.pop()
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if not self.scopes or self.scopes[-1] is None:
            return node
        self.n += 1
        v = "vt__l%d" % self.n
        nm = Names()
        for s in node.body:
            nm.visit(s)
        nm2 = Names()
        nm2.visit(node.target)
        names = [x for x in nm.names if not x.startswith("vt__")]
        where = "%s:%s:%d" % (self.fname, ".".join(self.fn), node.lineno)
        pre = ast.Assign([ast.Name(v, ast.Store())], ast.Call(ast.Name("vt__loop", ast.Load()), [
            node.iter, ast.Tuple([ast.Constant(x) for x in names], ast.Load()), ast.Constant(where)], []))

        def sets():
            out = []
            for x in names:
                t = "vt__t"
                out.append(ast.parse("if %s.symbolic and %s.get(%r) is not vt__missing: %s = %s.get(%r)" % (v, v, x, x, v, x)).body[0])
            return out
        guard_exits(node.body, v)
        tr = ast.parse("try:\n pass\nexcept BaseException as vt__e:\n if not %s.caught(vt__e): raise" % v).body[0]
        tr.body = node.body
        body = sets() + [ast.Assign([node.target], ast.Attribute(ast.Name(v, ast.Load()), "item", ast.Load())), tr]
        w = ast.While(ast.parse("%s.step(locals())" % v, mode="eval").body, body, node.orelse)
        out = [pre, w] + sets()
        for x in nm2.names:
            if x not in names:
                out.append(ast.parse("if %s.symbolic: %s = vt__poison(%r)" % (v, x, x)).body[0])
        return [ast.copy_location(ast.fix_missing_locations(x), node) for x in out]

    def visit_While(self, node):
        self.generic_visit(node)
        if not self.scopes or self.scopes[-1] is None or node.orelse or any(isinstance(x, ast.NamedExpr) for x in ast.walk(node.test)):
            return node
        self.n += 1
        v = "vt__l%d" % self.n
        nm = Names()
        for s in node.body:
            nm.visit(s)
        names = [x for x in nm.names if not x.startswith("vt__")]
        tn = [x.id for x in ast.walk(node.test) if isinstance(x, ast.Name)]
        where = "%s:%s:%d" % (self.fname, ".".join(self.fn), node.lineno)
        tup = lambda xs: ast.Tuple([ast.Constant(x) for x in xs], ast.Load())
        pre = ast.Assign([ast.Name(v, ast.Store())], ast.Call(ast.Name("vt__while", ast.Load()), [tup(names), tup(tn), ast.Constant(where)], []))

        def sets():
            return [ast.parse("if %s.symbolic and %s.get(%r) is not vt__missing: %s = %s.get(%r)" % (v, v, x, x, v, x)).body[0] for x in names]
        guard_exits(node.body, v)
        tr = ast.parse("try:\n if %s.test(lambda: 0):\n  pass\n else:\n  break\nexcept BaseException as vt__e:\n if not %s.caught(vt__e): raise" % (v, v)).body[0]
        tr.body[0].test.args[0].body = node.test
        tr.body[0].body = node.body
        w = ast.While(ast.parse("%s.step(locals())" % v, mode="eval").body, sets() + [tr], [])
        return [ast.copy_location(ast.fix_missing_locations(x), node) for x in [pre, w] + sets()]

    def comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].ifs or node.generators[0].is_async:
            return node
        g = node.generators[0]
        t = g.target
        if isinstance(t, ast.Name):
            lam = ast.Lambda(ast.arguments([], [ast.arg(t.id)], None, [], [], None, []), node.elt)
        elif isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
            inner = ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in t.elts], None, [], [], None, []), node.elt)
            lam = ast.Lambda(ast.arguments([], [ast.arg("vt__x")], None, [], [], None, []),
                             ast.Call(inner, [ast.Starred(ast.Name("vt__x", ast.Load()), ast.Load())], []))
        else:
            return node
        if any(isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)) for x in ast.walk(node.elt)):
            return node
        return ast.copy_location(ast.fix_missing_locations(
            ast.Call(ast.Name("vt__comp", ast.Load()), [g.iter, lam, ast.Constant(kind)], [])), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = node.generators[0]
        if len(node.generators) != 1 or g.ifs or g.is_async or not isinstance(g.target, ast.Name):
            return node
        lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), ast.Tuple([node.key, node.value], ast.Load()))
        return ast.copy_location(ast.fix_missing_locations(ast.Call(ast.Name("vt__dict", ast.Load()), [g.iter, lam], [])), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            node.left = ast.copy_location(ast.fix_missing_locations(ast.Call(ast.Name("vt__known", ast.Load()), [node.left], [])), node)
        return node

    def visit_ListComp(self, node):
        return self.comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self.comp(node, "gen")

    def visit_List(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        return ast.copy_location(ast.Call(ast.Name("vt__list", ast.Load()), [node], []), node)


def guard_exits(body, v):
    """break/return out of the loop first tell the loop object (only legal when the trip count is concrete)."""
    def call(s):
        return ast.parse("%s.brk(locals(), %r)" % (v, type(s).__name__)).body[0]

    def walk(stmts, inner):
        i = 0
        while i < len(stmts):
            s = stmts[i]
            if isinstance(s, ast.Return) or (isinstance(s, ast.Break) and not inner):
                stmts.insert(i, ast.copy_location(call(s), s))
                i += 1
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                pass
            else:
                sub_inner = inner or isinstance(s, (ast.For, ast.While))
                for f in ("body", "orelse", "finalbody"):
                    if getattr(s, f, None):
                        walk(getattr(s, f), sub_inner if f == "body" else inner)
                for h in getattr(s, "handlers", []) or []:
                    walk(h.body, inner)
            i += 1
    walk(body, False)


def instrument(src, fname):
    tree = ast.parse(src)
    tree = Instr(fname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, fname, "exec")


ENV = {"vt__loop": vt_loop, "vt__while": vt_while, "vt__comp": vt_comp, "vt__dict": vt_dict, "vt__known": vt_known, "vt__missing": MISSING, "vt__poison": Poison, "vt__list": VList}
