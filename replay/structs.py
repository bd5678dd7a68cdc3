"""Runtime contract checks of the structured distributions against the oracles (real torch, real code)."""
import math
import random
import torch
from . import oracle
from .fam import FAMS, build, ts, values


class Skip(Exception):
    """The oracle would be too expensive on this case."""


class Bad(Exception):
    """A contract does not hold on a concrete input."""


def tol(case):
    return 2e-3 if case.get("dtype") == "float32" else 1e-6


def close(got, want, case, what, scale=1.0):
    got = torch.as_tensor(got).detach().double()
    want = torch.as_tensor(want).detach().double()
    if got.shape != want.shape:
        raise Bad("%s: shape %s, expected %s" % (what, tuple(got.shape), tuple(want.shape)))
    t = tol(case) * scale
    err = (got - want).abs()
    ok = (err <= t * (1 + want.abs())) | (got == want)
    if not bool(ok.all()):
        i = int((~ok).flatten().nonzero()[0])
        raise Bad("%s: got %r, expected %r (flat index %d, shape %s)"
                  % (what, got.flatten()[i].item(), want.flatten()[i].item(), i, tuple(got.shape)))


def semiring(name):
    t = ts()
    if name.startswith("kmax"):
        return t.KMaxSemiring(int(name[4:]))
    if name.startswith("ckpt:"):
        return t.CheckpointSemiring(semiring(name[5:]), 1)
    if name.startswith("shard"):
        n, rest = name[5:].split(":")
        return t.CheckpointShardSemiring(semiring(rest), int(n))
    return {"log": t.LogSemiring, "max": t.MaxSemiring, "std": t.StdSemiring, "entropy": t.EntropySemiring,
            "sampled": t.SampledSemiring, "multi": t.MultiSampledSemiring}[name]


class StdMap:
    def __init__(self, m):
        self.m = m

    def __getitem__(self, p):
        return 1.0 if p[0] == "s" else self.m[p]


def run_sum(case):
    """struct(semiring).sum and the facade value."""
    f, phi, lengths, ls = build(case)
    o = case.get("opts", {})
    sr = case["sr"]
    base = sr.split(":")[-1]
    want = []
    for b, L in enumerate(ls):
        h = f.hyper(case["sizes"], L, o)
        m = f.mapped(phi, b)
        if base in ("log", "sampled", "multi"):
            want.append(h.logz(m))
        elif base == "max":
            want.append(h.kbest(m, 1)[0][0])
        elif base == "std":
            want.append(h.evaluate(StdMap(m), sum, lambda a, c: a * c, 1.0))
        elif base.startswith("kmax"):
            k = int(base[4:])
            want.append([s for s, _ in h.kbest(m, k)])
        elif base == "entropy":
            lz, mg = h.marginals(m)
            want.append(lz - sum(v * m[p] for p, v in mg.items()))
    st = f.struct(semiring(sr), o)
    if base.startswith("kmax"):
        got = st.sum(phi, lengths, _raw=True)
        got2 = f.dist(phi, lengths, o).kmax(int(base[4:])) if sr == base else got
        for b in range(len(ls)):
            n = len(want[b])
            close(got[:n, b], want[b], case, "k-best scores of element %d" % b)
            close(got2[:n, b], want[b], case, "kmax of element %d" % b)
        return
    close(st.sum(phi, lengths), want, case, "%s sum" % sr)
    d = f.dist(phi, lengths, o)
    if sr == "log":
        close(d.partition, want, case, "partition")
    elif sr == "max":
        close(d.max, want, case, "max")


def lc_alt(case):
    pass


def run_info(case):
    """entropy, cross entropy, kl"""
    f, phi, lengths, ls = build(case)
    o = case.get("opts", {})
    d = f.dist(phi, lengths, o)
    H, CE, KL = [], [], []
    pair = case.get("pair")
    if pair:
        c2 = dict(case, seed=case["seed"] + (1 if pair != "same" else 0), kind=case.get("kind2", case.get("kind", "normal")))
        _, phi2, _, _ = build(c2)
        d2 = f.dist(phi2, lengths, o)
    for b, L in enumerate(ls):
        h = f.hyper(case["sizes"], L, o)
        m = f.mapped(phi, b)
        lz, mg = h.marginals(m)
        H.append(lz - sum(v * m[p] for p, v in mg.items()))
        if pair:
            m2 = f.mapped(phi2, b)
            ce = h.logz(m2) - sum(v * m2[p] for p, v in mg.items())
            CE.append(ce)
            KL.append(ce - H[-1])
    sc = 1 + sum(x.abs().max().item() for x in ((phi,) if f.single else phi))
    close(d.entropy, H, case, "entropy", sc)
    if pair:
        ce, kl = d.cross_entropy(d2), d.kl(d2)
        close(ce, CE, case, "cross_entropy", sc)
        close(kl, KL, case, "kl", sc)


def run_marginals(case):
    f, phi, lengths, ls = build(case)
    o = case.get("opts", {})
    got = f.dist(phi, lengths, o).marginals
    for b, L in enumerate(ls):
        h = f.hyper(case["sizes"], L, o)
        _, mg = h.marginals(f.mapped(phi, b))
        want = f.dense(mg, phi, b)
        if f.single:
            close(got[b], want, case, "marginals of element %d" % b)
        else:
            for name, g, w in zip(("terminal", "rule", "root", "span"), got, want):
                close(g[b], w, case, "%s marginals of element %d" % (name, b))


def run_best(case):
    """max, argmax, kmax, topk"""
    f, phi, lengths, ls = build(case)
    o = case.get("opts", {})
    k = case.get("k", 1)
    d = f.dist(phi, lengths, o)
    am = d.argmax
    mx = d.max
    km = d.kmax(k)
    tk = d.topk(k)
    if f.single and list(km.shape) != [k, len(ls)]:
        raise Bad("kmax: shape %s" % (tuple(km.shape),))
    for b, L in enumerate(ls):
        h = f.hyper(case["sizes"], L, o)
        best = h.kbest(f.mapped(phi, b), k + 1)
        sc = [s for s, _ in best]
        close(mx[b], sc[0], case, "max of element %d" % b)
        n = min(k, len(best))
        close(km[:n, b], sc[:n], case, "kmax of element %d" % b)

        def unique(i):
            return ((i == 0 or sc[i - 1] - sc[i] > 1e-4) and (i + 1 >= len(sc) or sc[i] - sc[i + 1] > 1e-4))

        if unique(0):
            want = f.indicator(best[0][1], phi)
            if f.single:
                close(am[b], want, case, "argmax of element %d" % b)
            else:
                for name, g, w in zip(("terminal", "rule", "root", "span"), am, want):
                    close(g[b], w, case, "%s argmax of element %d" % (name, b))
        elif f.single:
            g = am[b].detach().double()
            if not bool(((g == 0) | (g == 1)).all()):
                raise Bad("argmax of element %d is not a 0/1 indicator under ties" % b)
        for i in range(n):
            if unique(i):
                want = f.indicator(best[i][1], phi)
                if f.single:
                    close(tk[i, b], want, case, "topk[%d] of element %d" % (i, b))
                else:
                    close(tk[3][i, b], want[3], case, "topk[%d] spans of element %d" % (i, b))
        if not f.single and n == k and all(unique(i) for i in range(k)):
            each = [f.indicator(t, phi) for _, t in best[:k]]
            for q, name in enumerate(("terminal", "rule", "root")):
                close(tk[q][b], sum(e[q] for e in each), case, "%s uses in the topk of element %d together" % (name, b))


def structures(f, case, L):
    h = f.hyper(case["sizes"], L, case.get("opts", {}))
    try:
        return h.enumerate(limit=60000)
    except OverflowError:
        raise Skip()


def run_logprob(case):
    f, phi, lengths, ls = build(case)
    o = case.get("opts", {})
    d = f.dist(phi, lengths, o)
    rnd = random.Random(case["seed"])
    B = len(ls)
    allst = [structures(f, case, L) for L in ls]
    if case.get("all"):
        idx = [list(range(len(s))) for s in allst]
        n = max(len(s) for s in allst)
        sel = [[s[i] if i < len(s) else s[0] for i in range(n)] for s in allst]
    else:
        n = case.get("n", 3)
        sel = [[s[rnd.randrange(len(s))] for _ in range(n)] for s in allst]
    ev = torch.stack([torch.stack([f.indicator(sel[b][i], phi) for b in range(B)]) for i in range(n)])
    ev = ev.to(getattr(torch, case.get("evtype", "float64")))
    want = torch.zeros(n, B, dtype=torch.float64)
    for b in range(B):
        m = f.mapped(phi, b)
        lz = f.hyper(case["sizes"], ls[b], o).logz(m)
        for i in range(n):
            want[i, b] = sum(m[p] for p in sel[b][i]) - lz
    got = d.log_prob(ev)
    sc = 1 + phi.abs().max().item()
    close(got, want, case, "log_prob", sc)
    ev1 = ev[0]
    close(d.log_prob(ev1), want[0], case, "log_prob without sample axis", sc)
    if n % 2 == 0:
        close(d.log_prob(ev.view((2, n // 2) + tuple(ev.shape[1:]))), want.view(2, n // 2, B), case,
              "log_prob with two sample axes", sc)
    if case.get("all"):
        for b in range(B):
            s = got[:len(allst[b]), b].double().exp().sum().item()
            if abs(s - 1) > 1e-3 if case.get("dtype") == "float32" else abs(s - 1) > 1e-6:
                raise Bad("probabilities of all structures of element %d sum to %r" % (b, s))


def run_cfgscore(case):
    """CKY.score of the uses of sampled derivations."""
    f, phi, lengths, ls = build(case)
    o = case.get("opts", {})
    rnd = random.Random(case["seed"])
    sel = []
    for L in ls:
        sts = structures(f, case, L)
        sel.append(sts[rnd.randrange(len(sts))])
    ind = [f.indicator(s, phi) for s in sel]
    uses = tuple(torch.stack([x[i] for x in ind]).to(phi[0].dtype) for i in range(4))
    want = torch.tensor([sum(f.mapped(phi, b)[p] for p in s) for b, s in enumerate(sel)], dtype=torch.float64)
    sc = 1 + max(p.abs().max().item() for p in phi)
    for sr in ("log", "max"):
        close(f.struct(semiring(sr), o).score(phi, uses), want, case, "CKY.score", sc)
    close(f.struct(semiring("log"), o).score(phi, uses[:3]), want, case, "CKY.score without spans", sc)


def run_count(case):
    f, phi, lengths, ls = build(case)
    o = case.get("opts", {})
    if case.get("forbid"):
        gen = torch.Generator().manual_seed(case["seed"] + 17)
        drop = torch.rand(phi.shape, generator=gen) < 0.2
        phi = phi.masked_fill(drop, -float("inf"))
    if case["seed"] % 2:
        # finite potentials of any magnitude count
        gen = torch.Generator().manual_seed(case["seed"] + 18)
        pick = torch.rand(phi.shape, generator=gen)
        for i, v in enumerate((-60.0, -800.0, -1e4, -1e6, -1e9, 90.0, 800.0, 1e6)):
            phi = phi.masked_fill((pick > 0.1 * i) & (pick < 0.1 * i + 0.03) & (phi != -float("inf")), v)
    got = f.dist(phi, lengths, o).count
    want = []
    for b, L in enumerate(ls):
        m = f.mapped(phi, b)
        n = f.hyper(case["sizes"], L, o).count(lambda p: m[p] != -math.inf)
        if n > 10 ** 300:
            raise Skip()
        want.append(float(n))
    close(got, want, case, "count")


def answers(f, phi, lengths, o, k, which):
    """name -> list of per-element tensors"""
    d = f.dist(phi, lengths, o)
    out = {}
    for q in which:
        if q == "kmax":
            out[q] = [(d.kmax(k).transpose(0, 1))]
        elif q == "topk":
            r = d.topk(k)
            out[q] = [r.transpose(0, 1)] if f.single else [r[3].transpose(0, 1)]
        elif q in ("marginals", "argmax"):
            r = getattr(d, q)
            out[q] = [r] if f.single else list(r)
        else:
            out[q] = [getattr(d, q)]
    return {q: [x.detach() for x in v] for q, v in out.items()}


def queries_of(f):
    qs = ["partition", "max", "entropy", "marginals", "argmax", "kmax", "topk"]
    if f.single:
        qs.append("count")
    return qs


def sub(f, phi, idx):
    return phi[idx] if f.single else tuple(p[idx] for p in phi)


def crop(f, case, phi, L):
    """Potentials of one element restricted to its length."""
    fam = case["fam"]
    if fam in ("lc", "sm"):
        return phi[:, :L - 1]
    if fam in ("dep", "tree"):
        return phi[:, :L, :L]
    return (phi[0][:, :L], phi[1], phi[2])


def region(case, name, i, L):
    """Index restricting an element's event tensor to its length."""
    fam = case["fam"]
    if fam in ("lc", "sm"):
        return (slice(0, L - 1),)
    if fam in ("dep", "tree"):
        return (slice(0, L), slice(0, L))
    if i == 0:
        return (slice(0, L),)
    if i == 3:
        return (slice(0, max(L - 1, 1)), slice(0, L))
    return ()


def run_padding(case):
    f, phi, lengths, ls = build(case)
    o = case.get("opts", {})
    k = case.get("k", 2)
    ref = answers(f, phi, lengths, o, k, queries_of(f))
    B = len(ls)
    fam = case["fam"]
    mode = case["mode"]
    gen = torch.Generator().manual_seed(case["seed"] + 99)
    clone = (lambda p: p.clone()) if f.single else (lambda p: tuple(x.clone() for x in p))

    def event(q, i):
        return q in ("marginals", "argmax")

    def cmp(q, i, b, got, want, what):
        close(got, want, case, "%s of element %d %s" % (q, b, what), 10)

    nstruct = [f.hyper(case["sizes"], L, o).count() for L in ls]
    if mode == "pad":
        phi2 = clone(phi)
        for b, L in enumerate(ls):
            t = phi2 if f.single else phi2[0]
            noise = values(t[b].shape, "wide", gen, t.dtype)
            keep = t[b].clone()
            t[b] = noise
            if fam in ("lc", "sm"):
                t[b][:L - 1] = keep[:L - 1]
            elif fam in ("dep", "tree"):
                t[b][:L, :L] = keep[:L, :L]
            else:
                t[b][:L] = keep[:L]
        if fam == "sm":
            # steps must end inside the length; width 0 is never used
            for b, L in enumerate(ls):
                K = case["sizes"]["K"]
                for n in range(L - 1):
                    for w in range(K):
                        if w == 0 or n + w > L - 1:
                            phi2[b, n, w] = values(phi2[b, n, w].shape, "wide", gen, phi2.dtype)
        if fam == "tree":
            for b, L in enumerate(ls):
                for i in range(L):
                    for j in range(i):
                        phi2[b, i, j] = values(phi2[b, i, j].shape, "wide", gen, phi2.dtype)
        new = answers(f, phi2, lengths, o, k, queries_of(f))
        for q in ref:
            for i, (r, n) in enumerate(zip(ref[q], new[q])):
                for b in range(B):
                    if q in ("kmax", "topk"):
                        m = min(k, nstruct[b])
                        cmp(q, i, b, n[b][:m], r[b][:m], "after changing padding only")
                    else:
                        cmp(q, i, b, n[b], r[b], "after changing padding only")
    elif mode == "neigh":
        for b in range(B):
            phi2 = clone(phi)
            for t in ([phi2] if f.single else phi2):
                keep = t[b].clone()
                t[:] = values(t.shape, "wide", gen, t.dtype)
                t[b] = keep
            new = answers(f, phi2, lengths, o, k, queries_of(f))
            for q in ref:
                for i, (r, n) in enumerate(zip(ref[q], new[q])):
                    m = min(k, nstruct[b]) if q in ("kmax", "topk") else None
                    cmp(q, i, b, n[b][:m] if m else n[b], r[b][:m] if m else r[b], "after changing other elements")
    elif mode == "alone":
        for b, L in enumerate(ls):
            if fam in ("lc", "sm") and L < 2:
                continue
            one = crop(f, case, sub(f, phi, slice(b, b + 1)), L)
            new = answers(f, one, None, o, k, queries_of(f))
            for q in ref:
                for i, (r, n) in enumerate(zip(ref[q], new[q])):
                    rb, nb = r[b], n[0]
                    if q in ("kmax", "topk"):
                        m = min(k, nstruct[b])
                        rb, nb = rb[:m], nb[:m]
                    if q in ("marginals", "argmax"):
                        reg = region(case, q, i, L)
                        z = rb.clone()
                        z[reg] = 0
                        if bool((z.abs() > 1e-6).any()):
                            raise Bad("%s of element %d is non-zero outside its length" % (q, b))
                        rb = rb[reg]
                        if not f.single and i == 3:
                            nb = nb[reg]
                    elif q == "topk":
                        reg = (slice(None),) + region(case, q, 0 if f.single else 3, L)
                        z = rb.clone()
                        z[reg] = 0
                        if bool((z.abs() > 1e-6).any()):
                            raise Bad("topk of element %d is non-zero outside its length" % b)
                        rb = rb[reg]
                        if not f.single:
                            nb = nb[reg]
                    cmp(q, i, b, rb, nb, "against the element alone")
    elif mode == "perm":
        perm = list(range(B))
        random.Random(case["seed"]).shuffle(perm)
        p = torch.tensor(perm)
        new = answers(f, sub(f, phi, p), lengths[p] if lengths is not None else None, o, k, queries_of(f))
        for q in ref:
            for i, (r, n) in enumerate(zip(ref[q], new[q])):
                for b in range(B):
                    m = min(k, nstruct[perm[b]]) if q in ("kmax", "topk") else None
                    cmp(q, i, b, n[b][:m] if m else n[b], r[perm[b]][:m] if m else r[perm[b]], "after permuting the batch")


def follow(case, what, ps, value):
    """Gradients of value(ps), a tensor or several, against difference quotients of the value itself along one direction."""
    gen = torch.Generator().manual_seed(case["seed"] + 7)
    rnd = lambda t: torch.randn(t.shape, generator=gen, dtype=torch.float64)
    way = [rnd(p) for p in ps]
    seen = []

    def total(xs):
        v = value(xs)
        v = [v] if torch.is_tensor(v) else list(v)
        if not seen:
            seen.extend(rnd(t) for t in v)
        return sum((w * torch.where(t.abs() < 1e4, t, torch.zeros_like(t))).sum() for w, t in zip(seen, v))

    xs = [p.detach().clone().requires_grad_(True) for p in ps]
    y = total(xs)
    g = torch.autograd.grad(y, xs, allow_unused=True) if y.requires_grad else [None] * len(xs)
    got = float(sum((a * b).sum() for a, b in zip(g, way) if a is not None))
    cut = "" if y.requires_grad else " (the answer is not connected to the potentials)"

    def quotient(e):
        at = lambda s: float(total([p.detach() + s * e * w for p, w in zip(ps, way)]).detach())
        return (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * e)

    a, b = quotient(4e-3), quotient(1e-3)
    t = 2e-3 * (1 + abs(b) + sum(float(w.abs().sum()) for w in seen) ** 0.5)
    if not abs(a - b) <= t / 4:
        raise Skip()
    if not abs(got - b) <= t:
        raise Bad("directional derivative of %s: autograd gives %r, difference quotient %r%s" % (what, got, b, cut))


def run_grad(case):
    f, phi, lengths, ls = build(case)
    o = case.get("opts", {})
    q = case["q"]
    gen = torch.Generator().manual_seed(case["seed"] + 8)
    rnd = lambda t: torch.randn(t.shape, generator=gen, dtype=torch.float64)
    own = [phi] if f.single else list(phi)
    n = len(own)
    ps = own + ([rnd(p) for p in own] if q in ("kl", "cross_entropy") else [])
    ev = (rnd(own[0]) > 0).double()

    def value(xs):
        d = f.dist(xs[0] if f.single else tuple(xs[:n]), lengths, o)
        if q in ("kl", "cross_entropy"):
            return getattr(d, q)(f.dist(xs[n] if f.single else tuple(xs[n:]), lengths, o))
        return d.log_prob(ev) if q == "log_prob" else d.kmax(case.get("k", 2)) if q == "kmax" else getattr(d, q)

    follow(case, q, ps, value)


def run_gradparam(case):
    """Parameters of hidden (semi-)Markov models, arcs of non-projective trees, outputs of an autoregressive model."""
    t = ts()
    gen = torch.Generator().manual_seed(case["seed"])
    B, N, C = case["batch"], case["N"], case["C"]
    what = case["what"]
    val = lambda *s: values(s, "normal", gen)
    ls = torch.tensor(case["lengths"]) if case.get("lengths") else None
    q = case["q"]
    if what == "hmm":
        obs = torch.randint(0, case["V"], (B, N), generator=gen)
        follow(case, "HMM " + q, [val(C, C), val(case["V"], C), val(C)], lambda p: getattr(t.HMM(p[0], p[1], p[2], obs, lengths=ls), q))
    elif what == "hsmm":
        K = case["K"]
        follow(case, "HSMM " + q, [val(*((B, C) if case.get("binit") else (C,))), val(C, C), val(C, K), val(B, N, K, C)],
               lambda p: getattr(t.SemiMarkovCRF(t.SemiMarkov.hsmm(*p)), q))
    elif what == "nonproj":
        follow(case, "non-projective " + q, [val(B, N, N)],
               lambda p: getattr(t.NonProjectiveDependencyCRF(p[0], lengths=ls, multiroot=case["multiroot"]), q))
    else:
        x = torch.randint(0, C, (2, B, N), generator=gen)
        if case["onehot"]:
            x = torch.nn.functional.one_hot(x, C)

        def value(p):
            class M(torch.nn.Module):
                def forward(self, tok, state):
                    h = state[0]
                    outs = []
                    for i in range(tok.shape[1]):
                        h = torch.tanh(h @ p[1] + p[2][tok[:, i]])
                        outs.append(h @ p[1] + 0.1 * h)
                    return torch.stack(outs, 1), (h,)
            return t.Autoregressive(M(), (p[0],), C, N, start_class=case["start"], normalize=case["norm"]).log_prob(x, sparse=not case["onehot"])
        follow(case, "autoregressive log_prob", [val(B, C), val(C, C), val(C, C)], value)
