"""Runtime contract checks: sampling, conversions, adapters, non-projective trees, autoregressive models, purity."""
import itertools
import math
import random
import torch
from . import oracle
from .fam import FAMS, build, ts, values
from .structs import Bad, close, answers, structures, semiring, queries_of

F64 = torch.float64


# --------------------------------------------------------------------------- sampling

def chi2_sf_log10(x, k):
    """log10 of an upper bound of P(chi2_k > x) (Chernoff)."""
    if x <= k:
        return 0.0
    return (-(x - k) / 2 + (k / 2) * math.log(x / k)) / math.log(10)


def gtest(counts, probs, n):
    """Pearson statistic with small cells pooled -> log10 p bound."""
    cells = sorted(zip(probs, counts))
    pe = po = 0.0
    st, k = 0.0, -1
    for p, c in cells:
        pe += p * n
        po += c
        if pe >= 5:
            st += (po - pe) ** 2 / pe
            k += 1
            pe = po = 0.0
    if pe > 0:
        st += (po - pe) ** 2 / max(pe, 1.0)
        k += 1
    return chi2_sf_log10(st, max(k, 1))


def run_sample(case):
    f, phi, lengths, ls = build(case)
    o = case.get("opts", {})
    d = f.dist(phi, lengths, o)
    torch.manual_seed(case["seed"] + 1000)
    sts = [structures(f, case, L) for L in ls]
    keys = [{tuple(sorted(s)): i for i, s in enumerate(st)} for st in sts]
    probs = []
    for b, L in enumerate(ls):
        m = f.mapped(phi, b)
        lz = f.hyper(case["sizes"], L, o).logz(m)
        probs.append([math.exp(sum(m[p] for p in s) - lz) for s in sts[b]])
    n, calls = case["n"], case.get("calls", 1)

    def draw(calls):
        ids = []          # calls x n x batch
        for _ in range(calls):
            smp = d.sample((n,))
            if tuple(smp.shape) != (n,) + tuple(phi.shape):
                raise Bad("sample shape %s" % (tuple(smp.shape),))
            smp = smp.detach().double()
            if not bool(((smp == 0) | (smp == 1)).all()):
                raise Bad("sample is not a 0/1 indicator")
            row = [[None] * len(ls) for _ in range(n)]
            per = {}
            for idx in smp.nonzero().tolist():
                per.setdefault((idx[0], idx[1]), []).append(tuple(idx[2:]))
            for i in range(n):
                for b in range(len(ls)):
                    s = tuple(sorted(per.get((i, b), [])))
                    if s not in keys[b]:
                        raise Bad("sample %d of element %d is not a structure: parts %s" % (i, b, s))
                    row[i][b] = keys[b][s]
            ids.append(row)
        return ids

    ids = draw(calls)
    if calls * n < 200:
        return

    def verdicts(ids):
        out = []
        for b in range(len(ls)):
            flat = [r[b] for row in ids for r in row]
            cnt = [0] * len(sts[b])
            for x in flat:
                cnt[x] += 1
            out.append(("frequencies of element %d" % b, gtest(cnt, probs[b], len(flat))))
            p2 = sum(p * p for p in probs[b])
            if p2 < 0.999:
                for lag in (1, 2, 5, 10):
                    same = [row[i][b] == row[i + lag][b] for row in ids for i in range(n - lag)]
                    if len(same) >= 200:
                        out.append(("independence of samples %d apart of element %d" % (lag, b),
                                    gtest([sum(same), len(same) - sum(same)], [p2, 1 - p2], len(same))))
            if len(ids) >= 100:
                for i in range(n):
                    cnt = [0] * len(sts[b])
                    for row in ids:
                        cnt[row[i][b]] += 1
                    out.append(("frequencies of sample slot %d of element %d" % (i, b), gtest(cnt, probs[b], len(ids))))
        for b in range(1, len(ls)):
            if len(sts[b]) == len(sts[0]):
                pp = sum(x * y for x, y in zip(probs[0], probs[b]))
                same = [r[0] == r[b] for row in ids for r in row]
                if 0.01 < pp < 0.99:
                    out.append(("independence of elements 0 and %d" % b,
                                gtest([sum(same), len(same) - sum(same)], [pp, 1 - pp], len(same))))
        return min(out, key=lambda t: t[1])

    w = verdicts(ids)
    if w[1] < -5:
        w2 = verdicts(draw(4 * calls))
        if w2[1] < -9:
            raise Bad("%s: log10 p-value %.1f then %.1f on redraw" % (w2[0], w[1], w2[1]))


def run_gumbel(case):
    f, phi, lengths, ls = build(case)
    o = case.get("opts", {})
    torch.manual_seed(case["seed"] + 1000)
    d = f.dist(phi, lengths, o)
    g = d.gumbel_crf(case.get("temp", 1.0))
    if f.single:
        g = g.detach().double()
        for b, L in enumerate(ls):
            keys = {tuple(sorted(s)) for s in structures(f, case, L)}
            x = g[b].detach().double()
            if bool(((x - x.round()).abs() > 1e-5).any()):
                raise Bad("gumbel_crf is not integral")
            s = tuple(sorted(tuple(i) for i in x.round().nonzero().tolist()))
            if s not in keys:
                raise Bad("gumbel_crf of element %d is not a structure: %s" % (b, s))


def run_sampled_semiring(case):
    """SampledSemiring: one sample through the gradient."""
    f, phi, lengths, ls = build(case)
    o = case.get("opts", {})
    torch.manual_seed(case["seed"] + 1000)
    for sr in case.get("srs", ["sampled"]):
        st = f.struct(semiring(sr), o)
        for _ in range(3):
            g = st.marginals(phi.clone(), lengths).detach().double()
            for b, L in enumerate(ls):
                keys = {tuple(sorted(s)) for s in structures(f, case, L)}
                s = tuple(sorted(tuple(i) for i in g[b].nonzero().tolist()))
                if s not in keys or bool(((g[b] != 0) & (g[b] != 1)).any()):
                    raise Bad("%s marginals of element %d are not a structure: %s" % (sr, b, s))


# --------------------------------------------------------------------------- conversions

def run_draws(case):
    """Gradient of a sampling semiring's sum: the indicator of one element per slice, drawn from the softmax of the slice."""
    t = ts()
    sr = {"sampled": lambda: t.SampledSemiring, "multi": lambda: t.MultiSampledSemiring,
          "gmax": lambda: __import__("torch_struct.semirings.sample", fromlist=["x"]).GumbelMaxSemiring(case.get("temp", 1.0))}[case["sr"]]()
    shape, dim = case["shape"], case["dim"]
    gen = torch.Generator().manual_seed(case["seed"])
    ax = dim if dim >= 0 else dim + len(shape)
    torch.manual_seed(case["seed"] + 5)

    def draw(x):
        x = x.clone().requires_grad_(True)
        v = sr.sum(x, dim) if "dim" in case else sr.sum(x)
        close(v, torch.logsumexp(x.detach().double(), dim), case, "value of the sum")
        g, = torch.autograd.grad(v.sum() if case["sr"] != "multi" else v, x, None if case["sr"] != "multi" else torch.full_like(v, 1.0 * BITS))
        g = g.detach()
        out = [sr.to_discrete(g, j) for j in range(1, 11)] if case["sr"] == "multi" else [g.double()]
        for g in out:
            if tuple(g.shape) != tuple(shape) or bool(((g != 0) & (g != 1)).any()) or bool((g.sum(ax) != 1).any()):
                raise Bad("the gradient is not the indicator of one element per slice of axis %d" % dim)
        return out
    BITS = sum(2 ** j for j in range(1, 17))
    x = torch.randn(shape, generator=gen, dtype=torch.float32 if case["sr"] == "multi" else F64)
    draw(x)
    if not case.get("freq"):
        return
    # all slices alike, many draws
    line = 1.5 * torch.randn(shape[ax], generator=gen, dtype=x.dtype)
    pr = line.double().softmax(0).tolist()
    x = line.view([-1 if i == ax else 1 for i in range(len(shape))]).expand(shape)

    def verdict():
        cnt, n = [0.0] * shape[ax], 0
        for _ in range(case["freq"]):
            for g in draw(x):
                if case["sr"] == "gmax":
                    g = g.transpose(0, ax).reshape(shape[ax], -1)[:, :1]    # the noise is shared between slices
                h = g.double().transpose(0, ax).reshape(shape[ax], -1).sum(1) if case["sr"] != "gmax" else g.sum(1)
                cnt = [a + b for a, b in zip(cnt, h.tolist())]
                n += int(h.sum().item())
        return gtest(cnt, pr, n)
    w = verdict()
    if w < -5:
        w2 = verdict()
        if w < -6 and w2 < -6:
            raise Bad("frequencies of the draws along axis %d: log10 p %.1f, %.1f" % (dim, w, w2))


def run_convert(case):
    t = ts()
    rnd = random.Random(case["seed"])
    fam = case["fam"]
    B, N = case["batch"], case["N"]
    ls = case.get("lengths")
    lt = torch.tensor(ls) if ls is not None else None
    L = ls or [N] * B
    if fam == "lc":
        C = case["C"]
        seq = torch.tensor([[rnd.randrange(C) for _ in range(N)] for _ in range(B)])
        keep = seq.clone()
        e = t.LinearChainCRF.struct.to_parts(seq, C, lengths=lt)
        want = torch.zeros(B, N - 1, C, C)
        for b in range(B):
            for n in range(1, L[b]):
                want[b, n - 1, seq[b, n], seq[b, n - 1]] = 1
        if not torch.equal(seq, keep):
            raise Bad("to_parts modified its argument")
        close(e, want, case, "to_event")
        d = t.LinearChainCRF(torch.zeros(B, N - 1, C, C))
        close(d.to_event(seq, C, lengths=lt), want, case, "to_event")
        back, ex = d.from_event(e)
        if ex != C:
            raise Bad("from_event extra %r" % (ex,))
        for b in range(B):
            if L[b] > 1:
                close(back[b, :L[b]], seq[b, :L[b]], case, "from_event of element %d" % b)
        if ls is None:
            close(d.to_event(back, ex), e, case, "to_event(from_event)")
    elif fam == "sm":
        C, K = case["C"], case["K"]
        seq = torch.full((B, N), -1).long()
        want = torch.zeros(B, N - 1, K, C, C)
        for b in range(B):
            pos = [0]
            while pos[-1] < L[b] - 1:
                pos.append(pos[-1] + rnd.randint(1, min(K - 1, L[b] - 1 - pos[-1])))
            tail = pos[-1]
            labs = [rnd.randrange(C) for _ in pos]
            for p, c in zip(pos, labs):
                seq[b, p] = c
            for i in range(len(pos) - 1):
                want[b, pos[i], pos[i + 1] - pos[i], labs[i + 1], labs[i]] = 1
            if ls is not None and case.get("junk"):
                p = tail
                while p < N - 1:
                    p = min(p + rnd.randint(1, K - 1), N - 1)
                    seq[b, p] = rnd.randrange(C)
        keep = seq.clone()
        d = t.SemiMarkovCRF(torch.zeros(B, N - 1, K, C, C))
        e = d.to_event(seq, (C, K), lengths=lt)
        close(e, want, case, "to_event")
        if not torch.equal(seq, keep):
            raise Bad("to_parts modified its argument")
        back, ex = d.from_event(e)
        if tuple(ex) != (C, K):
            raise Bad("from_event extra %r" % (ex,))
        for b in range(B):
            if L[b] > 1:
                close(back[b, :L[b]], seq[b, :L[b]], case, "from_event of element %d" % b)
        if ls is None:
            close(d.to_event(back, ex), e, case, "to_event(from_event)")
    elif fam == "dep":
        seq = torch.zeros(B, N).long()
        want = torch.zeros(B, N, N)
        for b in range(B):
            # random tree over the first L words: heads (0 = root)
            n = L[b]
            order = list(range(1, n + 1))
            rnd.shuffle(order)
            for i, c in enumerate(order):
                h = 0 if i == 0 or rnd.random() < 0.2 else order[rnd.randrange(i)]
                seq[b, c - 1] = h
                want[b, (c if h == 0 else h) - 1, c - 1] = 1
            for c in range(n + 1, N + 1):
                h = rnd.randrange(0, N + 1)
                seq[b, c - 1] = h if h != c else 0
        keep = seq.clone()
        d = t.DependencyCRF(torch.zeros(B, N, N))
        e = d.to_event(seq, None, lengths=lt)
        close(e, want, case, "to_event")
        if not torch.equal(seq, keep):
            raise Bad("to_parts modified its argument")
        back, _ = d.from_event(e)
        for b in range(B):
            close(back[b, :L[b]], seq[b, :L[b]], case, "from_event of element %d" % b)
        if ls is None:
            close(d.to_event(back, None), e, case, "to_event(from_event)")
        # deptree convert/unconvert are inverse on the arcs
        from torch_struct.deptree import convert, unconvert
        gen = torch.Generator().manual_seed(case["seed"])
        x = values((B, N, N), "normal", gen)
        close(unconvert(convert(x)), x, case, "unconvert(convert)")
        c = convert(x)
        for i in range(1, N + 1):
            close(c[:, 0, i], x[:, i - 1, i - 1], case, "root column of convert")
            if bool((c[:, i, i] > -1e8).any()) or bool((c[:, i, 0] > -1e8).any()):
                raise Bad("convert leaves a score on a forbidden arc")
            for j in range(1, N + 1):
                if i != j:
                    close(c[:, i, j], x[:, i - 1, j - 1], case, "arc of convert")
    elif fam == "cfg":
        NT, T = case["NT"], case["T"]
        S = NT + T
        spans = torch.zeros(B, N, N, S)
        wt, wr, wo = torch.zeros(B, N, T), torch.zeros(B, NT, S, S), torch.zeros(B, NT)

        def tree(b, i, j):
            if i == j:
                a = NT + rnd.randrange(T)
                wt[b, i, a - NT] = 1
            else:
                k = rnd.randrange(i, j)
                l, r = tree(b, i, k), tree(b, k + 1, j)
                a = rnd.randrange(NT)
                wr[b, a, l, r] += 1
            spans[b, i, j, a] = 1
            return a
        for b in range(B):
            a = tree(b, 0, L[b] - 1)
            wo[b, a] = 1
        keep = spans.clone()
        terms, rules, roots = t.CKY.to_parts(spans, (NT, T), lengths=torch.tensor(L))
        close(terms, wt, case, "to_event terminals")
        close(rules, wr, case, "to_event rules")
        close(roots, wo, case, "to_event roots")
        if not torch.equal(spans, keep):
            raise Bad("to_parts modified its argument")
        # from_parts: chart of rules indexed by width-1 and start
        rchart = torch.zeros(B, N, N, NT, S, S)
        for b in range(B):
            def walk(i, j, b=b):
                a = int(spans[b, i, j].nonzero()[0])
                if i == j:
                    return a
                for k in range(i, j):
                    if spans[b, i, k].any() and spans[b, k + 1, j].any():
                        rchart[b, j - i - 1, i, a, walk(i, k), walk(k + 1, j)] = 1
                        return a
            walk(0, L[b] - 1)
        sp, ex = t.CKY.from_parts((wt, rchart, wo))
        close(sp, spans, case, "from_event spans")
        if tuple(ex) != (NT, T):
            raise Bad("from_event extra %r" % (ex,))


# --------------------------------------------------------------------------- adapters

def run_adapter(case):
    t = ts()
    gen = torch.Generator().manual_seed(case["seed"])
    B, N, C = case["batch"], case["N"], case["C"]
    kind = case.get("kind", "normal")
    if case["what"] == "hmm":
        Vn = case["V"]
        tr, em, ini = values((C, C), kind, gen), values((Vn, C), kind, gen), values((C,), kind, gen)
        if case.get("norm"):
            tr, em, ini = tr.log_softmax(0), em.log_softmax(0), ini.log_softmax(0)
        obs = torch.randint(0, Vn, (B, N), generator=gen)
        keep = [x.clone() for x in (tr, em, ini, obs)]
        e = t.LinearChain.hmm(tr, em, ini, obs)
        close(torch.tensor(e.shape), torch.tensor([B, N - 1, C, C]), case, "shape")
        for b in range(B):
            for n in range(N - 1):
                w = tr + em[obs[b, n + 1]].view(C, 1)
                if n == 0:
                    w = w + ini.view(1, C) + em[obs[b, 0]].view(1, C)
                # the split between edges is free only through whole sequences: compare sequence scores
        ls = case.get("lengths")
        d = t.HMM(tr, em, ini, obs, lengths=torch.tensor(ls) if ls else None)
        want = []
        rnd = random.Random(case["seed"])
        for b in range(B):
            L = (ls or [N] * B)[b]
            al = [ini[c].item() + em[obs[b, 0], c].item() for c in range(C)]
            for n in range(1, L):
                al = [oracle.lse([al[p] + tr[c, p].item() for p in range(C)]) + em[obs[b, n], c].item()
                      for c in range(C)]
            want.append(oracle.lse(al))
            for _ in range(3):
                z = [rnd.randrange(C) for _ in range(N)]
                s = ini[z[0]] + sum(em[obs[b, n], z[n]] for n in range(N)) + sum(tr[z[n + 1], z[n]] for n in range(N - 1))
                g = sum(e[b, n, z[n + 1], z[n]] for n in range(N - 1))
                close(g, s, case, "score of state sequence %s for element %d" % (z, b), 10)
        if all(l > 1 for l in (ls or [N])):
            close(d.partition, want, case, "HMM partition", 10)
        for x, y in zip((tr, em, ini, obs), keep):
            if not torch.equal(x, y):
                raise Bad("parameters modified")
    else:
        K = case["K"]
        ini = values((B, C) if case.get("binit") else (C,), kind, gen)
        tr, du, em = values((C, C), kind, gen), values((C, K), kind, gen), values((B, N, K, C), kind, gen)
        keep = [x.clone() for x in (ini, tr, du, em)]
        e = t.SemiMarkov.hsmm(ini, tr, du, em)
        want = torch.zeros(B, N, K, C, C, dtype=F64)
        for b in range(B):
            for n in range(N):
                for k in range(K):
                    for c2 in range(C):
                        for c1 in range(C):
                            v = tr[c1, c2] + du[c2, k] + em[b, n, k, c2]
                            if n == 0:
                                v = v + (ini[b, c1] if case.get("binit") else ini[c1])
                            want[b, n, k, c2, c1] = v
        close(e, want, case, "HSMM edges")
        for x, y in zip((ini, tr, du, em), keep):
            if not torch.equal(x, y):
                raise Bad("parameters modified")


# --------------------------------------------------------------------------- non-projective trees

_nonproj = {}


def nonproj_trees(n, multi):
    r = _nonproj.get((n, multi))
    if r is None:
        r = _nonproj[n, multi] = list(oracle.brute_dep(n, multi, projective=False))
    return r


def leaky(w, root, multi, leak):
    """log Z when, besides the roots, every word may also hang from a padded head with weight `leak`."""
    n = len(root)
    W, R = torch.tensor(w, dtype=F64), torch.tensor(root, dtype=F64)
    off = W * (1 - torch.eye(n, dtype=F64))
    lap = torch.diag(off.sum(0) + leak) - off
    if multi:
        return torch.logdet(lap + torch.diag(R)).item()
    if not leak:
        return matrix_tree(w, root, multi)[0]
    # coefficient of s in det(lap + s diag(R))
    return (torch.logdet(lap) + torch.log((torch.linalg.inv(lap).diagonal() * R).sum())).item()


def matrix_tree(w, root, multi):
    """log Z and arc marginals by determinants in float64 (Tutte), w[h, c], root[c]."""
    n = len(root)
    W = torch.tensor(w, dtype=F64).clone().requires_grad_(True)
    R = torch.tensor(root, dtype=F64).clone().requires_grad_(True)
    off = W * (1 - torch.eye(n, dtype=F64))
    if multi:
        lap = torch.diag(off.sum(0) + R) - off
        z = torch.logdet(lap)
    else:
        # exactly one root: coefficient of s in det(L + s diag(R)) = sum_r R_r det(minor without row and column r)
        lap = torch.diag(off.sum(0)) - off
        tot = 0
        for r in range(n):
            keep = [i for i in range(n) if i != r]
            sub = lap[keep][:, keep]
            tot = tot + R[r] * (torch.linalg.det(sub) if n > 1 else 1.0)
        z = torch.log(tot)
    gW, gR = torch.autograd.grad(z, (W, R), allow_unused=True)
    gW = torch.zeros(n, n, dtype=F64) if gW is None else gW
    m = gW.detach() * W.detach()
    m = m * (1 - torch.eye(n, dtype=F64)) + torch.diag((gR * R).detach())
    return z.detach().item(), m


def run_nonproj(case):
    t = ts()
    gen = torch.Generator().manual_seed(case["seed"])
    B, n = case["batch"], case["N"]
    dt = getattr(torch, case.get("dtype", "float64"))
    phi = values((B, n, n), case.get("kind", "normal"), gen, dt)
    ls = case.get("lengths")
    multi = case["multiroot"]
    keep = phi.clone()
    lt = torch.tensor(ls) if ls is not None else None
    d = t.NonProjectiveDependencyCRF(phi, lengths=lt, multiroot=multi)
    part, marg = d.partition, d.marginals
    if not torch.equal(phi, keep):
        raise Bad("potentials modified")
    if tuple(part.shape) != (B,) or tuple(marg.shape) != (B, n, n):
        raise Bad("shapes %s %s" % (tuple(part.shape), tuple(marg.shape)))
    for b in range(B):
        L = (ls or [n] * B)[b]
        x = phi[b, :L, :L].double()
        w = x.exp()
        z, m = matrix_tree((w + 1e-5).tolist(), torch.diagonal(w).tolist(), multi)
        if L <= 4 and case.get("brute"):
            zs = []
            for tr in nonproj_trees(L, multi):
                s = 0.0
                for h, c in tr:
                    s += math.log(math.exp(x[h, c].item()) + (0 if h == c else 1e-5))
                zs.append(s)
            zb = oracle.lse(zs)
            if abs(zb - z) > 1e-6 * (1 + abs(z)):
                raise AssertionError("oracles disagree")
        # every arc is smoothed by at most 1e-5, also those of padded words
        z0, m0 = matrix_tree(w.tolist(), torch.diagonal(w).tolist(), multi)
        slack = 1e-6 * (1 + abs(z)) + (2e-5 * n * (n - L)) + (2e-3 * (1 + abs(z)) if dt != F64 else 0)
        zl = leaky((w + 1e-5).tolist(), torch.diagonal(w).tolist(), multi, 1e-5 * (n - L))
        if not z0 - slack <= part[b].item() <= zl + slack:
            raise Bad("partition of element %d: got %r, expected %r (%r with smoothing)" % (b, part[b].item(), z0, z))
        g = marg[b].double()
        full = torch.zeros(n, n, dtype=F64)
        full[:L, :L] = m
        err = (g - full).abs().max().item()
        if not err <= slack + 1e-4 + 20 * ((m - m0).abs().max().item() + abs(zl - z0)):
            i = int((g - full).abs().flatten().argmax())
            raise Bad("marginal of element %d at (head %d, child %d): got %r, expected %r"
                      % (b, i // n, i % n, g.flatten()[i].item(), full.flatten()[i].item()))
        if ls is not None and L < n:
            z0 = g.clone()
            z0[:L, :L] = 0
            if bool((z0 != 0).any()):
                raise Bad("marginal outside the length of element %d: %r" % (b, z0.abs().max().item()))


# --------------------------------------------------------------------------- autoregressive

class Toy(torch.nn.Module):
    """Scores depend on the element, the whole prefix and the time; the state is threaded."""

    def __init__(self, C, scale, extra):
        super().__init__()
        self.C, self.scale, self.extra = C, scale, extra

    def forward(self, inputs, state):
        ident, h = state[0], state[1]
        outs = []
        for i in range(inputs.shape[1]):
            h = (h * 31 + inputs[:, i].view(-1, 1).double() * 7 + 3) % 10007
            outs.append(score_fn(ident, h, self.C, self.scale))
        st = (ident, h) + tuple(state[2:])
        return torch.stack(outs, dim=1), st


def score_fn(ident, h, C, scale):
    c = torch.arange(1, C + 1, dtype=F64).view(1, C)
    return scale * torch.sin(h.view(-1, 1) * 0.731 * c + ident.view(-1, 1) * 1.37 * (c + 0.5) + c * c)


def toy(case):
    t = ts()
    B, C, N = case["batch"], case["C"], case["N"]
    rows = torch.arange(B, dtype=F64).view(B, 1) * (0 if case.get("same") else 1)
    ident = rows + case["seed"] % 97
    h0 = rows * 13 + 5
    init = (ident, h0) + ((torch.zeros(B, 2, 3, dtype=F64),) if case.get("extra") else ())
    kw = {}
    if "start" in case:
        kw["start_class"] = case["start"]
    d = t.Autoregressive(Toy(C, case.get("scale", 2.0), case.get("extra")), init, C, N,
                         normalize=case.get("normalize", True), **kw)
    return d, ident, h0


def toy_scores(case, ident, h0, b, prefix):
    """next-token scores after consuming start + prefix"""
    h = h0[b].item()
    for x in [case.get("start", 0)] + list(prefix):
        h = (h * 31 + x * 7 + 3) % 10007
    s = score_fn(ident[b:b + 1], torch.tensor([[h]], dtype=F64), case["C"], case.get("scale", 2.0))[0]
    if case.get("normalize", True):
        s = s.log_softmax(-1)
    return s.tolist()


def run_ar_logprob(case):
    d, ident, h0 = toy(case)
    B, C, N, n = case["batch"], case["C"], case["N"], case["n"]
    gen = torch.Generator().manual_seed(case["seed"])
    if case.get("all"):
        seqs = list(itertools.product(range(C), repeat=N))
        v = torch.tensor(seqs).unsqueeze(1).expand(len(seqs), B, N).contiguous()
        n = len(seqs)
    else:
        v = torch.randint(0, C, (n, B, N), generator=gen)
    want = torch.zeros(n, B, dtype=F64)
    for i in range(n):
        for b in range(B):
            seq = v[i, b].tolist()
            for t_ in range(N):
                want[i, b] += toy_scores(case, ident, h0, b, seq[:t_])[seq[t_]]
    close(d.log_prob(v, sparse=True), want, case, "log_prob (sparse)")
    oh = torch.nn.functional.one_hot(v, C)
    close(d.log_prob(oh), want, case, "log_prob (one-hot)")
    close(d.log_prob(oh.double()), want, case, "log_prob (one-hot float)")
    if case.get("all") and case.get("normalize", True):
        close(d.log_prob(v, sparse=True).exp().sum(0), torch.ones(B), case, "total probability")


def run_ar_sample(case):
    d, ident, h0 = toy(case)
    B, C, N, n = case["batch"], case["C"], case["N"], case["n"]
    torch.manual_seed(case["seed"] + 77)

    def draw():
        s = d.sample((n,))
        if tuple(s.shape) != (n, B, N, C):
            raise Bad("sample shape %s" % (tuple(s.shape),))
        if bool((s.sum(-1) != 1).any()) or bool(((s != 0) & (s != 1)).any()):
            raise Bad("sample is not one-hot")
        return s.argmax(-1).tolist()
    s = draw()
    if case.get("scale", 2.0) >= 1e4:
        # almost deterministic model: every token must be the best one given its own prefix
        for i in range(n):
            for b in range(B):
                for t_ in range(N):
                    sc = toy_scores(case, ident, h0, b, s[i][b][:t_])
                    if max(sc) - sc[s[i][b][t_]] > 200:
                        raise Bad("sample %d of element %d takes an impossible token at step %d" % (i, b, t_))
        return

    def verdict(s):
        worst = ("", 0.0)
        for b in range(B):
            pr = {}
            for seq in itertools.product(range(C), repeat=N):
                lp = sum(toy_scores(dict(case, normalize=True), ident, h0, b, seq[:t_])[seq[t_]] for t_ in range(N))
                pr[seq] = math.exp(lp)
            cnt = {k: 0 for k in pr}
            for i in range(n):
                cnt[tuple(s[i][b])] += 1
            ks = list(pr)
            g = gtest([cnt[k] for k in ks], [pr[k] for k in ks], n)
            if g < worst[1]:
                worst = ("frequencies of element %d" % b, g)
            pp = sum(p * p for p in pr.values())
            same = [s[i][b] == s[i + 1][b] for i in range(n - 1)]
            if 0.01 < pp < 0.99:
                g = gtest([sum(same), len(same) - sum(same)], [pp, 1 - pp], len(same))
                if g < worst[1]:
                    worst = ("independence of samples of element %d" % b, g)
        return worst
    if n >= 200:
        w = verdict(s)
        if w[1] < -5:
            w2 = verdict(draw())
            if w2[1] < -6 and w[1] < -6:
                raise Bad("%s: log10 p %.1f, %.1f" % (w2[0], w[1], w2[1]))


def run_beam(case):
    d, ident, h0 = toy(case)
    B, C, N, K = case["batch"], case["C"], case["N"], case["K"]
    if K == 0:
        path, score, logits = d.greedy_max()
        if tuple(path.shape) != (B, N, C) or tuple(score.shape) != (B,):
            raise Bad("greedy shapes %s %s" % (tuple(path.shape), tuple(score.shape)))
        for b in range(B):
            seq, tot = [], 0.0
            for t_ in range(N):
                sc = toy_scores(case, ident, h0, b, seq)
                close(logits[b, t_], torch.tensor(sc, dtype=F64), dict(case, dtype="float32"), "scores along the greedy path of element %d" % b)
                j = max(range(C), key=lambda c: sc[c])
                top = sorted(sc, reverse=True)
                if C > 1 and top[0] - top[1] < 1e-3:
                    return
                seq.append(j)
                tot += sc[j]
            want = torch.nn.functional.one_hot(torch.tensor(seq), C).double()
            close(path[b], want, dict(case, dtype="float32"), "greedy path of element %d" % b)
            close(score[b], tot, dict(case, dtype="float32"), "greedy score of element %d" % b)
        return
    path = d.beam_topk(K)
    sc_all = d._beam_max(K) if hasattr(d, "_beam_max") else None
    if tuple(path.shape) != (K, B, N, C):
        raise Bad("beam shape %s" % (tuple(path.shape),))
    for b in range(B):
        beam = [(0.0, [])]
        gap = True
        for t_ in range(N):
            ext = []
            for s, p in beam:
                sc = toy_scores(case, ident, h0, b, p)
                ext += [(s + sc[c], p + [c]) for c in range(C)]
            ext.sort(key=lambda x: -x[0])
            if len(ext) > K and ext[K - 1][0] - ext[K][0] < 1e-3:
                gap = False
            beam = ext[:K]
        if not gap:
            continue
        for i, (s, p) in enumerate(beam):
            if sc_all is not None:
                close(sc_all[i, b], s, dict(case, dtype="float32"), "beam score %d of element %d" % (i, b))
            lone = (i == 0 or beam[i - 1][0] - s > 1e-3) and (i + 1 >= len(beam) or s - beam[i + 1][0] > 1e-3)
            if lone:
                want = torch.nn.functional.one_hot(torch.tensor(p), C).double()
                close(path[i, b], want, dict(case, dtype="float32"), "beam path %d of element %d" % (i, b))


class Soft(torch.nn.Module):
    """Takes tokens or distributions over tokens; keeps what it was fed."""

    def __init__(self, C, scale):
        super().__init__()
        self.C, self.scale, self.fed = C, scale, []

    def forward(self, inputs, state):
        ident, h = state
        x = torch.nn.functional.one_hot(inputs, self.C).double() if inputs.dim() == 2 else inputs.double()
        h = torch.tanh(0.7 * h + (x[:, 0] * torch.arange(1.0, self.C + 1, dtype=F64)).sum(-1, keepdim=True) + 0.1)
        out = score_fn(ident, h, self.C, self.scale)
        self.fed.append((inputs.detach().clone(), state[1].detach().clone(), h.detach().clone(), out.detach().clone()))
        return out.unsqueeze(1), (ident, h)


def run_tempmax(case):
    B, C, N, al = case["batch"], case["C"], case["N"], case["alpha"]
    rows = torch.arange(B, dtype=F64).view(B, 1)
    init = (rows + case["seed"] % 97, torch.sin(rows * 13 + 5))
    m = Soft(C, case.get("scale", 2.0))
    torch.manual_seed(case["seed"] + 5)
    path, score, logits = ts().Autoregressive(m, init, C, N, normalize=case.get("normalize", True), start_class=case.get("start", 0)).greedy_tempmax(al)
    if tuple(path.shape) != (B, N, C) or tuple(score.shape) != (B,) or tuple(logits.shape) != (B, N, C):
        raise Bad("greedy_tempmax shapes %s %s %s" % (tuple(path.shape), tuple(score.shape), tuple(logits.shape)))
    cs = dict(case, dtype="float32")
    if len(m.fed) != N:
        raise Bad("greedy_tempmax asked the model %d times for %d steps" % (len(m.fed), N))
    logits = logits.detach().double()
    h = init[1]
    for t_, (x, was, now, out) in enumerate(m.fed):
        if t_ == 0:
            if x.dim() != 2 or bool((x != case.get("start", 0)).any()):
                raise Bad("greedy_tempmax does not begin with the start token")
        else:
            close(x[:, 0], (al * logits[:, t_ - 1]).softmax(-1), cs, "soft token fed at step %d" % t_)
        close(was, h, cs, "model state at step %d" % t_)
        h = now
        if al == 0:
            close(logits[:, t_], out.log_softmax(-1) if case.get("normalize", True) else out, cs, "scores at step %d" % t_)
        elif case.get("normalize", True):
            close(logits[:, t_].exp().sum(-1), torch.ones(B), cs, "total probability at step %d" % t_)
    close(score, logits.max(-1)[0].sum(-1), cs, "greedy_tempmax total")


def run_swor(case):
    """sample_without_replacement: K different one-hot paths; one path is an exact draw, first tokens follow Plackett-Luce."""
    d, ident, h0 = toy(case)
    B, C, N, K = case["batch"], case["C"], case["N"], case["K"]
    torch.manual_seed(case["seed"] + 99)

    def draw():
        p = d.sample_without_replacement((K,)).detach().double()
        if tuple(p.shape) != (K, B, N, C):
            raise Bad("sample_without_replacement shape %s" % (tuple(p.shape),))
        if bool((p.sum(-1) != 1).any()) or bool(((p != 0) & (p != 1)).any()):
            raise Bad("sample_without_replacement is not one-hot")
        p = p.argmax(-1)
        for b in range(B):
            seqs = [tuple(p[k, b].tolist()) for k in range(K)]
            if len(set(seqs)) != K:
                raise Bad("sample_without_replacement repeats a path of element %d: %s" % (b, seqs))
        return p
    p = draw()
    if not case.get("same"):
        return
    pr = {}
    full = dict(case, normalize=True)
    if K == 1:
        for seq in itertools.product(range(C), repeat=N):
            pr[(seq,)] = math.exp(sum(toy_scores(full, ident, h0, 0, seq[:t_])[seq[t_]] for t_ in range(N)))
    else:
        w = [math.exp(x) for x in toy_scores(full, ident, h0, 0, [])]
        for perm in itertools.permutations(range(C), K):
            q, left = 1.0, 1.0
            for c in perm:
                q *= w[c] / left
                left = max(left - w[c], 1e-12)
            pr[tuple((c,) for c in perm)] = q
    ks = list(pr)

    def verdict(p):
        cnt = {k: 0 for k in ks}
        for b in range(B):
            cnt[tuple(tuple(p[k, b].tolist()) for k in range(K))] += 1
        return gtest([cnt[k] for k in ks], [pr[k] for k in ks], B)
    w1 = verdict(p)
    if w1 < -5:
        w2 = verdict(draw())
        if w1 < -6 and w2 < -6:
            raise Bad("frequencies of sample_without_replacement: log10 p %.1f, %.1f" % (w1, w2))


# --------------------------------------------------------------------------- purity

def run_pure(case):
    """Random interleaving of constructions and queries over several distributions."""
    rnd = random.Random(case["seed"])
    objs = []
    specs = []
    for i in range(case.get("objects", 4)):
        fam = rnd.choice(case.get("fams", ["lc", "sm", "dep", "dep", "tree", "cfg"]))
        N = rnd.randint(2, 4)
        sizes = {"lc": {"N": N, "C": rnd.randint(2, 3)}, "sm": {"N": N, "C": 2, "K": rnd.randint(2, 3)},
                 "dep": {"N": N}, "tree": {"N": N, "NT": rnd.randint(1, 2)}, "cfg": {"N": N, "NT": 2, "T": 2}}[fam]
        B = rnd.randint(1, 3)
        ls = None
        if rnd.random() < 0.5:
            lo = 2
            ls = [rnd.randint(lo, N) for _ in range(B - 1)] + [N]
            rnd.shuffle(ls)
        specs.append(dict(fam=fam, sizes=sizes, batch=B, lengths=ls, seed=rnd.randrange(10 ** 6), dtype="float64",
                          opts={"multiroot": rnd.random() < 0.5} if fam == "dep" else {}))
    def other(sp, j):
        f, phi, lengths, _ = build(dict(sp, seed=sp["seed"] + 17 * (j + 1)))
        return f.dist(phi, lengths, sp["opts"])

    def ask(f, d, q, sp, phi, lengths):
        q, _, arg = q.partition(":")
        if q == "kmax":
            return [d.kmax(int(arg))]
        if q == "topk":
            r = d.topk(int(arg))
            return [r] if f.single else list(r)
        if q == "sample":
            d.sample((rnd.randint(1, 12),))
            return []
        if q == "gumbel":
            d.gumbel_crf(1.0)
            return []
        if q == "log_prob":
            r2 = random.Random(int(arg))
            ls = sp["lengths"] or [sp["sizes"]["N"]] * sp["batch"]
            ev = torch.stack([f.indicator(r2.choice(structures(f, sp, L)), phi) for L in ls])
            return [d.log_prob(ev)]
        if q in ("kl", "cross_entropy"):
            return [getattr(d, q)(other(sp, int(arg)))]
        if q == "struct":
            cls = {"lc": ts().LinearChain, "sm": ts().SemiMarkov, "dep": ts().DepTree, "tree": ts().CKY_CRF, "cfg": ts().CKY}[sp["fam"]]
            return [cls(semiring(arg)).sum(phi, lengths)]
        r = getattr(d, q)
        return list(r) if isinstance(r, tuple) else [r]

    def qs(fam):
        q = ["partition", "max", "entropy", "marginals", "argmax", "kmax:1", "kmax:2", "kmax:3", "topk:1", "topk:2", "topk:3", "gumbel",
             "struct:log", "struct:max"]
        if fam != "cfg":
            q += ["count", "sample", "log_prob:1", "log_prob:2"]
        if fam in ("lc", "tree"):
            q += ["kl:0", "kl:1", "cross_entropy:0", "cross_entropy:1"]
        return q

    def fewest(f, sp):
        ls = sp["lengths"] or [sp["sizes"]["N"]]
        return min(f.hyper(sp["sizes"], L, sp["opts"]).count(lambda p: True) for L in ls)

    few = {}
    asked = qs

    def qs(fam, i=None):
        return [q for q in asked(fam) if q[:4] not in ("kmax", "topk") or int(q[5:]) <= few[i]]

    for i, sp in enumerate(specs):
        few[i] = fewest(FAMS[sp["fam"]], sp)
    # reference answers: a fresh object for every single query
    ref = {}
    for i, sp in enumerate(specs):
        for q in qs(sp["fam"], i):
            if q in ("sample", "gumbel"):
                continue
            f, phi, lengths, _ = build(sp)
            ref[i, q] = [x.detach().clone() for x in ask(f, f.dist(phi, lengths, sp["opts"]), q, sp, phi, lengths)]
        f, phi, lengths, ls = build(sp)
        for b, L in enumerate(ls):
            lz = f.hyper(sp["sizes"], L, sp["opts"]).logz(f.mapped(phi, b))
            close(ref[i, "partition"][0][b], lz, sp, "partition of a fresh %s object" % sp["fam"])
    live = {}
    log = []
    for step in range(case.get("steps", 30)):
        i = rnd.randrange(len(specs))
        sp = specs[i]
        f = FAMS[sp["fam"]]
        if i not in live or rnd.random() < 0.15:
            _, phi, lengths, _ = build(sp)
            snap = ([phi.clone()] if f.single else [p.clone() for p in phi], None if lengths is None else lengths.clone())
            live[i] = (f.dist(phi, lengths, sp["opts"]), phi, lengths, snap)
            log.append("new#%d(%s%s)" % (i, sp["fam"], sp["opts"] or ""))
            if rnd.random() < 0.5:
                continue
        d, phi, lengths, snap = live[i]
        q = rnd.choice(qs(sp["fam"], i))
        log.append("#%d.%s" % (i, q))
        try:
            got = ask(f, d, q, sp, phi, lengths)
        except Exception as e:
            raise Bad("history %s: %s raised %s: %s" % (" ".join(log), q, type(e).__name__, e))
        if (i, q) in ref:
            for g, w in zip(got, ref[i, q]):
                try:
                    close(g, w, sp, q)
                except Bad as e:
                    raise Bad("after history %s: %s" % (" ".join(log), e))
        for j, (dj, pj, lj, sj) in live.items():
            fj = FAMS[specs[j]["fam"]]
            for x, y in zip([pj] if fj.single else pj, sj[0]):
                if not torch.equal(x.detach(), y):
                    raise Bad("after history %s: potentials of #%d changed" % (" ".join(log), j))
            if lj is not None and not torch.equal(lj, sj[1]):
                raise Bad("after history %s: lengths of #%d changed" % (" ".join(log), j))
