"""Independent oracles: every structure family as an explicit derivation hypergraph over its parts, plus brute-force
enumerators used to validate the hypergraphs.  Nothing here imports torch_struct."""
import functools
import heapq
import itertools
import math

NEG = -1e300


class Hyper:
    """Items are added in topological order; each item is a list of (children, parts) alternatives.

    Derivations of `goal` are in bijection with the structures of the family."""

    def __init__(self):
        self.edges = {}
        self.order = []
        self.goal = None

    def add(self, item, alts):
        self.edges[item] = alts
        self.order.append(item)

    # -- semiring evaluation ------------------------------------------------------------
    def logz(self, phi):
        val = {}
        for it in self.order:
            val[it] = lse([sum(phi[p] for p in ps) + sum(val[c] for c in cs) for cs, ps in self.edges[it]])
        return val[self.goal]

    def evaluate(self, phi, plus, times, one):
        val = {}
        for it in self.order:
            alts = []
            for cs, ps in self.edges[it]:
                x = one
                for p in ps:
                    x = times(x, phi[p])
                for c in cs:
                    x = times(x, val[c])
                alts.append(x)
            val[it] = plus(alts)
        return val[self.goal]

    def count(self, ok=lambda p: True):
        return self.evaluate(_Fn(lambda p: 1 if ok(p) else 0), sum, lambda a, b: a * b, 1)

    def kbest(self, phi, k):
        """List of (score, derivation parts tuple) of the k best."""
        val = {}
        for it in self.order:
            cand = []
            for cs, ps in self.edges[it]:
                base = sum(phi[p] for p in ps)
                lists = [val[c] for c in cs]
                if not lists:
                    cand.append((base, tuple(ps)))
                    continue
                for combo in _ktuples(lists, k):
                    s = base + sum(x[0] for x in combo)
                    d = tuple(ps) + tuple(p for x in combo for p in x[1])
                    cand.append((s, d))
            cand.sort(key=lambda t: -t[0])
            val[it] = cand[:k]
        return val[self.goal]

    def marginals(self, phi):
        """(logZ, dict part -> expected count)."""
        val = {}
        terms = {}
        for it in self.order:
            ts = [sum(phi[p] for p in ps) + sum(val[c] for c in cs) for cs, ps in self.edges[it]]
            terms[it] = ts
            val[it] = lse(ts)
        out = {it: 0.0 for it in self.order}
        out[self.goal] = 1.0
        marg = {}
        for it in reversed(self.order):
            o = out[it]
            if o == 0.0:
                continue
            for (cs, ps), t in zip(self.edges[it], terms[it]):
                w = o * math.exp(t - val[it]) if val[it] > NEG else 0.0
                if w == 0.0:
                    continue
                for c in cs:
                    out[c] += w
                for p in ps:
                    marg[p] = marg.get(p, 0.0) + w
        return val[self.goal], marg

    def enumerate(self, limit=200000):
        """All structures as tuples of parts."""
        val = {}
        for it in self.order:
            out = []
            for cs, ps in self.edges[it]:
                for combo in itertools.product(*[val[c] for c in cs]):
                    out.append(tuple(ps) + tuple(p for d in combo for p in d))
                    if len(out) > limit:
                        raise OverflowError
            val[it] = out
        return val[self.goal]


class _Fn:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, p):
        return self.f(p)


def _ktuples(lists, k):
    if len(lists) == 1:
        return [(x,) for x in lists[0][:k]]
    out = []
    for combo in itertools.product(*[l[:k] for l in lists]):
        out.append(combo)
    if len(out) > k:
        out = heapq.nlargest(k, out, key=lambda c: sum(x[0] for x in c))
    return out


def lse(xs):
    if not xs:
        return -math.inf
    m = max(xs)
    if m == -math.inf:
        return m
    return m + math.log(sum(math.exp(x - m) for x in xs))


# ------------------------------------------------------------------------------- families

@functools.lru_cache(maxsize=4096)
def linear_chain(L, C):
    """parts (t, z_{t+1}, z_t)"""
    h = Hyper()
    for c in range(C):
        h.add((0, c), [((), ())])
    for t in range(1, L):
        for c in range(C):
            h.add((t, c), [(((t - 1, d),), ((t - 1, c, d),)) for d in range(C)])
    h.add("goal", [(((L - 1, c),), ()) for c in range(C)])
    h.goal = "goal"
    return h


@functools.lru_cache(maxsize=4096)
def semi_markov(L, K, C):
    """parts (start, width, new label, previous label); boundaries 0..L-1"""
    h = Hyper()
    for c in range(C):
        h.add((0, c), [((), ())])
    for n in range(1, L):
        for c in range(C):
            h.add((n, c), [(((n - k, d),), ((n - k, k, c, d),)) for k in range(1, min(K - 1, n) + 1) for d in range(C)])
    h.add("goal", [(((L - 1, c),), ()) for c in range(C)])
    h.goal = "goal"
    return h


@functools.lru_cache(maxsize=4096)
def span_tree(L, NT):
    """parts (i, j, label)"""
    h = Hyper()
    for w in range(L):
        for i in range(L - w):
            j = i + w
            alts = []
            for a in range(NT):
                if w == 0:
                    alts.append(((), ((i, j, a),)))
                else:
                    for k in range(i, j):
                        alts.append((((i, k), (k + 1, j)), ((i, j, a),)))
            h.add((i, j), alts)
    h.goal = (0, L - 1)
    return h


@functools.lru_cache(maxsize=4096)
def cfg(L, NT, T):
    """parts ('t', i, preterminal), ('r', A, B, C), ('root', A), ('s', i, j, A)"""
    h = Hyper()
    for i in range(L):
        for t in range(T):
            h.add((i, i, NT + t), [((), (("t", i, t),))])
    for w in range(1, L):
        for i in range(L - w):
            j = i + w
            for a in range(NT):
                alts = []
                for k in range(i, j):
                    for b in range(NT + T):
                        if (k == i) != (b >= NT):
                            continue
                        for c in range(NT + T):
                            if (k + 1 == j) != (c >= NT):
                                continue
                            alts.append((((i, k, b), (k + 1, j, c)), (("r", a, b, c), ("s", i, j, a))))
                h.add((i, j, a), alts)
    h.add("goal", [(((0, L - 1, a),), (("root", a),)) for a in range(NT)])
    h.goal = "goal"
    return h


@functools.lru_cache(maxsize=4096)
def dep_tree(n, multiroot, labels=None):
    """Projective trees over words 0..n-1; parts (head, child[, label]); root of word i is (i, i[, label]).

    Built directly from the definition: a word with its left and right dependents, each heading a contiguous span."""
    h = Hyper()
    lab = [()] if labels is None else [(l,) for l in range(labels)]

    # R(i, j): word i together with its right dependents' yields, covering i..j
    # Lf(i, j): word j together with its left dependents' yields, covering i..j
    # T(i, j, hd): whole subtree headed by hd with yield i..j  (i <= hd <= j)
    for w in range(n):
        for i in range(n - w):
            j = i + w
            if w == 0:
                h.add(("R", i, i), [((), ())])
                h.add(("L", i, i), [((), ())])
            else:
                alts = []
                # last right dependent of i is m with yield k..j, i < k <= m <= j
                for k in range(i + 1, j + 1):
                    for m in range(k, j + 1):
                        for l in lab:
                            alts.append((((("R", i, k - 1)), ("L", k, m), ("R", m, j)), ((i, m) + l,)))
                # children: R(i,k-1), L(k,m), R(m,j)
                h.add(("R", i, j), alts)
                alts = []
                # first (outermost) left dependent of j is m with yield i..k
                for k in range(i, j):
                    for m in range(i, k + 1):
                        for l in lab:
                            alts.append(((("L", k + 1, j), ("L", i, m), ("R", m, k)), ((j, m) + l,)))
                h.add(("L", i, j), alts)
    if multiroot:
        h.add(("F", 0), [((), ())])
        for j in range(1, n + 1):
            alts = []
            for k in range(j):
                for m in range(k, j):
                    for l in lab:
                        alts.append(((("F", k), ("L", k, m), ("R", m, j - 1)), ((m, m) + l,)))
            h.add(("F", j), alts)
        h.goal = ("F", n)
    else:
        h.add("goal", [((("L", 0, m), ("R", m, n - 1)), ((m, m) + l,)) for m in range(n) for l in lab])
        h.goal = "goal"
    return h


# --------------------------------------------------------------- brute force (validates the hypergraphs)

def brute_linear_chain(L, C):
    for z in itertools.product(range(C), repeat=L):
        yield tuple((t, z[t + 1], z[t]) for t in range(L - 1)) if L > 1 else ()


def brute_semi_markov(L, K, C):
    for cut in itertools.product((0, 1), repeat=max(L - 2, 0)):
        b = [0] + [i + 1 for i, c in enumerate(cut) if c] + ([L - 1] if L > 1 else [])
        if any(y - x > K - 1 for x, y in zip(b, b[1:])):
            continue
        for z in itertools.product(range(C), repeat=len(b)):
            yield tuple((b[i], b[i + 1] - b[i], z[i + 1], z[i]) for i in range(len(b) - 1))


def brute_dep(n, multiroot, projective=True):
    """heads[i] = -1 (root) or head word."""
    for heads in itertools.product(range(-1, n), repeat=n):
        if any(h == i for i, h in enumerate(heads)):
            continue
        roots = [i for i, h in enumerate(heads) if h == -1]
        if not roots or (not multiroot and len(roots) != 1):
            continue
        ok = True
        for i in range(n):
            seen = set()
            x = i
            while x != -1 and ok:
                if x in seen:
                    ok = False
                seen.add(x)
                x = heads[x]
        if not ok:
            continue
        if projective:
            # every word between head and child must descend from the head; root arcs come from position -1
            for c in range(n):
                hd = heads[c]
                lo, hi = (hd, c) if hd < c else (c, hd)
                for m in range(lo + 1, hi):
                    x = m
                    while x != -1 and x != hd:
                        x = heads[x]
                    if x != hd:
                        ok = False
        if ok:
            yield tuple((c if hd == -1 else hd, c) for c, hd in enumerate(heads))


def brute_spans(i, j):
    if i == j:
        yield ((i, j),)
        return
    for k in range(i, j):
        for a in brute_spans(i, k):
            for b in brute_spans(k + 1, j):
                yield ((i, j),) + a + b


def validate():
    """Hypergraph derivations == brute-force structures, without duplicates."""
    n = 0
    for L in range(1, 5):
        for C in (1, 2, 3):
            a = sorted(linear_chain(L, C).enumerate())
            b = sorted(brute_linear_chain(L, C))
            assert [sorted(x) for x in a] == [sorted(x) for x in b] or L == 1 or sorted(map(sorted, a)) == sorted(map(sorted, b))
            n += len(a)
    for L in range(2, 6):
        for K in (2, 3, 4):
            for C in (1, 2):
                a = sorted(tuple(sorted(x)) for x in semi_markov(L, K, C).enumerate())
                b = sorted(tuple(sorted(x)) for x in brute_semi_markov(L, K, C))
                assert a == b
                n += len(a)
    for m in range(1, 6):
        for mr in (True, False):
            a = sorted(tuple(sorted(x)) for x in dep_tree(m, mr).enumerate())
            b = sorted(tuple(sorted(x)) for x in brute_dep(m, mr))
            assert a == b, (m, mr, len(a), len(b))
            n += len(a)
    for L in range(1, 6):
        a = sorted(tuple(sorted(p[:2] for p in x)) for x in span_tree(L, 1).enumerate())
        b = sorted(tuple(sorted(x)) for x in brute_spans(0, L - 1))
        assert a == b
        n += len(a)
    return n


if __name__ == "__main__":
    print("validated", validate(), "structures")
