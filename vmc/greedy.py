"""Nondeterministic models of the greedy constructions.

Each returns every plan the rule allows: wherever two choices have the same
criterion value (within TIE) all of them are followed.
"""
import itertools
import functools

TIE = 1e-9
FEPS = 1e-9


class Problem:
    def __init__(self, D, d, C, L):
        self.D = D.tolist()
        self.n = len(self.D) - 1
        self.d, self.C, self.L = d, C, L

    def cost(self, r):
        D = self.D
        c = D[0][r[0]] + D[r[-1]][0]
        for a, b in zip(r, r[1:]):
            c += D[a][b]
        return c

    def fits(self, r):
        if self.C and sum(self.d[x] for x in r) > self.C + FEPS:
            return False
        if self.L and self.cost(r) > self.L + FEPS:
            return False
        return True

    def key(self, plan, minK):
        c = round(sum(self.cost(r) for r in plan), 7)
        return (len(plan), c) if minK else (c,)


def one(r):
    return min(r, r[::-1])


def metric(D):
    D = D.tolist()
    n = range(len(D))
    return all(D[i][j] <= D[i][k] + D[k][j] + 1e-9 for i in n for j in n for k in n)


def cw(D):
    n = len(D)
    return {(i, j): D[i][0] + D[0][j] - D[i][j] for i in range(1, n) for j in range(i + 1, n)}


def parallel_savings(P, S, minK, stop=True, limit=20000):
    """Plans reachable by repeatedly merging the two routes whose end to end
    merge is feasible and has the largest S.

    stop: unless minK, merging ends once a pair whose true saving is negative
    comes first (else such pairs are only passed over).
    """
    true = cw(P.D)
    pairs = sorted(S)
    sure, tied = set(pairs), set()
    if not minK:
        neg = [p for p in pairs if true[p] < -TIE]
        border = [p for p in pairs if abs(true[p]) <= TIE]      # may count as negative or not
        if stop:
            if neg or border:
                T = max([S[p] for p in neg] or [-1e300])
                Tb = max([S[p] for p in neg + border])
                sure = {p for p in pairs if S[p] > Tb + TIE and p not in neg and p not in border}
                tied = {p for p in pairs if p not in neg and S[p] >= T - TIE} - sure
        else:
            sure = set(pairs) - set(neg) - set(border)
            tied = set(border)
    out, seen = set(), set()
    todo = [frozenset((i,) for i in range(1, P.n + 1))]
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        if len(seen) > limit:
            return None
        best, moves, soft = None, [], []
        end = {}
        for r in s:
            end[r[0]] = r
            end[r[-1]] = r
        cand = []
        for p in pairs:
            if p not in sure and p not in tied:
                continue
            i, j = p
            a, b = end.get(i), end.get(j)
            if a is None or b is None or a is b:
                continue
            m = (a if a[-1] == i else a[::-1]) + (b if b[0] == j else b[::-1])
            if P.fits(m):
                cand.append((S[p], p, a, b, one(m)))
        hard = [c for c in cand if c[1] in sure]
        top = max([c[0] for c in hard], default=None)
        go = [c for c in cand if (top is None or c[0] >= top - TIE)]
        if top is None:
            out.add(tuple(sorted(s)))
        # an optional pair above the best certain one may be taken or not
        for c in go:
            todo.append((s - {c[2], c[3]}) | {c[4]})
    return out


def suppression(P, minK, tries):
    """Holmes & Parker: after each try the pair with the largest saving is
    suppressed.  Set of objective keys the best of the tries can have, and all
    plans of the tries."""
    base = {p: max(0, v) for p, v in cw(P.D).items()}
    states = {(frozenset(), None)}
    plans = set()
    memo = {}
    for t in range(tries):
        nxt = set()
        for U, best in states:
            if U not in memo:
                S = {p: (0 if p in U else v) for p, v in base.items()}
                a = parallel_savings(P, S, minK, True)
                b = parallel_savings(P, S, minK, False)
                if a is None or b is None:
                    return None, None
                res = {q: P.key(q, minK) for q in a | b}
                m = max(S.values())
                memo[U] = (res, [p for p, v in S.items() if v >= m - TIE])
            res, tops = memo[U]
            plans |= set(res)
            for k in set(res.values()):
                nb = k if best is None or k < best else best
                for p in tops:
                    nxt.add((U | {p}, nb))
            if len(nxt) > 3000:
                return None, None
        states = nxt
    return {b for _, b in states}, plans


def sequential_savings(P, seeds, minK, limit=20000):
    """seeds: function(unrouted) -> possible seeds of the next route."""
    true = lambda i, j: P.D[i][0] + P.D[0][j] - P.D[i][j]
    out, seen = set(), set()
    todo = [((), None, frozenset(range(1, P.n + 1)))]
    while todo:
        st = todo.pop()
        if st in seen:
            continue
        seen.add(st)
        if len(seen) > limit:
            return None
        done, r, un = st
        if r is None:
            if not un:
                out.add(tuple(sorted(done)))
                continue
            for s in seeds(un):
                todo.append((done, (s,), un - {s}))
            continue
        cand = []
        for i, left in ((r[0], True), (r[-1], False)):
            for j in un:
                s = true(i, j)
                m = (j,) + r if left else r + (j,)
                if P.fits(m) and (minK or s >= -TIE):
                    cand.append((s, one(m), j))
        hard = [c for c in cand if minK or c[0] > TIE]
        if not hard:
            todo.append((tuple(sorted(done + (one(r),))), None, un))
        top = max([c[0] for c in hard], default=None)
        for c in cand:
            if top is None or c[0] >= top - TIE:
                todo.append((done, c[1], un - {c[2]}))
    return out


def pick(un, val):
    """Members of un with the least value, ties included."""
    v = {x: val(x) for x in un}
    m = min(v.values(), default=0)
    return [x for x in un if v[x] <= m + TIE]


def cheapest_insertion(P, seeds, minK, lm, mm, limit=20000):
    """Insert into the current route while a feasible insertion (that is not,
    unless minK, dearer than a route of its own) remains; the one with the
    largest strain first."""
    D = P.D
    out, seen = set(), set()
    todo = [((), None, frozenset(range(1, P.n + 1)))]
    while todo:
        st = todo.pop()
        if st in seen:
            continue
        seen.add(st)
        if len(seen) > limit:
            return None
        done, r, un = st
        if r is None:
            if not un:
                out.add(tuple(sorted(done)))
                continue
            for s in seeds(un):
                todo.append((done, (s,), un - {s}))
            continue
        cand = []
        w = (0,) + r + (0,)
        for u in un:
            for k in range(1, len(w)):
                a, b = w[k - 1], w[k]
                delta = D[a][u] + D[u][b] - D[a][b]
                m = r[:k - 1] + (u,) + r[k - 1:]
                if not P.fits(m):
                    continue
                worse = delta - 2 * D[0][u]
                if not minK and worse > TIE:
                    continue
                soft = not minK and worse > -TIE        # may count as dearer or not
                cand.append((lm * D[0][u] - (D[a][u] + D[u][b] - mm * D[a][b]), one(m), u, soft))
        hard = [c for c in cand if not c[3]]
        if not hard:
            todo.append((tuple(sorted(done + (one(r),))), None, un))
        top = max([c[0] for c in hard], default=None)
        for c in cand:
            if top is None or c[0] >= top - TIE:
                todo.append((done, c[1], un - {c[2]}))
    return out


def nearest_neighbor(P, seeds, K=1, end_only=False, limit=30000):
    """K routes extended in turn, each from the customer it got last, to its
    nearest unserved one at the cheaper end; closed when that violates C or L."""
    D = P.D
    out, seen = set(), set()
    todo = [((), (None,) * K, 0, frozenset(range(1, P.n + 1)))]
    while todo:
        st = todo.pop()
        if st in seen:
            continue
        seen.add(st)
        if len(seen) > limit:
            return None
        done, rs, k, un = st
        if not un:
            out.add(tuple(sorted(done + tuple(one(r) for r, _ in filter(None, rs)))))
            continue
        put = lambda x: rs[:k] + (x,) + rs[k + 1:]
        if rs[k] is None:
            for s in seeds(un):
                todo.append((done, put(((s,), s)), k, un - {s}))
            continue
        r, p = rs[k]
        for j in pick(un, lambda x: D[p][x]):
            ends = [(D[r[-1]][j] + D[j][0] - D[r[-1]][0], r + (j,))]
            if not end_only:
                ends.append((D[0][j] + D[j][r[0]] - D[0][r[0]], (j,) + r))
            m = min(e[0] for e in ends)
            for c, q in ends:
                if c > m + TIE:
                    continue
                if P.fits(q):
                    if not end_only:
                        q = one(q)
                    todo.append((done, put((q, j)), (k + 1) % K, un - {j}))
                else:
                    todo.append((tuple(sorted(done + (one(r),))), put(None), k, un))
    return out
