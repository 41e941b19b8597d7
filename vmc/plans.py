"""The graph of all plans of n customers: a plan is a set of routes, a route and
its reverse being the same.  Independent of distances, demands and limits."""
import itertools
import functools
import numpy as np
from vmc import ref


class PlanGraph:
    def __init__(self, n):
        self.n = n
        self.pairs = list(itertools.combinations(range(n + 1), 2))
        self.pos = {p: k for k, p in enumerate(self.pairs)}
        self.plans = [ref.canon(p) for p in ref.ordered_splits(range(1, n + 1))]
        self.idx = {p: i for i, p in enumerate(self.plans)}
        self.M = np.array([self.edges(p) for p in self.plans], dtype=np.int16)
        self.size = np.array([len(p) for p in self.plans])

    def edges(self, plan):
        v = [0] * len(self.pairs)
        for r in plan:
            q = (0,) + tuple(r) + (0,)
            for a, b in zip(q, q[1:]):
                v[self.pos[(a, b) if a < b else (b, a)]] += 1
        return v

    def costs(self, D):
        w = np.array([D[a, b] for a, b in self.pairs])
        return self.M @ w

    @functools.lru_cache(maxsize=None)
    def within(self, i, k):
        """Plans that result from i by replacing at most k edges (edges from the
        depot to itself cost nothing and vanish)."""
        diff = self.M[i][None, :] - self.M
        removed = np.where(diff > 0, diff, 0).sum(axis=1)
        return np.nonzero((removed <= k) & (self.size <= self.size[i]))[0]

    def feasible(self, D, d, C, L, eps=1e-7):
        """Boolean vectors: surely feasible, possibly feasible."""
        Dl = D.tolist()
        memo = {}

        def over(r):
            if r not in memo:
                x = -1.0
                if C:
                    x = max(x, sum(d[v] for v in r) - C)
                if L:
                    q = (0,) + r + (0,)
                    x = max(x, sum(Dl[a][b] for a, b in zip(q, q[1:])) - L)
                memo[r] = x
            return memo[r]
        o = np.array([max(over(r) for r in p) for p in self.plans])
        return o <= 1e-12, o <= eps


@functools.lru_cache(maxsize=None)
def graph(n):
    return PlanGraph(n)
