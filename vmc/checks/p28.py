"""P28: the two-phase heuristic builds both plans by its rules and returns the better."""
import itertools
import numpy as np
from vmc import ref, greedy as G, instances as I, feascheck as F
from vmc.checks import p06
from vmc.checks.p06 import Ctx, show
from verypy.classic_heuristics import cmt_2phase as cmt
from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_ropt

LEVEL = "model_checking"
TECHNIQUE = "nondeterministic models of both phases are explored exhaustively for each enumerated problem (all orders of equal criterion values); the plan of the real code must be the better of the two plans of one of the model's executions"
NOTE = ("Complete within the bounds; ties (within 1e-9) may go either way, and so may the choice among plans of equal objective. "
        "The TSP solver is the one the heuristic uses (judged by P22). Repeated association (more than one route per customer) and the randomized variant are not modelled.")
BOUNDS = {"quick": "every multiset of 2-3 customers on a 3x3 grid x demands {1,2}^n x all C and L levels, all 4x4 matrices over {1,2,4} with capacities only, a third of the 5x5 matrices over {1,4}, 3 layouts of 5-6 customers; both objectives; 7 settings of lambda, mu, seed rule, choice of the route and of giving up; every route limit at which another route becomes feasible, on 5-7 layouts of 5-6 customers in general position",
          "thorough": "as quick with 4 customers on the grid, all 5x5 matrices over {1,4}, 6 layouts of 5-7 customers"}
ASSUMPTIONS = ["symmetric distances; with a route limit they obey the triangle inequality"]
TIE = G.TIE

#          lambda mu   seeds       most associated route first, association with n routes
SETTINGS = [(2.0, 1.0, "farthest", True, 1),
            (2.0, 1.0, "farthest", False, 1),
            (1.0, 0.5, "closest", True, 1),
            (0.5, 2.0, "biggest", True, 1),
            (0.0, 1.0, "biggest", False, None),
            (2.0, 0.0, "farthest", True, None),
            (1.0, 1.0, "first", True, 1)]


class TooMany(Exception):
    pass


class Model:
    def __init__(self, P, D):
        self.P, self.Dn, self.D = P, D, P.D
        self.solver = getattr(cmt, "solve_tsp", solve_tsp_ropt)
        self.memo = {}
        self.steps = 0

    def tick(self):
        self.steps += 1
        if self.steps > 30000:
            raise TooMany()

    def tsp(self, r):
        if r not in self.memo:
            t, c = self.solver(self.Dn, list(r))
            self.memo[r] = tuple(int(x) for x in t)[:-1], float(c)
        return self.memo[r]

    def insert(self, r, dem, cost, upd, i):
        """The route with i put last (or as the solver orders it), or None."""
        P, D = self.P, self.D
        if P.C and dem + P.d[i] > P.C + G.FEPS:
            return None
        ub = cost - D[r[-1]][0] + D[r[-1]][i] + D[i][0]
        if P.L and ub > P.L + G.FEPS:
            t, c = self.tsp(r + (i,))
            if c > P.L + G.FEPS:
                return None
            n = (t, c, True)
        else:
            n = (r + (i,), ub, False)
        return n[0], dem + (P.d[i] if P.C else 0), n[1], n[2]

    def done(self, routes):
        out = []
        for r, _, c, upd in routes:
            if not upd:
                r = self.tsp(r)[0]
            out.append(G.one(r[1:]))
        return tuple(sorted(out))

    def new(self, s):
        D, P = self.D, self.P
        return ((0, s), P.d[s] if P.C else 0, D[0][s] + D[s][0], True)

    def seeds(self, how, un):
        D, d = self.D, self.P.d
        if how == "closest":
            return G.pick(un, lambda x: D[0][x])
        if how == "biggest":
            return G.pick(un, lambda x: -d[x])
        if how == "first":
            return [min(un)]
        return G.pick(un, lambda x: -D[0][x])

    def fill(self, r, order):
        """Every outcome of offering the customers in an order that ties leave open."""
        todo, out = [(r, tuple(order))], set()
        while todo:
            self.tick()
            st, left = todo.pop()
            if not left:
                out.add(st)
                continue
            m = min(v for v, _ in left)
            for v, i in left:
                if v <= m + TIE:
                    rest = tuple(x for x in left if x[1] != i)
                    todo.append((self.insert(*(st + (i,))) or st, rest))
        return out

    def phase1(self, lam, how):
        """(seeds, plan) of every execution."""
        D, out, seen = self.D, set(), set()
        todo = [((), (), frozenset(range(1, self.P.n + 1)))]
        while todo:
            st = todo.pop()
            if st in seen:
                continue
            seen.add(st)
            self.tick()
            sd, routes, un = st
            if not un:
                out.add((sd, self.done(routes)))
                continue
            for s in self.seeds(how, un):
                order = [(D[0][i] + lam * D[i][s], i) for i in un if i != s]
                for r in self.fill(self.new(s), order):
                    todo.append((sd + (s,), routes + (r,), un - set(r[0])))
        return out

    def assoc(self, eps, routes, un):
        """Every map customer -> route of least eps."""
        opts = []
        for i in sorted(un):
            opts.append([(i, k) for k in G.pick(routes, lambda k: eps[k][i])])
        return itertools.product(*opts)

    def phase2(self, seeds, mu, most, times):
        """Plan (None: some customer remained) of every execution."""
        D, P = self.D, self.P
        K = len(seeds)
        eps = [[D[0][i] + mu * D[i][s] - D[0][s] for i in range(P.n + 1)] for s in seeds]
        out, seen = set(), set()
        todo = [(tuple(self.new(s) for s in seeds), frozenset(range(1, P.n + 1)) - set(seeds), tuple(range(K)), False)]
        while todo:
            st = todo.pop()
            if st in seen:
                continue
            seen.add(st)
            self.tick()
            routes, un, left, made = st
            if not un:
                out.add(self.done(routes))
                continue
            if not left:
                if times is None or not made:
                    out.add(None)
                    continue
                left, made = tuple(range(K)), False
            for a in self.assoc(eps, left, un):
                cnt = {}
                for i, k in a:
                    cnt[k] = cnt.get(k, 0) + 1
                ks = [k for k in left if cnt.get(k, 0) == max(cnt.values())] if most else [left[0]]
                for k in ks:
                    rest = tuple(x for x in left if x != k)
                    order = []
                    for i, kk in a:
                        if kk == k:
                            sigma = (min(eps[x][i] for x in rest) if rest else 0) - eps[k][i]
                            order.append((-sigma, i))
                    for r in self.fill(routes[k], order):
                        got = set(r[0]) & un
                        todo.append((routes[:k] + (r,) + routes[k + 1:], un - got, rest, made or bool(got)))
        return out


def judge(c):
    P = c.P
    for lam, mu, how, most, times in SETTINGS if P.n > 1 else SETTINGS[:1]:
        if how == "biggest" and not P.C:
            continue
        m = Model(P, c.D)
        try:
            runs = set()
            for seeds, p1 in m.phase1(lam, how):
                for p2 in m.phase2(seeds, mu, most, times):
                    runs.add((p1, p2))
        except TooMany:
            runs = None
        for minK in (False, True):
            t = "two-phase heuristic minimize_K=%s lambda=%s mu=%s seeds=%s most associated first=%s association=%s: " % (minK, lam, mu, how, most, times)
            plan, err = c.call(cmt.cmt_2phase_init, minK, lam, mu, how, most, times)
            if err:
                return t + err
            plans = [plan]
            if (lam, mu, how, most, times) == SETTINGS[0]:
                f = F.algo("cmt")
                q, err = c.call(lambda D, d, C, L: f(None, D, d, C, L, None, None, False, minK))
                if err:
                    return "cmt minimize_K=%s: %s" % (minK, err)
                plans.append(q)
            if runs is None:
                c.skipped = True
                continue
            ok = set()
            for p1, p2 in runs:
                k1 = P.key(p1, minK)
                k2 = P.key(p2, minK) if p2 else None
                if k2 is None or k1 <= k2:
                    ok.add(p1)
                if k2 is not None and k2 <= k1:
                    ok.add(p2)
            for q in plans:
                if q not in ok:
                    return t + "%r is not the better of the plans of the two phases, which allow %s" % (q, show(ok))
    return None


def shards(tier):
    for s in p06.shards(tier):
        yield s


def run(shard, rec):
    tier, src, part, parts = shard
    for i, (D, d, C, L) in enumerate(p06.cases(src)):
        if i % parts != part:
            continue
        rec.state((D.tobytes(), D.dtype.kind, repr((d, C, L))))
        c = Ctx(D, d, C, L)
        c.skipped = False
        w = judge(c)
        rec.step(c.runs); rec.valid(c.runs)
        rec.outcome("%s n=%d C=%s L=%s%s" % (src[0], len(D) - 1, C is not None, L is not None, " too many ties" if c.skipped else ""))
        if w:
            rec.fail({"D": D, "d": d, "C": C, "L": L}, "%s on d=%r C=%r L=%r D=%r" % (w, d, C, L, D.tolist()))
        if i == part:
            rec.sample({"D": D.tolist(), "d": d, "C": C, "L": L})


def replay(case):
    c = Ctx(case["D"], case["d"], case["C"], case["L"])
    return judge(c)
