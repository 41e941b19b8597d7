"""P33: repeated local search follows the strategies it is asked for.

The documented strategies are written down as a transition system over the
graph of all plans of a small problem; where the documentation leaves a choice
(which improving move a first-accept operator finds, ties) every choice is a
transition.  The real search is run from every feasible plan and its result has
to be one of the end states of the system, also under an iteration limit.
"""
import itertools
import numpy as np
from vmc import ref, nb, instances as I
from vmc.core import guarded
from vmc.plans import graph
from vmc.checks.p12 import limits
from vmc.checks.p13 import OP, INTRA, INTER, SHORT, ITER, STRAT, cases, neighbours
from verypy.local_search import LSOPT, ITEROPT, do_local_search

LEVEL = "model_checking"
TECHNIQUE = "the documented strategies as an explicit nondeterministic transition system over all plans; the real search is executed from every feasible plan, for every strategy pair and iteration limit, and must end in an end state of the system"
NOTE = ("Complete within the bounds: all feasible plans of the enumerated problems as starts, all end states of the system for the comparison. "
        "Under first-accept any improving move is allowed, so the order in which an operator scans its neighbourhood is not judged. "
        "Redistribution, which may worsen a plan, and more than five customers are not covered.")
BOUNDS = {"quick": "every feasible plan of: multisets of 3 customers on a 3x3 grid, 4x4 matrices over {1,4}, a fixed 128th of the 5x5 matrices over {1,4}, 1 layout of 5 customers, plans of 3+3 customers of 1 layout of 6; limits on the borders; 4 single operators and 7 lists of 2 to 8; 2 operator strategies x 4 iteration strategies; iteration limits none, 1, 2 and 3 (with more than three customers alternately none and 2, or 1 and 3)",
          "thorough": "a fixed 8th of the 5x5 matrices over {1,4}, 4 layouts of 5, 3 of 6, 8 single operators, all limits"}
ASSUMPTIONS = ["symmetric distances", "moves that differ by less than 1e-7 in their change are ties; a change of less than 1e-7 is none",
               "an iteration is what the documentation calls applying all given operations: one pass over the operators, cut short by the first success if the search then starts again from the first operator"]
EPS = 1e-7


class Model:
    def __init__(self, n, D, d, C, L):
        self.n, self.g = n, graph(n)
        self.cost = self.g.costs(D)
        self.ok, maybe = self.g.feasible(D, d, C, L)
        self.exact = not (self.ok != maybe).any()
        D = D.tolist()
        self.rc = lambda r: sum(D[a][b] for a, b in zip(r, r[1:]))
        self.memo = {}

    def improving(self, i, name):
        k = (i, name)
        if k not in self.memo:
            b = neighbours(self.n, name, i)
            b = b[self.ok[b]] if len(b) else b
            self.memo[k] = [int(x) for x in b if self.cost[x] < self.cost[i] - EPS]
        return self.memo[k]

    def step(self, i, name, st, single):
        """Plans after one application of the operator; none if it finds nothing.
        single: one move only (not one for each of the routes)."""
        k = (i, name, st, single)
        if k in self.memo:
            return self.memo[k]
        imp = self.improving(i, name)
        if not imp:
            out = frozenset()
        elif st == "FIRST_ACCEPT":
            out = frozenset(imp)
        elif single or name not in nb.NB:
            m = min(self.cost[x] for x in imp)
            out = frozenset(x for x in imp if self.cost[x] <= m + EPS)
        else:
            alt = []
            for r in self.g.plans[i]:
                r = (0,) + tuple(r) + (0,)
                c = {x: self.rc(x) for x in nb.NB[name](r)}
                c = {x: v for x, v in c.items() if v < self.rc(r) - EPS}
                m = min(c.values()) if c else None
                alt.append([x for x, v in c.items() if v <= m + EPS] or [r])
            out = frozenset(self.g.idx[ref.canon([x[1:-1] for x in p])] for p in itertools.product(*alt))
        self.memo[k] = out
        return out

    def iteration(self, i, names, st, it):
        """(plans after one iteration, whether it improved) for every choice."""
        k = (i, names, st, it)
        if k in self.memo:
            return self.memo[k]
        if it == "BEST_ACCEPT":
            imps = {x: self.improving(i, x) for x in names}
            imps = {x: v for x, v in imps.items() if v}
            if not imps:
                out = {(i, False)}
            elif st == "BEST_ACCEPT":
                m = min(self.cost[x] for v in imps.values() for x in v)
                out = {(x, True) for v in imps.values() for x in v if self.cost[x] <= m + EPS}
            else:                       # each operator offers some improving move, the best offer is taken
                bar = min(max(self.cost[x] for x in v) for v in imps.values())
                out = {(x, True) for v in imps.values() for x in v if self.cost[x] <= bar + EPS}
        elif it == "FIRST_ACCEPT":
            for x in names:
                s = self.step(i, x, st, False)
                if s:
                    out = {(j, True) for j in s}
                    break
            else:
                out = {(i, False)}
        else:
            out = {(i, False)}
            for x in names:
                todo, new = list(out), set()
                seen = set(todo)
                while todo:
                    j, f = todo.pop()
                    s = self.step(j, x, st, False)
                    if not s:
                        new.add((j, f))
                    for q in s:
                        if it == "ALL_ACCEPT":
                            new.add((q, True))
                        elif (q, True) not in seen:
                            seen.add((q, True)); todo.append((q, True))
                out = new
        self.memo[k] = out
        return out

    def ends(self, i, names, st, it, mi):
        k = (i, names, st, it, mi)
        if k in self.memo:
            return self.memo[k]
        front, end, n, seen = {i}, set(), 0, set()
        while front and (mi is None or n < mi):
            n += 1
            new = set()
            for j in front:
                for q, f in self.iteration(j, names, st, it):
                    (new if f else end).add(q)
            if mi is None:
                new -= seen
                seen |= new
            front = new
        out = end | front
        self.memo[k] = out
        return out


LISTS = [("do_2opt_move",), ("do_relocate_move",), ("do_2optstar_move",), ("do_1point_move",),
         ("do_1point_move", "do_2opt_move"), ("do_2opt_move", "do_2point_move"), ("do_exchange_move", "do_relocate_move"),
         ("do_2optstar_move", "do_relocate_move"), ("do_2opt_move", "do_2optstar_move", "do_1point_move"),
         INTRA + INTER, INTER[::-1] + INTRA[::-1]]
MORE = [("do_3opt_move",), ("do_exchange_move",), ("do_2point_move",), ("do_chain_move",)]


def problem(start, names, st, it, mi, D, d, C, L, m=None):
    n = len(D) - 1
    m = m or Model(n, D, d, C, L)
    i = m.g.idx[ref.canon(ref.split(start))]
    out, err = guarded(lambda: do_local_search([OP[x] for x in names], list(start), D.copy(), list(d), C, L,
                                               operator_strategy=getattr(LSOPT, st), iteration_strategy=getattr(ITEROPT, it),
                                               max_iterations=mi), 10)
    if err:
        return err
    j = m.g.idx.get(ref.canon([r for r in ref.split(list(out)) if r]))
    ends = m.ends(i, tuple(names), st, it, mi)
    if j not in ends:
        e = sorted(ends, key=lambda x: m.cost[x])[:3]
        return "ended at %r (cost %r), but the strategy leads to %s of %d" % (
            list(out), None if j is None else float(m.cost[j]), [(m.g.plans[x], float(m.cost[x])) for x in e], len(ends))
    return None


PAIRS = [("do_2opt_move",), ("do_exchange_move",), ("do_relocate_move", "do_2opt_move"), ("do_3opt_move", "do_2point_move"), ("do_2opt_move", "do_1point_move")]


def shards(tier):
    q = tier == "quick"
    for name in ("clus6",) if q else ("clus6", "ring6", "far6"):
        if name in I.LAYOUTS:
            for part in range(10):
                yield (tier, ("layout", name, "EXACT_2D"), part, 10)
    for name in ("ring5",) if q else ("ring5", "line5", "coin5", "far5"):
        for wk in ("EXACT_2D",):
            for part in range(16):
                yield (tier, ("layout", name, wk), part, 16)
    for pre in itertools.product((1, 4), repeat=4):
        yield (tier, ("matrix", 4, (1, 4), pre, 128 if q else 8), 0, 1)
    for pre in itertools.product((1, 4), repeat=2):
        yield (tier, ("matrix", 3, (1, 4), pre, 1), 0, 1)
    for dep in ((1, 1), (0, 0)):
        if q and dep == (0, 0):
            continue
        for first in [(x, y) for x in range(3) for y in range(3)]:
            yield (tier, ("grid", 3, dep, "EXACT_2D", first), 0, 1)


def run(shard, rec):
    tier, src, part, parts = shard
    q = tier == "quick"
    for D in cases(src):
        n = len(D) - 1
        lim = limits(D, not q)
        six = n == 6
        if six:                 # two routes of three customers: both can be improved
            lim = [(None, None, None), (None, None, 4 * float(D[0].max()))]
        elif q and src[0] == "grid":
            lim = lim[2:3] + lim[5::4][:1]
        elif q:
            lim = lim[:1] + lim[2:3] + lim[4 + n % 2::4][:2]
        for d, C, L in lim:
            dd = d if d is not None else [0] + [1] * n
            m = Model(n, D, dd, C, L)
            if not m.exact:
                rec.outcome("limit within rounding of a route: not judged")
                continue
            at = np.nonzero(m.ok)[0]
            if six:
                at = [i for i in at if sorted(map(len, m.g.plans[i])) == [3, 3]]
            for x, i in enumerate(at):
                if x % parts != part:
                    continue
                start = ref.join(m.g.plans[i])
                rec.state((D.tobytes(), D.dtype.kind, tuple(start), repr((d, C, L))))
                for ln, names in enumerate(PAIRS if six else LISTS if q else LISTS + MORE):
                    for st in STRAT:
                        for it in ITER:
                            for mi in (None, 1, 2, 3) if n < 4 or not q else ((None, 2) if (ln + x) % 2 else (1, 3)):
                                rec.step(); rec.valid()
                                bad = problem(start, names, st, it, mi, D, dd, C, L, m)
                                if bad:
                                    rec.fail({"D": D, "d": dd, "C": C, "L": L, "start": start, "names": names, "st": st, "it": it, "mi": mi},
                                             "local search with %s, operators %s, iterations %s, limit %r from %r d=%r C=%r L=%r: %s; D=%r" % (
                                             "+".join(SHORT[x] for x in names), st, it, mi, start, d, C, L, bad, D.tolist()))
            rec.outcome("n=%d C=%s L=%s" % (n, C is not None, L is not None))
        rec.sample({"D": D.tolist()})


def replay(c):
    return problem(c["start"], tuple(c["names"]), c["st"], c["it"], c["mi"], c["D"], c["d"], c["C"], c["L"])
