"""Reference definitions, written independently of the code under test."""
import itertools, math
import numpy as np

EPS = 1e-6          # tolerance of float comparisons (instances keep real gaps larger)


def dist(p, q, wt="EXACT_2D"):
    x = math.sqrt((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2)
    return int(math.floor(x + 0.5)) if wt == "EUC_2D" else x


def matrix(pts, wt="EXACT_2D"):
    n = len(pts)
    if wt == "EXPLICIT":        # the rows themselves
        return np.array(pts)
    D = np.zeros((n, n), dtype=int if wt == "EUC_2D" else float)
    for i in range(n):
        for j in range(n):
            D[i, j] = dist(pts[i], pts[j], wt)
    return D


def cost(sol, D):
    return sum(D[a, b] for a, b in zip(sol, sol[1:]))


def split(sol):
    """Routes of a giant tour, without the depot."""
    out, cur = [], []
    for x in sol:
        if x == 0:
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(x)
    if cur:
        out.append(cur)
    return out


def join(routes):
    s = [0]
    for r in routes:
        s += list(r) + [0]
    return s


def rcost(r, D):
    c, p = 0, 0
    for x in r:
        c += D[p, x]
        p = x
    return c + D[p, 0]


def rdem(r, d):
    return sum(d[x] for x in r) if d is not None else 0


def canon_route(r):
    r = tuple(int(x) for x in r)
    return min(r, r[::-1])


def canon(routes):
    return tuple(sorted(canon_route(r) for r in routes))


def route_ok(r, D, d, C, L, eps=EPS):
    if C and rdem(r, d) > C + eps:
        return False
    if L and rcost(r, D) > L + eps:
        return False
    return True


def plan_problem(sol, D, d, C, L, eps=EPS):
    """None if `sol` is a complete feasible giant tour, else what is wrong."""
    n = len(D)
    if not isinstance(sol, list):
        return "is not a list but %r" % (type(sol).__name__,)
    if len(sol) < 3 or sol[0] != 0 or sol[-1] != 0:
        return "does not start and end at the depot: %r" % (sol,)
    seen = sorted(int(x) for x in sol if x != 0)
    if seen != list(range(1, n)):
        return "does not visit every customer exactly once: %r" % (sol,)
    if any(a == b for a, b in zip(sol, sol[1:])):
        return "contains an empty route: %r" % (sol,)
    for r in split(sol):
        if C and rdem(r, d) > C + eps:
            return "route %r exceeds the capacity, %g > %g" % (r, rdem(r, d), C)
        if L and rcost(r, D) > L + eps:
            return "route %r exceeds the route limit, %.9g > %.9g" % (r, rcost(r, D), L)
    return None


def set_partitions(items):
    """All partitions of a list into unordered blocks."""
    items = list(items)
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for k in range(len(rest) + 1):
        for comb in itertools.combinations(rest, k):
            block = [first] + list(comb)
            left = [x for x in rest if x not in comb]
            for p in set_partitions(left):
                yield [block] + p


def ordered_splits(items):
    """All ways to serve items: every list of routes up to direction and order."""
    for p in set_partitions(items):
        choices = []
        for b in p:
            perms = {canon_route(x) for x in itertools.permutations(b)}
            choices.append(sorted(perms))
        for c in itertools.product(*choices):
            yield [list(r) for r in c]


def compositions(seq):
    """All cuts of a sequence into consecutive non-empty pieces."""
    n = len(seq)
    for m in range(1 << (n - 1)):
        out, cur = [], [seq[0]]
        for i in range(1, n):
            if m >> (i - 1) & 1:
                out.append(cur)
                cur = []
            cur.append(seq[i])
        out.append(cur)
        yield out


def opt_route_cost(nodes, D):
    """Cheapest closed tour from the depot through nodes (by enumeration)."""
    return min(rcost(p, D) for p in itertools.permutations(nodes))


def close(a, b, eps=EPS):
    return abs(float(a) - float(b)) <= eps * max(1.0, abs(float(a)), abs(float(b)))
