"""Shared by P01-P05: every heuristic x mode on every enumerated problem."""
import io, sys, contextlib, itertools
from vmc import ref, instances as I
from vmc.core import guarded

_algos = {}


def algo(name):
    if name not in _algos:
        import verypy
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            _algos[name] = verypy.get_algorithms(name)[0][3]
        finally:
            sys.stderr = err
    return _algos[name]


def solve(name, case, mode, limit=8.0):
    """Run the real heuristic; (plan, D, error text)."""
    pts, wt, d, C, L = case
    single, minK = mode
    D = ref.matrix(pts, wt)
    f = algo(name)
    sol, err = guarded(lambda: f(list(pts) if wt != "EXPLICIT" else None, D.copy(), list(d) if d is not None else None, C, L, None, wt, single, minK), limit)
    return sol, D, err


def minK_refused(name, minK, err):
    """Documented: these do not minimise the number of vehicles."""
    return minK and name in ("snn", "sn", "pnn", "pn", "ty", "lr3o") and "NotImplementedError" in err


def problem(name, case, mode, none_ok=False, limit=8.0):
    sol, D, err = solve(name, case, mode, limit)
    pts, wt, d, C, L = case
    tag = "%s single=%s minimize_K=%s on points=%r %s d=%r C=%r L=%r" % (name, mode[0], mode[1], pts, wt, d, C, L)
    if err:
        if minK_refused(name, mode[1], err):
            return None
        return "%s %s" % (tag, err)
    if sol is None and none_ok:
        return None
    p = ref.plan_problem(sol, D, d, C, L)
    return "%s: plan %s" % (tag, p) if p else None


MODES = [(False, False), (False, True), (True, False), (True, True)]


def pieces(D):
    """Lengths of the routes over consecutive customers of the giant tour of the
    bundled solver, built one customer at a time, that allow each customer alone."""
    from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_2opt, solve_tsp_ropt
    n = len(D) - 1
    m = 2 * max(float(x) for x in D[0])
    tour = [x for x in solve_tsp_ropt(D, list(range(1, n + 1)))[0]][:n]
    out = {}
    for i in range(n):
        r = [0, 0]
        for v in (tour[i:] + tour[:i]):
            r[-1] = v
            r, c = solve_tsp_2opt(D, r)
            r = list(r)
            c = float(sum(D[a, b] for a, b in zip(r, r[1:])))
            if c >= m:
                out.setdefault(round(c, 6), c)
    return [out[k] for k in sorted(out)]


def source_cases(src):
    """The cases of one descriptor of the enumeration."""
    kind = src[0]
    if kind == "grid":               # ("grid", n, depot, kind, demand alphabet, dense, first cell or None)
        _, n, dep, wk, dem, dense, first = src
        for pts in I.grid(n, (dep,)):
            if first is not None and pts[1] != first:
                continue
            for p, wt in I.kinds(pts, (wk,)):
                for c in I.complete(p, wt, itertools.product(dem, repeat=n), dense):
                    yield c
    elif kind == "layout":           # ("layout", name, kind, alphabet, dense, first demand)
        _, name, wk, dem, dense, first = src
        base = I.LAYOUTS[name]
        n = len(base) - 1
        for p, wt in I.kinds(base, (wk,)):
            vecs = [(f,) + v for f in (dem if first is None else (first,)) for v in itertools.product(dem, repeat=n - 1)]
            for c in I.complete(p, wt, vecs, dense):
                yield c
    elif kind == "explicit":         # ("explicit", n, alphabet, first distance, demands)
        _, n, al, first, dem = src
        iu = list(itertools.combinations(range(n + 1), 2))
        for v in itertools.product(al, repeat=len(iu) - 1):
            M = [[0] * (n + 1) for _ in range(n + 1)]
            for (a, b), x in zip(iu, (first,) + v):
                M[a][b] = M[b][a] = x
            for c in I.complete([tuple(r) for r in M], "EXPLICIT", dem):
                yield c
    elif kind == "one":              # a single customer
        for dep in ((0, 0), (2, 1)):
            for c in I.G3:
                for p, wt in I.kinds([dep, c]):
                    D = ref.matrix(p, wt)
                    m = 2 * D[0, 1]
                    for dem in (0, 1, 2.5):
                        for C in (None, dem, 4):
                            for L in (None, m, m + 0.5):
                                if C != 0 and L != 0:
                                    yield p, wt, [0, dem], C, L
                    for L in (None, m, m + 0.5):
                        if L != 0:
                            yield p, wt, None, None, L
    elif kind == "big":              # ("big", n, type)
        p = I.big(src[1])
        n = len(p) - 1
        D = ref.matrix(p, src[2])
        m = float(max(2 * D[0, 1:]))
        for k, d in enumerate(([1] * n, [1 + i % 3 for i in range(n)], [0.5 * (1 + i * i % 7) for i in range(n)], [9 if i % 5 == 0 else i % 2 for i in range(n)])):
            s = sum(d)
            for C in (None, max(d), s / 2. if k % 2 else -(-s // 3), -(-s // 5) if k else s, max(max(d), s / 4. + 1)):
                for L in (None, m, 1.3 * m, 2.5 * m):
                    if C is None and k:
                        continue
                    yield p, src[2], [0] + d, None if C is None else max(C, max(d)), L
    elif kind == "limits":           # ("limits", n, k, type): every length a piece of a giant tour can have as the route limit
        p = I.big(src[1], src[2])
        n = len(p) - 1
        D = ref.matrix(p, src[3])
        for L in pieces(D):
            yield p, src[3], [0] + [1] * n, None, L
            yield p, src[3], [0] + [1 + i % 3 for i in range(n)], n, L
    elif kind == "critical":         # ("critical", name, step, offset): every route limit at which some route becomes feasible
        for D, d, C, L in I.limited(*src[1:]):
            yield I.GENERAL[src[1]], "EXACT_2D", d, C, L
    elif kind == "special":
        for name, base in sorted(I.LAYOUTS.items()):
            n = len(base) - 1
            for p, wt in I.kinds(base):
                D = ref.matrix(p, wt)
                for L in I.L_levels(D, True):
                    if wt == src[1]:
                        yield p, wt, None, None, L                      # no demands at all
                        yield p, wt, [0] + [0.5] * n, 1.5, L            # fractional
                        yield p, wt, [0.0] + [0.1] * n, 0.3, L          # sums not exact in binary
                        yield p, wt, [0] + [0] * (n - 1) + [3], 3, L    # zero demands
                        yield p, wt, [0] + [1] * n, 1, L                # one customer per route
                        yield p, wt, [0] + [1] * n, n, L
                        yield p, wt, [0] + [0] * n, 3, L                # nobody orders anything
                        yield p, wt, [0] + [5] + [1] * (n - 1), 5, L


def all_sources(tier, small_n=(2, 3), layouts=None, dem=(1, 2), kinds=("EXACT_2D", "EUC_2D", "EUC_2Dx7"), big=(11, 16, 23), critical=tuple(sorted(I.GENERAL))):
    for n in small_n:
        for dep in ((1, 1), (0, 0)):
            for wk in kinds:
                if tier == "quick" and n > 2 and (dep == (1, 1)) == (wk == "EUC_2D"):
                    continue
                for first in I.G3:
                    yield ("grid", n, dep, wk, dem, n <= 2, first)
    for name in (layouts if layouts is not None else sorted(I.LAYOUTS)):
        for wk in ("EXACT_2D", "EUC_2D"):
            for f in dem:
                yield ("layout", name, wk, dem, False, f)
    yield ("one",)
    for n in big:
        for wt in ("EXACT_2D", "EUC_2D"):
            yield ("big", n, wt)
    yield ("special", "EXACT_2D")
    yield ("special", "EUC_2D")
    for name in critical:
        for off in range(4):
            five = name.startswith("gen5")
            if tier != "quick":
                yield ("critical", name, 4 if five else 16, off)
            elif five:
                yield ("critical", name, 8, off)
            elif name == "gen6a":
                yield ("critical", name, 64, off)


def explicit_sources(tier, slow=False):
    """Symmetric distances that need not obey the triangle inequality."""
    q = tier == "quick"
    for x in (0, 1, 2, 5):
        yield ("explicit", 2, (0, 1, 2, 5), x, ((1, 1), (1, 2)))
    for x in (1, 4):
        yield ("explicit", 3, (1, 4), x, ((1, 1, 1), (2, 1, 3)))
    for x in (0, 2.5):
        yield ("explicit", 3, (0, 2.5), x, ((1, 2, 2),))
    if slow and q:
        return
    for x in (1, 2, 5):
        yield ("explicit", 3, (1, 2, 5), x, ((1, 1, 1), (2, 1, 3)))
    for x in (1, 4):
        yield ("explicit", 4, (1, 4), x, ((1, 1, 1, 1),) if q else ((1, 1, 1, 1), (1, 2, 1, 2), (3, 1, 1, 2)))
    if not q:
        for x in (1, 2, 5):
            yield ("explicit", 4, (1, 2, 5), x, ((2, 1, 3, 1),))


def run_source(src, names, rec, part=None, modes=None, none_ok=False, exempt=None, limit=8.0):
    """part=(k, m): this shard takes every m-th case, offset k."""
    for i, case in enumerate(source_cases(src)):
        if part and i % part[1] != part[0]:
            continue
        rec.state(repr(case))
        for name in names:
            for mode in (modes or MODES):
                if exempt and exempt(name, case, mode):
                    continue
                w = problem(name, case, mode, none_ok, limit)
                rec.step(); rec.valid()
                if w:
                    rec.fail([name, [list(map(list, case[0]))] + list(case[1:]), list(mode)], w)
                    if "did not finish" in w:
                        rec.outcome("%s hang" % name)
        rec.outcome("%s C=%s L=%s" % (src[0], case[3] is not None, case[4] is not None))
        if i == 0:
            rec.sample({"points": case[0], "type": case[1], "d": case[2], "C": case[3], "L": case[4]})


def replay(case, none_ok=False):
    name, c, mode = case
    c = ([tuple(p) for p in c[0]], c[1], c[2], c[3], c[4])
    return problem(name, c, tuple(mode), none_ok)
