"""P24: solving neither alters its inputs nor depends on earlier calls."""
import itertools
import numpy as np
from vmc import ref
from vmc import feascheck as F
from vmc import instances as I
from vmc.core import guarded
from vmc.forked import forked

LEVEL = "model_checking"
TECHNIQUE = "call histories are enumerated: each runs in its own process on the real code, and every result in it is compared with the result of the same call as the first of a process; the inputs are compared before and after every call"
NOTE = "Complete within the bounds for histories of up to 3 calls of one algorithm and all ordered pairs of algorithms; the long histories contain every adjacent pair. Without LKH every algorithm here is deterministic."
BOUNDS = {"quick": "21 algorithms x 4 modes; every history of 2 calls over 7 problems and of 3 calls over 4 problems of one algorithm; every ordered pair of algorithms on 4 ordered pairs of problems; the same arrays refilled with another problem between calls; every algorithm and mode on 10 problems with the points as an array of integers or floats",
          "thorough": "as quick with every history of 3 calls over 7 problems and every ordered pair of problems for the pairs of algorithms"}
ASSUMPTIONS = ["results are compared as plans, call by call"]

ALGOS = ["ps", "ps2o", "gpl", "ss", "gps", "ims", "si", "pi", "mj", "snn", "pnn", "ty", "swp", "wh", "gm", "rfcs", "cmt", "lr3o", "ptl", "gap", "mbsa"]


def problems():
    R6, L5, C6 = I.LAYOUTS["ring6"], I.LAYOUTS["line5"], I.LAYOUTS["clus6"]
    return [(R6, "EXACT_2D", [0, 1, 2, 1, 2, 1, 2], 4, None),
            (C6, "EXACT_2D", [0, 2, 1, 2, 1, 2, 1], 5, 40.0),
            (R6, "EUC_2D", [0, 2, 2, 1, 1, 2, 2], 4, 30),
            (L5, "EUC_2D", [0, 1, 2, 1, 2, 1], 4, None),
            (C6, "EUC_2D", None, None, 40),
            (R6, "EXACT_2D", [0, 1, 1, 1, 1, 1, 1], 6, 60.0),
            (I.LAYOUTS["spir7"], "EXACT_2D", [0, 3, 1, 2, 3, 1, 2, 1], 6, 30.0)] + \
        [([(x + 3, y - 2) for x, y in I.LAYOUTS["spir7"]], "EXACT_2D", [0, 3, 1, 2, 3, 1, 2, 1], 6, 30.0),
         (I.LAYOUTS["grid8"], "EXACT_2D", [0, 1, 2, 1, 2, 1, 1, 2, 1], 4, None),
         ([(x - 7, y + 4) for x, y in C6], "EUC_2D", [0, 2, 1, 2, 1, 2, 1], 5, None)]


HIST = 7        # of the problems above make up the histories


MODES = F.MODES
_warm = False


def warm():
    """Import everything once, before forking."""
    global _warm
    if not _warm:
        _warm = True
        for a in ALGOS:
            F.algo(a)


def inputs(pi):
    pts, wt, d, C, L = problems()[pi]
    return [tuple(p) for p in pts], ref.matrix(pts, wt), None if d is None else list(d), C, L, wt


def one_call(a, mode, inp):
    """(plan or text of the failure, fault)."""
    pts, D, d, C, L, wt = inp
    keep = ([tuple(p) for p in pts], D.copy(), None if d is None else list(d))
    f = F.algo(a)
    sol, err = guarded(lambda: f(pts, D, d, C, L, None, wt, mode[0], mode[1]), 30)
    fault = None
    if len(pts) != len(keep[0]) or any(tuple(p) != q for p, q in zip(pts, keep[0])):
        fault = "changed the points to %r" % (pts,)
    elif D.shape != keep[1].shape or D.dtype != keep[1].dtype or not np.array_equal(D, keep[1]):
        fault = "changed the distances"
    elif (d is None) != (keep[2] is None) or (d is not None and list(d) != keep[2]):
        fault = "changed the demands to %r" % (d,)
    return (None if sol is None else [int(x) for x in sol]) if err is None else "failed: " + err, fault


def history(calls, share):
    """calls: (algorithm, mode, problem index). share: reuse and refill the same
    objects whenever sizes match."""
    out = []
    pool = {}
    for a, m, pi in calls:
        inp = inputs(pi)
        if share in ("int", "float"):       # the points as an array
            inp = (np.array(inp[0], dtype=share),) + inp[1:]
        elif share:
            key = (len(inp[0]), inp[1].dtype.kind, inp[2] is None)
            if key in pool:
                o = pool[key]
                o[0][:] = inp[0]
                o[1][:] = inp[1]
                if o[2] is not None:
                    o[2][:] = inp[2]
                inp = o[:3] + inp[3:]
            pool[key] = inp
        out.append(one_call(a, m, inp))
    return out


_fresh = {}


def fresh(c):
    if c not in _fresh:
        _fresh[c] = forked(lambda: history([c], False))
    return _fresh[c]


def kind(share):
    return "" if not share else " with the points as an array (%s)" % share if isinstance(share, str) else " on refilled arrays"


def judge(calls, share):
    warm()
    calls = [(a, tuple(m), p) for a, m, p in calls]
    got, err = forked(lambda: history(calls, share), 800)
    if err:
        return err
    for i, (c, (sol, fault)) in enumerate(zip(calls, got)):
        what = "%s single=%s minimize_K=%s on problem %r" % (c[0], c[1][0], c[1][1], problems()[c[2]])
        if fault:
            return "%s %s" % (what, fault)
        base, err = fresh(c)
        if err:
            return "%s: %s" % (what, err)
        if base[0][0] != sol:
            return "%s returns %r as call %d of the history %r%s, and %r as the first" % (what, sol, i + 1, calls[max(0, i - 4):i], kind(share), base[0][0])
    return None


def cases(tier):
    n = HIST
    for a in ALGOS:
        for p in range(len(problems())):
            for m in MODES:
                yield [(a, m, p)], "int"
                yield [(a, m, p), (a, m, p)], "float"
        for m in MODES:
            for h in itertools.product(range(n), repeat=2):
                yield [(a, m, p) for p in h], True
            # every history of two calls is a part of one long history
            seq = [0]
            for x in range(n):
                for y in range(n):
                    seq += [x, y]
            yield [(a, m, p) for p in seq], False
            for h in itertools.product((0, 1, 3, 5) if tier == "quick" else range(n), repeat=3):
                if m == MODES[0] or tier != "quick":
                    yield [(a, m, p) for p in h], (h[0] + h[1]) % 2 == 1
        for x, y in ((0, 5), (1, 6), (2, 2), (6, 3)) if tier == "quick" else itertools.product(range(n), repeat=2):
            seq = []
            for b in ALGOS:
                seq += [(a, MODES[0], x), (b, MODES[0], y)]
            yield seq, False
            yield [(q, MODES[1] if q in ("ps", "gm", "ptl", "wh") else m, p) for q, m, p in seq], True


def shards(tier):
    for i in range(48):
        yield (tier, i, 48)


def run(shard, rec):
    tier, part, parts = shard
    warm()
    for i, (calls, share) in enumerate(cases(tier)):
        if (i * 7919) % parts != part:
            continue
        rec.state((calls, share))
        w = judge(calls, share)
        rec.step(len(calls)); rec.valid(len(calls))
        rec.outcome("history of %d calls%s" % (len(calls), kind(share)))
        if w:
            rec.fail({"calls": calls, "share": share}, w)
        if i == part:
            rec.sample({"calls": calls})


def replay(case):
    return judge(case["calls"], case["share"])
