"""P25: an interrupt at any point is passed on, with a usable plan or none."""
import os, sys
import numpy as np
from vmc import ref, instances as I, feascheck as F
from vmc.core import cpu_limit, Hang, where

LEVEL = "fault_enumeration"
TECHNIQUE = "the real heuristic is run once to list its execution points (every executed source line of the library, with its call chain), then once for every point with a KeyboardInterrupt raised exactly there; what reaches the caller, the inputs and a later call are checked"
RULE = "every executed line of library code of a run is a fault point; runs of more points than the bound take, for every distinct call chain ending in a line, its first occurrences and its last one"
NOTE = "One interrupt per run; inside compiled code (numpy, gurobi) an interrupt is represented by the one at the line that calls it. Without LKH the built-in TSP solver is interrupted."
BOUNDS = {"quick": "21 heuristics, 3-6 problems of 3-6 customers each, both objectives; all points of runs of up to 1000 lines (400 for lr3o and gap), else the first 2 and the last occurrence of every call chain, evenly thinned to at most that many",
          "thorough": "more problems and modes; all points of runs of up to 12000 lines, else the first 4 and the last occurrence of every call chain, evenly thinned to at most 12000"}
ASSUMPTIONS = ["an interrupt arrives between two source lines", "gurobi handles interrupts itself while it runs, so those in its callbacks may be ignored", "a second interrupt, while the first is handled, is out of scope"]

ALGOS = ["ps", "ps2o", "gpl", "ss", "gps", "ims", "si", "pi", "mj", "snn", "pnn", "ty", "swp", "wh", "gm", "rfcs", "cmt", "lr3o", "ptl", "gap", "mbsa"]
NO_K = ("snn", "pnn", "ty", "lr3o")

PROBLEMS = [
    ([(0, 0), (4, 0), (3, 3), (-4, 1)], "EXACT_2D", [0, 1, 1, 1], 2, None),
    ([(0, 0), (4, 0), (3, 3), (-4, 1)], "EXACT_2D", [0, 2, 1, 1], 3, 14.0),
    ([(0, 0), (5, 1), (6, 1), (-5, 2), (-5, -2)], "EUC_2D", [0, 1, 2, 2, 1], 3, 25),
    (I.LAYOUTS["line5"], "EXACT_2D", [0, 1, 2, 1, 2, 1], 4, None),
    (I.LAYOUTS["clus6"], "EXACT_2D", [0, 2, 1, 2, 1, 2, 1], 5, 30.0),
    ([(0, 0), (4, 0), (3, 3), (-4, 1)], "EXACT_2D", None, None, 16.0),
]

_lib = None


def lib():
    global _lib
    if _lib is None:
        import verypy
        _lib = os.path.dirname(os.path.abspath(verypy.__file__)) + os.sep
    return _lib


def solver_callback(frame):
    """Is this code called back by gurobi, which reports interrupts itself?"""
    while frame is not None:
        co = frame.f_code
        if co.co_argcount == 2:
            a, b = (frame.f_locals.get(v) for v in co.co_varnames[:2])
            if type(a).__module__.startswith("gurobipy") and isinstance(b, int):
                return True
        frame = frame.f_back
    return False


class Points:
    """Count the executed library lines, or raise at the k-th."""

    def __init__(self, stop=None, chains=False):
        self.stop, self.n, self.raised_at, self.callback = stop, 0, None, False
        self.keys = [] if chains else None
        self.root = lib()
        self.mine = {}

    def glob(self, frame, event, arg):
        co = frame.f_code
        m = self.mine.get(co)
        if m is None:
            m = self.mine[co] = co.co_filename.startswith(self.root)
        return self.line if m else None

    def line(self, frame, event, arg):
        if event != "line":
            return self.line
        self.n += 1
        if self.keys is not None:
            k, f = [], frame
            while f is not None and f.f_code.co_filename.startswith(self.root):
                k.append((id(f.f_code), f.f_lineno))
                f = f.f_back
            self.keys.append(hash(tuple(k)))
        elif self.n == self.stop:
            self.raised_at = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            self.callback = solver_callback(frame)
            sys.settrace(None)
            raise KeyboardInterrupt()
        return self.line


def inputs(case):
    pts, wt, d, C, L = case
    return [tuple(p) for p in pts], ref.matrix(pts, wt), None if d is None else list(d), C, L, wt


def call(name, inp, mode, points, limit=30):
    """('plan', x) | ('interrupt', args) | ('error', text)"""
    pts, D, d, C, L, wt = inp
    f = F.algo(name)
    try:
        with cpu_limit(limit):
            sys.settrace(points.glob if points else None)
            try:
                sol = f(pts, D, d, C, L, None, wt, *mode)
            finally:
                sys.settrace(None)
        return "plan", sol
    except KeyboardInterrupt as e:
        return "interrupt", e.args
    except Hang:
        return "error", "did not finish"
    except Exception as e:
        return "error", "raised %s: %s (%s)" % (type(e).__name__, str(e)[:120], where(e))


def same(a, b):
    return a[0] == b[0] and len(a) == len(b) and np.array_equal(a[1], b[1]) and a[1].dtype == b[1].dtype and a[2] == b[2]


_base = {}


def baseline(name, pi, mode):
    k = (name, pi, mode)
    if k not in _base:
        _base[k] = call(name, inputs(PROBLEMS[pi]), mode, None)
    return _base[k]


def judge(name, pi, mode, k):
    """(text or None, outcome)."""
    inp, keep = inputs(PROBLEMS[pi]), inputs(PROBLEMS[pi])
    pt = Points(stop=k)
    kind, x = call(name, inp, mode, pt)
    at = "interrupted before %s (point %d)" % (pt.raised_at, k)
    if pt.raised_at is None:
        return None, "not reached"
    if kind == "error":
        return "%s: %s" % (at, x), "error"
    if kind == "plan" and pt.callback:
        return None, "inside the MIP solver"
    if kind == "plan":
        return "%s: the interrupt did not reach the caller, who got %r" % (at, x), "swallowed"
    out = "no plan"
    if len(x) > 0 and x[0] is not None and not isinstance(x[0], list):
        return "%s: carries %r instead of a plan" % (at, x[0]), "bad plan"
    if len(x) > 0 and isinstance(x[0], list) and x[0]:
        out = "plan"
        pts, D, d, C, L, wt = keep
        w = ref.plan_problem([int(v) for v in x[0]] if all(isinstance(v, (int, np.integer)) for v in x[0]) else x[0], D, d, C, L)
        if w:
            return "%s: the plan passed on %s" % (at, w), "bad plan"
    if not same(inp, keep):
        return "%s: left changed problem data" % at, out
    return None, out


def again(name, pi, mode):
    b = baseline(name, pi, mode)
    a = call(name, inputs(PROBLEMS[pi]), mode, None)
    if a != b:
        return "after interrupted runs the plan is %r, before it was %r" % (a, b)
    return None


def choose(name, pi, mode, most, firsts):
    pt = Points(chains=True)
    call(name, inputs(PROBLEMS[pi]), mode, pt, 60)
    n = pt.n
    if n <= most:
        return list(range(1, n + 1)), n
    seen, pick, last = {}, set(), {}
    for i, k in enumerate(pt.keys, 1):
        c = seen[k] = seen.get(k, 0) + 1
        if c <= firsts:
            pick.add(i)
        last[k] = i
    pick |= set(last.values())
    pick = sorted(pick)
    if len(pick) > most:
        step = len(pick) / float(most)
        pick = [pick[int(j * step)] for j in range(most)]
    return pick, n


PARTS = 4


def shards(tier):
    out = []
    for a in ALGOS:
        for pi in range(len(PROBLEMS)):
            for mode in F.MODES:
                if mode[1] and a in NO_K:
                    continue
                if tier != "thorough" and (mode[0] or (pi in (2, 4) and mode[1]) or (pi == 5 and mode[1])):
                    continue
                for part in range(PARTS):
                    out.append((tier, a, pi, mode, part))
    return out


def run(s, rec):
    tier, name, pi, mode, part = s
    mode = tuple(mode)
    most, firsts = (12000, 4) if tier == "thorough" else (400 if name in ("lr3o", "gap") else 1000, 2)
    F.algo(name)
    base = baseline(name, pi, mode)
    if base[0] == "error":
        return
    pts, total = choose(name, pi, mode, most, firsts)
    for i, k in enumerate(pts):
        if i % PARTS != part:
            continue
        rec.state((name, pi, mode, k))
        rec.step(); rec.valid()
        w, out = judge(name, pi, mode, k)
        rec.outcome("%s: %s" % (name, out))
        if w is None and i // PARTS % 16 == 0:
            rec.step(); rec.valid()
            w = again(name, pi, mode)
        if w:
            rec.fail({"name": name, "pi": pi, "mode": list(mode), "k": k}, "%s minimize_K=%s single=%s on %r: %s" % (name, mode[1], mode[0], PROBLEMS[pi], w))
    w = again(name, pi, mode)
    if w:
        rec.fail({"name": name, "pi": pi, "mode": list(mode), "k": None}, "%s %r on %r: %s" % (name, mode, PROBLEMS[pi], w))


def replay(case):
    mode = tuple(case["mode"])
    F.algo(case["name"])
    if case["k"] is None:
        for k in choose(case["name"], case["pi"], mode, 1500, 2)[0]:
            judge(case["name"], case["pi"], mode, k)
    else:
        w = judge(case["name"], case["pi"], mode, case["k"])[0]
        if w:
            return w
    return again(case["name"], case["pi"], mode)
