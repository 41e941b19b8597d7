"""P20: the command line reports the solution it computed, truthfully."""
import contextlib, importlib, io, itertools, logging, math, os, pickle, re, subprocess, sys
import numpy as np
from vmc import ref, nb
from vmc import tsplib as T
from vmc.core import guarded, make_scratch, REPO
import verypy
from verypy import VeRyPy as V
from verypy import shared_cli

LEVEL = "model_checking"
TECHNIQUE = "the real command line program is run on every combination of options, problem files and algorithm outcomes of the bounded space (the algorithm is a stand-in that returns any plan, none, fails or is interrupted); everything it prints is recomputed from the problem files"
NOTE = ("Complete within the bounds. The program runs in process with its real argument parser; stand-ins are installed where the program looks algorithms up, and they also check what they are given. The real algorithms are run on every problem as well. "
        "-D EXACT, which the program accepts without effect, is judged against the distances in the file. Post-optimisation is judged on feasible plans.")
BOUNDS = {"quick": "9 problems x every plan of 3 customers, infeasible plans, none, failure, interrupt with and without a plan x options -m, -c, -D, --routes, --vrph, --post-optimize; -b, -1, -t, -v; every outcome of two algorithms on two problems (625) x 4 options; file arguments: directories, lists, recursion; every algorithm alias; 21 real algorithms on the problems; the stand-alone solvers' command lines",
          "thorough": "as quick with plans of 4 customers"}
ASSUMPTIONS = ["problem files are well formed", "base names of the problem files differ"]

# ---------------------------------------------------------------- problems

SQ = [(0, 0), (6, 1), (5, 7), (-4, 5)]
SQ5 = SQ + [(-3, -6)]
EXPL = np.array([[0, 4.2, 7.7, 6.1], [4.2, 0, 5.3, 9.8], [7.7, 5.3, 0, 3.6], [6.1, 9.8, 3.6, 0]])


def problem(name, pts=None, M=None, wt="EUC_2D", d=None, C=None, L=None, st=None):
    n = len(M) if M is not None else len(pts)
    out = ["NAME : %s" % name, "TYPE : CVRP", "DIMENSION : %d" % n]
    out += ["EDGE_WEIGHT_TYPE : %s" % (wt if M is None else "EXPLICIT")]
    if M is not None:
        out += ["EDGE_WEIGHT_FORMAT : FULL_MATRIX"]
    if C is not None:
        out += ["CAPACITY : %s" % C]
    if L is not None:
        out += ["DISTANCE : %s" % L]
    if st is not None:
        out += ["SERVICE_TIME : %s" % st]
    if M is not None:
        out += ["EDGE_WEIGHT_SECTION"] + [" ".join(map(str, r)) for r in M.tolist()]
    else:
        out += ["NODE_COORD_SECTION"] + ["%d %s %s" % (i + 1, x, y) for i, (x, y) in enumerate(pts)]
    if d is not None:
        out += ["DEMAND_SECTION"] + ["%d %s" % (i + 1, x) for i, x in enumerate(d)]
    out += ["DEPOT_SECTION", "1", "-1", "EOF"]
    D = M if M is not None else T.matrix([(T.geo_rad(x), T.geo_rad(y)) for x, y in pts] if wt == "GEO" else pts, wt)
    return {"name": name, "text": "\n".join(out) + "\n", "D": np.array(D, dtype=float), "d": d, "C": C, "L": L, "st": st, "wt": wt if M is None else "EXPLICIT"}


def problems(n4=False):
    pts = SQ5 if n4 else SQ
    d = [0, 3, 4, 2, 5][:len(pts)]
    P = [problem("eucC", pts, d=d, C=9),
         problem("eucCL", pts, d=d, C=7, L=30),
         problem("exCLS", pts, wt="EXACT_2D", d=d, C=9, L=40, st=10),
         problem("exL", pts, wt="EXACT_2D", d=d, L=27.5),
         problem("exLS", pts, wt="EXACT_2D", L=33.5, st=3),
         problem("ceil", pts, wt="CEIL_2D", d=d, C=5, st=5),
         problem("geo", [(1.0, 1.0), (1.3, 1.2), (2.1, 0.4), (0.2, 3.0), (0.1, 1.1)][:len(pts)], wt="GEO", d=d, C=9),
         problem("zero", [(0, 0)] * len(pts), d=d, C=9)]
    if not n4:
        P.append(problem("expl", M=EXPL, d=[0, 1, 2.5, 1], C=4.5, L=19))
    return P


def forced(D, fmt):
    if fmt == "TRUNCATE":
        return np.floor(D)
    if fmt == "ROUND":
        return np.floor(D + 0.5)
    return D


def with_service(D, st):
    if not st:
        return D
    W = D + st
    W[0, :] -= st / 2.0
    W[:, 0] -= st / 2.0
    np.fill_diagonal(W, 0)
    return W


def feasible(sol, p, D, Dc):
    rs = ref.split(sol)
    served = sorted(v for r in rs for v in r)
    ok = [served == list(range(1, len(D))), True, True]
    for r in rs:
        if p["C"] and ref.rdem(r, p["d"]) > p["C"] + 1e-7:
            ok[1] = False
        if p["L"] and ref.rcost(r, Dc) > p["L"] + 1e-7:
            ok[2] = False
    return ok


def norm(sol):
    return ref.join(sorted(min(list(r), list(r)[::-1]) if r[-1] < r[0] else list(r) for r in ref.split(sol)))


# ---------------------------------------------------------------- running

FEW = (("ps", "parallel_savings", "get_ps_algorithm"), ("ss", "sequential_savings", "get_ss_algorithm"), ("swp", "sweep", "get_swp_algorithm"))


class Stand:
    """Stand-in algorithms: outcome(name, points, Dc, ...) decides what happens."""
    def __init__(self, outcome):
        self.outcome, self.calls, self.saved = outcome, [], []

    def __enter__(self):
        for k, (ab, mod, fn) in enumerate(FEW):
            m = importlib.import_module("verypy.classic_heuristics." + mod)
            self.saved.append((m, fn, getattr(m, fn)))

            def get(*a, _ab=ab, **kw):
                def solve(points, D_c, d, C, L, st, ewt, single=False, minimize_K=False):
                    self.calls.append((_ab, points, np.array(D_c), None if d is None else list(d), C, L, st, ewt, single, minimize_K))
                    o = self.outcome(_ab, len(self.calls) - 1)
                    if isinstance(o, BaseException):
                        raise o
                    return o
                return ("Alg%s" % _ab, "stand-in %s" % _ab, solve)
            setattr(m, fn, get)
        return self

    def __exit__(self, *a):
        for m, fn, f in self.saved:
            setattr(m, fn, f)


def call(args, f=None):
    """Run the program; returns (stdout, how it ended)."""
    out, err = io.StringIO(), io.StringIO()
    root = logging.getLogger()
    h, lv = list(root.handlers), root.level
    argv = sys.argv
    sys.argv = ["VeRyPy.py"] + args
    end = "ok"
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                (f or V.main)(args) if f is None else f()
            except SystemExit as e:
                end = "exit %s" % (e.code,)
    finally:
        sys.argv = argv
        root.handlers[:] = h
        root.setLevel(lv)
        sys.setprofile(None)
    return out.getvalue(), end


def write(p, sub=None, ext=".vrp"):
    d = make_scratch() if sub is None else os.path.join(make_scratch(), "%d-%s" % (os.getpid(), sub))
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d%s" % (p["name"], os.getpid(), ext))
    if p.get("at") != path:
        with open(path, "w") as f:
            f.write(p["text"])
    return path


def num(s):
    s = s.strip()
    return None if s == "None" else float(s)


def close(a, b, digits=None):
    if a is None or b is None:
        return a is b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= (1e-6 * max(1, abs(b)) if digits is None else 0.5 * 10 ** -digits * 1.0001 + 1e-9)


def judge_section(txt, sol0, p, o, names):
    """One block of the full report. Returns (fault, printed plan)."""
    D = forced(p["D"], o.get("D"))
    Dc = with_service(D, p["st"])
    m = re.search(r"^SOLUTION: (\[.*\])$", txt, re.M)
    if not m:
        return "prints no solution", None
    sol = [int(x) for x in m.group(1)[1:-1].split(",") if x.strip()]
    if o.get("ls"):
        f0, f1 = feasible(sol0, p, D, Dc), feasible(sol, p, D, Dc)
        if all(f0) and not all(f1):
            return "post-optimisation of the feasible %r prints the infeasible %r" % (sol0, sol), None
        if ref.cost(sol, Dc) > ref.cost(norm(sol0), Dc) + 1e-6:
            return "post-optimisation made %r worse: %r" % (sol0, sol), None
        better = ref.cost(norm(sol0), Dc) - ref.cost(sol, Dc)
        m = re.search(r"improved by ([-0-9.einf]+)%", txt)
        basis = ref.cost(norm(sol0), Dc if o.get("c") else D)
        if better > 1e-6:
            if not m:
                return "post-optimisation improved the plan by %r but says it did not" % better, None
            if basis and not close(num(m.group(1)), 100 * better / basis, 2):
                return "the plan improved by %.2f%%, the program says %s%%" % (100 * better / basis, m.group(1)), None
        elif m and num(m.group(1)) > 0.01:
            return "the plan did not improve, the program says it did by %s%%" % m.group(1), None
        for op in o["ls"]:
            for r in ref.split(sol):
                r = (0,) + tuple(r) + (0,)
                c = ref.cost(r, D)
                b = min((ref.cost(x, D) for x in nb.NB["do_%s_move" % op](r)), default=c)
                if b < c - 1e-6:
                    return "the plan %r post-optimised with %s has a route that it could improve" % (sol, op), None
    elif sol != norm(sol0):
        return "the algorithm returned %r, the program prints %r" % (sol0, sol), None
    f = feasible(sol, p, D, Dc)
    K = len(ref.split(sol))
    length, cost = ref.cost(sol, D), ref.cost(sol, Dc)
    seen = set()
    for l in txt.splitlines():
        k, _, v = l.partition(":")
        k, v = k.strip(), v.strip()
        w = None
        if k == "FEASIBLE":
            w = v != str(all(f))
        elif k == "ALL SERVED":
            w = v != str(f[0])
        elif k == "IS C FEASIBLE":
            w = v != str(f[1])
        elif k == "IS L FEASIBLE":
            w = v != str(f[2])
        elif k == "SOLUTION K":
            w = int(v) != K
        elif k == "SOLUTION COST":
            w = not close(num(v), cost)
        elif k == "SOLUTION LENGTH":
            w = not close(num(v), length)
        elif k == "CAPACITY":
            w = not close(num(v), p["C"])
        elif k == "DISTANCE":
            w = not close(num(v), p["L"])
        elif k == "SERVICE_TIME":
            w = not close(num(v), p["st"])
        elif k == "SIZE":
            w = int(v) != len(D)
        elif k == "TIGHTNESS":
            w = not close(num(v), sum(p["d"]) / (p["C"] * K), 3)
        else:
            continue
        seen.add(k)
        if w:
            return "prints %r for the plan %r (served, load, limit %r; length %r cost %r)" % (l, sol, f, length, cost), None
    need = {"SOLUTION K"} | ({"ALL SERVED"} | ({"IS C FEASIBLE"} if p["C"] else set()) | ({"IS L FEASIBLE"} if p["L"] else set()) if o.get("routes") else {"FEASIBLE"})
    if p["st"] and not o.get("plain"):
        need |= {"SOLUTION COST"}
    if not (need <= seen) or not ({"SOLUTION COST", "SOLUTION LENGTH"} & seen):
        return "prints no line on %s" % sorted(need - seen), None
    if o.get("routes"):
        rows = re.findall(r"^(\d+)\t(\S+)\t(\S+)\t(\S+)\t(\[.*\])$", txt, re.M)
        rs = [[0] + list(r) + [0] for r in ref.split(sol)]
        if [[int(x) for x in r[4][1:-1].split(",")] for r in rows] != rs or [int(r[0]) for r in rows] != list(range(1, K + 1)):
            return "the route table lists %r for %r" % (rows, sol), None
        for r, (_, c, l, q, _) in zip(rs, rows):
            if not close(num(c), ref.cost(r, Dc), 2) or not close(num(l), ref.cost(r, D), 2) or (p["C"] and not close(num(q), ref.rdem(r, p["d"]))):
                return "the route table says cost %s, length %s, load %s of %r" % (c, l, q, r), None
        m = re.search(r"^Total\t(\S+)\t(\S+)", txt, re.M)
        if not m or not close(num(m.group(1)), cost, 2) or not close(num(m.group(2)), length, 2):
            return "the route table's total is %r" % (m and m.group(0)), None
    if o.get("vrph"):
        m = re.search(r"SOLUTION IN VRPH FORMAT:\n(.*)", txt)
        v = [int(x) for x in m.group(1).split()] if m else []
        dec = []
        for x in v[1:-1]:
            if x < 0:
                dec.append([-x])
            elif dec:
                dec[-1].append(x)
        if not v or v[-1] != 0 or v[0] != max(sol) + 1 or dec != [list(r) for r in ref.split(sol)]:
            return "prints %r as the VRPH format of %r" % (m and m.group(1), sol), None
    return None, sol


def options(o):
    a = []
    for k, s in (("m", "-m"), ("c", "-c"), ("routes", "--routes"), ("vrph", "--vrph"), ("one", "-1"), ("t", "-t"), ("iinfo", "--iinfo"), ("sim", "--simulate")):
        if o.get(k):
            a.append(s)
    if o.get("D"):
        a += ["-D", o["D"]]
    if o.get("b"):
        a += ["-b", o["b"]]
    if o.get("v") is not None:
        a += ["-v", str(o["v"])]
    for x in o.get("ls") or ():
        a += ["--post-optimize", x]
    return a


def expand(x):
    """An outcome in the notation of the cases."""
    if x == "fail":
        return RuntimeError("the stand-in fails")
    if x == "stop":
        return KeyboardInterrupt()
    if isinstance(x, (list, tuple)) and x and x[0] == "stop":
        return KeyboardInterrupt(list(x[1]))
    return None if x is None else list(x)


def plan_of(x):
    if isinstance(x, (list, tuple)) and x:
        return list(x[1]) if x[0] == "stop" else list(x)
    return None


def judge(probs, algs, o, outcomes, args=None):
    """outcomes: in the order (problem, algorithm)."""
    paths = args if args is not None else [write(p) for p in probs]
    if len(paths) == 1:
        where = paths
    else:
        lst = os.path.join(make_scratch(), "%d-list.txt" % os.getpid())
        with open(lst, "w") as f:
            f.write("\n".join(paths) + "\n")
        where = [lst]
    argv = options(o) + sum((["-a", a] for a in algs), []) + where
    st = Stand(lambda ab, i: expand(outcomes[i]))
    with st:
        r, err = guarded(lambda: call(argv), 30)
    if err:
        return "'%s' %s" % (" ".join(argv[:-1]), err)
    txt, end = r
    pre = "'%s' on %s, algorithm outcomes %r: " % (" ".join(argv[:-1]), [p["name"] for p in probs], outcomes)
    if end != "ok":
        return pre + "ended with " + end
    runs, stopped = [], False
    for pi, p in enumerate(probs):
        for ai, a in enumerate(algs):
            if stopped:
                break
            x = None if o.get("sim") else outcomes[len(runs)]
            runs.append((p, a, x))
            if x == "stop" or (isinstance(x, (list, tuple)) and x and x[0] == "stop"):
                stopped = True
    # what the algorithms were given
    if len(st.calls) != (0 if o.get("sim") else len(runs)):
        return pre + "ran %d algorithms, %d were asked for" % (len(st.calls), len(runs))
    for (ab, pts, Dc, d, C, L, s, ewt, single, mK), (p, a, x) in zip(st.calls, runs):
        D = forced(p["D"], o.get("D"))
        want = with_service(D, p["st"])
        if ab != a or not np.allclose(Dc, want, atol=1e-9, rtol=0):
            return pre + "%s was given distances %r, expected %r" % (ab, Dc.tolist(), want.tolist())
        if C != p["C"] or L != p["L"] or (s or None) != (p["st"] or None) or (d is not None and p["d"] is not None and d != list(p["d"])) or (p["C"] and d is None):
            return pre + "%s was given demands and limits %r" % (ab, (d, C, L, s))
        if bool(single) != bool(o.get("one")) or bool(mK) != (o.get("b") in ("K", "vehicles")):
            return pre + "%s was asked with single iteration %r, minimize vehicles %r" % (ab, single, mK)
        if pts is None or len(pts) != len(D):
            return pre + "%s was given the points %r" % (ab, pts)
    final = {}
    if o.get("m"):
        lines = [l for l in txt.splitlines() if l.strip()]
        if not lines or lines[0].split(";") != ["algo", "problem", "is_feasible", "f", "K", "t"]:
            return pre + "prints the header %r" % lines[:1]
        if len(lines) != len(runs) + 1:
            return pre + "prints %d result lines for %d runs" % (len(lines) - 1, len(runs))
        for l, (p, a, x) in zip(lines[1:], runs):
            fs = l.split(";")
            plan = plan_of(x)
            D = forced(p["D"], o.get("D"))
            Dc = with_service(D, p["st"])
            if len(fs) != 6 or fs[0] != a or not fs[1].startswith(p["name"]):
                return pre + "prints the line %r for %s on %s" % (l, a, p["name"])
            if plan is None:
                if fs[2] != "False" or fs[3] != "inf":
                    return pre + "prints the line %r without a plan" % l
                continue
            f = all(feasible(plan, p, D, Dc))
            W = Dc if o.get("c") else D
            q = ref.cost(norm(plan), W)
            if fs[2] != str(f) or int(fs[4]) != len(ref.split(plan)):
                return pre + "prints the line %r, the plan is feasible: %r with %d routes" % (l, f, len(ref.split(plan)))
            got = num(fs[3])
            if not o.get("ls") and not close(got, q, 2):
                return pre + "prints the line %r, the plan costs %r" % (l, q)
            if o.get("ls") and (got > q + 0.0051 or got < best_routes(plan, W) - 0.0051):
                return pre + "prints the line %r, the plan costs %r and at best %r" % (l, q, best_routes(plan, W))
        return None
    parts = re.split(r"^Solving (\S+) with (\S+)$", txt, flags=re.M)
    if parts[0].strip():
        return pre + "prints %r first" % parts[0][:100]
    if len(parts) != 1 + 3 * len(runs):
        return pre + "reports %d runs of %d" % ((len(parts) - 1) // 3, len(runs))
    rows = {}
    for k, (p, a, x) in enumerate(runs):
        pn, an, body = parts[1 + 3 * k:4 + 3 * k]
        if not pn.startswith(p["name"]) or an != "Alg" + a:
            return pre + "announces %s with %s" % (pn, an)
        plan = plan_of(x)
        if plan is None:
            rows.setdefault(pn, {})["Alg" + a] = float("inf")
            rows[pn].setdefault("K", set())
            if "SOLUTION" in body:
                return pre + "prints a solution although there is none: %r" % body[:200]
            continue
        w, sol = judge_section(body, plan, p, o, algs)
        if w:
            return pre + w
        D = forced(p["D"], o.get("D"))
        W = with_service(D, p["st"]) if o.get("c") else D
        rows.setdefault(pn, {})["Alg" + a] = ref.cost(sol, W)
        rows[pn].setdefault("K", set()).add(len(ref.split(sol)))
    if len(algs) > 1 or len({p["name"] for p, _, _ in runs}) > 1:
        tail = parts[-1]
        m = re.search(r"^instance\t(.*)$", tail, re.M)
        if not m:
            return pre + "prints no collected results"
        ls = tail[m.end():].splitlines()
        ls = [l for l in ls if l.strip()]
        if sorted(l.split("\t")[0] for l in ls) != sorted(rows):
            return pre + "collects results of %r" % [l.split("\t")[0] for l in ls]
        for l in ls:
            fs = l.split("\t")
            r = dict(rows[fs[0]])
            Ks = r.pop("K")
            p = next(p for p in probs if fs[0].startswith(p["name"] + "-"))
            got = [num(x) for x in fs[-len(r):]]
            want = [r[k] for k in sorted(r)]
            if not all(close(g, w) for g, w in zip(got, want)):
                return pre + "collects %r, the results are %r" % (l, r)
            if Ks:
                if int(fs[1]) != len(p["D"]) - 1 or int(fs[2]) != min(Ks) or not close(num(fs[3]), p["C"]) or not close(num(fs[5]), p["L"]) or not close(num(fs[6]), p["st"]):
                    return pre + "collects %r" % l
                if p["C"] and not close(num(fs[4]), sum(p["d"]) / (p["C"] * min(Ks)), 3):
                    return pre + "collects the tightness %r" % fs[4]
    return None


def best_routes(plan, W):
    return sum(min(ref.rcost(q, W) for q in itertools.permutations(r)) for r in ref.split(plan))


# ---------------------------------------------------------------- cases

def plans(n):
    out = [ref.join(ref.canon(p)) for p in ref.ordered_splits(range(1, n + 1))]
    return sorted(set(map(tuple, out)))


def odd(n):
    yield ref.join([[n], list(range(n - 1, 0, -1))])                    # not normalized
    yield [0] + ref.join([[1], list(range(2, n + 1))]) + [0]            # doubled depots
    if n >= 3:
        yield [0, 1, 0, 0, 3, 2] + list(range(4, n + 1)) + [0]


def bad(n):
    yield ref.join([list(range(1, n))])                                 # one missing
    yield ref.join([list(range(1, n + 1)), [1]])                        # one twice


LS = [(), ("2opt",), ("3opt",), ("2opt", "3opt")]


def grid(tier):
    n4 = tier != "quick"
    for n4 in ((False,) if tier == "quick" else (False, True)):
        for pi, p in enumerate(problems(n4)):
            n = len(p["D"]) - 1
            outs = plans(n) + list(map(tuple, odd(n)))
            outs += [x for x in list(map(tuple, bad(n)))] + [None, "fail", "stop"] + [("stop", plans(n)[0]), ("stop", plans(n)[-1])]
            for x in outs:
                for m, c, Df, ls in itertools.product((0, 1), (0, 1), (None, "ROUND", "TRUNCATE", "EXACT"), LS):
                    pl = plan_of(x)
                    if ls and pl is not None:
                        D = forced(p["D"], Df)
                        if not all(feasible(pl, p, D, with_service(D, p["st"]))):
                            continue
                    for routes, vrph in ((0, 0),) if m else ((0, 0), (1, 0), (0, 1), (1, 1)):
                        if p["name"] == "expl" and (routes or vrph) and (c or Df == "EXACT"):
                            continue
                        yield "grid", (n4, pi), {"m": m, "c": c, "D": Df, "ls": ls, "routes": routes, "vrph": vrph}, x


def flags(tier):
    for pi, p in enumerate(problems()):
        n = len(p["D"]) - 1
        for b, one, t, v, m, ii in itertools.product((None, "c", "cost", "K", "vehicles"), (0, 1), (0, 1), (None, 0, 1, 3), (0, 1), (0, 1)):
            for x in (plans(n)[0], None):
                yield "grid", (False, pi), {"b": b, "one": one, "t": t, "v": v, "m": m, "iinfo": ii, "routes": t, "sim": 0}, x
        yield "grid", (False, pi), {"sim": 1}, None
        yield "grid", (False, pi), {"sim": 1, "m": 1}, None


def histories(tier):
    n = 3
    good, other = plans(n)[0], plans(n)[-1]
    al = (good, None, "fail", "stop", ("stop", other))
    for oc in itertools.product(al, repeat=4):
        for o in ({}, {"m": 1}, {"c": 1, "routes": 1}, {"ls": ("2opt",)}):
            for pr in ((0, 2), (2, 3)) if tier == "quick" else itertools.permutations((0, 2, 3, 5), 2):
                yield "history", pr, o, oc
    for pr in ((0,), (3,), (0, 2)):
        for o in ({"sim": 1}, {"sim": 1, "m": 1}):
            yield "history", pr, o, (None,) * 4


def run_case(c):
    kind, pr, o, x = c
    if kind == "grid":
        n4, pi = pr
        ps = [problems(n4)[pi]]
        if o.get("ls"):
            D = forced(ps[0]["D"], o.get("D"))
        return judge(ps, ["ps"], o, [x])
    if kind == "history":
        P = problems()
        ps = [P[i] for i in pr]
        o = dict(o)
        if o.get("ls"):
            for p in ps:
                for y in x:
                    pl = plan_of(y)
                    if pl and not all(feasible(pl, p, p["D"], with_service(p["D"], p["st"]))):
                        o.pop("ls")
                        break
                if not o.get("ls"):
                    break
        return judge(ps, ["ps", "ss"], o, list(x))
    return OTHER[kind](pr, o, x)


# ---------------------------------------------------------------- other parts

def file_args(pr, o, x):
    """Directories, lists and recursion: each file once, in natural order."""
    base = os.path.join(make_scratch(), "%d-tree" % os.getpid())
    P = problems()
    tree = {"": ["a10.vrp", "a9.vrp", "b.tsp", "note.md"], "sub": ["c1.vrp", "c.txt"], "sub/deep": ["d2.VRP", "d3.vrp"], "sub/deep/er": ["e.vrp"], "zz": ["f.pickle"]}
    for d, fs in tree.items():
        os.makedirs(os.path.join(base, d), exist_ok=True)
        for f in fs:
            with open(os.path.join(base, d, f), "wb") as h:
                h.write(pickle.dumps(0) if f.endswith("pickle") else P[0]["text"].encode())
    lst = os.path.join(base, "sub", "c.txt")
    with open(lst, "w") as h:
        h.write("\n".join([os.path.join(base, "a9.vrp"), "", os.path.join(base, "missing.vrp"), "  " + os.path.join(base, "sub/c1.vrp") + " "]))
    J = lambda *a: os.path.join(base, *a)
    direct = {"": [J("a9.vrp"), J("a10.vrp"), J("b.tsp")], "sub": [J("sub/c1.vrp")], "sub/deep": [J("sub/deep/d3.vrp")], "sub/deep/er": [J("sub/deep/er/e.vrp")], "zz": [J("zz/f.pickle")]}
    items = {"dir": ([base], direct[""]), "sub": ([J("sub")], direct["sub"]), "list": ([lst], [J("a9.vrp"), J("sub/c1.vrp")]), "file": ([J("a9.vrp")], [J("a9.vrp")]), "upper": ([J("sub/deep/d2.VRP")], [J("sub/deep/d2.VRP")]),
             "none": ([J("note.md")], []), "missing": ([J("nope.vrp")], []), "pickle": ([J("zz/f.pickle")], [J("zz/f.pickle")])}
    arg, want, rec = [], [], pr[1]
    for k in pr[0]:
        arg += items[k][0]
        if k == "dir" and rec:
            want += sum((direct[d] for d in direct), [])
        elif k == "sub" and rec:
            want += direct["sub"] + direct["sub/deep"] + direct["sub/deep/er"]
        else:
            want += items[k][1]
    f = shared_cli.get_a_problem_file_list
    with contextlib.redirect_stderr(io.StringIO()):
        got, err = guarded(lambda: f(list(arg), True) if rec else f(list(arg)), 10)
    if err:
        return "listing %r %s" % (pr, err)
    if (sorted(got) != sorted(want)) if rec else (got != want):
        return "listing %r%s gives %r, expected %r" % (pr[0], " recursively" if rec else "", [g[len(base):] for g in got], [w[len(base):] for w in want])
    return None


def aliases(pr, o, x):
    t = verypy.algo_name_aliases
    name = pr
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        got, err = guarded(lambda: verypy.get_algorithms(name), 20)
        if err:
            return "get_algorithms(%r) %s" % (name, err)
        up, err = guarded(lambda: verypy.get_algorithms([name.upper()]), 20)
        if err:
            return "get_algorithms(%r) %s" % (name.upper(), err)
    ks = [a[0] for a in got]
    if [a[0] for a in up] != ks:
        return "%r and %r select different algorithms" % (name, name.upper())
    if name in ("all", "classical", "classic"):
        short = set(t.values()) - {"all", "classical"}
        if len(set(ks)) != len(ks) or not set(ks) <= short or (name == "all" and set(ks) != short):
            return "%r selects %r" % (name, ks)
    elif ks != [t[name]]:
        return "%r selects %r instead of %r" % (name, ks, t[name])
    if any(len(a) != 4 or not callable(a[3]) or not a[1] or not a[2] for a in got):
        return "%r selects entries %r" % (name, got)
    # the algorithm the name says: the function is defined where its heuristic is
    return None


def forbid(pr, o, x):
    p = problems()[0]
    algs, no = pr
    st = Stand(lambda ab, i: [0, 1, 0, 2, 0, 3, 0])
    with st:
        r, err = guarded(lambda: call(["-m"] + sum((["-a", a] for a in algs), []) + sum((["--forbid", a] for a in no), []) + [write(p)]), 30)
    if err:
        return err
    got = [l.split(";")[0] for l in r[0].splitlines()[1:]]
    t = verypy.algo_name_aliases
    want = [t[a] for a in algs if t[a] not in [t[b] for b in no]]
    return None if got == want else "-a %s --forbid %s ran %r" % (algs, no, got)


def real(pr, o, x):
    """A real algorithm through the program; everything printed is recomputed."""
    pi, ab = pr
    p = problems()[pi]
    argv = options(o) + ["-a", ab, write(p)]
    r, err = guarded(lambda: call(argv), 60)
    if err:
        return "'%s' on %s %s" % (" ".join(argv[:-1]), p["name"], err)
    txt, end = r
    body = re.split(r"^Solving .*$", txt, flags=re.M)[-1]
    m = re.search(r"^SOLUTION: (\[.*\])$", body, re.M)
    pre = "'%s' on %s: " % (" ".join(argv[:-1]), p["name"])
    if not m:
        return pre + "no solution: %r" % txt[:300]
    sol = [int(v) for v in m.group(1)[1:-1].split(",")]
    w, _ = judge_section(body, sol, p, dict(o, ls=()), [ab])
    if w:
        return pre + w
    D = forced(p["D"], o.get("D"))
    f = feasible(sol, p, D, with_service(D, p["st"]))
    return None if all(f) else pre + "reports the infeasible plan %r" % sol


def solve_one(pr, o, x):
    """read_and_solve_a_problem: what it returns and prints."""
    pi, best_of, verb, mK, outs = pr
    p = problems()[pi]
    path = write(p)
    D, Dc = p["D"], with_service(p["D"], p["st"])
    k = [0]

    def alg(points, D_c, d, C, L, st, ewt, single, minimize_K):
        k[0] += 1
        y = expand(outs[k[0] - 1])
        if isinstance(y, BaseException):
            raise y
        return y
    got, end = None, "ok"
    out = io.StringIO()

    def go():
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                return shared_cli.read_and_solve_a_problem(path, alg, mK, best_of, verb)
        except KeyboardInterrupt:
            return "interrupted"
    got, err = guarded(go, 20)
    pre = "read_and_solve_a_problem on %s, %r: " % (p["name"], pr[1:])
    if err:
        return pre + err
    n_runs = next((i + 1 for i, y in enumerate(outs[:best_of]) if y == "stop" or (y and y[0] == "stop")), best_of)
    stop = n_runs < best_of or outs[n_runs - 1] == "stop" or (outs[n_runs - 1] and outs[n_runs - 1][0] == "stop")
    if k[0] != n_runs:
        return pre + "ran %d times" % k[0]
    cand = [norm(plan_of(y)) for y in outs[:n_runs] if plan_of(y)]
    key = lambda s: (len(ref.split(s)), round(ref.cost(s, Dc), 6)) if mK else (round(ref.cost(s, Dc), 6),)
    if stop:
        if got != "interrupted":
            return pre + "the interrupt did not reach the caller"
    else:
        sol, f, c, t = got
        if sol not in cand or key(sol) != min(map(key, cand)):
            return pre + "returned %r of %r" % (sol, cand)
        if not close(f, ref.cost(sol, D)) or not close(c, ref.cost(sol, Dc)):
            return pre + "returned length %r and cost %r of %r" % (f, c, sol)
    if verb >= 0 and cand:
        m = re.search(r"^SOLUTION: (\[.*\])$", out.getvalue(), re.M)
        if not m:
            return pre + "prints no solution"
        s = [int(v) for v in m.group(1)[1:-1].split(",")]
        if s not in cand or key(s) != min(map(key, cand)):
            return pre + "prints %r, the runs gave %r" % (s, cand)
        txt = "\n".join(l for l in out.getvalue().splitlines() if not l.startswith("TIGHTNESS"))
        w, _ = judge_section(txt[txt.index("SOLUTION: "):], s, p, {"routes": verb > 1, "plain": verb < 1}, [])
        if w:
            return pre + w
    return None


def tsp_program(pr, o, x):
    name, wt = pr
    from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_ropt, solve_tsp_2opt, solve_tsp_3opt
    from verypy.tsp_solvers.tsp_solver_gurobi import solve_tsp_gurobi
    f = {"ropt": solve_tsp_ropt, "2opt": solve_tsp_2opt, "3opt": solve_tsp_3opt, "gurobi": solve_tsp_gurobi}[name]
    pts = [(0, 0), (5, 5), (1, 7), (8, 2), (3, 3), (9, 9), (2, 8), (7, 1), (6, 4)]
    for k in range(2, 10):
        for rot in range(k):
            q = pts[:k][rot:] + pts[:k][:rot]
            p = problem("t%d" % k, q, wt=wt)
            path = write(p, ext=".tsp")
            r, err = guarded(lambda: call([path], lambda: shared_cli.tsp_cli(name, f)), 30)
            if err:
                return "tsp_cli of %s on %r: %s" % (name, q, err)
            m = re.search(r"^SOLUTION: \[(.*)\]$", r[0], re.M)
            c = re.search(r"^COST: (\S+)$", r[0], re.M)
            if not m or not c:
                return "tsp_cli of %s prints %r" % (name, r[0])
            t = [int(v) for v in m.group(1).split(",")]
            if sorted(t[:-1]) != list(range(k)) or t[0] != t[-1] or not close(num(c.group(1)), ref.cost(t, p["D"])):
                return "tsp_cli of %s on %r prints %r" % (name, q, r[0])
    return None


def process(pr, o, x):
    """The program as its own process."""
    pi, extra, ab = pr
    p = problems()[pi]
    r = subprocess.run([sys.executable] + list(extra) + ["-m", "verypy", "-m", "-a", ab, write(p)], cwd=make_scratch(), env=dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    ls = r.stdout.splitlines()
    pre = "python %s -m verypy -m -a %s on %s: " % (" ".join(extra), ab, p["name"])
    if r.returncode != 0 or len(ls) != 2:
        return pre + "ended with %d, printed %r %r" % (r.returncode, r.stdout[-300:], r.stderr[-300:])
    fs = ls[1].split(";")
    if fs[0] != ab or fs[2] != "True":
        return pre + "printed %r" % ls[1]
    return None


OTHER = {"files": file_args, "alias": aliases, "forbid": forbid, "real": real, "solve": solve_one, "tsp": tsp_program, "process": process}


def others(tier):
    ks = ("dir", "sub", "list", "file", "upper", "none", "missing", "pickle")
    for n in (1, 2):
        for c in itertools.permutations(ks, n):
            for rec in (False, True):
                if rec and n == 2 and {"dir", "sub"} == set(c):
                    continue
                yield "files", (c, rec), {}, None
    for a in sorted(verypy.algo_name_aliases):
        yield "alias", a, {}, None
    for algs in itertools.chain(itertools.permutations(("ps", "ss"), 2), itertools.permutations(("ps", "ss", "swp"), 3), (("cw", "sequentialsavings", "sweep"),)):
        for n in range(0, 4):
            for no in itertools.permutations(("ps", "we64-ss", "sweep"), n):
                yield "forbid", (algs, no), {}, None
    short = sorted(set(verypy.algo_name_aliases.values()) - {"all", "classical"})
    for pi in range(len(problems())):
        for ab in short:
            for o in ({"routes": 1, "b": "K"}, {"vrph": 1, "c": 1, "ls": ("3opt",)}, {"D": "ROUND", "one": 1}):
                if problems()[pi]["name"] == "expl" and o.get("D"):
                    continue
                if ab == "ptl" and o.get("one"):
                    continue                    # one iteration of it need not be feasible
                if o.get("b") and ab in ("sn", "pn", "ty", "lr3o"):
                    o = dict(o, b="cost")       # they refuse to minimize vehicles
                yield "real", (pi, ab), o, None
    pl = plans(3)
    for pi in (0, 2, 3):
        for mK in (False, True):
            for verb in (-1, 0, 1, 3):
                for a in pl:
                    yield "solve", (pi, 1, verb, mK, (a,)), {}, None
                    yield "solve", (pi, 1, verb, mK, (("stop", a),)), {}, None
                for a, b in itertools.permutations(pl[::2], 2):
                    yield "solve", (pi, 2, verb, mK, (a, b)), {}, None
                    yield "solve", (pi, 3, verb, mK, (None, a, b)), {}, None
                    yield "solve", (pi, 3, verb, mK, (a, ("stop", b), a)), {}, None
                    yield "solve", (pi, 2, verb, mK, (a, "stop")), {}, None
                    yield "solve", (pi, 3, verb, mK, (a, b, None)), {}, None
    for n in ("ropt", "2opt", "3opt", "gurobi"):
        for wt in ("EUC_2D", "EXACT_2D", "CEIL_2D"):
            yield "tsp", (n, wt), {}, None
    for pi in (0, 2):
        for ex in ((), ("-O",)):
            for ab in ("ps", "gm"):
                yield "process", (pi, ex, ab), {}, None


GEN = {"grid": grid, "flags": flags, "history": histories, "other": others}


def shards(tier):
    for k, n in (("other", 24), ("grid", 24), ("history", 8), ("flags", 8)):
        for i in range(n):
            yield (tier, k, i, n)


def run(shard, rec):
    tier, kind, part, parts = shard
    for i, c in enumerate(GEN[kind](tier)):
        if i % parts != part:
            continue
        rec.state(c)
        w = run_case(c)
        rec.step(); rec.valid()
        rec.outcome(c[0])
        if w:
            rec.fail({"case": list(c)}, w)
        if i == part:
            rec.sample({"case": repr(c)})


def replay(case):
    return run_case(case["case"])
