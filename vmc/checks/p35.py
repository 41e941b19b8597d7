"""P35: the program of each single heuristic, and the problems it generates."""
import contextlib, io, itertools, logging, math, os, random, re, runpy, sys
import numpy as np
from vmc import ref
from vmc import tsplib as T
from vmc.core import guarded, make_scratch
from vmc.checks import p20
from vmc.checks.p20 import expand, plan_of, norm, close, num, problems, with_service, feasible, judge_section, write
from verypy import shared_cli, cvrp_io

LEVEL = "model_checking"
TECHNIQUE = "the real single-heuristic program is run on every combination of options, arguments and outcomes of the heuristic (a stand-in) of the bounded space, its random problem generator on every sequence of random choices from a small alphabet; everything printed is recomputed"
NOTE = ("Complete within the bounds. The program runs in process; the real heuristics' own entry points are run as main modules as well. "
        "The help text that follows the solution of a generated problem is not judged.")
BOUNDS = {"quick": "3 problem files x 6 objectives x single or not x verbosity none, 0-3 x 1-3 repetitions x plans, none, failures, interrupts; one or two problem files in a directory or list; every sequence of random angles, radii and demands from 3 values for 1-2 customers (fewer for 3); the entry points of 20 heuristics on 5 problems",
          "thorough": "as quick with random problems of 3 customers in full"}
ASSUMPTIONS = ["well-formed problem files", "the random source may return any value of the stated distribution's range"]

MODULES = ("parallel_savings", "cawlip_savings", "gaskell_savings", "sequential_savings", "paessens_savings", "suppression_savings", "cheapest_insertion",
           "mole_jameson_insertion", "tyagi_nearest_neighbor", "nearest_neighbor", "sweep", "wren_holliday_sweep", "gillet_miller_sweep", "rfcs", "cmt_2phase",
           "lr3opt", "matchingvrp", "gapvrp", "petalvrp")


def argv_of(o):
    a = []
    if o.get("v") is not None:
        a += ["-v", str(o["v"])]
    if o.get("n"):
        a += ["-n", str(o["n"])]
    if o.get("one"):
        a += ["-1"]
    if o.get("t"):
        a += ["-t"]
    if o.get("b"):
        a += ["-b", o["b"]]
    return a


def call(args, f):
    """As p20.call, an interrupt being one way to end."""
    end = ["ok"]

    def go():
        try:
            f()
        except KeyboardInterrupt:
            end[0] = "interrupted"
    txt, e = p20.call(args, go)
    return txt, end[0] if e == "ok" else e


class Alg:
    """Stand-in heuristic; keeps what it was given."""
    def __init__(self, outs):
        self.outs, self.calls = outs, []

    def __call__(self, points, D, d, C, L, st, wtt, single, minimize_K):
        self.calls.append((points, np.array(D), d, C, L, st, wtt, single, minimize_K))
        o = self.outs[len(self.calls) - 1]
        if callable(o):
            o = o(len(D))
        o = expand(o)
        if isinstance(o, BaseException):
            raise o
        return o


def is_stop(y):
    return y == "stop" or bool(isinstance(y, (list, tuple)) and y and y[0] == "stop")


def key(s, W, mK):
    return (len(ref.split(s)), round(ref.cost(s, W), 6)) if mK else (round(ref.cost(s, W), 6),)


def files(pr, o, outs):
    """The program on problem files."""
    probs = [problems()[i] for i in pr]
    if len(probs) == 1 and not o.get("dir"):
        target = write(probs[0])
        order = probs
    elif o.get("dir"):
        sub = "p35-" + "-".join(map(str, pr))
        for p in probs:
            target = os.path.dirname(write(p, sub=sub))
        order = sorted(probs, key=lambda p: p["name"].lower())
    else:
        target = os.path.join(make_scratch(), "%d-p35.txt" % os.getpid())
        with open(target, "w") as f:
            f.write("\n".join(write(p) for p in probs) + "\n")
        order = probs
    alg = Alg(outs)
    args = argv_of(o)
    pre = "'%s' on %s, outcomes %r: " % (" ".join(args), [p["name"] for p in order], outs)
    r, err = guarded(lambda: call(args + [target], lambda: shared_cli.cli("NAME", "description", alg)), 30)
    if err:
        return pre + err
    txt, end = r
    n, verb, mK = o.get("n") or 1, 3 if o.get("v") is None else o["v"], (o.get("b") or "c").lower() in ("k", "vehicles")
    k, stopped, groups = 0, False, []
    for p in order:
        ys = []
        for _ in range(n):
            if stopped:
                break
            ys.append(outs[k])
            k += 1
            stopped = is_stop(ys[-1])
        if ys:
            groups.append((p, ys))
    if len(alg.calls) != k:
        return pre + "ran the heuristic %d times, expected %d" % (len(alg.calls), k)
    if end != ("interrupted" if stopped else "ok"):
        return pre + "ended as %s" % end
    i = 0
    for p, ys in groups:
        W = with_service(p["D"], p["st"])
        for _ in ys:
            pts, Dc, d, C, L, st, wt, single, m = alg.calls[i]
            i += 1
            if not np.allclose(Dc, W, atol=1e-9, rtol=0) or C != p["C"] or L != p["L"] or (st or None) != (p["st"] or None) or (p["C"] and list(d) != list(p["d"])) or pts is None or len(pts) != len(W):
                return pre + "gave the heuristic %r on %s" % ((pts, Dc.tolist(), d, C, L, st), p["name"])
            if bool(single) != bool(o.get("one")) or bool(m) != mK:
                return pre + "asked for single iteration %r, minimize vehicles %r" % (single, m)
    parts = re.split(r"^Solve (\S+) with NAME$", txt, flags=re.M)
    if len(parts) != 1 + 2 * len(groups):
        return pre + "announces %d problems of %d" % ((len(parts) - 1) // 2, len(groups))
    for g, (p, ys) in enumerate(groups):
        name, body = parts[1 + 2 * g], parts[2 + 2 * g]
        if not name.startswith(p["name"] + "-"):
            return pre + "announces %s instead of %s" % (name, p["name"])
        W = with_service(p["D"], p["st"])
        cand = [norm(plan_of(y)) for y in ys if plan_of(y)]
        m = re.search(r"^SOLUTION: (\[.*\])$", body, re.M)
        if not cand:
            if m:
                return pre + "prints a solution although there is none: %r" % m.group(0)
            continue
        if not m:
            return pre + "prints no solution"
        s = [int(v) for v in m.group(1)[1:-1].split(",")]
        if s not in cand or key(s, W, mK) != min(key(c, W, mK) for c in cand):
            return pre + "prints %r, the runs gave %r" % (s, cand)
        body = "\n".join(l for l in body.splitlines() if not l.startswith("TIGHTNESS"))
        w, _ = judge_section(body, s, p, {"routes": verb > 1, "plain": verb < 1}, [])
        if w:
            return pre + w
        if o.get("t") and len(re.findall(r"^SOLVED IN: \S+ s$", body, re.M)) < len([y for y in ys if plan_of(y)]):
            return pre + "prints no time"
    return None


# ---- generated problems

class Choice:
    """The random source: hands out the given values in turn."""
    def __init__(self, seq):
        self.seq, self.used = seq, 0

    def _next(self, k):
        v = self.seq[self.used % len(self.seq)][k]
        self.used += 1
        return v

    def random(self):
        return (0.0, 0.37, 0.999999)[self._next(0)]

    def gauss(self, mu, sigma):
        return mu + (-4.0, 0.31, 5.0)[self._next(1)] * sigma

    def __enter__(self):
        self.saved = random.random, random.gauss
        random.random, random.gauss = self.random, self.gauss
        return self

    def __exit__(self, *a):
        random.random, random.gauss = self.saved


def generated(P, n, C):
    """What is wrong with a generated problem of n customers."""
    pts, d, D = P
    if len(pts) != n + 1 or len(d) != n + 1 or np.shape(D) != (n + 1, n + 1):
        return "has %d points, %d demands and distances of shape %r" % (len(pts), len(d), np.shape(D))
    if tuple(pts[0]) != (0.0, 0.0) or d[0] != 0:
        return "has the depot %r with demand %r" % (pts[0], d[0])
    if any(not 1 <= x <= C for x in d[1:]):
        return "has the demands %r with capacity %r" % (d, C)
    W = np.array(T.matrix([tuple(map(float, p)) for p in pts], "EUC_2D"), dtype=float)
    if not np.allclose(np.asarray(D, dtype=float), W, atol=1e-9, rtol=0):
        return "has distances %r for the points %r" % (np.asarray(D).tolist(), pts)
    return None


def generate(pr, o, seq):
    n, C, mu, sd, regular = pr
    with Choice([(a, a) for a in seq]):
        P, err = guarded(lambda: cvrp_io.generate_CVRP(n, C, mu, sd, **({"regular": True} if regular else {})), 10)
    pre = "generate_CVRP%r with choices %r " % (pr, seq)
    if err:
        return pre + err
    w = generated((P.customer_points if hasattr(P, "customer_points") else P[1], P[3], P[4]), n, C)
    if w:
        return pre + w
    if P[5] != C:
        return pre + "has capacity %r" % (P[5],)
    if regular:
        r = [math.hypot(*p) for p in P[1][1:]]
        a = sorted(math.atan2(y, x) for x, y in P[1][1:])
        gaps = [(b - c) % (2 * math.pi) for b, c in zip(a[1:] + a[:1], a)] if n > 1 else []
        if max(r) - min(r) > 1e-6 or any(abs(g - 2 * math.pi / n) > 1e-6 for g in gaps):
            return pre + "is not regular: %r" % (P[1],)
    return None


def random_problem(pr, o, seq):
    """The program given a number of customers."""
    n, outs = pr
    mk = {"one": lambda N: [0] + list(range(1, N)) + [0], "each": lambda N: ref.join([[i] for i in range(1, N)])}
    ys = [mk.get(x, x) if isinstance(x, str) else (x[0], x[1]) if x else x for x in outs]
    got = []

    def plan(y, N):
        if y is None or isinstance(y, str):
            return y
        if callable(y):
            return y(N)
        return (y[0], mk[y[1]](N))
    alg = Alg([(lambda N, y=y: plan(y, N)) for y in ys])
    args = argv_of(dict(o, n=len(outs))) + [str(n)]
    with Choice([(a, a) for a in seq]):
        r, err = guarded(lambda: call(args, lambda: shared_cli.cli("NAME", "description", alg)), 30)
    pre = "'%s', outcomes %r, random choices %r: " % (" ".join(args), outs, seq)
    if err:
        return pre + err
    txt, end = r
    if end not in ("ok", "interrupted"):
        return pre + "ended with %s" % end
    runs = []
    for y in ys:
        runs.append(plan(y, n + 1))
        if is_stop(runs[-1]):
            break
    if len(alg.calls) != len(runs):
        return pre + "ran the heuristic %d times, expected %d" % (len(alg.calls), len(runs))
    mK = (o.get("b") or "c").lower() in ("k", "vehicles")
    for pts, D, d, C, L, st, wt, single, m in alg.calls:
        w = generated((pts, d, D), n, C)
        if w:
            return pre + "the problem " + w
        if L is not None or bool(m) != mK or bool(single) != bool(o.get("one")):
            return pre + "gave the heuristic %r" % ((L, single, m),)
    D, d, C = alg.calls[0][1], list(alg.calls[0][2]), alg.calls[0][3]
    cand = [norm(plan_of(y)) for y in runs if plan_of(y)]
    m = re.search(r"^SOLUTION: (\[.*\])$", txt, re.M)
    if not cand:
        return pre + "prints %r without a solution" % m.group(0) if m else None
    if not m:
        return pre + "prints no solution"
    s = [int(v) for v in m.group(1)[1:-1].split(",")]
    if s not in cand or key(s, D, mK) != min(key(c, D, mK) for c in cand):
        return pre + "prints %r, the runs gave %r" % (s, cand)
    p = {"name": "r", "D": np.asarray(D, dtype=float), "d": d, "C": C, "L": None, "st": None}
    verb = 3 if o.get("v") is None else o["v"]
    w, _ = judge_section(txt[m.start():], s, p, {"routes": verb > 1, "plain": True}, [])
    return pre + w if w else None


def usage(pr, o, x):
    """Without a problem, or asked for help, nothing is solved."""
    alg = Alg([])
    path = {"missing": "/nonexistent/x.vrp", "help": write(problems()[0]), "long": write(problems()[0]), "empty": os.path.join(make_scratch(), "empty-dir")}[pr]
    if pr == "empty":
        os.makedirs(path, exist_ok=True)
    args = {"help": ["-h"], "long": ["--help"]}.get(pr, []) + [path]
    r, err = guarded(lambda: call(args, lambda: shared_cli.cli("NAME", "description", alg)), 30)
    if err:
        return "%r: %s" % (args, err)
    return "%r ran the heuristic or ended with %s" % (args, r[1]) if alg.calls or r[1] != "ok" else None


def real(pr, o, x):
    """A heuristic's own entry point."""
    pi, mod = pr
    p = problems()[pi]
    args = argv_of(o) + [write(p)]
    pre = "%s %s on %s: " % (mod, " ".join(args[:-1]), p["name"])
    name = "verypy.classic_heuristics." + mod

    def go():
        old = sys.modules.pop(name, None)
        try:
            runpy.run_module(name, run_name="__main__")
        finally:
            if old is not None:
                sys.modules[name] = old
    r, err = guarded(lambda: call(args, go), 60)
    if err:
        return pre + err
    txt, end = r
    if end != "ok":
        return pre + "ended as " + end
    m = re.search(r"^SOLUTION: (\[.*\])$", txt, re.M)
    if not m:
        return None if mod == "gapvrp" else pre + "prints no solution: %r" % txt[-300:]
    sol = [int(v) for v in m.group(1)[1:-1].split(",")]
    body = "\n".join(l for l in txt[m.start():].splitlines() if not l.startswith("TIGHTNESS"))
    w, _ = judge_section(body, sol, p, {"routes": (3 if o.get("v") is None else o["v"]) > 1, "plain": True}, [])
    if w:
        return pre + w
    f = feasible(sol, p, p["D"], with_service(p["D"], p["st"]))
    return None if all(f) else pre + "reports the infeasible plan %r" % sol


KIND = {"files": files, "generate": generate, "random": random_problem, "usage": usage, "real": real}


def cases(kind, tier):
    P3 = p20.plans(3)
    a, b, c = P3[0], P3[len(P3) // 2], P3[-1]
    if kind == "files":
        for pi in (0, 2, 3):
            for obj, one, t, v in itertools.product((None, "c", "cost", "K", "k", "vehicles"), (0, 1), (0, 1), (None, 0, 1, 2, 3)):
                o = {"b": obj, "one": one, "t": t, "v": v}
                for x in (a, b, None):
                    yield kind, (pi,), o, (x,)
                yield kind, (pi,), o, (("stop", b),)
            for obj, v in itertools.product((None, "K"), (0, 3)):
                o = {"b": obj, "v": v}
                for x in P3:
                    yield kind, (pi,), o, (x,)
                al = (a, b, c, None)
                for n in (2, 3):
                    for xs in itertools.product(al, repeat=n):
                        yield kind, (pi,), dict(o, n=n), xs
                    for xs in itertools.product(al, repeat=n - 1):
                        yield kind, (pi,), dict(o, n=n), xs + ("stop",)
                        for x in (a, b, c):
                            yield kind, (pi,), dict(o, n=n), xs + (("stop", x),)
                        yield kind, (pi,), dict(o, n=n), (("stop", c),) + xs
        for pr in ((0, 2), (2, 3), (3, 0)):
            for dr, obj, n in itertools.product((0, 1), (None, "K"), (None, 2)):
                for xs in itertools.product((a, c, None, ("stop", b), "stop"), repeat=2 if not n else 4):
                    if n and (xs[0] is None) != (xs[2] is None):
                        continue
                    yield kind, pr, {"dir": dr, "b": obj, "n": n, "v": 0}, xs
    elif kind == "generate":
        for n in (1, 2) if tier == "quick" else (1, 2, 3):
            for C, mu, sd, reg in ((100, 20, 5, False), (10, 20, 5, False), (5, 2, 3, False), (100, 20, 5, True), (3, 3, 2, True)):
                for seq in itertools.product((0, 1, 2), repeat=n * (1 if reg else 3)):
                    yield kind, (n, C, mu, sd, reg), {}, seq
        for n in range(3, 9):
            for seq in itertools.product((0, 1, 2), repeat=4):
                yield kind, (n, 100, 20, 5, n % 2 == 0), {}, seq
    elif kind == "random":
        for n in (1, 2):
            for seq in itertools.product((0, 1, 2), repeat=3 * n if n == 1 or tier != "quick" else 4):
                for outs in (("one",), ("each",), ("one", "each"), ("each", None, "one"), ("one", ("stop", "each")), (None, "one"), (("stop", "each"),), ("each", "stop"), ("stop",), (None,)):
                    for obj in (None, "K"):
                        yield kind, (n, outs), {"b": obj, "v": 0}, seq
        for n in (3, 5, 12):
            for o in ({"one": 1}, {"v": 1}, {"v": 2, "t": 1}, {"v": 3, "b": "vehicles"}):
                for seq in itertools.product((0, 1, 2), repeat=2):
                    yield kind, (n, ("each", "one")), o, seq
    elif kind == "usage":
        for x in ("missing", "help", "long", "empty"):
            yield kind, x, {}, None
    elif kind == "real":
        for mod in MODULES:
            for pi in (0, 1, 2, 3, 7):
                for o in ({"v": 0}, {"v": 1, "b": "K"}, {"v": 2, "one": 1, "t": 1}):
                    if mod == "petalvrp" and o.get("one"):
                        continue                    # one iteration of it need not be feasible
                    if o.get("b") and mod in ("nearest_neighbor", "tyagi_nearest_neighbor", "lr3opt"):
                        o = dict(o, b="cost")       # they refuse to minimize vehicles
                    if mod == "gapvrp" and problems()[pi]["C"] is None:
                        continue                    # it needs a capacity
                    yield kind, (pi, mod), o, None


def shards(tier):
    for k, n in (("real", 16), ("files", 16), ("random", 8), ("generate", 4), ("usage", 1)):
        for i in range(n):
            yield (tier, k, i, n)


def run(shard, rec):
    tier, kind, part, parts = shard
    for i, c in enumerate(cases(kind, tier)):
        if i % parts != part:
            continue
        if not rec.state(c):
            continue
        w = KIND[c[0]](*c[1:])
        rec.step(); rec.valid()
        rec.outcome(c[0])
        if w:
            rec.fail({"case": list(c)}, w)
        if i == part:
            rec.sample({"case": repr(c)})


def replay(case):
    c = case["case"]
    return KIND[c[0]](*c[1:])
