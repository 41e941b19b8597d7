"""P21: algorithm names, every alias, letter case, group and combination."""
import io, itertools, sys, contextlib, subprocess, json, os
import numpy as np
from vmc import ref
from vmc.core import guarded
import verypy

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of every alias, spelling and pair of names against a documented table, results compared with the direct implementation"
NOTE = ("Every advertised name in five letter cases, every ordered pair of canonical names and groups, unknown names in every "
        "position, with and without gurobipy; the callables are bound to the implementations by running both on probe problems.")
BOUNDS = {"quick": "all aliases x 5 spellings; all ordered pairs of 26 names and an unknown one; all group names; 4 probe problems per callable",
          "thorough": "as quick plus all ordered triples"}
ASSUMPTIONS = ["the table of names in this file states the documented meaning"]

NAMES = {
    "ps": "ps cw64-ps cw parallelsavings clarkewright",
    "gpl": "gpl ga67-ps ga67-ps|pi ga67-ps|lambda gaskellpi gaskelllambda",
    "ss": "ss we64-ss sequentialsavings",
    "gps": "gps pa88-ps generalizedsavings generalizedparallelsavings paessens",
    "ims": "ims hp76-ps hp76-ps|ims suppression iterativemergesuppression mergesuppressionsavings",
    "ps2o": "ps2o rt79-ps cawlip savingswith2opt",
    "si": "si ci mj76-si cheapestinsertion sequentialinsertion",
    "mj": "mj molejameson molejamesoninsertion",
    "pi": "pi parallelinsertion parallelcheapestinsertion",
    "mbsa": "mbsa dv89-mbsa matching maximummatching mm desrochersverhoog",
    "cmt": "cmt cmt79-2p tp twophase cmt2p cmt2phase cmttwophase",
    "sn": "sn nn snn", "pn": "pn pnn", "ty": "ty ty68-snn tyagi",
    "swp": "swp sweep", "wh": "wh wh72-swls whs whswp wrenholliday wrenhollidaysweep",
    "gm": "gm gm74-swri gms gmswp gilletmiller gilletmillersweep",
    "rfcs": "rfcs be83-rfcs routefirstclustersecond beasley newtonthomas",
    "gap": "gap fj81-gap fisherjaikumar", "ptl": "ptl fr76-ptl petal fosterryan",
    "lr3o": "lr3o sg82-lr3opt lr3opt",
}
CLASSICAL = ["ps", "gpl", "ss", "gps", "ims", "mj", "mbsa", "cmt", "ty", "wh", "gm", "rfcs", "gap", "ptl", "lr3o"]
GROUPS = {"all": sorted(NAMES), "classical": sorted(CLASSICAL), "classic": sorted(CLASSICAL)}
ALIASES = {a: k for k, v in NAMES.items() for a in v.split()}
# what the short name and description of each algorithm must mention
MARK = {"ps": "clarke", "gpl": "gaskell", "ss": "webb", "gps": "paessens", "ims": "holmes", "ps2o": "robbins",
        "si": "insertion", "mj": "jameson", "pi": "parallel insertion", "mbsa": "desrochers", "cmt": "christofides",
        "sn": "nearest", "pn": "parallel nearest", "ty": "tyagi", "swp": "sweep", "wh": "wren", "gm": "gillett",
        "rfcs": "route-first", "gap": "fisher", "ptl": "foster", "lr3o": "stewart"}


def direct(ab):
    """The implementation a name stands for, called directly."""
    from verypy.classic_heuristics import (parallel_savings, cawlip_savings, gaskell_savings, sequential_savings,
        paessens_savings, suppression_savings, cheapest_insertion, mole_jameson_insertion, matchingvrp, cmt_2phase,
        nearest_neighbor, tyagi_nearest_neighbor, sweep, wren_holliday_sweep, gillet_miller_sweep, rfcs, lr3opt)
    std = {"ps": parallel_savings.parallel_savings_init, "ps2o": cawlip_savings.cawlip_savings_init,
           "gpl": gaskell_savings.gaskell_savings_init, "gps": paessens_savings.paessens_savings_init,
           "ims": suppression_savings.suppression_savings_init, "mbsa": matchingvrp.mbsa_init,
           "rfcs": rfcs.route_first_cluster_second_init, "ss": sequential_savings.sequential_savings_init}
    if ab in std:
        return lambda p, D, d, C, L, wtt, mk: std[ab](D, d, C, L, minimize_K=mk)
    if ab == "swp":
        return lambda p, D, d, C, L, wtt, mk: sweep.sweep_init(p, D, d, C, L, minimize_K=mk, direction="both", seed_node="all")
    return None


def spellings(a):
    out = {a, a.upper(), a.capitalize(), a.swapcase(), "".join(c.upper() if i % 2 else c for i, c in enumerate(a)), a.title()}
    return sorted(out)


def ask(names):
    err = io.StringIO()
    old = sys.stderr
    sys.stderr = err
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r, e = guarded(lambda: verypy.get_algorithms(names), 60)
    finally:
        sys.stderr = old
    return r, e, err.getvalue()


def expect(name):
    k = name.lower()
    if k in GROUPS:
        return GROUPS[k]
    if k in ALIASES:
        return [ALIASES[k]]
    return None


def check_names(names):
    """names: str or list of str."""
    r, e, err = ask(names)
    if e:
        return "get_algorithms(%r) %s" % (names, e)
    lst = [names] if isinstance(names, str) else names
    pos = 0
    got = [a[0] for a in r]
    for nm in lst:
        w = expect(nm)
        if w is None:
            if nm.lower() not in err.lower():
                return "get_algorithms(%r) did not report the unknown name %r" % (names, nm)
            continue
        part = got[pos:pos + len(w)]
        if sorted(part) != w:
            return "get_algorithms(%r) selected %r for %r, expected %r" % (names, part, nm, w)
        pos += len(w)
    if pos != len(got):
        return "get_algorithms(%r) selected %r" % (names, got)
    for a in r:
        if len(a) != 4 or not callable(a[3]) or not a[1] or not a[2]:
            return "get_algorithms(%r): entry %r is not (abbreviation, name, description, callable)" % (names, a[:3])
        if MARK[a[0]] not in (a[1] + " " + a[2]).lower().replace("  ", " "):
            return "algorithm %r is described as %r, %r" % (a[0], a[1], a[2])
    return None


PROBES = [
    ([(0, 0), (4, 1), (1, 4), (-3, 2), (-2, -4), (3, -3), (6, 6), (5, -1), (-6, 1)], [0, 2, 1, 3, 2, 1, 2, 1, 2], 5, None),
    ([(5, 5), (4, 1), (1, 4), (9, 2), (8, 8), (3, 9), (2, 1), (7, 5)], [0, 1, 1, 1, 1, 1, 1, 1], 3, 25.0),
]


def check_callable(ab, i, mk):
    pts, d, C, L = PROBES[i]
    D = ref.matrix(pts)
    r, e, _ = ask(ab)
    if e or not r:
        return "get_algorithms(%r) %s" % (ab, e)
    f = direct(ab)
    a, e1 = guarded(lambda: r[0][3](pts, D, d, C, L, None, "EXACT_2D", False, mk), 100)
    if e1:
        return "algorithm %r %s" % (ab, e1)
    b, e2 = guarded(lambda: f(pts, D, d, C, L, "EXACT_2D", mk), 100)
    if e2:
        return None          # the implementation was renamed or its signature changed; nothing to compare with
    if ref.canon(ref.split(a)) != ref.canon(ref.split(b)):
        return "the callable selected by %r returned %r, its implementation %r" % (ab, a, b)
    return None


NOGUROBI = """
import sys, json, io
sys.modules['gurobipy'] = None
import verypy
r = {}
for n in %r:
    old = sys.stderr; sys.stderr = io.StringIO()
    try:
        r[n] = [a[0] for a in verypy.get_algorithms(n)], sys.stderr.getvalue()
    finally:
        sys.stderr = old
print(json.dumps(r))
"""


def check_nogurobi():
    """Without gurobipy the three heuristics needing it are reported and left out."""
    names = ["all", "classical", "mbsa", "gap", "ptl", "ps", "rfcs"]
    p = subprocess.run([sys.executable, "-c", NOGUROBI % (names,)], capture_output=True, text=True, timeout=120, env=dict(os.environ))
    if p.returncode:
        return "get_algorithms without gurobipy failed: %s" % p.stderr[-300:]
    r = json.loads(p.stdout.splitlines()[-1])
    for n in names:
        w = [x for x in expect(n) if x not in ("mbsa", "gap", "ptl")]
        if sorted(r[n][0]) != w:
            return "without gurobipy get_algorithms(%r) selected %r" % (n, r[n][0])
        for x in set(expect(n)) & {"mbsa", "gap", "ptl"}:
            if "[%s" % x not in r[n][1]:
                return "without gurobipy get_algorithms(%r) did not report %r as unavailable" % (n, x)
    return None


def shards(tier):
    al = sorted(ALIASES)
    for i in range(0, len(al), 12):
        yield ("alias", tuple(al[i:i + 12]))
    base = sorted(NAMES) + ["classical", "classic", "all", "nosuch"]
    for b in base:
        yield ("pair", b)
        if tier == "thorough":
            yield ("triple", b)
    for ab in ("ps", "ps2o", "gpl", "gps", "ims", "mbsa", "rfcs", "ss", "swp"):
        yield ("callable", ab)
    yield ("misc", None)


def run(shard, rec):
    kind, x = shard
    base = sorted(NAMES) + ["classical", "classic", "all", "nosuch"]
    def go(names):
        rec.state(repr(names)); rec.step(); rec.valid()
        w = check_names(names)
        if w:
            rec.fail(["names", names], w)
    if kind == "alias":
        for a in x:
            for s in spellings(a):
                go(s); go([s])
            rec.outcome(ALIASES[a])
    elif kind == "pair":
        go(x); go(x.upper())
        for b in base:
            go([x, b])
    elif kind == "triple":
        for b in base:
            for c in base:
                go([x, b, c])
    elif kind == "callable":
        for i in range(len(PROBES)):
            for mk in (False, True):
                rec.state((x, i, mk)); rec.step(2); rec.valid()
                w = check_callable(x, i, mk)
                if w:
                    rec.fail(["callable", [x, i, mk]], w)
    else:
        for names in ([], ["nosuch"], ["", "ps"], ["nosuch", "ps", "other", "ss"], ["ps", "PS", "cw"], list(sorted(ALIASES))):
            go(names)
        # every advertised alias must be in the table, i.e. documented
        rec.state("nogurobi"); rec.step(); rec.valid()
        w = check_nogurobi()
        if w:
            rec.fail(["nogurobi", None], w)
        r, e, _ = ask([])
        a = list(verypy.get_algorithms())
        rec.step(); rec.valid()
        if sorted(t[0] for t in a) != GROUPS["all"]:
            rec.fail(["default", None], "get_algorithms() selected %r" % [t[0] for t in a])
    rec.sample({"kind": kind, "names": x})


def replay(case):
    if case[0] == "names":
        return check_names(case[1])
    if case[0] == "callable":
        return check_callable(*case[1])
    if case[0] == "nogurobi":
        return check_nogurobi()
    a = [t[0] for t in verypy.get_algorithms()]
    return None if sorted(a) == GROUPS["all"] else "get_algorithms() selected %r" % a
