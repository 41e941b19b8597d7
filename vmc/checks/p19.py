"""P19: containers and route records under every operation history."""
import copy, collections, itertools, numpy as np
from vmc import ref
from vmc.core import guarded
from verypy import util
from verypy.routedata import RouteData
from verypy.classic_heuristics import nearest_neighbor as nnm

LEVEL = "model_checking"
TECHNIQUE = "breadth-first search over all operation sequences on the real containers, in lock step with an abstract model"
NOTE = ("Every operation sequence up to the depth bound (states merged when the whole object state and the model agree), "
        "each return value and the observable content compared with a list / dict / deque model after every step.")
BOUNDS = {"quick": "ordered set: universe of 3 elements, 6 initial collections, all sequences to depth 6; queue: initial lists up to length 4, all sequences to depth 7; route records: all routes over 1-4 customers, all update sequences to depth 3; node sets of every route over up to 5 customers with 0-3 depots at either end",
          "thorough": "ordered set: universe of 4, depth 8; queue: length 6, depth 10; route records: 1-5 customers, depth 4"}
ASSUMPTIONS = ["queue indices are non-negative, as used"]


def call(f):
    try:
        return ("ok", f())
    except (KeyError, IndexError) as e:
        return ("raise", None)


# ---- ordered set -----------------------------------------------------------
def set_ops(k):
    ops = []
    for x in range(k):
        ops += [("add", x), ("remove", x)]
    for r in range(0, k + 1):
        for c in itertools.combinations(range(k), r):
            ops.append(("diff", c))
    ops += [("get", i) for i in range(-1, k)]
    ops += [("iter", None), ("len", None)]
    return ops


def set_apply(s, m, op):
    """Apply op to real s and model list m; (result, expected)."""
    o, a = op
    if o == "add":
        r = call(lambda: s.add(a))
        if a not in m:
            m.append(a)
        return r, ("ok", None)
    if o == "remove":
        r = call(lambda: s.remove(a))
        if a in m:
            m.remove(a)
            return r, ("ok", None)
        return r, ("raise", None)
    if o == "diff":
        r = call(lambda: s.difference_update(a))
        for x in a:
            if x in m:
                m.remove(x)
        return r, ("ok", None)
    if o == "get":
        return call(lambda: s[a]), call(lambda: m[a])
    if o == "iter":
        return call(lambda: list(s)), ("ok", list(m))
    if o == "len":
        return call(lambda: len(s)), ("ok", len(m))


def set_observe(s, m):
    t = copy.deepcopy(s)
    if list(t) != m or len(t) != len(m):
        return "content %r, expected %r" % (list(t), m)
    got = [call(lambda: t[i]) for i in range(-len(m) - 1, len(m) + 1)]
    want = [call(lambda: m[i]) for i in range(-len(m) - 1, len(m) + 1)]
    if got != want:
        return "indexed content %r, expected %r" % (got, want)
    return None


def set_run(init, ops):
    s, m = util.OrderedDictSet(init), list(dict.fromkeys(init or []))
    w = set_observe(s, m)
    if w:
        return s, m, "OrderedDictSet(%r): %s" % (init, w)
    for i, op in enumerate(ops):
        got, want = set_apply(s, m, op)
        if got[0] != want[0] or (got[0] == "ok" and op[0] in ("get", "iter", "len") and got != want):
            return s, m, "OrderedDictSet(%r) after %r: %r gave %r, expected %r" % (init, ops[:i], op, got, want)
        w = set_observe(s, m)
        if w:
            return s, m, "OrderedDictSet(%r) after %r: %s" % (init, ops[:i + 1], w)
    return s, m, None


# ---- peek queue ------------------------------------------------------------
Q_OPS = [("popleft",), ("popright",), ("peekleft",), ("peekright",), ("len",), ("get", 0), ("get", 1), ("get", 2), ("iter",)]


def q_apply(q, m, op):
    o = op[0]
    if o == "popleft":
        return call(q.popleft), call(m.popleft)
    if o == "popright":
        return call(q.popright), call(m.pop)
    if o == "peekleft":
        return call(q.peekleft), call(lambda: m[0])
    if o == "peekright":
        return call(q.peekright), call(lambda: m[-1])
    if o == "len":
        return call(lambda: len(q)), call(lambda: len(m))
    if o == "get":
        return call(lambda: q[op[1]]), call(lambda: m[op[1]])
    if o == "iter":
        return call(lambda: [q[i] for i in range(len(q))]), call(lambda: list(m))


def q_run(init, ops):
    q, m = nnm._PeekQueue(list(init)), collections.deque(init)
    for i, op in enumerate(ops):
        got, want = q_apply(q, m, tuple(op))
        if got != want:
            return q, m, "_PeekQueue(%r) after %r: %r gave %r, expected %r" % (init, ops[:i], op, got, want)
    return q, m, None


# ---- route records ---------------------------------------------------------
def n_run(raw):
    """Node sets of routes as they may be handed over: without the depot at the ends, with it repeated."""
    want = {x for x in raw if x}
    for name, f in (("RouteData(generate_node_set=True)", lambda: RouteData(list(raw), generate_node_set=True)),
                    ("update_node_set", lambda: upd(raw))):
        r, err = guarded(f, 10)
        if err:
            return "%s of %r: %s" % (name, raw, err)
        if set(r.node_set) != want:
            return "%s of %r gave %r" % (name, raw, r.node_set)
        if r.route != list(raw):
            return "%s changed the route %r to %r" % (name, raw, r.route)
    return None


def upd(raw):
    r = RouteData(list(raw))
    r.update_node_set()
    return r


R_OPS = ["aux1", "aux-1", "aux", "nodes", "norm", "setroute", "reverse"]


def r_setup(n, route, kind):
    pts = [(0, 0), (3, 4), (0, 5), (6, 1), (-2, 3), (1, 1)][:n + 1]
    D = ref.matrix(pts, "EUC_2D" if kind & 1 else "EXACT_2D")
    d = None if kind & 2 else [0] + [1, 2.5, 0, 4, 3][:n]
    return D, d


def r_expect(route, D, d):
    f_l, f_d = [0.0], [0.0]
    for a, b in zip(route, route[1:]):
        f_l.append(f_l[-1] + D[a, b])
        f_d.append(f_d[-1] + (d[b] if d else 0))
    r_l, r_d = [0.0], [0.0]
    rr = route[::-1]
    for a, b in zip(rr, rr[1:]):
        r_l.append(r_l[-1] + D[a, b])
        r_d.append(r_d[-1] + (d[b] if d else 0))
    return f_l, f_d, r_l[::-1], r_d[::-1]


def veq(a, b):
    return a is not None and len(a) == len(b) and all(ref.close(x, y) for x, y in zip(a, b))


def r_run(n, route, kind, ops):
    D, d = r_setup(n, route, kind)
    rd = RouteData.from_routes([list(route)], D, d)[0]
    inner = [x for x in route if x]
    valid = {"f": False, "r": False, "n": True}
    cur = list(route)
    head = "RouteData(%r, kind %d) after %r: " % (route, kind, ops)
    if not ref.close(rd.cost, ref.cost(route, D)) or not ref.close(rd.demand, ref.rdem(inner, d)) or set(rd.node_set) != set(inner):
        return head + "from_routes cost %r demand %r nodes %r" % (rd.cost, rd.demand, rd.node_set)
    if rd.is_empty() != (not inner):
        return head + "is_empty() = %r" % rd.is_empty()
    if [x for x in rd] != [rd.route, rd.cost, rd.demand, rd.node_set] or [rd[i] for i in range(4)] != [rd.route, rd.cost, rd.demand, rd.node_set]:
        return head + "unpacking and indexing disagree with the fields"
    if call(lambda: rd[4])[0] != "raise":
        return head + "index 4 did not raise"
    e = RouteData()
    if e.route != [0, 0] or e.cost != 0 or e.demand != 0 or not e.is_empty():
        return head + "a new record is not an empty route: %r" % (e.route,)
    g = RouteData(list(route), generate_node_set=True)
    if set(g.node_set) != set(inner):
        return head + "generate_node_set gave %r" % (g.node_set,)
    for op in ops:
        if op == "aux1":
            rd.update_auxiliary_data(D, d, 1); valid["f"] = True
        elif op == "aux-1":
            rd.update_auxiliary_data(D, d, -1); valid["r"] = True
        elif op == "aux":
            rd.update_auxiliary_data(D, d); valid["f"] = valid["r"] = True
        elif op == "nodes":
            rd.update_node_set(); valid["n"] = True
        elif op == "norm":
            rd.normalize()
            a, b = list(cur), list(cur)[::-1]
            got = list(rd.route)
            if got not in (a, b) or got[1] > got[-2]:
                return head + "normalize gave %r" % (got,)
            if got != cur:
                valid["f"] = valid["r"] = False
            cur = got
        elif op == "setroute":
            cur = cur[:1] + cur[2:] if len(cur) > 2 else cur
            rd.route = list(cur)
            valid.update(f=False, r=False, n=len(cur) == len(route) and valid["n"])
            valid["n"] = False
        elif op == "reverse":
            cur = cur[::-1]; rd.route = list(cur)
            valid["f"] = valid["r"] = False
        fl, fd, rl, rdm = r_expect(cur, D, d)
        if valid["f"] and not (veq(rd.fwd_l, fl) and veq(rd.fwd_d, fd)):
            return head + "forward cumulative data %r %r, expected %r %r" % (rd.fwd_l, rd.fwd_d, fl, fd)
        if valid["r"] and not (veq(rd.rwd_l, rl) and veq(rd.rwd_d, rdm)):
            return head + "backward cumulative data %r %r, expected %r %r" % (rd.rwd_l, rd.rwd_d, rl, rdm)
        if valid["n"] and set(rd.node_set) != {x for x in cur if x}:
            return head + "node set %r of route %r" % (rd.node_set, cur)
    return None


def shards(tier):
    k = 3 if tier == "quick" else 4
    for init in (None, [], (0,), (1, 0), (2, 1, 0), (0, 1, 0)):
        yield ("set", tier, k, init)
    if hasattr(nnm, "_PeekQueue"):
        for n in range(0, (4 if tier == "quick" else 6) + 1):
            yield ("queue", tier, n, None)
    yield ("nodes", tier, 5, None)
    for n in range(1, (4 if tier == "quick" else 5) + 1):
        for kind in range(4):
            yield ("route", tier, n, kind)


def run(shard, rec):
    what, tier, n, x = shard
    if what == "set":
        depth = 6 if tier == "quick" else 8
        ops = set_ops(n)
        front = [()]
        seen = set()
        for lvl in range(depth):
            nxt = []
            for hist in front:
                for op in ops:
                    h = hist + (op,)
                    (r, err) = guarded(lambda: set_run(x, h), 10)
                    rec.step(); rec.valid()
                    s, m, w = r if r else (None, None, err)
                    if w:
                        rec.fail(["set", x, [list(o) for o in h]], w)
                        return
                    key = (repr(sorted(vars(s).items(), key=str)) if hasattr(s, "__dict__") else repr(h), tuple(m))
                    if key not in seen:
                        seen.add(key)
                        rec.state(("set", x, key))
                        nxt.append(h)
            front = nxt
            rec.outcome("set depth %d: %d new states" % (lvl + 1, len(nxt)))
        rec.sample({"set init": x, "states": len(seen)})
    elif what == "nodes":
        for m in range(n + 1):
            for p in itertools.permutations(range(1, n + 1), m):
                for a in range(4):
                    for b in range(4):
                        raw = [0] * a + list(p) + [0] * b
                        if not p and raw != [0, 0]:
                            continue
                        rec.state(("nodes", tuple(raw))); rec.step(); rec.valid()
                        w = n_run(raw)
                        if w:
                            rec.fail(["nodes", raw], w)
        rec.outcome("node sets of up to %d" % n)
        rec.sample({"route": raw})
    elif what == "queue":
        depth = 7 if tier == "quick" else 10
        inits = [tuple(range(n))] + ([(0,) * n, (None,) * n] if n else [])
        for init in inits:
            front = [()]
            seen = set()
            for lvl in range(depth):
                nxt = []
                for hist in front:
                    for op in Q_OPS:
                        h = hist + (op,)
                        r, err = guarded(lambda: q_run(init, h), 10)
                        rec.step(); rec.valid()
                        q, m, w = r if r else (None, None, err)
                        if w:
                            rec.fail(["queue", list(init), [list(o) for o in h]], w)
                            return
                        key = (repr(sorted(vars(q).items(), key=str)), tuple(m))
                        if key not in seen:
                            seen.add(key); rec.state(("queue", init, key)); nxt.append(h)
                front = nxt
        rec.outcome("queue of %d" % n)
        rec.sample({"queue init": list(init), "states": len(seen)})
    else:
        depth = 3 if tier == "quick" else 4
        routes = [[0, 0]] + [[0] + list(p) + [0] for k in range(1, n + 1) for p in itertools.permutations(range(1, n + 1), k)]
        for route in routes:
            for k in range(0, depth + 1):
                for ops in itertools.product(R_OPS, repeat=k):
                    rec.state(("route", tuple(route), ops)); rec.step(); rec.valid()
                    w, err = guarded(lambda: r_run(n, route, x, list(ops)), 10)
                    if w or err:
                        rec.fail(["route", [n, route, x, list(ops)]], w or "RouteData(%r) %r %s" % (route, ops, err))
        rec.outcome("route records n=%d kind %d" % (n, x))
        rec.sample({"route": route})


def replay(case):
    if case[0] == "set":
        r, err = guarded(lambda: set_run(case[1], [tuple(tuple(a) if isinstance(a, list) else a for a in o) for o in case[2]]), 10)
        return err or r[2]
    if case[0] == "nodes":
        return n_run(case[1])
    if case[0] == "queue":
        r, err = guarded(lambda: q_run(case[1], case[2]), 10)
        return err or r[2]
    w, err = guarded(lambda: r_run(*case[1]), 10)
    return err or w
