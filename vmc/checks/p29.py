"""P29: whatever documented options a heuristic is called with, it returns a
complete feasible plan."""
import importlib, itertools
from vmc import ref, instances as I, feascheck as F
from vmc.core import guarded
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small problems, critical limits and every listed combination of documented options, run on the real code and judged by an independent plan checker"
NOTE = ("Complete for the enumerated problems and option combinations. What an option is for (which seeds, which start, "
        "which order) is judged here only through the completeness and feasibility of the plan and, where an option means "
        "'try all of these', through being no worse than each of them. The petal heuristic is only given options under which it may search until its plan is feasible.")
BOUNDS = {"quick": "about 190 option combinations of 17 heuristics x (2-3 customers: a third of the multisets of a 3x3 grid x demands {1,2}^n x C and L levels; two layouts of 5 customers x 4 demand vectors x C and L levels; single customers; a layout of 11 customers for the fast heuristics; of all these every second to fourth problem for the five slowest heuristics); every order the randomised retries of the two-phase heuristic can draw on 3 customers",
          "thorough": "as quick with every multiset of 3 customers, all ten layouts x every demand vector over {1,2}"}
ASSUMPTIONS = ["symmetric planar distances, each customer alone is feasible",
               "the generalized assignment heuristic may give up (None), and needs a capacity or a route limit (a capacity for the large demands seeds)",
               "plans are judged with a tolerance of 1e-6; the code uses 1e-10"]

H = "verypy.classic_heuristics."


def fn(mod, name):
    return getattr(importlib.import_module(H + mod), name)


def prod(**kw):
    ks = list(kw)
    return [dict(zip(ks, v)) for v in itertools.product(*kw.values())]


# name -> (module, function, takes points, supports minimize_K, option combinations)
# The options are plain values; PREP turns the symbolic ones into objects.
SPEC = {
    "insertion": ("cheapest_insertion", "cheapest_insertion_init", False, True,
                  prod(emerging_route_count=[1, 2, 3, 4, 9], initialize_routes_with=["farthest", "closest", "strain"]) +
                  prod(insertion_strain_callback=["@lm0mm0", "@lm2mm1", "@lm1mm1"], initialize_routes_with=["farthest", "strain"])),
    "cmt": ("cmt_2phase", "cmt_2phase_init", False, True,
            prod(phase1_seed_selection_method=["first", "farthest", "closest", "biggest"], phase2_repeated_association_with_n_routes=[1, 2, 3, "K"]) +
            prod(lambda_multiplier=[1.0, 3.0], mu_multiplier=[0.0, 0.5, 2.0]) +
            prod(phase2_choose_most_associated_route=[False], phase2_repeated_association_with_n_routes=[1, 2, "K"]) +
            prod(number_of_randomized_retries=[1, 3])),
    "gaskell": ("gaskell_savings", "gaskell_savings_init", False, True, prod(savings_method=["both", "pi", "lambda"])),
    "paessens": ("paessens_savings", "paessens_savings_init", False, True, prod(strategy=["M1", "M4"], do_3opt=[True, False])),
    "suppression": ("suppression_savings", "suppression_savings_init", False, True, prod(Lprime=[1, 2, 5])),
    "sequential": ("sequential_savings", "sequential_savings_init", False, True, prod(initialize_routes_with=["closest", "farthest"])),
    "sweep": ("sweep", "sweep_init", True, True, prod(direction=["cw", "ccw", "both"], seed_node=[0, -1, -2, 1, 2, "@n", [0, 1]])),
    "gm": ("gillet_miller_sweep", "gillet_miller_init", True, True, prod(direction=["cw", "ccw", "both"], seed_node=[0, -1, -2, 1, 2])),
    "wh": ("wren_holliday_sweep", "wren_holliday_init", True, True,
           prod(direction=["cw", "ccw", "both"], seed_node=[0, -1, -2, 1, "@LEAST_DENSE", "@BEST_OF_FOUR"]) + prod(full_convergence=[False])),
    "lr3opt": ("lr3opt", "lr3opt_init", False, False,
               prod(initialization_algorithm=["@each", "@one", "@back"], postoptimize_with_3optstar=[True, False]) +
               prod(initial_lambda1_C=[0.01, 5.0], initial_lambda1_L=[0.01, 5.0]) + prod(max_concecutive_lamba_incs=[5])),
    "mbsa": ("matchingvrp", "mbsa_init", False, True, prod(W=[0.0, 1.0, -1.0], solve_tsp=["@exact", "@default"])),
    "mj": ("mole_jameson_insertion", "mole_jameson_insertion_init", False, True,
           prod(strain_criterion=["proximity_ranking", "min_strain", "clarke_wright", "gaskell", "augumented_min_strain", "all"])),
    "nn": ("nearest_neighbor", "nearest_neighbor_init", False, False,
           prod(emerging_route_count=[1, 2, 3, 9], initialize_routes_with=["closest", "farthest", "nearest"], add_only_to_end=[False, True])),
    "petal": ("petalvrp", "petal_init", True, True,
              prod(relaxe_SCP_solutions=[True, False], can_discard_multiple_customers=[False, True, 2]) +
              prod(restricted_route_ratio=[0.0, 0.5, 1.0], allow_infeasible=[True, False]) + prod(K=[1, 2, 3]) + prod(min_iterations=[2])),
    "rfcs": ("rfcs", "route_first_cluster_second_init", False, True,
             prod(tsp_gen_algo=["@default", "@exact"], partition_tsp_opt_algo=["@default", "@exact"], route_tsp_opt_algo=["@default", "@exact"])),
    "tyagi": ("tyagi_nearest_neighbor", "tyagi_init", False, False,
              prod(only_large_and_close_customer_single_routes=[False, True], try_interchange_with_all_group_customers=[False, True],
                   select_grouping=["min_penalty", "max_demand", "balanced"])),
    "gap": ("gapvrp", "gap_init", True, True,
            prod(seed_method=["cones", "kmeans", "large_demands", "ends_of_thoroughfares"], find_optimal_seeds=[False, True]) +
            prod(K=[1, 2, 3], find_optimal_seeds=[False]) +
            prod(increase_K_on_failure=[True], find_optimal_seeds=[False], use_adaptive_L_constraint_weights=[True, False])),
}
# option value -> the ones it is made of: trying all is no worse than any of them
META = [("gaskell", {"savings_method": "both"}, [{"savings_method": "pi"}, {"savings_method": "lambda"}]),
        ("mj", {"strain_criterion": "all"}, [{"strain_criterion": x} for x in ("proximity_ranking", "min_strain", "clarke_wright", "gaskell", "augumented_min_strain")]),
        ("mj", {"strain_criterion": "gaskell"}, [{"strain_criterion": "clarke_wright"}]),
        ("mj", {"strain_criterion": "augumented_min_strain"}, [{"strain_criterion": "min_strain"}, {"strain_criterion": "clarke_wright"}])]
for h in ("sweep", "gm", "wh"):
    for s in (0, -1, -2):
        META.append((h, {"direction": "both", "seed_node": s}, [{"direction": x, "seed_node": s} for x in ("cw", "ccw")]))
    for s in (0, -1, 1):
        META.append((h, {"direction": "both", "seed_node": -2}, [{"direction": "both", "seed_node": s}]))
META.append(("wh", {"direction": "both", "seed_node": "@BEST_OF_FOUR"}, [{"direction": "both", "seed_node": "@LEAST_DENSE"}]))

FAST = ["insertion", "gaskell", "paessens", "suppression", "sequential", "sweep", "nn", "tyagi", "mj"]
THIN = {"petal": 3, "gap": 4, "paessens": 2, "wh": 2, "lr3opt": 2}      # every second, third... case in the quick tier


def exact_tsp(D, idxs):
    """The shortest closed tour of the given points, from the first of them."""
    idxs = list(idxs)
    if len(idxs) > 1 and idxs[-1] == idxs[0]:
        idxs.pop()          # a tour to improve is given closed
    best = None
    for p in itertools.permutations(idxs[1:]):
        r = [idxs[0]] + list(p) + [idxs[0]]
        c = sum(D[a, b] for a, b in zip(r, r[1:]))
        if best is None or c < best[0]:
            best = (c, r)
    return best[1], best[0]


def prep(name, opt, n):
    """The keyword arguments behind the symbolic option values, or None where
    they make no sense for this many customers."""
    out = dict(opt)
    for k, v in opt.items():
        if isinstance(v, list):
            out[k] = list(v)
            if k == "seed_node" and max(v) >= n:
                return None
        if isinstance(v, int) and k == "seed_node" and v > n:
            return None
        if k == "K" and v > n:
            return None
        if not isinstance(v, str) or v[0] != "@":
            continue
        if v == "@default":
            del out[k]
        elif v == "@exact":
            if n > 6:
                return None
            out[k] = exact_tsp
        elif v == "@n":
            out[k] = n
        elif v in ("@LEAST_DENSE", "@BEST_OF_FOUR"):
            m = importlib.import_module(H + "wren_holliday_sweep")
            if not hasattr(m, v[1:]):
                return None
            out[k] = getattr(m, v[1:])
        elif v.startswith("@lm"):
            from verypy.classic_heuristics.cheapest_insertion import parametrized_insertion_criteria as pic
            lm, mm = float(v[3]), float(v[6])
            out[k] = lambda D, i, u, j: pic(D, i, u, j, lm, mm)
        elif k == "initialization_algorithm":
            s = {"@each": [0] + [x for c in range(1, n + 1) for x in (c, 0)], "@one": [0] + list(range(1, n + 1)) + [0],
                 "@back": [0] + list(range(1, n + 1, 2)) + [0] + list(range(2, n + 1, 2)) + [0]}[v]
            out[k] = lambda D, d, C, L: (list(s), sum(D[a, b] for a, b in zip(s, s[1:])))
            if v == "@back" and n < 2:
                return None
    return out


def solve(name, opt, case, minK, limit):
    mod, f, wants_pts, has_k, _ = SPEC[name]
    pts, wt, d, C, L = case
    D = ref.matrix(pts, wt)
    kw = prep(name, opt, len(D) - 1)
    if kw is None:
        return None
    if has_k:
        kw["minimize_K"] = minK
    if name == "gap":
        kw["seed_edge_weight_type"] = wt
    args = ([list(pts)] if wants_pts else []) + [D.copy(), list(d) if d is not None else None, C, L]
    sol, err = guarded(lambda: fn(mod, f)(*args, **kw), limit)
    return sol, D, err


def tag(name, opt, case, minK):
    return "%s with %s minimize_K=%s on points=%r %s d=%r C=%r L=%r" % ((name, ", ".join("%s=%r" % x for x in sorted(opt.items())) or "no options", minK) + tuple(case))


def one(name, opt, case, minK, limit=20.0):
    """(problem or None, value of the plan or None)"""
    pts, wt, d, C, L = case
    if name == "gap" and C is None and L is None:
        return None, None
    if opt.get("seed_method") == "large_demands" and C is None:
        return None, None       # documented to need a capacity
    r = solve(name, opt, case, minK, limit)
    if r is None:
        return None, None
    sol, D, err = r
    if err:
        if minK and not SPEC[name][3] and "NotImplementedError" in err:
            return None, None       # documented not to minimise the number of vehicles
        return "%s %s" % (tag(name, opt, case, minK), err), None
    if sol is None and (name == "gap" or (name == "petal" and ("K" in opt or not opt.get("allow_infeasible", True) or opt.get("restricted_route_ratio", 0.75) != 0.75))):
        return None, None
    p = ref.plan_problem(sol, D, d, C, L)
    if p:
        return "%s: plan %s" % (tag(name, opt, case, minK), p), None
    rts = ref.split(sol)
    return None, (len(rts), sum(ref.rcost(r, D) for r in rts))


def key(opt):
    return repr(sorted(opt.items()))


def group(name, case, minK, rec, only=None):
    """Every option combination of one heuristic on one problem."""
    got, bad = {}, []
    for opt in SPEC[name][4]:
        w, v = one(name, opt, case, minK)
        rec.step(); rec.valid()
        if w:
            bad.append((opt, None, w))
        got[key(opt)] = v
    for h, whole, parts in META:
        if h != name:
            continue
        a = got.get(key(whole))
        if a is None:
            continue
        for p in parts:
            b = got.get(key(p))
            if b is None:
                continue
            worse = a > (b[0], b[1] + 1e-6) if minK and a[0] != b[0] else a[1] > b[1] + 1e-6
            if worse:
                bad.append((whole, p, "%s: the plan (%d routes, length %.6f) is worse than with %s (%d routes, length %.6f)" % (
                    (tag(name, whole, case, minK),) + a + (p,) + b)))
    return bad


def cases(src):
    k = src[0]
    if k == "grid":
        _, n, wk, dem, step, off = src
        for i, pts in enumerate(I.grid(n, ((1, 1), (0, 0)))):
            if i % step != off % step:
                continue
            for p, wt in I.kinds(pts, (wk,)):
                vecs = list(itertools.product(dem, repeat=n))
                for c in I.complete(p, wt, vecs if step == 1 else vecs[:1] + vecs[(i // step) % (len(vecs) - 1) + 1:][:1], n == 2):
                    yield c
    elif k == "layout":
        _, name, wk, vecs = src
        for p, wt in I.kinds(I.LAYOUTS[name], (wk,)):
            for c in I.complete(p, wt, [tuple(v) for v in vecs]):
                yield c
    else:
        for c in F.source_cases(src):
            yield c


def vectors(n, full):
    if full:
        return [v for v in itertools.product((1, 2), repeat=n)]
    return [tuple(1 for _ in range(n)), tuple(1 + i % 2 for i in range(n)), tuple(3 - (i == 0) * 2 for i in range(n)), tuple((1, 3, 2)[i % 3] for i in range(n))]


def shards(tier):
    q = tier == "quick"
    for name in sorted(SPEC):
        slow = name == "gap"
        srcs = []
        for n in (2,) if slow and q else (2, 3):
            step = (11 if slow else 6 if n == 3 else 3) if q else 1
            for off in range(1 if q else 1):
                for wk in ("EXACT_2D", "EUC_2D"):
                    srcs.append(("grid", n, wk, (1, 2), step, off + (wk == "EUC_2D")))
        for lay in (["ring5"] if slow else ["ring5", "coin5"]) if q else sorted(I.LAYOUTS):
            for wk in ("EXACT_2D",) if q else ("EXACT_2D", "EUC_2D"):
                srcs.append(("layout", lay, wk, vectors(len(I.LAYOUTS[lay]) - 1, not q and name in FAST)[:1 if slow and q else None]))
        if not (slow and q):
            srcs.append(("one",))
        if name in FAST:
            srcs.append(("big", 11, "EXACT_2D"))
        for s in srcs:
            m = 8 if s[0] != "one" else 2
            for k in range(m):
                yield (name, s, k, m, THIN.get(name, 1) if q else 1)
    for k in range(8):
        yield ("@retries", q, k, 8, 1)


def order_tree(f, limit=2000):
    """Run f(shuffle) for every sequence of orders the shuffles may choose."""
    pre = []
    count = 0
    while True:
        trace = []

        def shuffle(x):
            ps = list(itertools.permutations(range(len(x))))
            i = pre[len(trace)] if len(trace) < len(pre) else 0
            trace.append((i, len(ps)))
            x[:] = [x[j] for j in ps[i]]
        yield f(shuffle), [t[0] for t in trace]
        count += 1
        while trace and trace[-1][0] + 1 >= trace[-1][1]:
            trace.pop()
        if not trace or count >= limit:
            return
        pre = [t[0] for t in trace[:-1]] + [trace[-1][0] + 1]


def retries(case, retries_n, minK):
    """Every order the randomised retries can draw; the problems found."""
    from verypy.classic_heuristics import cmt_2phase as m
    pts, wt, d, C, L = case
    D = ref.matrix(pts, wt)
    if not hasattr(m, "shuffle"):
        return
    real = m.shuffle

    def go(sh):
        m.shuffle = sh
        try:
            return guarded(lambda: m.cmt_2phase_init(D.copy(), list(d), C, L, minK, number_of_randomized_retries=retries_n), 20.0)
        finally:
            m.shuffle = real
    for (sol, err), path in order_tree(go):
        yield path, err or ref.plan_problem(sol, D, d, C, L)


def run(shard, rec):
    name, src, part, m, thin = shard
    if name == "@retries":
        i = 0
        for pts in I.grid(3, ((1, 1), (0, 0))):
            i += 1
            if i % (24 if src else 3) or (i // (24 if src else 3)) % m != part:
                continue
            for p, wt in I.kinds(pts, ("EXACT_2D",)):
                for case in I.complete(p, wt, [(1, 2, 1)]):
                    for minK in (False, True):
                        rec.state(("retries", repr(case), minK))
                        for path, w in retries(case, 2, minK):
                            rec.step(); rec.valid()
                            if w:
                                rec.fail(["@retries", [list(map(list, case[0]))] + list(case[1:]), minK, path], "two-phase with 2 randomised retries, orders %r, minimize_K=%s on %r: %s" % (path, minK, case, w))
        return
    for i, case in enumerate(cases(src)):
        if i % m != part or i // m % thin:
            continue
        rec.state((name, repr(case)))
        for minK in ((False, True) if SPEC[name][3] else (False,)):
            for opt, other, w in group(name, case, minK, rec):
                rec.fail([name, [list(map(list, case[0]))] + list(case[1:]), minK, opt, other], w)


def replay(case):
    name, c = case[0], case[1]
    c = ([tuple(x) for x in c[0]],) + tuple(c[1:])
    if name == "@retries":
        for path, w in retries(c, 2, case[2]):
            if w and path == case[3]:
                return w
        return None
    opt, other = case[3], case[4]
    if other is None:
        return one(name, opt, c, case[2])[0]

    class R:
        def step(self, n=1): pass
        valid = step
    for o, p, w in group(name, c, case[2], R()):
        if o == opt and p == other:
            return w
    return None
