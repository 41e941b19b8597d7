"""P04: route-first, two-phase and Lagrangian heuristics return complete feasible plans."""
from vmc import feascheck as F
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small problems and critical limits, every heuristic and mode run on the real code and judged by an independent plan checker"
NOTE = ("Complete for the enumerated problems (all multisets of 2-3 customers on a 3x3 grid; fixed layouts with every "
        "demand vector), with C and L placed on the exact borders of feasibility. Of larger problems only a few fixed layouts are covered.")
BOUNDS = {"quick": "2-3 customers: every multiset of a 3x3 grid x 2 depots x distance kinds x demands {1,2}^n x C and L levels; two layouts of 5 customers x 2 distance kinds x every demand vector over {1,2} x C and L levels; every symmetric matrix over {0,1,2,5} for 2, {1,4} and {0,2.5} for 3 customers, metric or not; special demand patterns; every single customer of the grid; one layout of 11 customers x 4 demand patterns x C and L levels on ten layouts of 5-8 customers; layouts of 7 and 9 customers with every length a piece of the giant tour can have as the route limit (rfcs); every mode; rfcs also with a plugged in route solver whose result depends on the order of the nodes; every eighth route limit at which another route becomes feasible, on 5-7 layouts of 5-6 customers in general position",
          "thorough": "as quick with 4 customers on the grid, all ten layouts and demands {1,2,3}"}
ASSUMPTIONS = ["symmetric distances, each customer alone is feasible",
               "plans are judged with a tolerance of 1e-6; the code uses 1e-10"]
NAMES = ["rfcs", "cmt", "lr3o", "rfcs with its own route solver"]


def insert_last(D, nodes):
    """A route solver that only looks for the best place for the last node: what
    it returns depends on the order it is given the nodes in."""
    nodes = [int(x) for x in nodes]
    r = nodes[:-1] if nodes[-1] != nodes[0] else nodes[:-2]
    v = nodes[-1] if nodes[-1] != nodes[0] else nodes[-2]
    if v == r[0] or len(r) == 0:
        return nodes, sum(D[a, b] for a, b in zip(nodes, nodes[1:]))
    best = None
    for k in range(1, len(r) + 1):
        q = r[:k] + [v] + r[k:] + r[:1]
        c = sum(D[a, b] for a, b in zip(q, q[1:]))
        if best is None or c < best[1]:
            best = q, c
    return best


def as_given(D, nodes):
    return list(nodes), sum(D[a, b] for a, b in zip(nodes, nodes[1:]))


def plugged(points, D, d, C, L, st, wtt, single, minimize_K):
    from verypy.classic_heuristics.rfcs import route_first_cluster_second_init as f
    return f(D, d, C, L, minimize_K, partition_tsp_opt_algo=insert_last, route_tsp_opt_algo=as_given)


F._algos[NAMES[3]] = plugged
MODES = [(False, False), (False, True), (True, False)]
LAYOUTS = ["ring5", "coin5"]


def shards(tier):
    q = tier == "quick"
    for s in F.all_sources(tier, small_n=(2, 3) if q else (2, 3, 4), dem=(1, 2) if q else (1, 2, 3),
                           layouts=LAYOUTS if q else None, big=(11,) if q else (11, 16, 23),
                           kinds=("EXACT_2D", "EUC_2D") if q else ("EXACT_2D", "EUC_2D", "EUC_2Dx7")):
        if s[0] in ("layout", "special", "big"):
            for k in range(8):
                yield (tier, s, (k, 8))
        else:
            yield (tier, s, None)
    for n, ks in ((7, 2), (9, 2)) if q else ((7, 6), (9, 6), (11, 4)):
        for k in range(ks):
            for wk in ("EXACT_2D", "EUC_2D"):
                yield (tier, ("limits", n, k, wk), None)
    for s in F.explicit_sources(tier, slow=True):
        for k in range(2):
            yield (tier, s, (k, 2))


def run(shard, rec):
    tier, src, part = shard
    F.run_source(src, NAMES[:1] + NAMES[3:] if src[0] == "limits" else NAMES, rec, part, MODES)


def replay(case):
    return F.replay(case)
