"""P05: mathematical-programming heuristics return complete feasible plans or none."""
from vmc import feascheck as F
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small problems and critical limits, every heuristic and mode run on the real code (with its MIP solver) and judged by an independent plan checker"
NOTE = ("Complete for the enumerated problems, with C and L placed on the exact borders of feasibility. Of larger problems only a few fixed layouts are covered. "
        "The petal heuristic cut to one iteration (single) is documented not to search until feasible and is not judged; "
        "gap may give up (None).")
BOUNDS = {"quick": "matching savings and petal: 2-3 customers, every multiset of a 3x3 grid x 2 depots x distance kinds x demands {1,2}^n x all C and L levels, 2 layouts of 5 customers x every demand vector over {1,2}, matching savings: every symmetric matrix over {0,1,2,5} for 2, {1,4} and {0,2.5} for 3 customers, metric or not; special demand patterns; every single customer of the grid; one layout of 11 customers x 4 demand patterns x C and L levels; generalized assignment: every multiset of 2 customers and one layout; petal and matching: every eighth route limit at which another route becomes feasible, on 2 layouts of 5-6 customers in general position",
          "thorough": "as quick with 4 customers on the grid, all ten layouts and demands {1,2,3}; generalized assignment on 3 customers and three layouts"}
ASSUMPTIONS = ["symmetric distances, each customer alone is feasible",
               "generalized assignment needs a capacity or a route limit, as its documentation says",
               "plans are judged with a tolerance of 1e-6; the code uses 1e-10",
               "gurobi is trusted to return a solution of the model it is given"]
MODES = [(False, False), (False, True), (True, False)]
ANY = ["mbsa", "ptl"]


def exempt(name, case, mode):
    if name == "ptl" and mode[0]:
        return True
    if name == "gap" and case[3] is None and case[4] is None:
        return True          # a capacity or a route limit is required
    return False


def shards(tier):
    q = tier == "quick"
    kinds = ("EXACT_2D", "EUC_2D", "EUC_2Dx7")
    for s in F.all_sources(tier, small_n=(2, 3) if q else (2, 3, 4), dem=(1, 2) if q else (1, 2, 3),
                           layouts=["ring5", "coin5"] if q else None, big=(11,) if q else (11, 16), critical=("gen5a", "gen5b") if q else tuple(sorted(I.GENERAL)), kinds=("EXACT_2D", "EUC_2D") if q else kinds):
        if s[0] in ("layout", "special", "big"):
            for k in range(8):
                yield (tier, s, (k, 8), ANY)
        else:
            yield (tier, s, None, ANY)
    for s in F.explicit_sources(tier, slow=True):
        for k in range(2):
            yield (tier, s, (k, 2), ["mbsa"])
    for s in F.all_sources(tier, small_n=(2,) if q else (2, 3), dem=(1, 2), layouts=["ring5"] if q else ["ring5", "coin5", "clus6"], big=() if q else (11,), critical=(),
                           kinds=("EXACT_2D", "EUC_2D") if q else kinds):
        if s[0] == "special" and q:
            continue
        if q and s[0] == "layout" and s[2] == "EUC_2D":
            continue
        for k in range(8):
            yield (tier, s, (k, 8), ["gap"])


def run(shard, rec):
    tier, src, part, names = shard
    F.run_source(src, names, rec, part, MODES, none_ok=names == ["gap"], exempt=exempt, limit=8.0 if names == ANY else 60.0)


def replay(case):
    return F.replay(case, none_ok=case[0] == "gap")
