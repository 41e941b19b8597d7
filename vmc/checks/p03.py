"""P03: sweep heuristics return complete feasible plans."""
from vmc import feascheck as F
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small problems and critical limits, every heuristic and mode run on the real code and judged by an independent plan checker"
NOTE = ("Complete for the enumerated problems (all multisets of 2-3 customers on a 3x3 grid; fixed layouts with every "
        "demand vector), with C and L placed on the exact borders of feasibility. Of larger problems only a few fixed layouts are covered.")
BOUNDS = {"quick": "2-3 customers: every multiset of a 3x3 grid x 2 depots x distance kinds x demands {1,2}^n x C and L levels; five layouts of 5-6 customers x 2 distance kinds x every demand vector over {1,2} x C and L levels; special demand patterns; every single customer of the grid; two layouts of 11 and 16 customers x 4 demand patterns x C and L levels on ten layouts of 5-8 customers; every mode; every eighth route limit at which another route becomes feasible, on 5-7 layouts of 5-6 customers in general position",
          "thorough": "as quick with 4 customers on the grid, all ten layouts and demands {1,2,3}"}
ASSUMPTIONS = ["symmetric planar distances, each customer alone is feasible",
               "plans are judged with a tolerance of 1e-6; the code uses 1e-10"]
NAMES = ["swp", "wh", "gm"]
MODES = [(False, False), (False, True), (True, False)]
LAYOUTS = ["ring5", "line5", "coin5", "clus6", "far6"]


def shards(tier):
    q = tier == "quick"
    for s in F.all_sources(tier, small_n=(2, 3) if q else (2, 3, 4), dem=(1, 2) if q else (1, 2, 3),
                           layouts=LAYOUTS if q else None, big=(11, 16) if q else (11, 16, 23),
                           kinds=("EXACT_2D", "EUC_2D") if q else ("EXACT_2D", "EUC_2D", "EUC_2Dx7")):
        if s[0] in ("layout", "special", "big"):
            for k in range(8):
                yield (tier, s, (k, 8))
        else:
            yield (tier, s, None)


def run(shard, rec):
    tier, src, part = shard
    F.run_source(src, NAMES, rec, part, MODES)


def replay(case):
    return F.replay(case)
