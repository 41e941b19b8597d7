"""P01: savings heuristics return complete feasible plans."""
from vmc import feascheck as F
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small problems and critical limits, every heuristic and mode run on the real code and judged by an independent plan checker"
NOTE = ("Complete for the enumerated problems (all multisets of 2-3 customers on a 3x3 grid; ten fixed layouts with every "
        "demand vector), with C and L placed on the exact borders where a merge becomes (in)feasible. Of larger problems only a few fixed layouts are covered.")
BOUNDS = {"quick": "2-3 customers: every multiset of a 3x3 grid x 2 depots x 3 distance kinds x demands {1,2}^n x all C and L levels; 10 layouts of 5-8 customers x 2 distance kinds x every demand vector over {1,2} x C and L levels; every symmetric matrix over {0,1,2,5} for 2, {1,2,5} and {0,2.5} for 3, {1,4} for 4 customers, metric or not; special demand patterns; every single customer of the grid; three layouts of 11, 16 and 23 customers x 4 demand patterns x C and L levels; 4 modes x 6 heuristics; every eighth route limit at which another route becomes feasible, on 5-7 layouts of 5-6 customers in general position",
          "thorough": "as quick with 4 customers and demands {1,2,3}"}
ASSUMPTIONS = ["symmetric distances, each customer alone is feasible",
               "plans are judged with a tolerance of 1e-6; the code uses 1e-10"]
NAMES = ["ps", "ps2o", "gpl", "ss", "gps", "ims"]
FAST = ["ps", "ss", "ps2o"]
MODES = [(False, False), (False, True)]      # `single` is not used by these


def shards(tier):
    for s in F.all_sources(tier, small_n=(2, 3) if tier == "quick" else (2, 3, 4), dem=(1, 2) if tier == "quick" else (1, 2, 3)):
        if s[0] in ("layout", "big"):
            for k in range(4):
                yield (tier, s, (k, 4))
        else:
            yield (tier, s, None)
    for s in F.explicit_sources(tier):
        for k in range(2):
            yield (tier, s, (k, 2))


def run(shard, rec):
    tier, src, part = shard
    F.run_source(src, NAMES, rec, part, MODES)


def replay(case):
    return F.replay(case)
