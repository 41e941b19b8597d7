"""Writes /verif/DESIGN.md."""
import json, os, sys, glob, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
WHY = {
 "P01": "Tests run the published benchmark problems; feasibility at the border of C and L, coincident customers, zero demands and non-metric distances are only met by enumerating them.",
 "P02": "As P01. The interchange of Tyagi, the relocation of Mole and Jameson and parallel insertion with several emerging routes depend on orders of events no benchmark fixes.",
 "P03": "As P01. Wrap-around of angles, customers sharing an angle and steps of Wren-Holliday that undo each other (non-termination) depend on exact coincidences, which a grid is full of.",
 "P04": "As P01. The Lagrangian loop, in particular, has to terminate for every limit.",
 "P05": "As P01, with the solver in the loop.",
 "P06": "A feasible, good plan need not be the one the rule prescribes; tests compare a few published costs. All end states of the rule are computed, so one wrong choice anywhere is seen.",
 "P07": "As P06.",
 "P08": "As P06: all starts, directions and orders at equal angles.",
 "P09": "Optimality of the split against all cuts, which no test can know beforehand.",
 "P10": "Completeness (`none` only if there is none) is a statement about the whole neighbourhood.",
 "P11": "As P10, for two and three routes with limits on the border.",
 "P12": "As P10, on whole plans: the graph of all plans with edges between those that differ in at most three edges.",
 "P13": "Termination and local optimality from every state, with every list of operators.",
 "P14": "All encodings of all small plans, and equality of normal forms for all pairs.",
 "P15": "Every sequence, including the malformed ones no heuristic produces.",
 "P16": "Every dtype and service time, where truncation hides.",
 "P17": "The product of format, depot position, order and line splits is what real files vary in.",
 "P18": "Round trips of every selection and limit.",
 "P19": "Histories; cached data go stale only after particular sequences.",
 "P20": "The program's report is recomputed for every outcome an algorithm may have, which needs stand-ins.",
 "P21": "All names, spellings and pairs.",
 "P22": "Every matrix and order of nodes; ties and tiny tours are where wrappers go wrong.",
 "P23": "All pairs of lattice points meet every rounding border.",
 "P24": "Leaks between calls need a particular earlier call.",
 "P25": "Every interrupt point of a run.",
 "P26": "Every state of the improvement phase, reachable in ordinary runs or not.",
 "P27": "All neighbours of every returned plan.",
 "P28": "As P06, with the second phase's associations and left-over customers.",
 "P29": "The option is the input the tests never vary: every value of every documented option is run, alone or combined, on the enumerated instances and critical limits; random shuffles are replaced by every order they may produce.",
 "P30": "The assignment step has finitely many outcomes (K^n), so its optimum is found by enumerating them all, and the search around it is a deterministic transition system over (K, seed, multiplier) that is followed exactly; a wrong coefficient shows as a different optimum. The best division of the sweep is enumerated over all 2^n-1 cuts.",
 "P31": "A setting that is skipped, changed or forgotten costs quality, never feasibility, so only an exact model of every setting's run can tell. The model is run on every demand vector and limit of generic layouts (no ties), where a plan identifies the settings that lead to it.",
 "P33": "Which move a strategy makes matters only for where the search goes, so nothing but following it can tell; the documented choice is a small nondeterministic transition system, and all its end states are computed for every start.",
 "P34": "A reference that misses or misprices a move makes every comparison with it worthless; its neighbourhoods are small enough to be enumerated completely for every feasible plan.",
 "P35": "The report is the product of options, several runs with their outcomes and a random source; all combinations of small alphabets of each are run through the real program, the random source being one more nondeterministic choice.",
 "P36": "The look-ahead of Gillett and Miller is a transition system whose state is the routes, the customers passed over and the position of the sweep; its choices (ties, locally optimal tours) are all explored and the result of the real sweep must be an end state. The lazy asking for the route limit is modelled as a choice too (a customer may be put in and taken out again). Clockwise, the library measures angles with a jump at +-pi when it chooses the customer to give up, which looks unintended but decides published costs, so three readings are allowed there.",
 "P32": "The relaxed search is a transition system over all plans, infeasible ones included, whose edge weights are differences of the penalised objective; enumerating all plans and all their neighbours decides every one of the reconnection cases in every position of the depots, which benchmark runs meet rarely.",
}


def main():
    out = [open(os.path.join(ROOT, "vmc/design_head.md")).read(), "## Properties\n"]
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(l)
        i = p["id"]
        m = importlib.import_module("vmc.checks." + i.lower())
        out.append("### %s %s\n" % (i, p["title"]))
        out.append("*Decided by* %s (`vmc/checks/%s.py`, %s).\n" % (m.TECHNIQUE, i.lower(), m.LEVEL))
        out.append("*Quick bounds:* %s.\n*Thorough:* %s.\n" % (m.BOUNDS["quick"], m.BOUNDS["thorough"]))
        out.append("*Reading of the result:* %s\n*Assumptions:* %s.\n" % (m.NOTE, "; ".join(m.ASSUMPTIONS)))
        out.append("*Beyond tests:* %s\n" % WHY[i])
        out.append("*Cost:* %s s of wall time with 8 cores (quick).\n" % COST.get(i, "?"))
    out.append("## Defects found and repaired\n\nAll are `fix:` commits in /repo; `known_findings.txt` lists them and no open finding.\n")
    for l in open(os.path.join(ROOT, "known_findings.txt")):
        if l.startswith("fixed:"):
            _, prop, commit, what = l.strip().split(" ", 3)
            out.append("* %s `%s` %s" % (prop.split("=")[1], commit, what.replace("before it, this did not hold: ", "")))
    out.append("\n## Planted bugs\n\nEach was written from the property and the code, keeps the tests passing, and has a demonstration in `seeded/`. "
               "All of them are caught by the check of their property; *history* says which ones were missed at first and what was strengthened.\n")
    hist = {}
    for l in open(os.path.join(ROOT, "vmc/planted.txt")):
        if l.strip() and l[0] != "#":
            a, b = l.strip().split(" ", 1)
            hist[a] = b
    out.append("| bug | check | needs | history |\n|---|---|---|---|")
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
        m = json.load(open(f))
        n = os.path.basename(os.path.dirname(f))
        out.append("| %s | %s | %s | %s |" % (n, m["property"], str(m["needs"]).replace("|", "/"), hist.get(n, "caught at once")))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")


COST = dict(x.split("=") for x in open(os.path.join(ROOT, "vmc/cost.txt")).read().split())
main()
