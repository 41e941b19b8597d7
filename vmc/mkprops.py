import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
H="verypy/classic_heuristics/"
FEAS=("returns, without raising and in finite time, one giant tour that starts and ends at the depot, visits every customer exactly once, "
 "contains no empty route, and in which no route exceeds the vehicle capacity or the maximum route cost")
SCOPE=("a symmetric problem with at least two customers (integer or real distances, metric or rounded, coincident points included) in which each customer can be served alone; "
 "capacity only, route limit only, both or neither; both objectives; full and single-iteration mode")
WHYF=("The replication tests solve a few dozen published instances in the mode of the paper and the smoke test two more; a construction bug shows only on particular geometry, ties and constraint tightness, and the "
 "property quantifies over all instances and all modes.")
p("P01","Savings heuristics always return a complete feasible plan",
 "For every solvable symmetric routing problem, in every mode, each savings heuristic (parallel, with 2-opt, Gaskell, Paessens, sequential, merge suppression) "+FEAS+".",
 ["inputs","configurations"],"for every "+SCOPE,WHYF,
 [H+"parallel_savings.py",H+"sequential_savings.py",H+"gaskell_savings.py",H+"paessens_savings.py",H+"suppression_savings.py",H+"cawlip_savings.py"],
 [("capacity and route limit test before each merge, with end-node bookkeeping",H+"parallel_savings.py parallel_savings_init"),
  ("left/right merge test and unrouted bookkeeping",H+"sequential_savings.py sequential_savings_init")],["value returned by the registered algorithm callable"])
p("P02","Insertion and nearest neighbour heuristics return complete feasible plans",
 "For every solvable symmetric routing problem, in every mode it supports, each insertion or nearest neighbour heuristic (sequential and parallel insertion, Mole-Jameson, sequential and parallel nearest neighbour, Tyagi) "+FEAS+".",
 ["inputs","configurations"],"for every "+SCOPE+" (nearest neighbour heuristics refuse the vehicle objective)",WHYF,
 [H+"cheapest_insertion.py",H+"mole_jameson_insertion.py",H+"nearest_neighbor.py",H+"tyagi_nearest_neighbor.py"],
 [("insertion validity re-check when a candidate is popped",H+"cheapest_insertion.py _seems_valid_insertion, _try_insert_and_update"),
  ("refinement passes",H+"mole_jameson_insertion.py _refine_solution"),
  ("constraint test before extension",H+"nearest_neighbor.py nearest_neighbor_init"),
  ("route end interchange",H+"tyagi_nearest_neighbor.py route_end_interchange")],["value returned by the registered algorithm callable"])
p("P03","Sweep heuristics always return a complete feasible plan",
 "For every solvable planar routing problem, in every mode, each sweep heuristic (plain, Wren-Holliday, Gillett-Miller) "+FEAS+".",
 ["inputs","configurations"],"for every "+SCOPE+", with customers at any position including on the depot, collinear or coincident",WHYF,
 [H+"sweep.py",H+"wren_holliday_sweep.py",H+"gillet_miller_sweep.py"],
 [("sweep with capacity and route limit repair",H+"sweep.py do_one_sweep, _ensure_L_feasible"),
  ("refining process",H+"wren_holliday_sweep.py wren_holliday_init"),
  ("exchange of route members",H+"gillet_miller_sweep.py _improvement_callback")],["value returned by the registered algorithm callable"])
p("P04","Route-first, two-phase and Lagrangian heuristics return complete feasible plans",
 "For every solvable symmetric routing problem, in every mode it supports, the route-first cluster-second, two-phase and Lagrangian 3-opt heuristics each "+FEAS.replace("returns","return").replace("starts","starts")+".",
 ["inputs","configurations"],"for every "+SCOPE,WHYF,
 [H+"rfcs.py",H+"cmt_2phase.py",H+"lr3opt.py","verypy/local_search/solution_operators.py"],
 [("partition of the giant tour",H+"rfcs.py _partition_to_routes_with_cost_matrix"),
  ("two construction phases and rerouting",H+"cmt_2phase.py _phase_one, _phase_two"),
  ("relaxation and forced repair",H+"lr3opt.py lr3opt_init, _force_feasible")],["value returned by the registered algorithm callable"])
p("P05","Mathematical-programming heuristics return complete feasible plans or no plan",
 "For every solvable routing problem, the matching based savings heuristic and the petal heuristic (full search) return, in finite time, a complete plan that visits every customer once, has no empty route and violates neither capacity nor route limit; the generalized assignment heuristic returns such a plan or none at all.",
 ["inputs","configurations"],"for every symmetric planar problem with at least two customers in which each customer can be served alone, both objectives",WHYF,
 [H+"matchingvrp.py",H+"petalvrp.py",H+"gapvrp.py"],
 [("merge loop with matching",H+"matchingvrp.py mbsa_init, _geedy_merge"),("set covering over petals",H+"petalvrp.py petal_init, _remove_multiserved"),("assignment with retries",H+"gapvrp.py gap_init")],["value returned by the registered algorithm callable"])
p("P06","Savings heuristics follow the greedy savings rule and keep the best try",
 "The parallel savings heuristic returns a plan reachable by repeatedly making the feasible merge of two route ends with the largest saving (stopping at negative savings unless vehicles are minimised), and the sequential one by growing one route at a time in the same way. Multi-try variants (Gaskell, Paessens, merge suppression) return exactly the best of their tries under the chosen objective, ties included.",
 ["inputs","configurations"],"for every small symmetric instance, every savings criterion offered, both objectives, and every way of breaking ties between equal savings",
 "Replication tests compare a final cost on a few instances; a wrong tie or merge order gives another feasible plan that no test distinguishes.",
 [H+"parallel_savings.py",H+"sequential_savings.py",H+"gaskell_savings.py",H+"paessens_savings.py",H+"suppression_savings.py"],
 [("sorted savings list walked once",H+"parallel_savings.py"),("best kept by objective","verypy/util.py is_better_sol")],["returned plan"])
p("P07","Insertion and nearest neighbour heuristics make the greedy choice",
 "Sequential cheapest insertion returns a plan reachable by always making the feasible insertion with the best criterion value into the current route and opening a new route from the prescribed seed only when none remains; nearest neighbour always extends with the nearest unserved customer and closes a route exactly when that customer would break a constraint. Parallel nearest neighbour returns the best of its tries.",
 ["inputs","configurations"],"for every small symmetric instance, each route initialisation rule offered, each number of emerging routes, and every way of breaking ties",
 "Tests pin final results for one or two instances; a stale candidate or wrong end of the route gives a different but feasible plan.",
 [H+"cheapest_insertion.py",H+"nearest_neighbor.py"],
 [("heap of potential insertions",H+"cheapest_insertion.py cheapest_insertion_init"),("neighbour queues with lazy removal",H+"nearest_neighbor.py nearest_neighbor_init")],["returned plan"])
p("P08","Sweep builds routes from consecutive angles and returns the best sweep",
 "A plain sweep from a given start and direction puts customers on routes in rotational order around the depot, closing a route exactly when the next customer would break a constraint; the sweep heuristic returns the best of the sweeps over the requested starts and directions under the chosen objective.",
 ["inputs","configurations"],"for every small planar instance with distinct customer angles, every start, direction and objective",
 "Tests check two published instances; wrap-around, reversed direction and the repair for the route limit depend on where the sweep starts.",
 [H+"sweep.py"],[("one full circle",H+"sweep.py do_one_sweep"),("polar ordering",H+"sweep.py get_sweep_from_polar_coordinates")],["returned plan"])
p("P09","Route-first cluster-second splits the giant tour optimally",
 "Among all ways to cut the cyclic giant tour into consecutive feasible routes, the route-first cluster-second heuristic returns one of minimum total cost (with the vehicle objective: with the fewest routes and, among those, minimum cost), each route being optimised within itself.",
 ["inputs","configurations"],"for every small instance, every given giant tour and every constraint tightness",
 "The tests replicate a handful of published costs with random tours and a tolerance; a suboptimal cut is still feasible.",
 [H+"rfcs.py"],[("cost matrix of feasible segments and shortest closed walk",H+"rfcs.py _partition_to_routes_with_cost_matrix")],["returned plan"])
p("P10","Moves within a route are exact and complete",
 "Applied to any route, 2-opt, 3-opt, relocate and exchange either return a rearrangement of the same customers, between depot visits, whose cost differs from the original by exactly the reported change, which beats the required level, or report none only if their neighbourhood holds no such rearrangement; with best-accept the change is the best in the neighbourhood. The input route and distances are left untouched.",
 ["inputs","configurations"],"for every route of bounded length, every symmetric distance matrix of a small alphabet, both strategies and several required levels",
 "The unit tests use a handful of fixed 5-10 node routes.",
 ["verypy/local_search/intra_route_operators.py"],[("delta evaluation and reconnection","verypy/local_search/intra_route_operators.py do_2opt_move, do_3opt_move, do_relocate_move, do_exchange_move")],["returned route and change"])
p("P11","Moves between routes keep routes feasible and their bookkeeping exact",
 "Applied to any feasible routes, each operator that moves customers between routes returns routes that together serve the same customers once, satisfy capacity and route limit, and whose reported cost, demand and total change equal those recomputed from scratch; it reports no move only if its neighbourhood holds none that beats the required level, and best-accept returns the best. Insertion and redistribution either place every customer feasibly or change nothing.",
 ["inputs","configurations"],"for every small set of feasible routes, every symmetric distance matrix of a small alphabet, every demand vector and constraint border, both strategies and several required levels",
 "Unit tests use a few hand-made route pairs, mostly with slack constraints, and never recompute the returned bookkeeping.",
 ["verypy/local_search/inter_route_operators.py","verypy/routedata.py"],
 [("constraint check before a move","verypy/local_search/inter_route_operators.py"),("cumulative cost and demand","verypy/routedata.py update_auxiliary_data")],["returned routes, their cost and demand, total change"])
p("P12","The whole-solution 3-opt move is exact, feasible and complete",
 "Applied to any feasible solution, the 3-opt* move returns a feasible solution serving the same customers whose cost differs by exactly the reported change, or reports none only if no reconnection of up to three removed edges gives a feasible improvement beyond the required level; best-accept returns the best such reconnection.",
 ["inputs","configurations"],"for every solution of small instances, every capacity and route limit border, both strategies and several required levels",
 "Unit tests check random instances for feasibility, not that no improving move was missed, and sample a few solutions.",
 ["verypy/local_search/solution_operators.py"],[("table of reconnections with loop handling","verypy/local_search/solution_operators.py MOVES_3OPTSTAR, _check_3opt_move, do_3optstar_move")],["returned solution and change"])
p("P13","Local search never worsens, stays feasible and stops at a local optimum",
 "Starting from any feasible solution, repeated local search with any list of operators and any combination of acceptance strategies terminates, returns a feasible solution serving the same customers that costs no more than the start, and on which none of the given operators finds an improving move; an iteration limit only stops it earlier.",
 ["histories","configurations"],"for every feasible start solution of small instances, operator lists, operator strategy, iteration strategy and iteration limit",
 "The tests use the default strategies on a few instances and compare with stored costs.",
 ["verypy/local_search/__init__.py","verypy/local_search/inter_route_operators.py"],
 [("memo of route combinations already at a local optimum","verypy/local_search/__init__.py do_local_search"),("order sensitive operators","verypy/local_search/inter_route_operators.py routeordersensitive")],["returned solution"],
 [("at_lsop_optimal","route combinations known to admit no move","verypy/local_search/__init__.py")])
p("P14","Solution encodings convert without loss and agree on cost",
 "Converting any solution between giant tour and list of routes, removing empty routes, normalising it and exporting it preserves the set of routes (up to direction and order) and the total cost; normalising is idempotent and gives equal results exactly for equivalent solutions. The objective is the same for every encoding of the same plan. The edges of a plan are listed once each, from the smaller node to the larger when the problem is symmetric and as travelled otherwise. Of two plans the better is the one of fewer vehicles and then lower cost when vehicles are minimised, else of lower cost, any plan being better than none.",
 ["inputs"],"for every giant tour and every list of routes (with or without depot visits, with empty routes) over few customers",
 "Tests convert a few literal lists.",
 ["verypy/util.py","verypy/cvrp_ops.py","verypy/cvrp_io.py","verypy/routedata.py"],
 [("conversions","verypy/util.py sol2routes, routes2sol, without_empty_routes"),("normal form and objective","verypy/cvrp_ops.py normalize_solution, recalculate_objective")],["returned values"])
p("P15","The feasibility checker gives the exact verdict",
 "For any sequence of nodes with at least one depot visit, including rotated ones, the checker reports separately and exactly whether every customer is served once, whether some route exceeds the capacity and whether some route exceeds the maximum cost.",
 ["inputs"],"for every node sequence of bounded length, distance matrix, demands and constraint borders",
 "Tests feed it solutions that are feasible; wrong verdicts for infeasible or rotated sequences stay unseen, though every other test relies on it.",
 ["verypy/cvrp_ops.py"],[("single pass check","verypy/cvrp_ops.py validate_solution_feasibility")],["returned triple"])
p("P16","Service times are baked into distances exactly",
 "With service time baked into the distances, every route costs its travel distance plus the service time once per customer on it, for integer or real distances and any positive service time; the original distances are not changed and the result stays symmetric with a zero diagonal.",
 ["inputs"],"for every small matrix of integer or real type, every service time (even, odd, fractional) and every route",
 "Tests use instances with even integer or absent service times.",
 ["verypy/cvrp_ops.py"],[("half the service time on depot edges","verypy/cvrp_ops.py D2D_c")],["returned matrix"])
p("P17","TSPLIB files are read as the problem they describe",
 "Reading a TSPLIB file (nodes numbered from 1, in any order) yields the described problem: size, capacity, demands, coordinates and the full symmetric distance matrix are as written, with the depot moved to index 0 consistently everywhere, for every edge weight type and matrix format supported, wherever the depot is and however values are split over lines. Route limit, vehicle count and service time extensions are read as written; incomplete explicit matrices are refused.",
 ["inputs","configurations"],"for every supported weight type and format, every depot position, every line layout and every order of sections, over small problems",
 "Tests read a few benchmark files with the depot first and one layout each.",
 ["verypy/cvrp_io.py"],[("line driven section parser","verypy/cvrp_io.py read_TSPLIB_CVRP"),("extra constraints","verypy/cvrp_io.py read_TSBLIB_additional_constraints")],["returned problem"])
p("P18","Written problem and solution files read back as the same thing",
 "A problem written to a file reads back with the same distances (scaled and truncated if an integer precision was asked for), demands and constraints, restricted to the selected nodes in the given order; a solution exported in the published text format reads back as the same routes, cost and vehicle count, and the VRPH export encodes the same routes.",
 ["inputs","configurations"],"for every small problem, node selection and precision, and every solution over few customers with integer or fractional cost",
 "Tests do not round trip; writers are only exercised through external solvers that are not installed.",
 ["verypy/cvrp_io.py"],[("writers","verypy/cvrp_io.py write_TSPLIB_file, as_OPT_solution, as_VRPH_solution"),("solution reader","verypy/cvrp_io.py read_OPT_CVRP")],["file content read back"])
p("P19","Supporting containers behave as their abstract types",
 "Under every sequence of operations the ordered set behaves as a set that keeps insertion order and can be indexed, the peekable queue as a double-ended queue, and route records report node set, cumulative costs and demands equal to those recomputed from the route.",
 ["histories"],"for every sequence of operations up to a bounded length over a few elements",
 "Tests exercise these only through whole heuristics, along the operation sequences those happen to make.",
 ["verypy/util.py","verypy/routedata.py",H+"nearest_neighbor.py"],[("cached key list","verypy/util.py OrderedDictSet"),("two cursors on a list",H+"nearest_neighbor.py _PeekQueue"),("cumulative data","verypy/routedata.py RouteData")],["return values of operations"])
p("P20","The command line reports the solution it computed, truthfully",
 "For every combination of options, the command line program solves each given problem with each requested algorithm and prints results whose feasibility, cost or length, vehicle count and routes agree with a recomputation from the problem file; post-optimisation never makes the reported solution worse or infeasible, and a failing algorithm does not prevent the remaining ones from being run and reported.",
 ["configurations","inputs"],"for every combination of output, objective, rounding, post-optimisation, forbid and selection options over small problem files of every constraint type",
 "There is no test of the command line.",
 ["verypy/VeRyPy.py","verypy/shared_cli.py"],[("main loop","verypy/VeRyPy.py main"),("statistics","verypy/shared_cli.py print_solution_statistics")],["standard output"])
p("P21","Every algorithm name resolves to the right algorithms",
 "Every advertised abbreviation or alias, in any letter case, selects exactly the algorithm it names, group names select every algorithm of the group exactly once, several names can be combined, and unknown names are reported and skipped without affecting the others.",
 ["configurations"],"for every alias, letter case and combination of up to a few names",
 "The smoke test looks up one list.",
 ["verypy/__init__.py"],[("alias table and import on demand","verypy/__init__.py get_algorithms")],["returned list"])
p("P22","TSP solvers return valid tours with their true cost",
 "For any list of at least two nodes each bundled TSP solver or wrapper of an external program returns a closed tour that starts and ends at the first listed node (the LKH wrapper: at the depot if it is listed), visits each listed node exactly once and whose reported cost equals its recomputed cost to the precision of the solver; the exact solver's tour is optimal, and the r-opt solvers' tours are no worse than the given order (with do_shuffle: than the shuffled one) and locally optimal.",
 ["inputs"],"for every symmetric distance matrix of a small alphabet and every selection and order of nodes, closed or open",
 "Tests solve a few instances and compare one cost.",
 ["verypy/tsp_solvers/tsp_solver_ropt.py","verypy/tsp_solvers/tsp_solver_gurobi.py","verypy/tsp_solvers/tsp_solver_fast.py"],
 [("subtour elimination","verypy/tsp_solvers/tsp_solver_gurobi.py solve_tsp_gurobi"),("repeat moves to local optimum","verypy/tsp_solvers/tsp_solver_ropt.py solve_tsp_ropt")],["returned tour and cost"])
p("P23","Distances, polar coordinates and angle helpers are geometrically right",
 "Distance matrices computed from coordinates follow the definition of the chosen distance type exactly, symmetric with zero diagonal; the polar ordering lists every customer once by increasing angle around the depot with its true radius; the angle bisector lies between the two angles in the turning direction and the position stepping visits every position cyclically. A neighbour list holds every node with its distance, nearest first.",
 ["inputs","configurations"],"for every small set of grid points, every distance type, every pair of angles and ratio",
 "Tests touch only two distance types and one quadrant.",
 ["verypy/cvrp_io.py",H+"sweep.py"],[("distance types","verypy/cvrp_io.py calculate_D"),("polar conversion",H+"sweep.py cart2pol, get_sweep_from_cartesian_coordinates, bisect_angle")],["returned values"])
p("P24","Solving neither alters its inputs nor depends on earlier calls",
 "Every algorithm leaves points, distances, demands and limits exactly as they were given, and returns the same plan for the same problem no matter which problems or algorithms were run before in the same process, or whether the points come as a list or an array.",
 ["histories","inputs"],"for every pair or triple of algorithm runs in one process over small problems",
 "Each test runs in a fixed order and compares only costs; shared state or modified inputs surface only in particular call sequences.",
 [H+"gillet_miller_sweep.py",H+"suppression_savings.py",H+"matchingvrp.py","verypy/local_search/__init__.py"],[("temporary overwrite of a distance",H+"gillet_miller_sweep.py _shortest_path_through_nodes"),("per call caches",H+"suppression_savings.py")],["inputs after the call, repeated results"])
p("P25","An interrupt at any point is passed on with a usable plan or none",
 "If the user interrupts a heuristic at any point, the interrupt reaches the caller, and whatever plan it carries is complete and feasible; if it carries nothing, nothing is claimed. The problem data are left unchanged, so solving again gives the uninterrupted result.",
 ["crash_points","inputs"],"for every point at which the interrupt can arrive (line by line) during a run on small instances, for every heuristic",
 "No test interrupts a heuristic.",
 [H+"parallel_savings.py",H+"sequential_savings.py",H+"cheapest_insertion.py",H+"nearest_neighbor.py",H+"sweep.py",H+"wren_holliday_sweep.py",H+"gillet_miller_sweep.py",H+"cmt_2phase.py",H+"rfcs.py",H+"lr3opt.py",H+"tyagi_nearest_neighbor.py",H+"suppression_savings.py",H+"gaskell_savings.py",H+"paessens_savings.py",H+"mole_jameson_insertion.py"],
 [("handlers that assemble the partial plan","except KeyboardInterrupt in each heuristic")],["exception and its argument"])
p("P26","Each Wren-Holliday refinement step preserves service and feasibility",
 "Every refinement step of the Wren-Holliday heuristic, applied to any feasible set of routes, leaves routes that serve the same customers (unassigned ones accounted for exactly), stay within capacity and route limit, carry their true cost and load, and, except where the step removes a route or assigns omitted customers, do not cost more than before; a step that reports no improvement has changed nothing.",
 ["histories","inputs"],"for every feasible set of routes of small instances, including empty routes, and every step",
 "Tests run the complete heuristic on published instances only.",
 [H+"wren_holliday_sweep.py"],[("refining processes",H+"wren_holliday_sweep.py inspect_heuristic, single_heuristic, pair_heuristic, delete_heuristic, complain_heuristic, disentangle_heuristic")],["routes after each step"])
p("P27","Heuristics that end with route improvement return locally optimal routes",
 "Heuristics documented to finish with route improvement return plans whose routes that improvement cannot shorten further: no 2-opt move for savings with 2-opt and for Mole-Jameson (nor a feasible improving move of a customer to another route), no 3-opt move for Paessens, route-first cluster-second, and the heuristics that route with a TSP solver (CMT, Gillet-Miller, Tyagi, petal, assignment, matching; the last two, with the exact solver, cheapest routes). Matching-based savings leaves no two routes whose customers fit on one route that costs less than the two; no feasible exchange of up to three edges, within or between routes, shortens the plan of the Lagrangian-relaxed 3-opt* heuristic. Improving costs no more than the plan being improved, and trying several parameters gives no worse plan than any one of them.",
 ["inputs","configurations"],"for every small symmetric instance, both objectives",
 "Tests compare costs of a few instances with a tolerance.",
 [H+"cawlip_savings.py",H+"paessens_savings.py",H+"rfcs.py",H+"mole_jameson_insertion.py",H+"cmt_2phase.py",H+"gapvrp.py",H+"matchingvrp.py"],[("local search after construction",H+"cawlip_savings.py, paessens_savings.py, mole_jameson_insertion.py"),("routing each cluster",H+"rfcs.py, cmt_2phase.py, gapvrp.py, matchingvrp.py, petalvrp.py")],["returned plan"])
p("P28","The two-phase heuristic builds both plans by its rules, returns the better",
 "The Christofides-Mingozzi-Toth two-phase heuristic with given lambda, mu, seed rule and route choice builds its first plan route by route (seed by the rule, unrouted customers offered in order of c0i + lambda*cis, each taken if capacity and route limit allow) and its second in parallel from the same seeds (each customer associated with the route of least c0i + mu*cis - c0s, routes filled in order of the customers' loss if not served by it, the most associated or the first route first, customers that remain reassociated with the routes left), routes every cluster with the TSP solver, and returns the better of the two complete plans by the objective. Equal criteria may be taken in any order.",
 ["inputs","configurations"],"for every small symmetric instance, every order of equal criteria, both objectives",
 "Tests compare costs on a few benchmark files with a tolerance; a wrong criterion gives a feasible plan of a similar cost.",
 [H+"cmt_2phase.py"],[("both phases",H+"cmt_2phase.py")],["returned plan"])
p("P29","Documented options of every heuristic give complete feasible plans",
 "Whatever values its documented options take (seed and start choices, directions, number of emerging routes, criteria, multipliers, strategies, number of perturbations, solvers plugged in, initial solutions, given number of vehicles, randomised retries), each heuristic returns a complete feasible plan for every instance in which each customer alone is feasible (the assignment and the petal heuristic with a fixed number of vehicles may return none); an option that means trying several others returns a plan no worse than each of them.",
 ["inputs","configurations"],"for every small instance and every combination of option values, and every order a random shuffle may produce",
 "Tests use the defaults, or one or two option values on benchmark instances.",
 [H+x for x in ("cheapest_insertion.py","cmt_2phase.py","gaskell_savings.py","paessens_savings.py","suppression_savings.py","sequential_savings.py","sweep.py","gillet_miller_sweep.py","wren_holliday_sweep.py","lr3opt.py","matchingvrp.py","mole_jameson_insertion.py","nearest_neighbor.py","petalvrp.py","rfcs.py","tyagi_nearest_neighbor.py","gapvrp.py")],
 [("option handling","the *_init function of every heuristic"),("seed methods",H+"gapvrp.py _kmeans_seed_points, _large_demand_seed_points, _end_of_thoroughfares_seed_points")],["returned plan"])
p("P30","Assignment and petal heuristics optimise the model they state",
 "The Fisher-Jaikumar heuristic places its cone seeds by the stated rule (equal shares of demand in order of angle, seed on the middle ray under three quarters of the share's demand), assigns customers to seeds at the least total insertion cost within capacity and the side constraint on route length, routes each cluster optimally, follows the stated search over seeds, multipliers and numbers of vehicles, and returns the best plan met. The petal heuristic's plan is never worse than the best division of the customers, in order of angle, into consecutive feasible groups routed optimally, by length or (minimising vehicles) by number of routes and then length.",
 ["inputs","configurations"],"for every small planar instance, every K and seed option, both objectives",
 "Tests check one seed example and compare a few benchmark costs with wide tolerances; a wrong cost coefficient or early stop gives a feasible plan a little worse.",
 [H+"gapvrp.py",H+"petalvrp.py"],[("assignment model",H+"gapvrp.py _solve_gap"),("cone seeds",H+"gapvrp.py _sweep_seed_points"),("search over K and seeds",H+"gapvrp.py gap_init"),("petal generation and set covering",H+"petalvrp.py")],["returned plan","seed points"])
p("P31","Heuristics that try several settings try the documented ones, keep the best",
 "Mole-Jameson inserts, for each strain setting of the chosen criterion (proximity: lambda 0, mu 0; minimum strain: 0, 1; Clarke-Wright: 2, 1; Gaskell: lambda 1.25 to 2 in quarters, mu lambda-1; augmented: lambda 0 to 2 in halves, mu 1; all of these), always the insertion of greatest strain, keeps routes 2-optimal, refuses insertions that break a limit even after 2-opt or cost more than a separate visit, and refines by relocation and by spreading the route of least load. Paessens' M1 and M4 cover the documented parameter grid and the four starting points with the four around the best of them; Gaskell's 'both' the two savings formulas; the parallel nearest neighbour every number of routes up to the sequential result's. Each returns the plan that is best over its settings: shortest, or (minimising vehicles) of fewest routes and then shortest. When a chain is full, Tyagi lets the nearest unrouted customer take the place (of all, or of the first and last) that raises the load most within the limits, and routes the grouping its selection rule prefers among the ones not needing more routes.",
 ["inputs","configurations"],"for every planar instance, limit, criterion and both objectives",
 "Tests compare a few benchmark costs; a wrong parameter, a setting left out or a lost best plan still gives a feasible plan a little worse on some inputs only.",
 [H+x for x in ("mole_jameson_insertion.py","paessens_savings.py","gaskell_savings.py","nearest_neighbor.py","tyagi_nearest_neighbor.py","cheapest_insertion.py")],
 [("strain settings and choice",H+"mole_jameson_insertion.py mole_jameson_insertion_init"),("insertion with 2-opt",H+"mole_jameson_insertion.py _try_insert_2opt_and_update"),("M1/M4",H+"paessens_savings.py paessens_savings_init"),("grouping rule",H+"tyagi_nearest_neighbor.py tyagi_init")],["returned plan"])
p("P32","The Lagrangian search moves by, and ends by, the exact penalised objective",
 "In the Lagrangian relaxed 3-opt* heuristic, every relaxed move changes length plus weighted excess of demand and of route length over their limits by exactly the amount reported, which is an improvement; with best acceptance it is the best available, and no move is reported only if replacing up to three edges improves nothing. The weights start from the documented formulas or the given values, double together whenever the search is stuck on a plan over its limits, and the search stops at the first stuck plan within them, post-optimised by feasible 3-opt* moves if asked; a plan forced feasible is the tour cut at the last point before each violation.",
 ["inputs","configurations"],"for every plan, however infeasible, every positive weight and every start",
 "Tests check only final plans of benchmark problems; a penalty lifted or added wrongly for one of the fourteen reconnections shows only from particular infeasible plans.",
 [H+"lr3opt.py","verypy/local_search/solution_operators.py"],[("penalty bookkeeping",H+"lr3opt.py _check_lr3opt_move"),("weights and stopping",H+"lr3opt.py lr3opt_init"),("forcing feasibility",H+"lr3opt.py _force_feasible")],["move result","returned plan"])
p("P33","Repeated local search follows its accept strategies and iteration limit",
 "Given operators and strategies, repeated local search moves as documented: with best acceptance over all operators every iteration makes one single move, the best any operator offers (with best-accept operators: the steepest descent); with first acceptance the first operator that can improve is applied and the search starts again from the first; with all-accept every operator is applied once per iteration; with repeated acceptance each operator is applied until it finds nothing. Best-accept operators make the best move between routes (or the best within each route), first-accept ones any improving move. It stops after the given number of iterations, or when a whole iteration improves nothing.",
 ["inputs","histories"],"from every feasible plan, for every list of operators, pair of strategies and iteration limit",
 "Tests run a few operator lists to the end on fixed instances; a strategy that makes another move still ends in some local optimum.",
 ["verypy/local_search/__init__.py","verypy/local_search/intra_route_operators.py","verypy/local_search/inter_route_operators.py"],[("strategies and limit","verypy/local_search/__init__.py do_local_search")],["returned plan"])
p("P34","The educational reference operators are exact, complete and feasible",
 "The naive local search operators, which take a whole plan and serve as the reference for the optimised ones, are right: from any feasible plan, 2-opt, 2-opt*, one-point and two-point moves return a plan in their neighbourhood that serves the same customers, keeps capacity and route limit, changes the cost by exactly the amount reported and beats the required level, and report none only if their neighbourhood holds none; best-accept gives the best of it; relocate and exchange within routes do so in every route that can be improved. Their repeated search applies the operators in turn until none improves or the iteration limit is reached.",
 ["inputs","histories"],"for every feasible plan, operator, strategy, level and iteration limit",
 "The existing tests use some of these operators as the oracle for a few random plans, so an error in them is an error in the oracle; the 2-opt* reference is not run by any test.",
 ["verypy/local_search/naive_implementations.py"],[("operators and repeated search","verypy/local_search/naive_implementations.py do_naive_2optstar_move, do_naive_1point_move, do_naive_2point_move, _apply_as_intra_route, do_naive_local_search")],["returned plan and change"])
p("P35","Each heuristic's own program solves what it is given and reports truthfully",
 "Run as a program of its own, every heuristic solves each given problem file (or those of a directory or list) or a generated problem of the given size, as often as asked, in the asked mode and objective, and prints the best plan found with its true feasibility, vehicle count, cost, length and routes; a problem without a plan does not keep it from the others and an interrupt is passed on after printing the best plan so far. Generated problems have their depot at the origin, demands between one and the capacity, and the rounded distances between their points, whatever the random source returns.",
 ["inputs","histories"],"for every combination of options, problems, outcomes of the heuristic and random choices",
 "No test runs these programs; what they print depends on options, on the outcome of every repetition and on the random source.",
 ["verypy/shared_cli.py","verypy/cvrp_io.py","verypy/classic_heuristics"],[("single heuristic program","verypy/shared_cli.py cli, read_and_solve_a_problem, print_solution_statistics"),("problem generator","verypy/cvrp_io.py generate_CVRP")],["printed report"])
p("P36","Sweeps keep the best of their starts and look ahead as published",
 "Asked for several starts or both directions, the Wren-Holliday and Gillett-Miller sweeps return the best, under the asked objective, of the plans the same heuristic gives from each of those starts alone; the starts are the documented ones (every customer, the closest, the first by angle, the least dense direction and the three a quarter turn from it, each in the direction of the sweep). With a capacity and a route limit, every Gillett-Miller sweep ends in routes that its published improvement steps allow: which customer of a full route is given up, which one or two of those ahead replace it, when the exchange is worth it, and which customers are passed over until the next route.",
 ["inputs","histories"],"for every problem, start, direction and objective",
 "The result depends on a long sequence of look-ahead decisions over all starts; the tests compare only a cost of the best.",
 ["verypy/classic_heuristics/wren_holliday_sweep.py","verypy/classic_heuristics/gillet_miller_sweep.py","verypy/classic_heuristics/sweep.py"],[("starts of Wren and Holliday","verypy/classic_heuristics/wren_holliday_sweep.py wren_holliday_init"),("look-ahead","verypy/classic_heuristics/gillet_miller_sweep.py _improvement_callback, _shortest_path_through_nodes"),("sweep with improvement","verypy/classic_heuristics/sweep.py do_one_sweep, sweep_init")],["solution"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
