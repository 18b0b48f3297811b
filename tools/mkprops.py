#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})
H = "verypy/classic_heuristics/"
ALLH = [H + f for f in ("parallel_savings.py", "sequential_savings.py", "gaskell_savings.py", "paessens_savings.py",
        "suppression_savings.py", "cawlip_savings.py", "cheapest_insertion.py", "mole_jameson_insertion.py",
        "nearest_neighbor.py", "tyagi_nearest_neighbor.py", "sweep.py", "gillet_miller_sweep.py",
        "wren_holliday_sweep.py", "cmt_2phase.py", "rfcs.py", "lr3opt.py", "matchingvrp.py", "gapvrp.py")]
HTEXT = ("all instances (symmetric non-negative distances, any number of customers, co-located points included), all "
         "demands, capacity set or not, route-cost limit set or not, both objectives and both single/full iteration modes")
HTEST = ("the smoke tests run each heuristic on one seven-point instance; the published-result replication tests are "
         "not part of the stable suite")

prop("C01", "Every heuristic returns a complete giant tour: each customer exactly once",
 "For every instance in which each customer can be served alone, each construction heuristic returns a solution that starts and ends "
 "at the depot and visits every customer exactly once - no customer is lost, duplicated or invented. "
 "Only the mathematical-programming heuristics may instead report that they found no solution; refusing the fleet-size objective "
 "with an explicit error is allowed where documented.",
 ["inputs", "configurations"], HTEXT, HTEST + "; losing or doubling a customer needs an unusual instance (ties, co-located "
 "points, a route that closes exactly at the limit, a leftover customer at the end)",
 ALLH, [("merge bookkeeping of the savings loop", H+"parallel_savings.py:parallel_savings_init"),
        ("unrouted set / pop bookkeeping", H+"cheapest_insertion.py, "+H+"nearest_neighbor.py, "+H+"sweep.py"),
        ("route assembly", "verypy/util.py:routes2sol, sol2routes")],
 [("unrouted / customers", "the customers not yet on a route", "local variables of the heuristics")],
 ["the list returned by the algorithm function"])

prop("C02", "No route ever exceeds the vehicle capacity",
 "Whenever a vehicle capacity is given and no single customer demands more than it, every route of every solution returned by every "
 "heuristic carries a total demand of at most the capacity. This holds whatever other constraint, objective or option is combined with it.",
 ["inputs", "configurations"], HTEXT, HTEST + "; a violation needs demands whose running total crosses the capacity at one particular step",
 ALLH, [("capacity test before each merge/insertion/extension", ", ".join(ALLH))],
 [("route demand bookkeeping", "running total demand of each emerging route", "heuristic modules")],
 ["the list returned by the algorithm function"])

prop("C03", "No route ever exceeds the maximum route cost",
 "Whenever a maximum route cost is given and every customer can be visited on its own within it, every route of every solution returned "
 "by every heuristic costs at most that limit, on metric instances. This holds alone or combined with a capacity limit.",
 ["inputs", "configurations"], HTEXT + "; distances obey the triangle inequality",
 HTEST + " and that instance has no binding route-cost limit for most heuristics",
 ALLH, [("route cost test before each merge/insertion/extension", ", ".join(ALLH))],
 [("route cost bookkeeping", "running cost of each emerging route", "heuristic modules")],
 ["the list returned by the algorithm function"])

LS = ["verypy/local_search/intra_route_operators.py", "verypy/local_search/inter_route_operators.py"]
LSTEXT = ("all routes of any length, all symmetric distance matrices, all demands and limits, first- and best-accept strategies, any improvement threshold")
LSTEST = "the tests try a few hand-made routes of at most eight nodes per operator and a random comparison on small routes without constraints"
prop("C04", "Local search moves keep exactly the same customers and depot ends",
 "Every local search move operator, whatever it is applied to, returns routes that together visit exactly the customers of the routes it "
 "was given, each as often as before, and each returned route still starts and ends at the depot. The routes passed in are left unmodified.",
 ["inputs"], LSTEXT, LSTEST,
 LS, [("slice reassembly of the chosen move", "do_2opt_move, do_3opt_move, do_relocate_move, do_exchange_move, do_2optstar_move, do_1point_move, do_2point_move, do_insert_move, do_redistribute_move, do_chain_move")],
 [("best_move", "the indices/segments of the move chosen for execution", "each operator")], ["return values of the operators"])
prop("C05", "Local search moves report their true cost change, route costs and demands",
 "The cost change reported by a move operator equals the cost of the returned routes minus the cost of the given routes, and it is better than the "
 "requested threshold by more than the tolerance. Each returned route record's cost and demand are those of the route it holds.",
 ["inputs"], LSTEXT + "; given route records are themselves accurate", LSTEST + "; the tests never look at the cost or demand field of a returned route record",
 LS, [("delta formulas and RouteData construction", "each do_*_move operator")],
 [("RouteData.cost/demand", "cached cost and load of a route", "verypy/routedata.py")], ["return values of the operators"])
prop("C06", "Local search moves never create an infeasible route",
 "Applied to routes that respect the capacity and the maximum route cost, an inter-route move operator only ever returns routes that respect them too, "
 "within the library's tolerance, on metric instances.",
 ["inputs"], LSTEXT + "; metric distances for the routes that only lose customers", LSTEST,
 [LS[1]], [("constraint tests inside the move loops", "do_2optstar_move, do_1point_move, do_2point_move, do_insert_move, do_redistribute_move, do_chain_move")],
 [("fwd_d/rwd_d/fwd_l/rwd_l", "cumulative demand and cost from either end of a route", "verypy/routedata.py:update_auxiliary_data")],
 ["return values of the operators"])
prop("C07", "A move operator misses no improving move, and best-accept takes the best",
 "For the operators that enumerate a neighbourhood (2-opt, 3-opt, relocate, exchange, 2-opt*, one-point, two-point, chain): when one reports no move, no feasible move of its neighbourhood beats the threshold by more than the tolerance. Under the best-accept "
 "strategy the returned move is the best feasible one of the neighbourhood. Inserting a single customer with best-accept takes its cheapest feasible position.",
 ["inputs"], LSTEXT, LSTEST,
 LS, [("move enumeration loops and best-so-far tracking", "each do_*_move operator")],
 [("best_delta", "best improvement so far", "each operator")], ["return values of the operators"])
prop("C08", "Iterated local search never worsens, stays feasible, ends at a local optimum",
 "Running the local search driver with improvement operators (every operator except the greedy insert and redistribute, whose delta may be a cost increase) on a complete feasible solution returns a complete feasible solution that costs no more. "
 "Unless the iteration limit stops it, none of the given operators can improve the returned solution any further. It always terminates.",
 ["inputs", "configurations"], "all complete feasible solutions, any non-empty list of improvement operators, all operator and iteration strategies, any iteration limit",
 "the tests apply a handful of operator lists to a few fixed solutions with one or two strategies",
 ["verypy/local_search/__init__.py"] + LS, [("result application and the already-searched cache", "verypy/local_search/__init__.py:do_local_search")],
 [("at_lsop_optimal", "route combinations already searched without success", "do_local_search"), ("route_datas", "current routes", "do_local_search")],
 ["return value of do_local_search"])
prop("C09", "The solution-level 3-opt* move is exact: same customers, true delta, feasible",
 "Every move made by the solution-level 3-opt* operator keeps each customer exactly once, changes the solution cost by exactly the reported amount, which improves on the "
 "requested threshold, and keeps the solution within capacity and maximum route cost. A feasible improving three-edge exchange is found whenever one exists.",
 ["inputs"], "all giant tours, symmetric distances, demands and limits, first- and best-accept strategies",
 "the tests cover a few hand-made moves and random comparisons on tiny solutions",
 ["verypy/local_search/solution_operators.py"], [("move table, feasibility check and segment concatenation", "verypy/local_search/solution_operators.py:do_3optstar_move, _check_3opt_move, MOVES_3OPTSTAR")],
 [("cumulative lists", "demand and cost since the last depot visit along the tour", "_build_cumulative_lists")], ["return value of do_3optstar_move"])
prop("C10", "The built-in TSP improver returns a closed tour of its nodes and its true cost",
 "For any selection of nodes the built-in tour improver returns a closed tour that starts and ends at the same first node, visits every selected node exactly once, "
 "and is reported with exactly its cost. The tour is never costlier than visiting the nodes in the given order and cannot be improved by a two-edge exchange.",
 ["inputs"], "all symmetric distance matrices and all non-empty node selections, with or without an initial tour",
 "no stable test calls the tour improver directly with constraints on its result",
 ["verypy/tsp_solvers/tsp_solver_ropt.py", LS[0]], [("closing, normalising and improving loop", "verypy/tsp_solvers/tsp_solver_ropt.py:solve_tsp_ropt, solve_tsp_3opt")],
 (), ["return value of the solver"])
prop("C11", "The feasibility checker's verdict is exactly right",
 "The checker reports full service exactly when every customer occurs exactly once, capacity feasibility exactly when no route's demand exceeds the capacity, and route-cost feasibility "
 "exactly when no route's cost exceeds the limit, up to the library's tolerance. This holds for solutions whose list starts at, ends at, or wraps around the depot.",
 ["inputs"], "all solutions over valid node numbers with at least one depot visit, all demands, limits set or not",
 "the stable tests use the checker as an oracle but never test it",
 ["verypy/cvrp_ops.py"], [("single pass with running totals", "verypy/cvrp_ops.py:validate_solution_feasibility")],
 [("covering", "which nodes have been seen", "validate_solution_feasibility")], ["return value"])
prop("C12", "Costs, demands and route/solution conversions are exact and lossless",
 "The objective of a solution is the sum of its consecutive distances in either representation, and its demand the sum of its customers' demands. Converting a solution to routes and back, or building "
 "route records from it, keeps every non-empty route with the same customers in the same order, with exact cost and demand; no conversion changes its input.",
 ["inputs"], "all giant tours and route lists, with or without repeated or missing depot visits where documented, all matrices and demands",
 "no stable test exercises these helpers with empty routes, missing depots or single customers",
 ["verypy/util.py", "verypy/cvrp_ops.py", "verypy/routedata.py"], [("helpers", "verypy/util.py:objf,totald,sol2routes,routes2sol,without_empty_routes,sol2edgeset; verypy/cvrp_ops.py:recalculate_objective; verypy/routedata.py:from_solution,to_solution")],
 (), ["return values"])
prop("C13", "Solution normal form is canonical and preserves the solution",
 "Normalising a solution keeps exactly its routes up to direction, each route listed once between single depot visits. Two solutions that differ only in route order, route direction or repeated depot "
 "visits have the same normal form, and normalising twice changes nothing.",
 ["inputs"], "all giant tours and route lists over distinct customers",
 "the helper has no test", ["verypy/cvrp_ops.py"], [("orient, sort and join the routes", "verypy/cvrp_ops.py:normalize_solution, _list_trim, _list_split")], (), ["return value"])
prop("C14", "The better solution always wins under the chosen objective",
 "Comparing solutions is by cost alone when cost is minimised, and by number of routes first and cost second when the fleet is minimised; a missing candidate never wins and any candidate beats a missing best. "
 "A heuristic that makes several trials returns the best of the trials it made under that comparison.",
 ["inputs", "histories", "configurations"], "all pairs of solution qualities, all sequences of trial results, both objectives",
 "the smoke tests compare one instance's value", ["verypy/util.py", H+"gaskell_savings.py", H+"paessens_savings.py", H+"suppression_savings.py", H+"mole_jameson_insertion.py", H+"sweep.py", H+"tyagi_nearest_neighbor.py", "verypy/shared_cli.py"],
 [("comparison", "verypy/util.py:is_better_sol"), ("multi-trial loops", "gaskell, paessens, suppression, mole-jameson, cheapest insertion, sweep wrappers")], (), ["algorithm return value"])
prop("C15", "Savings lists hold every customer pair once, with the right value, best first",
 "Each savings criterion yields exactly one entry for every unordered pair of customers, carrying the value its definition gives for that pair, in order of decreasing savings. The parallel savings method built on it "
 "merges route ends strictly in that order, skipping exactly the pairs that are not at route ends, are on the same route, or whose merge violates a limit; when cost is minimised it stops at the first remaining pair that would lengthen the routes.",
 ["inputs"], "all symmetric matrices, all parameter values of the criteria, all demands and limits",
 "the smoke test checks the final cost on one instance", [H+"parallel_savings.py", H+"gaskell_savings.py", H+"paessens_savings.py", H+"sequential_savings.py", H+"suppression_savings.py"],
 [("savings functions", "clarke_wright_savings_function, gaskell_lambda_savings_function, gaskell_pi_savings_function, paessens_savings_function"), ("merge loop", H+"parallel_savings.py:parallel_savings_init")], (), ["savings list; solution"])
prop("C16", "Route records' cumulative cost and demand are exact prefix and suffix sums",
 "After refreshing a route record, its forward figures at each position are the cost and demand from the route start up to that position and its backward figures those from that position to the route end. "
 "Emptiness, node-set and direction-normalising queries agree with the route the record holds.",
 ["inputs"], "all routes from depot to depot of any length, all matrices and demands, with or without demands",
 "the tests reach these figures only indirectly", ["verypy/routedata.py"], [("running sums in both directions", "verypy/routedata.py:update_auxiliary_data, _route_to_nodeset, is_empty, normalize")],
 [("fwd_*/rwd_*", "cumulative lists", "RouteData")], ["RouteData fields"])
prop("C17", "Service times are folded into the distances exactly",
 "With a service time per customer, the transformed distance matrix gives every depot-to-depot route a cost equal to its travel distance plus the service time of each customer on it, for integer and real matrices and "
 "service times alike. The transformed matrix keeps a zero diagonal and the original matrix is not changed.",
 ["inputs"], "all symmetric integer or real matrices, all positive service times, odd and fractional ones included",
 "no stable test covers the transformation", ["verypy/cvrp_ops.py"], [("half the service time on depot edges, all of it between customers", "verypy/cvrp_ops.py:D2D_c")], (), ["return value"])
prop("C18", "Instance and solution files are read and written faithfully",
 "Reading an instance file yields the distances, demands, capacity and limits the file states, in every supported matrix layout and distance type, with the depot moved to index zero consistently in every part. "
 "Node data is given in node number order and the capacity is an integer. An instance or solution the library writes reads back as the same instance or solution, and a matrix section of the wrong length is rejected.",
 ["inputs"], "all instance files in the supported formats, all solutions",
 "the stable tests do not read explicit-matrix instances", ["verypy/cvrp_io.py"], [("TSPLIB section parser", "verypy/cvrp_io.py:read_TSPLIB_CVRP"), ("writers", "verypy/cvrp_io.py:write_TSPLIB_file, as_OPT_solution, as_VRPH_solution")], (), ["return values, written text"])
prop("C19", "Solving leaves the problem data untouched and is repeatable",
 "Running a heuristic, a local search or a tour improver never changes the caller's distance matrix, demands, coordinates or initial solution. Solving the same instance again in the same or another process gives the same solution.",
 ["inputs", "histories", "configurations"], HTEXT, "the tests never compare the inputs before and after nor repeat a run",
 ALLH + ["verypy/local_search/__init__.py", "verypy/tsp_solvers/tsp_solver_ropt.py"], [("copies of routes and matrices; index-based tie breaking", "heuristic modules")], (), ["arguments after the call; repeated results"])
prop("C20", "Interrupting a run still yields a complete feasible solution",
 "When the user interrupts a heuristic at any moment, the solution carried by the interruption, if there is one, serves every customer exactly once and respects the limits.",
 ["crash_points"], "all interruption points of all heuristics", "no test interrupts a run", ALLH, [("except KeyboardInterrupt handlers", "heuristic modules")], (), ["argument of the raised interruption"])
prop("C21", "Route-first cluster-second splits the giant tour optimally",
 "The route-first cluster-second heuristic cuts its giant tour into consecutive routes such that no other way of cutting that tour into routes within the limits has a lower objective (the cost, plus one giant tour length per route when the fleet is minimised). Customers keep their order along the giant tour.",
 ["inputs", "configurations"], "all tours, matrices, demands and limits, both objectives", "the smoke test checks one cost value", [H+"rfcs.py"],
 [("shortest path over the tour's cut points", H+"rfcs.py")], (), ["solution"])
prop("C22", "The ordered set behaves as a set that remembers insertion order",
 "After any history of additions, removals and bulk removals the ordered set contains exactly the elements added and not removed since, each once, and both iteration and indexing give them in order of insertion.",
 ["histories"], "all operation histories", "no test exercises interleaved indexing and updates", ["verypy/util.py"], [("dictionary plus cached key list", "verypy/util.py:OrderedDictSet")],
 [("keylist", "cached list of keys for indexing", "OrderedDictSet")], ["membership, length, iteration, indexing"])
prop("C23", "Every documented algorithm name resolves, case-insensitively, to its algorithm",
 "Asking for algorithms by any documented name or alias, in any letter case, returns the algorithm that name stands for, once per request; group names return every member of the group, and an unknown name returns nothing for it without affecting the others.",
 ["inputs", "configurations"], "all lists of names and aliases", "tests import the modules directly", ["verypy/__init__.py"], [("alias table and lookup", "verypy/__init__.py:algo_name_aliases, get_algorithms")], (), ["returned list"])
prop("C24", "Sweep routes are consecutive stretches of the angular order",
 "A plain sweep visits the customers in angular order around the depot from its starting customer and direction, and each of its routes is a consecutive stretch of that order. A route is closed only because the next customer would break a limit.",
 ["inputs", "configurations"], "all coordinates, start customers, directions, demands and limits", "the smoke test runs one sweep on one instance", [H+"sweep.py"],
 [("angular sort and wrap-around extension loop", H+"sweep.py:get_sweep_from_cartesian_coordinates, do_one_sweep")], (), ["solution; sweep array"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
