"""What each check claims: level, bounded part, notes (used by check.py and tools/mkmanifest.py)."""
TRUSTED = [
 'pyvc/ (the verification condition generator: symbolic execution of the parsed source of /repo, loop cutting, inferred invariants that are themselves proved)',
 'z3',
 'CPython runs the parsed functions as the language reference says for the supported subset; unsupported constructs make a case undecided, never proved',
]
ASSUMPTIONS = [
 'floating point numbers are treated as mathematical reals (the contracts keep the library tolerances COST_EPSILON / CAPACITY_EPSILON)',
 'Python integers are mathematical integers (they are); numpy arrays are total functions of in-range indices',
 'logging, printing and code under `if __debug__` do not change results: dropped by the extraction',
]
BH = 'cases come from a seeded generator in harness/%s.py (random, tie-rich, co-located, collinear and tight-limit instances of up to about %s nodes); a case is distinct when its full JSON text is'
def _c(level, note, bounded, rule, harness=(20, 600), **kw):
    return dict(level=level, note=note, bounded=bounded, rule=rule, harness=harness, **kw)
OPS = BH % ('ops', '9 to 14')
HEUR = BH % ('heur', '12 to 30')
BASE = BH % ('base', '10')
SAV = ('the parallel and the sequential savings construction (parallel_savings_init with the five savings criteria, sequential_savings_init, routes2sol, and the Gaskell, Holmes & Parker and Paessens drivers) are proved for all inputs; '
       'the other heuristics are run on generated instances only')
RED = ('do_redistribute_move is proved for one to five receiving routes of any length in the given order (quick tier: one and two), and for every order of two receiving routes; '
       'trying every order of the customers (recombination levels 1 and 3) is checked on generated inputs only')
CALLEES = ['a savings_callback handed to parallel_savings_init returns entries (saving, ..., i, j) with 1 <= i, j < n (proved for the five criteria of the library)',
           'in paessens_savings_init, do_local_search and without_empty_routes are replaced by assumed contracts (same customers, still feasible, not worse; checked on generated inputs by C08)']
CLAIMS = {
 'C01': _c('other', SAV, 'every heuristic run on generated instances', HEUR, (55, 1500), limit=430, assume=CALLEES),
 'C02': _c('other', SAV, 'every heuristic run on generated instances', HEUR, (55, 1500), limit=430, assume=CALLEES),
 'C03': _c('other', SAV, 'every heuristic run on generated metric instances', HEUR, (55, 1500), limit=430, assume=CALLEES),
 'C04': _c('proof', RED, 'do_redistribute_move with more routes or other orders, and a second look at the proved operators', OPS, (15, 600)),
 'C05': _c('proof', RED, 'do_redistribute_move with more routes or other orders, and a second look at the proved operators', OPS, (15, 600)),
 'C06': _c('proof', RED, 'do_redistribute_move with more routes or other orders, and a second look at the proved operators', OPS, (15, 600)),
 'C07': _c('proof', '', 'do_redistribute_move (a greedy heuristic: nothing to prove), and a second look at the proved operators', OPS, (15, 600)),
 'C08': _c('exploration', '', 'do_local_search', OPS, (40, 900)),
 'C09': _c('other', 'proved for do_3optstar_move: the argument is left as it was, the result is a giant tour from depot to depot with the same customers, its cost differs from the argument by exactly the delta, the delta improves on the threshold; '
           'and for _check_3opt_move: a move is accepted exactly when it improves and the demand and cost along the new edges stay within the limits. That every route of the new tour is within the limits, and that an improving feasible move is found when one exists, are checked on generated tours only. '
           'The quick tier proves _check_3opt_move and one case of do_3optstar_move, the thorough tier all', 'do_3optstar_move against brute force', OPS, (40, 900), limit=700,
           assume=['_build_cumulative_lists returns two lists (its values only decide feasibility, which is bounded here)']),
 'C10': _c('proof', '', 'a second look at solve_tsp_ropt', OPS, (20, 900), assume=['random.shuffle(x) only permutes x']),
 'C11': _c('proof', '', 'a second look at validate_solution_feasibility', BASE, (15, 600)),
 'C12': _c('proof', 'objf, totald, recalculate_objective, routes2sol, sol2routes, without_empty_routes, sol2edgeset, RouteData.from_routes, from_solution and to_solution', 'a second look at the conversions', BASE, (20, 600),
           assume=['itertools.groupby yields the maximal runs of elements with equal keys, in order (its documentation)']),
 'C13': _c('other', 'proved for giant tours from depot to depot of any length, and for lists of any number of routes of any length (with or without the depot at either end): the same customers, the same edges (equal cost under an arbitrary symmetric matrix), single depot visits, the low end of each route first, routes in order of their '
           'first customers. That such a tour is unique (with distinct customers, no two routes start alike) is argued, not machine-checked', 'normalize_solution: equal normal forms and idempotence', BASE, (25, 600),
           assume=['itertools.groupby yields the maximal runs of elements with equal keys, in order (its documentation)',
                   'list.sort orders lists lexicographically and permutes them (only the order of the first elements is used)']),
 'C14': _c('other', 'is_better_sol, and that no trial of gaskell_savings_init, suppression_savings_init and paessens_savings_init beats their result, are proved; the other multi-trial heuristics are checked on generated inputs only', 'multi-trial heuristics', HEUR, (40, 900)),
 'C15': _c('other', 'all five savings criteria are proved; the order in which parallel_savings_init merges is checked on generated inputs only', 'savings functions and parallel merging', HEUR, (30, 900)),
 'C16': _c('proof', '', 'a second look at RouteData', BASE, (15, 600)),
 'C17': _c('proof', '', 'a second look at D2D_c', BASE, (15, 600), assume=['numpy slices, in-place addition, dtype conversion, copy and fill_diagonal as modelled in pyvc/numpy_.py (read off the numpy documentation)']),
 'C18': _c('exploration', '', 'readers and writers', BASE, (40, 900)),
 'C19': _c('other', 'proved: none of the functions under contract writes to a distance matrix, a demand vector or any list or object argument it is not meant to change (frame conditions); repeatability and the heuristics outside the verifier are checked on generated inputs only',
           'every heuristic, local search, tour improver: inputs compared before and after, run twice and in a second process', HEUR, (55, 1500), limit=400),
 'C21': _c('exploration', '', 'rfcs', HEUR, (30, 900)),
 'C22': _c('proof', '', 'a second look at OrderedDictSet', BASE, (15, 600), assume=['Python dicts keep distinct keys in insertion order; dict.fromkeys keeps first occurrences']),
 'C23': _c('exploration', '', 'get_algorithms', BASE, (15, 600)),
 'C24': _c('exploration', '', 'sweep', HEUR, (35, 900)),
}
NA = {'C20': 'the property quantifies over asynchronous interruption at every point of a run; a contract-based verifier reasons about complete calls and the handlers '
             'depend on exceptions raised between arbitrary bytecodes, which no contract within reach expresses'}
TECH = {'proof': 'function contracts on the real source, verification conditions discharged by z3 (unbounded); bounded run-time contract checks for the rest',
        'exploration': 'bounded run-time contract checking of the real functions on generated inputs (stand-in for functions outside the verifier\'s reach)',
        'other': 'function contracts discharged by z3 for the parts within reach, bounded run-time contract checks for the rest'}
NOTE = {'proof': 'every obligation is regenerated from the current source and discharged by z3; floats as reals; see DESIGN.md for the trusted base',
        'exploration': 'bounded: generated inputs only, nothing proved', 'other': 'part proved, part bounded'}
NOTES = 'One runner (check.py) for all properties; the deductive part is in pyvc/ and contracts/, the bounded part in harness/.'
