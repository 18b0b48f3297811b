"""Run-time contracts of the move operators (C04-C07), the local search driver (C08), the 3-opt* operator (C09)
and the built-in TSP improver (C10).  The neighbourhoods are enumerated here from their definitions."""
from itertools import permutations
from common import *
from verypy.routedata import RouteData
from verypy.local_search import LSOPT, ITEROPT, do_local_search, ROUTE_ORDER_SENSITIVE_OPERATORS
from verypy.local_search import intra_route_operators as IA, inter_route_operators as IE
from verypy.local_search.solution_operators import do_3optstar_move
from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_ropt, solve_tsp_3opt, solve_tsp_2opt

INTRA = {'2opt': IA.do_2opt_move, '3opt': IA.do_3opt_move, 'relocate': IA.do_relocate_move, 'exchange': IA.do_exchange_move}
INTER = {'2opt*': (IE.do_2optstar_move, 2), '1point': (IE.do_1point_move, 2), '2point': (IE.do_2point_move, 2),
         'chain': (IE.do_chain_move, 3), 'insert': (IE.do_insert_move, 1), 'redistribute': (IE.do_redistribute_move, 2)}


def nb_2opt(r):
    for i in range(1, len(r) - 1):
        for j in range(i + 1, len(r) - 1):
            yield r[:i] + r[i:j + 1][::-1] + r[j + 1:]


def nb_3opt(r):
    n = len(r)
    for i in range(0, n - 1):
        for j in range(i + 1, n - 1):
            for k in range(j + 1, n - 1):
                a, b, c, d = r[:i + 1], r[i + 1:j + 1], r[j + 1:k + 1], r[k + 1:]
                for x, y in ((b, c), (c, b)):
                    for p in (x, x[::-1]):
                        for q in (y, y[::-1]):
                            yield a + p + q + d


def nb_relocate(r):
    for i in range(1, len(r) - 1):
        rest = r[:i] + r[i + 1:]
        for j in range(1, len(rest)):
            yield rest[:j] + [r[i]] + rest[j:]


def nb_exchange(r):
    for i in range(1, len(r) - 1):
        for j in range(i + 1, len(r) - 1):
            s = list(r)
            s[i], s[j] = s[j], s[i]
            yield s


def nb_2optstar(r1, r2):
    for i in range(len(r1) - 1):
        for j in range(len(r2) - 1):
            yield r1[:i + 1] + r2[:j + 1][::-1], r1[i + 1:][::-1] + r2[j + 1:]
            yield r1[:i + 1] + r2[j + 1:], r2[:j + 1] + r1[i + 1:]


def nb_1point(r1, r2):
    for i in range(1, len(r1) - 1):
        for j in range(1, len(r2)):
            yield r1[:i] + r1[i + 1:], r2[:j] + [r1[i]] + r2[j:]


def nb_2point(r1, r2):
    for i in range(1, len(r1) - 1):
        for j in range(1, len(r2) - 1):
            yield r1[:i] + [r2[j]] + r1[i + 1:], r2[:j] + [r1[i]] + r2[j + 1:]


def nb_chain(r1, r2, r3):
    for i in range(1, len(r1) - 1):
        for j in range(1, len(r2) - 1):
            for k in range(1, len(r3)):
                yield r1[:i] + r1[i + 1:], r2[:j] + [r1[i]] + r2[j + 1:], r3[:k] + [r2[j]] + r3[k:]


NB = {'2opt': nb_2opt, '3opt': nb_3opt, 'relocate': nb_relocate, 'exchange': nb_exchange,
      '2opt*': nb_2optstar, '1point': nb_1point, '2point': nb_2point, 'chain': nb_chain}


def split(r, custs, k, empty=.08):
    """k routes out of custs; sometimes an empty one"""
    custs = list(custs)
    r.shuffle(custs)
    out = [[] for _ in range(k)]
    for c in custs: out[r.randrange(k)].append(c)
    for i in range(k):
        if not out[i] and r.random() > empty:
            j = max(range(k), key=lambda t: len(out[t]))
            if len(out[j]) > 1: out[i].append(out[j].pop())
    return [[0] + x + [0] for x in out]


def gen_op(r, ops):
    op = r.choice(ops)
    if r.random() < .35:
        # the operators without a contract get more of the cases
        op = r.choice([o for o in ops if o in ('insert', 'redistribute')] or [op])
    if op in INTRA:
        n = r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7] + ([8, 10] if op != '3opt' else []))
        N = n + r.choice([0, 0, 0, 2])
        D = matrix(r, N, metric=r.random() < .7)
        c = r.sample(range(1, N + 1), n)
        route = [0] + c + [0]
        case = dict(op=op, D=tolist(D), routes=[route], C=None, L=None, d=None)
    else:
        fn, k = INTER[op]
        k += op == 'insert'
        n = r.choice([1, 2, 3, 4, 5, 6, 7]) if op == 'chain' else r.choice([1, 2, 3, 4, 5, 6, 7, 9])
        if op == 'redistribute': k = r.choice([2, 2, 2, 3])
        D = matrix(r, n, metric=op not in ('insert', 'redistribute') or r.random() < .6)
        d = [0] + [r.randint(1, r.choice([1, 3, 9])) for _ in range(n)]
        if r.random() < .15: d = [0] + [x * r.choice([.5, .25, 1.5, .1]) for x in d[1:]]
        rts = split(r, range(1, n + 1), k)
        if op == 'insert' and len(rts[0]) == 2: rts.reverse()
        dem = [sum(d[x] for x in t) for t in rts]
        cst = [cost(t, D) for t in rts]
        sl = lambda m, tot: r.choice([m, m, (m + tot) / 2., m + r.uniform(0, tot), tot, tot * 2])
        C = None if r.random() < .3 else (sl(max(dem[op in ('insert',):]), sum(dem)) or 1)
        if C and r.random() < .6 and float(C).is_integer(): C = int(C)
        # exact ties with the limit matter: draw L from the costs of neighbouring solutions now and then
        L = None
        if r.random() < .6:
            L = sl(max(cst), sum(cst))
            if op in NB and r.random() < .5:
                nb = list(NB[op](*rts))
                if nb:
                    t = max(cost(x, D) for x in r.choice(nb))
                    L = max(t, max(cst)) + r.choice([0, 0, 0, 1e-4, -1e-4 if t > max(cst) + 1e-3 else 0])
            L = float(L) if L > 0 else None
        case = dict(op=op, D=tolist(D), routes=rts, d=d, C=C, L=L)
        if op == 'insert': case['form'] = r.choice(['rd', 'list', 'int'])
        if op == 'redistribute': case['level'] = r.choice([0, 0, 1, 2, 3])
    case['strategy'] = r.choice([1, 2])
    bd = None
    k = r.random()
    if k < .5:
        bd = r.choice([-1, 1]) * r.uniform(0, max(1e-3, float(np.max(case['D'])))) * r.choice([.1, 1, 2])
        if op in NB and k < .25:
            # threshold exactly at, just above or just below a neighbour's delta
            nb = list(NB[op](*case['routes']))
            if nb:
                base = sum(cost(x, case['D']) for x in case['routes'])
                t = r.choice(nb)
                t = t if isinstance(t, tuple) else (t,)
                bd = sum(cost(x, case['D']) for x in t) - base + r.choice([1e-3, 1e-2, 0, -1e-3])
        elif op in ('insert', 'redistribute') and r.random() < .7:
            # threshold between what single insertions cost
            D, t = case['D'], r.choice(case['routes'][1:])
            x = [v for v in case['routes'][0] if v]
            i = r.randrange(1, len(t)) if len(t) > 1 else 0
            if x and i:
                x = r.choice(x)
                bd = D[t[i - 1]][x] + D[x][t[i]] - D[t[i - 1]][t[i]] + r.choice([1e-3, 0, -1e-3, .5, 2])
    case['best_delta'] = bd
    return case


def run_op(case):
    """-> problems by property id"""
    op, D, d, C, L = case['op'], np.array(case['D'], dtype=float), case['d'], case['C'], case['L']
    rts = [list(x) for x in case['routes']]
    st, bd = case['strategy'], case['best_delta']
    out = {}
    D0 = D.copy()
    thr = bd
    if op in INTRA:
        route = list(rts[0])
        ret = INTRA[op](route, D, st, bd)
        if route != rts[0]: out['C04'] = 'the route passed in was changed to %s' % route
        if not isinstance(ret, (tuple, list)) or len(ret) != 2:
            return {'C04': 'returned %r' % (ret,)}
        newr, delta = ([list(ret[0])] if ret[0] is not None else None), ret[1]
        recs = None
        thr = 0 if bd is None else bd
    else:
        rds = RouteData.from_routes([list(x) for x in rts], D, d)
        snap = [(list(o.route), o.cost, o.demand) for o in rds]
        d0 = list(d)
        if op == 'insert':
            u = rds[0]
            if case['form'] == 'list': u = list(rts[0][1:-1])
            elif case['form'] == 'int':
                if len(rts[0]) != 3: u = rds[0]
                else: u = rts[0][1]
            ret = IE.do_insert_move(u, rds[1], D, d, C, L, st, bd)
            thr = bd
        elif op == 'redistribute':
            arg = rds[1] if len(rds) == 2 else rds[1:]
            ret = IE.do_redistribute_move(rds[0], arg, D, d, C, L, st, bd, case['level'])
            if isinstance(arg, list) and [id(x) for x in arg] != [id(x) for x in rds[1:]]: out['C04'] = 'the list of receiving routes was changed'
            thr = bd if bd else None
        else:
            ret = INTER[op][0](*(rds + [D, d, C, L, st, bd]))
            thr = bd if bd else 0
        if [(list(o.route), o.cost, o.demand) for o in rds] != snap: out['C04'] = 'the routes passed in were changed'
        if d != d0: out['C04'] = 'the demands were changed'
        if not isinstance(ret, (tuple, list)) or len(ret) != len(rds) + 1:
            return {'C04': 'returned %r' % (ret,)}
        delta = ret[-1]
        recs = list(ret[:-1])
        if any(x is None for x in recs) or delta is None:
            if not (all(x is None for x in recs) and delta is None): return {'C05': 'mixed result %r' % (ret,)}
            newr = None
        else: newr = [list(o.route) for o in recs]
    if not np.array_equal(D, D0): out['C04'] = 'the distance matrix was changed'
    old = sum(cost(x, D) for x in rts)
    if op in ('insert',): old = cost(rts[1], D)
    if op == 'redistribute': old = sum(cost(x, D) for x in rts[1:])
    sc = TOL * max(1.0, old)
    if newr is not None:
        a = Counter(x for t in rts for x in t if x != 0)
        b = Counter(x for t in newr for x in t if x != 0)
        if a != b: out['C04'] = 'customers %s became %s' % (rts, newr)
        for i, t in enumerate(newr):
            if op in ('insert', 'redistribute') and i == 0 and not t: continue
            if len(t) < 2 or t[0] != 0 or t[-1] != 0: out['C04'] = 'route %s does not start and end at the depot' % t
            if any(x == 0 for x in t[1:-1]): out['C04'] = 'depot inside the route %s' % t
        # RouteData() of an emptied route counts as cost 0
        new = sum(cost(t, D) for t in newr)
        if abs(new - old - delta) > sc: out['C05'] = 'reported %r, true change %r (%s -> %s)' % (delta, new - old, rts, newr)
        if thr is not None and new - old > thr - EPS + sc: out['C05'] = 'change %r does not beat %r' % (new - old, thr)
        if recs is not None:
            for o, t in zip(recs, newr):
                if not t: continue
                if abs(o.cost - cost(t, D)) > sc: out['C05'] = 'record of %s says cost %r, is %r' % (t, o.cost, cost(t, D))
                q = sum(d[x] for x in t)
                if C and abs(o.demand - q) > TOL: out['C05'] = 'record of %s says demand %r, is %r' % (t, o.demand, q)
                if C and q > C + TOL: out['C06'] = 'route %s demands %r > %r' % (t, q, C)
                if L and cost(t, D) > L + sc: out['C06'] = 'route %s costs %r > %r' % (t, cost(t, D), L)
    # C07
    if op in NB:
        best = None
        if op == '3opt' and len(rts[0]) < 4: it = ()
        else: it = NB[op](*rts)
        for t in it:
            t = t if isinstance(t, tuple) else (t,)
            if list(t) == rts: continue      # not a move
            dl = sum(cost(x, D) for x in t) - old
            if best is not None and dl >= best[0]: continue
            if L and any(cost(x, D) > L - (0 if float(L).is_integer() and all(float(v).is_integer() for v in D.flat) else 1e-9 * max(1, L)) for x in t): continue
            if C and any(sum(d[y] for y in x) > C for x in t): continue
            best = (dl, t)
        if best is not None:
            if newr is None and best[0] < thr - EPS - sc: out['C07'] = 'no move reported, but %s changes the cost by %r < %r' % (best[1], best[0], thr)
            if newr is not None and st == 2 and best[0] < delta - EPS - sc: out['C07'] = 'best-accept returned %r, but %s gives %r' % (delta, best[1], best[0])
    elif op == 'insert' and C is not None or op == 'insert':
        # a single customer under best accept: the cheapest feasible position
        if len(rts[0]) == 3 and st == 2:
            x = rts[0][1]
            cap = not C or sum(d[y] for t in rts for y in t) <= C
            best = None
            for j in range(1, len(rts[1])):
                t = rts[1][:j] + [x] + rts[1][j:]
                if L and cost(t, D) > L - 1e-9 * max(1, L): continue
                dl = cost(t, D) - old
                if best is None or dl < best[0]: best = (dl, t)
            if cap and best is not None:
                if newr is None and (thr is None or best[0] < thr - EPS - sc): out['C07'] = 'insertion not made, %s is possible' % (best[1],)
                if newr is not None and best[0] < delta - EPS - sc: out['C07'] = 'inserted at %r, %s gives %r' % (delta, best[1], best[0])
    return out


def mk(pid, ops):
    ops = list(ops)
    return (lambda r: gen_op(r, ops)), (lambda case: run_op(case).get(pid))


ALLOPS = list(INTRA) + list(INTER)
IMPROVING = list(INTRA) + ['2opt*', '1point', '2point', 'chain']
FN = dict(INTRA, **{k: v[0] for k, v in INTER.items()})


# ---- C08
def gen_ls(r):
    inst = instance(r, nmax=9)
    n = len(inst['D']) - 1
    inst['D'] = tolist(matrix(r, n)) if r.random() < .5 else inst['D']
    k = r.randint(1, max(1, min(4, n)))
    d = inst['d']
    rts = [t for t in split(r, range(1, n + 1), k, empty=1) if len(t) > 2]
    C = r.choice([None, max(sum(d[x] for x in t) for t in rts) * r.choice([1, 1, 1.2, 2])])
    L = r.choice([None, max(cost(t, inst['D']) for t in rts) * r.choice([1, 1, 1.1, 1.5, 3])]) or None
    ops = r.sample(IMPROVING, r.choice([1, 1, 2, 3, 4]))
    if n > 6 and 'chain' in ops and len(ops) > 2: ops.remove('chain')
    sol = [0] + [x for t in rts for x in t[1:]]
    return dict(D=inst['D'], d=d, C=C, L=L, sol=sol, ops=ops, op_strategy=r.choice([1, 2]), it=r.choice([1, 2, 3, 4]),
                max_iterations=r.choice([None, None, None, 1, 2, 3]))


def run_ls(case):
    D, d = np.array(case['D'], dtype=float), case['d']
    C, L = case['C'], case['L']
    sol = list(case['sol'])
    d1 = list(d)
    D1 = D.copy()
    fns = [FN[o] for o in case['ops']]
    res = do_local_search(list(fns), sol, D, d, C, L, case['op_strategy'], case['it'], case['max_iterations'])
    if sol != case['sol'] or d != d1 or not np.array_equal(D, D1): return 'the arguments were changed'
    inst = dict(D=case['D'], d=d, C=C, L=L)
    b = sol_problems(res, inst)
    if b: return 'result %s: %s' % (res, b)
    if cost(res, D) > cost(sol, D) + TOL: return 'cost grew from %r to %r (%s)' % (cost(sol, D), cost(res, D), res)
    if case['max_iterations'] is None:
        rts = [[0] + t + [0] for t in routes_of(res)]
        for o in case['ops']:
            k = 1 if o in INTRA else INTER[o][1]
            for idx in permutations(range(len(rts)), k):
                if k > 1 and FN[o] not in ROUTE_ORDER_SENSITIVE_OPERATORS and list(idx) != sorted(idx): continue
                sub = [rts[i] for i in idx]
                c2 = dict(op=o, D=case['D'], d=d, C=C, L=L, routes=sub, strategy=2, best_delta=None)
                base = sum(cost(x, D) for x in sub)
                for t in NB[o](*sub) if not (o == '3opt' and len(sub[0]) < 4) else ():
                    t = t if isinstance(t, tuple) else (t,)
                    dl = sum(cost(x, D) for x in t) - base
                    if dl < -1e-6 * max(1, base):
                        if L and any(cost(x, D) > L - 1e-9 * max(1, L) for x in t): continue
                        if C and any(sum(d[y] for y in x) > C - 1e-12 for x in t): continue
                        return '%s can still improve %s by %r to %s' % (o, sub, dl, t)
    return None


# ---- C09
def gen_3s(r):
    n = r.choice([1, 2, 3, 3, 4, 4, 5, 6, 7])
    D = matrix(r, n)
    d = [0] + [r.randint(1, r.choice([1, 3, 9])) for _ in range(n)]
    k = r.randint(1, min(4, n))
    rts = [t for t in split(r, range(1, n + 1), k, empty=1) if len(t) > 2]
    C = r.choice([None, max(sum(d[x] for x in t) for t in rts) * r.choice([1, 1, 1.2, 1.5, 2])])
    L = r.choice([None, max(cost(t, D) for t in rts) * r.choice([1, 1, 1.1, 1.2, 1.5, 3])]) or None
    bd = r.choice([None, None, None, r.uniform(-5, 5)])
    return dict(D=tolist(D), d=d, C=C, L=L, sol=[0] + [x for t in rts for x in t[1:]], strategy=r.choice([1, 2]), best_delta=bd)


MATCH = None


def matchings(l):
    if not l: yield []; return
    a = l[0]
    for i in range(1, len(l)):
        for m in matchings(l[1:i] + l[i + 1:]): yield [(a, l[i])] + m


def nb_3star(sol):
    """all results of replacing three edges of the giant tour by three others that leave every piece on a depot.
    Routes are listed as customer sequences."""
    global MATCH
    if MATCH is None: MATCH = list(matchings(list(range(6))))
    n = len(sol)
    for i in range(n - 1):
        for j in range(i + 1, n - 1):
            for k in range(j + 1, n - 1):
                segs = [sol[:i + 1], sol[i + 1:j + 1], sol[j + 1:k + 1], sol[k + 1:]]
                # ends: 0=end of seg0, 1=start seg1, 2=end seg1, 3=start seg2, 4=end seg2, 5=start seg3
                endof = {0: (0, 1), 1: (1, 0), 2: (1, 1), 3: (2, 0), 4: (2, 1), 5: (3, 0)}
                for m in MATCH:
                    adj = {}
                    for x, y in m: adj[x] = y; adj[y] = x
                    # walk from the start of the tour
                    used = set()
                    path = list(segs[0]); used.add(0)
                    e = adj[0]
                    while True:
                        s, side = endof[e]
                        used.add(s)
                        path += segs[s] if side == 0 else segs[s][::-1]
                        if s == 3: break
                        other = {(1, 0): 2, (1, 1): 1, (2, 0): 4, (2, 1): 3}[(s, side)]
                        e = adj[other]
                    rts = routes_of(path)
                    ok = True
                    rest = {1, 2} - used
                    while rest:
                        s0 = min(rest)
                        start = {1: 1, 2: 3}[s0]
                        e = start
                        cyc = []
                        first = True
                        while True:
                            s, side = endof[e]
                            rest.discard(s)
                            cyc += segs[s] if side == 0 else segs[s][::-1]
                            other = {(1, 0): 2, (1, 1): 1, (2, 0): 4, (2, 1): 3}[(s, side)]
                            e = adj[other]
                            if e == start: break
                        if 0 not in cyc: ok = False; break
                        z = cyc.index(0)
                        rts += routes_of(cyc[z:] + cyc[:z + 1])
                    if ok: yield rts


def run_3s(case):
    D, d, C, L = np.array(case['D'], dtype=float), case['d'], case['C'], case['L']
    sol = list(case['sol'])
    thr = 0 if case['best_delta'] is None else case['best_delta']
    res, delta = do_3optstar_move(sol, D, d, C, L, case['strategy'], case['best_delta'])
    if sol != case['sol']: return 'the solution passed in was changed'
    base = cost(sol, D)
    sc = TOL * max(1, base)
    feas = lambda rts: not (L and any(cost([0] + x + [0], D) > L - 1e-9 * max(1, L) for x in rts)) and not (C and any(sum(d[y] for y in x) > C for x in rts))
    if res is not None:
        b = sol_problems(res, dict(D=case['D'], d=d, C=C, L=L))
        if b: return 'returned %s: %s' % (res, b)
        if abs(cost(res, D) - base - delta) > sc: return 'reported %r, true change %r (%s)' % (delta, cost(res, D) - base, res)
        if delta > thr - EPS + sc: return 'change %r does not beat %r' % (delta, thr)
    if res is None or case['strategy'] == 2:
        lim = thr if res is None else delta
        for rts in nb_3star(sol):
            c = sum(cost([0] + x + [0], D) for x in rts) - base
            if c < lim - EPS - sc and feas(rts):
                return '%s, but %s changes the cost by %r' % ('no move reported' if res is None else 'best-accept returned %r' % delta, rts, c)
    return None


# ---- C10
def gen_tsp(r):
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10])
    D = matrix(r, n, metric=r.random() < .8)
    k = r.randint(1, n + 1)
    sel = r.sample(range(n + 1), k)
    if r.random() < .6 and 0 in sel:
        sel.remove(0); sel = [0] + sel
    if r.random() < .2 and len(sel) > 1: sel = sel + [sel[0]]
    return dict(D=tolist(D), sel=sel, mode=r.choice(['ropt', '3opt', '2opt', 'ropt-shuffle', 'no3', 'no2', 'none']), seed=r.randint(0, 10**6))


def run_tsp(case):
    import random
    D = np.array(case['D'], dtype=float)
    sel = list(case['sel'])
    random.seed(case['seed']); np.random.seed(case['seed'])
    f = {'ropt': lambda: solve_tsp_ropt(D, sel), '3opt': lambda: solve_tsp_3opt(D, sel), '2opt': lambda: solve_tsp_2opt(D, sel),
         'ropt-shuffle': lambda: solve_tsp_ropt(D, sel, do_shuffle=True), 'no3': lambda: solve_tsp_ropt(D, sel, do3opt=False),
         'no2': lambda: solve_tsp_ropt(D, sel, do2opt=False), 'none': lambda: solve_tsp_ropt(D, sel, do2opt=False, do3opt=False)}[case['mode']]
    tour, c = f()
    if sel != case['sel']: return 'the selection was changed to %s' % sel
    want = list(sel) if len(sel) > 1 and sel[-1] == sel[0] else list(sel) + ([sel[0]] if len(sel) > 1 else [])
    if len(sel) == 1:
        if not tour or set(tour) != set(sel) or len(tour) > 2: return 'tour %s of %s' % (tour, sel)
        return None if abs(c) < TOL else 'cost %r' % c
    if tour[0] != sel[0] or tour[-1] != sel[0]: return 'tour %s does not start and end at %s' % (tour, sel[0])
    if sorted(tour[:-1]) != sorted(want[:-1]): return 'tour %s does not visit %s' % (tour, sel)
    sc = TOL * max(1, abs(c))
    if abs(cost(tour, D) - c) > sc: return 'reported %r, tour %s costs %r' % (c, tour, cost(tour, D))
    if case['mode'] != 'ropt-shuffle' and c > cost(want, D) + sc: return 'costlier than the given order: %r > %r' % (c, cost(want, D))
    m = case['mode']
    if m != 'none' and not (m in ('3opt', 'no2') and len(tour) < 4):
        for t in nb_2opt(tour):
            if cost(t, D) < c - EPS - sc: return 'two-edge exchange improves %s to %s' % (tour, t)
    if m in ('3opt', 'ropt', 'ropt-shuffle', 'no2') and 4 <= len(tour) <= 9:
        for t in nb_3opt(tour):
            if cost(t, D) < c - EPS - sc: return 'three-edge exchange improves %s to %s' % (tour, t)
    return None


PROPS = {
    'C04': mk('C04', ALLOPS),
    'C05': mk('C05', ALLOPS),
    'C06': mk('C06', list(INTER)),
    'C07': mk('C07', IMPROVING + ['insert']),
    'C08': (gen_ls, run_ls),
    'C09': (gen_3s, run_3s),
    'C10': (gen_tsp, run_tsp),
}
