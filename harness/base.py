"""Run-time contracts of the shared layers: feasibility checker, conversions, route records, service times, files,
ordered set, algorithm look-up (C11, C12, C13, C16, C17, C18, C22, C23)."""
import tempfile, copy
from common import *
import verypy
from verypy import util, cvrp_ops, cvrp_io
from verypy.routedata import RouteData
from verypy.util import OrderedDictSet


# ---- solutions, good and bad
def gen_giant(r, n, empties=.2, bad=0.0):
    nodes = list(range(1, n + 1))
    r.shuffle(nodes)
    if r.random() < bad and nodes:
        k = r.random()
        if k < .45: nodes.pop(r.randrange(len(nodes)))
        elif k < .9: nodes.insert(r.randint(0, len(nodes)), r.choice(nodes))
        else:
            nodes[r.randrange(len(nodes))] = r.choice(nodes)
    sol = [0]
    p = r.choice([.1, .3, .5, .9])
    for x in nodes:
        sol.append(x)
        if r.random() < p: sol.append(0)
        while r.random() < empties * .5: sol.append(0)
    if sol[-1] != 0 or len(sol) == 1: sol.append(0)
    if r.random() < empties: sol.insert(0, 0)
    return sol


# ---- C11
def gen_feas(r):
    n = r.choice([1, 2, 3, 4, 5, 6, 8, 12])
    D = matrix(r, n, metric=False)
    ints = r.random() < .5
    if ints: D = np.round(D)
    d = [0] + [r.randint(0 if r.random() < .1 else 1, r.choice([1, 9])) for _ in range(n)]
    if r.random() < .2: d = [0] + [x + r.choice([0, .5, .25]) for x in d[1:]]
    sol = gen_giant(r, n, bad=.3)
    form = r.choice(['giant', 'giant', 'wrap', 'nostart', 'noend'])
    if form == 'nostart': sol = sol[1:] if 0 in sol[1:] else sol
    elif form == 'noend': sol = sol[:-1] if 0 in sol[:-1] else sol
    elif form == 'wrap':
        s = sol[1:]
        k = r.randrange(len(s))
        sol = s[k:] + s[:k]
    rts = cyc_routes(sol)
    qs = [sum(d[x] for x in t) for t in rts]
    ls = [cost([0] + t + [0], D) for t in rts]
    C = r.choice([None, max(qs + [1]), max(qs + [1]) - 1, r.choice(qs + [1]), sum(d)])
    L = r.choice([None, max(ls + [1]), max(ls + [1]) * .999, r.choice(ls + [1.0]), float(D.sum())])
    if C is not None and C <= 0: C = None
    if L is not None and L <= 0: L = None
    return dict(sol=sol, D=tolist(D), d=d, C=C, L=L, form=form)


def cyc_routes(sol):
    k = sol.index(0)
    s = sol[k:] + sol[:k]
    return routes_of(s)


def run_feas(c):
    D, d, sol, C, L = np.array(c['D']), list(c['d']), list(c['sol']), c['C'], c['L']
    n = len(D) - 1
    s0, D0, d0 = list(sol), D.copy(), list(d)
    got = cvrp_ops.validate_solution_feasibility(sol, D, d, C, L)
    if sol != s0 or d != d0 or not np.array_equal(D, D0): return 'arguments changed'
    cov = sorted(x for x in sol if x) == list(range(1, n + 1))
    if bool(got[0]) != cov: return 'covering %s for %s' % (got[0], sol)
    rts = cyc_routes(sol)
    if C is not None:
        m = max([sum(d[x] for x in t) for t in rts] + [0])
        if abs(m - C) > 1e-7 or m == C:
            if bool(got[1]) != (m <= C): return 'capacity %s, largest route demand %r, C %r' % (got[1], m, C)
    elif not got[1]: return 'capacity infeasible without a capacity'
    if L is not None:
        m = max([cost([0] + t + [0], D) for t in rts] + [0])
        if abs(m - L) > 1e-7 * max(1, L) or (m == L and all(float(x).is_integer() for x in D.flat)):
            if bool(got[2]) != (m <= L): return 'route cost %s, largest %r, L %r' % (got[2], m, L)
    elif not got[2]: return 'cost infeasible without a limit'
    return None


# ---- C12
def gen_conv(r):
    n = r.choice([1, 1, 2, 3, 4, 5, 7, 10])
    D = matrix(r, n, metric=False)
    d = [0] + [r.randint(1, 9) for _ in range(n)]
    if r.random() < .3: d = [0] + [x + .25 for x in d[1:]]
    return dict(D=tolist(D), d=d, sol=gen_giant(r, n, empties=r.choice([0, 0, .3])), nod=r.random() < .2, asym=r.random() < .3,
                cut=[r.choice('bsen') for _ in range(n + 1)], seed=r.randint(0, 10**6))


def run_conv(c):
    D, d, sol = np.array(c['D']), list(c['d']), list(c['sol'])
    if c['asym']:
        rng = np.random.RandomState(c['seed'])
        D = D + np.round(rng.rand(*D.shape) * 5)
        np.fill_diagonal(D, 0)
    D0, d0, s0 = D.copy(), list(d), list(sol)
    rts = [[0] + t + [0] for t in routes_of(sol)]
    f, q = cost(sol, D), sum(d[x] for x in sol)
    e = 1e-9 * max(1, f)
    def same(): return sol == s0 and d == d0 and np.array_equal(D, D0)
    if abs(util.objf(sol, D) - f) > e: return 'objf %r, cost is %r' % (util.objf(sol, D), f)
    if abs(util.totald(sol, d) - q) > 1e-9: return 'totald %r, demand is %r' % (util.totald(sol, d), q)
    if abs(cvrp_ops.recalculate_objective(sol, D) - f) > e: return 'recalculate_objective(giant tour) %r, cost is %r' % (cvrp_ops.recalculate_objective(sol, D), f)
    if not same(): return 'input changed'
    if rts:
        cut = [t if k == 'b' else t[1:] if k == 's' else t[:-1] if k == 'e' else t[1:-1] for t, k in zip(rts, c['cut'])]
        c0 = copy.deepcopy(cut)
        g = cvrp_ops.recalculate_objective(cut, D)
        if abs(g - f) > e: return 'recalculate_objective(%s) is %r, cost is %r' % (cut, g, f)
        g = util.routes2sol(cut)
        w = [0] + [x for t in rts for x in t[1:]]
        if list(g) != w: return 'routes2sol(%s) is %s' % (cut, g)
        if cut != c0: return 'the routes were changed to %s' % cut
        if util.sol2routes(g) != rts: return 'there and back: %s' % util.sol2routes(g)
        g = util.routes2sol([[]] + cut + [[]])
        if list(g) != w: return 'routes2sol with empty routes is %s' % g
    g = util.sol2routes(sol)
    if [list(t) for t in g] != rts: return 'sol2routes(%s) is %s' % (sol, g)
    g = util.without_empty_routes(sol)
    w = [x for i, x in enumerate(sol) if i == 0 or x != 0 or sol[i - 1] != 0]
    if list(g) != w: return 'without_empty_routes(%s) is %s' % (sol, g)
    for sym in (True, False):
        g = util.sol2edgeset(sol, sym)
        w = set((min(a, b), max(a, b)) if sym else (a, b) for a, b in zip(sol, sol[1:]))
        if set(g) != w: return 'sol2edgeset(%s, symmetric=%s) is %s' % (sol, sym, g)
    if not same(): return 'input changed'
    dd = None if c['nod'] else d
    rds = RouteData.from_solution(sol, D, dd)
    m = _rds(rds, rts, D, dd)
    if m: return 'from_solution(%s): %s' % (sol, m)
    g = RouteData.to_solution(rds)
    if list(g) != [0] + [x for t in rts for x in t[1:]]: return 'to_solution gives %s for %s' % (g, rts)
    rc = copy.deepcopy(rts)
    rds = RouteData.from_routes(rts, D, dd)
    m = _rds(rds, rc, D, dd)
    if m: return 'from_routes: %s' % m
    if rts != rc or not same(): return 'input changed'
    return None


def _rds(rds, rts, D, d):
    if [list(x.route) for x in rds] != rts: return 'routes %s' % [x.route for x in rds]
    for x, t in zip(rds, rts):
        if abs(x.cost - cost(t, D)) > 1e-9 * max(1, x.cost): return 'cost %r of %s is %r' % (x.cost, t, cost(t, D))
        if d is not None and abs(x.demand - sum(d[v] for v in t)) > 1e-9: return 'demand %r of %s' % (x.demand, t)
        if x.node_set is not None and set(x.node_set) != set(t) - {0}: return 'node set %s of %s' % (x.node_set, t)
    return None


# ---- C13
def gen_norm(r):
    n = r.choice([1, 2, 3, 4, 5, 7, 10])
    sol = gen_giant(r, n, empties=.4)
    rts = routes_of(sol)
    p = list(range(len(rts)))
    r.shuffle(p)
    return dict(sol=sol, perm=p, flip=[r.random() < .5 for _ in rts], form=r.choice(['giant', 'routes', 'ends']),
                zeros=[r.choice([1, 1, 1, 2, 3]) for _ in range(len(rts) + 1)])


def run_norm(c):
    sol = list(c['sol'])
    rts = routes_of(sol)
    a = cvrp_ops.normalize_solution(sol)
    if sol != c['sol']: return 'input changed'
    a = [int(x) for x in a]
    if a[0] != 0 or (rts and a[-1] != 0) or any(x == y == 0 for x, y in zip(a, a[1:])): return 'not separated by single depot visits: %s' % a
    if norm(a) != norm(sol): return '%s normalised to %s' % (sol, a)
    if [int(x) for x in cvrp_ops.normalize_solution(a)] != a: return 'normalising %s again gives %s' % (a, cvrp_ops.normalize_solution(a))
    v = [rts[k][::-1] if f else rts[k] for k, f in zip(c['perm'], c['flip'])]
    if c['form'] == 'giant':
        b = [0] * c['zeros'][0]
        for t, z in zip(v, c['zeros'][1:]): b += t + [0] * z
    elif c['form'] == 'ends':
        b = [[0] * c['zeros'][0] + t + [0] * z for t, z in zip(v, c['zeros'][1:])]
        if c['zeros'][-1] > 1: b.insert(len(b) // 2, [0, 0])
    else: b = [list(t) for t in v]
    b0 = copy.deepcopy(b)
    g = [int(x) for x in cvrp_ops.normalize_solution(b)]
    if g != a: return '%s normalised to %s, the same solution %s to %s' % (sol, a, b, g)
    if b != b0: return 'input changed'
    return None


# ---- C16
def gen_rd(r):
    n = r.choice([1, 2, 3, 5, 8])
    D = matrix(r, n, metric=False)
    k = r.randint(0, n)
    t = r.sample(range(1, n + 1), k)
    d = [0] + [r.choice([r.randint(1, 9), r.randint(0, 4) + .5]) for _ in range(n)]
    rt = None if r.random() < .05 else [] if r.random() < .05 else [0] + t + [0]
    if rt and t and r.random() < .3: rt = r.choice([t, [0] + t, t + [0], [0, 0] + t + [0], [0] + t + [0, 0]])
    return dict(D=tolist(D), d=d, route=rt, nod=r.random() < .15, dir=r.choice([None, None, 1, -1]))


def run_rd(c):
    D, d = np.array(c['D']), None if c['nod'] else list(c['d'])
    rt = c['route'] if c['route'] is None else list(c['route'])
    nodes = [x for x in rt or [] if x]
    rd = RouteData(rt)
    if len(rt or []) != 1 and not (rt and set(rt) == {0} and len(rt) != 2):
        if bool(rd.is_empty()) != (not nodes): return 'is_empty of %s' % rt
    rd.update_node_set()
    if set(rd.node_set) != set(nodes) or len(rd.node_set) != len(set(nodes)): return 'node set of %s is %s' % (rt, rd.node_set)
    if rt is None or not rt or rt[0] != 0 or rt[-1] != 0 or rt.count(0) > 2: return None
    D0 = D.copy()
    before = list(rt)
    if c['dir']:
        rd.update_auxiliary_data(D, d, -c['dir'])
        rd.update_auxiliary_data(D, d, c['dir'])
    else: rd.update_auxiliary_data(D, d)
    if list(rd.route) != before or not np.array_equal(D, D0): return 'input changed'
    n = len(before)
    for i in range(n):
        w = (cost(before[:i + 1], D), cost(before[i:], D), sum(d[x] for x in before[:i + 1]) if d else 0, sum(d[x] for x in before[i:]) if d else 0)
        g = (rd.fwd_l[i], rd.rwd_l[i], rd.fwd_d[i], rd.rwd_d[i])
        if any(abs(x - y) > 1e-9 * max(1, abs(y)) for x, y in zip(g, w)): return 'position %d of %s: (fwd_l, rwd_l, fwd_d, rwd_d) is %s, should be %s' % (i, before, g, w)
    if len(rd.fwd_l) != n or len(rd.rwd_l) != n or len(rd.fwd_d) != n or len(rd.rwd_d) != n: return 'wrong lengths'
    if n > 2:
        rd.normalize()
        w = min(before, before[::-1], key=lambda t: t[1])
        if list(rd.route) != w and not (before[1] == before[-2] and list(rd.route) == before[::-1]): return 'normalize turned %s to %s' % (before, rd.route)
    return None


# ---- C17
def gen_st(r):
    n = r.choice([1, 2, 3, 5, 8])
    D = matrix(r, n, metric=False)
    if r.random() < .3: D = D + np.triu(np.array([[r.randint(0, 9) for _ in D] for _ in D]), 1)
    dt = r.choice(['int', 'int32', 'float'])
    if dt != 'float': D = np.round(D)
    st = r.choice([1, 2, 3, 10, 11, 90, .5, 1.5, 2.0, 3.0, 7.25, .1, r.uniform(.01, 50)])
    t = list(range(1, n + 1))
    r.shuffle(t)
    return dict(D=tolist(D), dt=dt, st=st, routes=[t[:r.randint(1, n)] for _ in range(3)] + [[i] for i in t[:2]])


def run_st(c):
    D = np.array(c['D']).astype({'int': int, 'int32': np.int32, 'float': float}[c['dt']])
    D0 = D.copy()
    g = cvrp_ops.D2D_c(D, c['st'])
    if not np.array_equal(D, D0) or D.dtype != D0.dtype: return 'the matrix was changed'
    if g is D or np.shares_memory(g, D): return 'the matrix is shared'
    if g.shape != D.shape or any(g[i, i] != 0 for i in range(len(D))): return 'diagonal %s' % np.diag(g)
    for t in c['routes']:
        p = [0] + t + [0]
        w = cost(p, D0) + c['st'] * len(t)
        if abs(cost(p, g) - w) > 1e-8 * max(1, w): return 'route %s costs %r, travel and service are %r' % (p, cost(p, g), w)
    return None


# ---- C18
FORMATS = ['FULL_MATRIX', 'LOWER_ROW', 'LOWER_DIAG_ROW', 'UPPER_ROW', 'UPPER_DIAG_ROW', 'LOWER_COL']
TYPES = ['EUC_2D', 'EXACT_2D', 'CEIL_2D', 'FLOOR_2D', 'MAX_2D', 'MAN_2D', 'GEO', 'ATT']


def gen_io(r):
    k = r.choice(['coord', 'coord', 'coord', 'matrix', 'matrix', 'matrix', 'extra', 'sol', 'write', 'write'])
    n = r.choice([2, 3, 4, 5, 7, 10])
    c = dict(k=k, n=n, seed=r.randint(0, 10**6))
    c['wt'] = r.choice(TYPES)
    if c['wt'] == 'GEO': c['pts'] = [(r.randint(-89, 89) + r.randint(0, 59) / 100.0, r.randint(-179, 179) + r.randint(0, 59) / 100.0) for _ in range(n)]
    elif r.random() < .7 or c['wt'] in ('MAX_2D', 'MAN_2D'): c['pts'] = [(r.randint(-1000, 1000), r.randint(-1000, 1000)) for _ in range(n)]
    else: c['pts'] = [(round(r.uniform(-100, 100), 3), round(r.uniform(-100, 100), 3)) for _ in range(n)]
    c['D'] = tolist(np.round(matrix(r, n - 1, metric=False) * r.choice([1, 7]), r.choice([0, 0, 2])))
    c['fmt'] = r.choice(FORMATS)
    c['depot'] = r.choice([1, 1, 1, 2, n, r.randint(1, n)])
    c['nodepot'] = r.random() < .15 and c['depot'] == 1
    c['d'] = [0 if i == c['depot'] - 1 else r.choice([r.randint(1, 50), r.randint(1, 50), r.randint(1, 9) + .5]) for i in range(n)]
    c['cap'] = r.choice([None, r.randint(50, 200)])
    c['sp'] = r.choice([' : ', ': ', ':', '\t:\t'])
    c['perline'] = r.choice([0, 1, 3, 7])
    c['wrong'] = r.choice([0, 0, 0, -1, -2, 1]) if k == 'matrix' else 0
    c['display'] = r.choice([0, 0, 1, 2])
    c['L'] = r.choice([None, r.randint(10, 999), r.randint(10, 999) + .5])
    c['ST'] = r.choice([None, r.randint(1, 99), r.randint(1, 99) + .25])
    c['K'] = r.choice([None, r.randint(1, 20)])
    c['stsec'] = r.random() < .5
    m = r.randint(1, 12)
    c['sol'] = gen_giant(r, m, empties=0)
    c['cost'] = r.choice([r.randint(0, 10000), round(r.uniform(0, 10000), 2), float(r.randint(0, 1000))])
    c['prec'] = r.choice([None, None, 1, 100])
    c['sel'] = r.choice([None, None, sorted(r.sample(range(n), r.randint(2, n))), [0] + r.sample(range(1, n), r.randint(1, n - 1))])
    c['ext'] = r.choice(['.vrp', '.vrp', '.tsp'])
    c['wC'] = r.choice([None, r.randint(50, 200)])
    c['wd'] = r.random() < .8
    return c


def nint_ok(got, x): return float(got).is_integer() and abs(got - x) <= .5 + 1e-6


def dist_ok(t, p, q, g):
    dx, dy = p[0] - q[0], p[1] - q[1]
    e = math.sqrt(dx * dx + dy * dy)
    tol = 1e-9 * max(1, e)
    if t == 'EXACT_2D': return abs(g - e) <= tol
    if t == 'EUC_2D': return nint_ok(g, e)
    if t == 'CEIL_2D': return g in (math.ceil(e - tol), math.ceil(e + tol))
    if t == 'FLOOR_2D': return g in (math.floor(e - tol), math.floor(e + tol))
    if t == 'MAX_2D': return abs(g - max(abs(dx), abs(dy))) <= tol
    if t == 'MAN_2D': return abs(g - abs(dx) - abs(dy)) <= tol
    if t == 'ATT':
        rr = e / math.sqrt(10.0)
        w = int(rr + .5)
        return g == (w + 1 if w < rr else w) or abs(rr - round(rr)) < 1e-9 and abs(g - rr) < 1.1
    if t == 'GEO':
        if tuple(p) == tuple(q): return g in (0, 1)
        def rad(x):
            deg = math.trunc(x)
            return 3.141592 * (deg + 5.0 * (x - deg) / 3.0) / 180.0
        a, b, c, f = rad(p[0]), rad(p[1]), rad(q[0]), rad(q[1])
        q1, q2, q3 = math.cos(b - f), math.cos(a - c), math.cos(a + c)
        v = 6378.388 * math.acos(max(-1, min(1, .5 * ((1 + q1) * q2 - (1 - q1) * q3)))) + 1.0
        return abs(g - int(v)) <= (1 if abs(v - round(v)) < 1e-3 else 0)
    raise ValueError(t)


def entries(fmt, D):
    n = len(D)
    R = range(n)
    if fmt == 'FULL_MATRIX': return [D[i][j] for i in R for j in R]
    if fmt == 'LOWER_ROW': return [D[i][j] for i in R for j in range(i)]
    if fmt == 'LOWER_DIAG_ROW': return [D[i][j] for i in R for j in range(i + 1)]
    if fmt == 'UPPER_ROW': return [D[i][j] for i in R for j in range(i + 1, n)]
    if fmt == 'UPPER_DIAG_ROW': return [D[i][j] for i in R for j in range(i, n)]
    if fmt == 'LOWER_COL': return [D[i][j] for j in R for i in range(j + 1, n)]


def num(x): return str(int(x)) if float(x).is_integer() else repr(float(x))


def run_io(c):
    with tempfile.TemporaryDirectory(prefix='vp_io_') as tmp: return _io(c, tmp)


def _io(c, tmp):
    n, sp = c['n'], c['sp']
    rng = __import__('random').Random(c['seed'])
    fn = os.path.join(tmp, 'x.vrp')
    order = [c['depot'] - 1] + [i for i in range(n) if i != c['depot'] - 1]
    if c['k'] in ('coord', 'matrix'):
        t = ['NAME%sx' % sp, 'TYPE%sCVRP' % sp, 'COMMENT%snone' % sp, 'DIMENSION%s%d' % (sp, n)]
        if c['cap']: t.append('CAPACITY%s%d' % (sp, c['cap']))
        sec = []
        D = c['D']
        pts = [tuple(p) for p in c['pts']]
        if c['k'] == 'coord':
            t.append('EDGE_WEIGHT_TYPE%s%s' % (sp, c['wt']))
            sec.append(['NODE_COORD_SECTION'] + ['%d %s %s' % (i + 1, num(x), num(y)) for i, (x, y) in enumerate(pts)])
        else:
            t += ['EDGE_WEIGHT_TYPE%sEXPLICIT' % sp, 'EDGE_WEIGHT_FORMAT%s%s' % (sp, c['fmt'])]
            es = [num(x) for x in entries(c['fmt'], D)]
            if c['wrong'] < 0: es = es[:c['wrong']]
            elif c['wrong'] > 0: es = es + ['7'] * c['wrong']
            pl = c['perline'] or n
            sec.append(['EDGE_WEIGHT_SECTION'] + [' ' + '  '.join(es[i:i + pl]) for i in range(0, len(es), pl)])
            if c['display']: sec.append([['', 'DISPLAY_DATA_SECTION', 'NODE_COORD_SECTION'][c['display']]] + ['%d %s %s' % (i + 1, num(x), num(y)) for i, (x, y) in enumerate(pts)])
        sec.append(['DEMAND_SECTION'] + ['%d %s' % (i + 1, num(x)) for i, x in enumerate(c['d'])])
        if not c['nodepot']: sec.append(['DEPOT_SECTION', ' %d' % c['depot'], ' -1'])
        h, rest = sec[0], sec[1:]
        for s in [h] + rest: t += s
        t.append('EOF')
        open(fn, 'w').write('\n'.join(t) + '\n')
        try: p = cvrp_io.read_TSPLIB_CVRP(fn)
        except Exception as e:
            if c['wrong']: return None
            raise
        if c['wrong']: return 'a %s section with %+d values was accepted' % (c['fmt'], c['wrong'])
        if p.size != n - 1: return 'size %s of %d nodes' % (p.size, n)
        if p.capacity_constraint != c['cap']: return 'capacity %r, file says %r' % (p.capacity_constraint, c['cap'])
        if [float(x) for x in p.customer_demands] != [float(c['d'][i]) for i in order]: return 'demands %s, file says %s with depot %d' % (p.customer_demands, c['d'], c['depot'])
        M = p.distance_matrix
        if np.shape(M) != (n, n): return 'matrix of shape %s' % (np.shape(M),)
        for a in range(n):
            for b in range(n):
                i, j = order[a], order[b]
                if c['k'] == 'matrix':
                    if abs(float(M[a][b]) - D[i][j]) > 1e-9: return 'distance %d-%d is %r, file says %r (%s, depot %d)' % (i + 1, j + 1, M[a][b], D[i][j], c['fmt'], c['depot'])
                elif a == b:
                    if M[a][b] != 0: return 'distance to itself %r' % M[a][b]
                elif not dist_ok(c['wt'], pts[i], pts[j], float(M[a][b])): return '%s distance of %s and %s is %r' % (c['wt'], pts[i], pts[j], M[a][b])
        cp, dp = p.coordinate_points, p.display_coordinate_points
        if c['k'] == 'coord' and c['wt'] != 'GEO' or c['k'] == 'matrix' and c['display'] == 2:
            if [tuple(map(float, x)) for x in cp] != [tuple(map(float, pts[i])) for i in order]: return 'points %s, file says %s (depot %d)' % (cp, pts, c['depot'])
        if c['k'] == 'matrix' and c['display'] == 1:
            if [tuple(map(float, x)) for x in dp] != [tuple(map(float, pts[i])) for i in order]: return 'display points %s, file says %s (depot %d)' % (dp, pts, c['depot'])
        return None
    if c['k'] == 'extra':
        t = ['NAME%sx' % sp, 'TYPE%sCVRP' % sp, 'DIMENSION%s%d' % (sp, n)]
        if c['L'] is not None: t.append('DISTANCE%s%s' % (' : ', num(c['L'])))
        if c['K'] is not None: t.append('VEHICLES%s%d' % (' : ', c['K']))
        if c['ST'] is not None and not c['stsec']: t.append('SERVICE_TIME%s%s' % (' : ', num(c['ST'])))
        if c['ST'] is not None and c['stsec']: t += ['SVC_TIME_SECTION'] + ['%d %s' % (i + 1, num(c['ST']) if i else '0') for i in range(n)]
        t += ['DEMAND_SECTION'] + ['%d %s' % (i + 1, num(x)) for i, x in enumerate(c['d'])] + ['EOF']
        open(fn, 'w').write('\n'.join(t) + '\n')
        K, L, ST = cvrp_io.read_TSBLIB_additional_constraints(fn)
        if (K, L, ST) != (c['K'], c['L'], c['ST']): return 'vehicles, distance, service time read as %s, file says %s' % ((K, L, ST), (c['K'], c['L'], c['ST']))
        return None
    if c['k'] == 'sol':
        sol = c['sol']
        s0 = list(sol)
        f = os.path.join(tmp, 'a-k%d.opt' % len(routes_of(sol)) if rng.random() < .5 else 'a.opt')
        open(f, 'w').write(cvrp_io.as_OPT_solution(c['cost'], sol))
        if sol != s0: return 'input changed'
        with quiet(): s, fo, k = cvrp_io.read_OPT_CVRP(f)
        if [x for x in s] != without(sol): return 'solution %s read back as %s' % (sol, s)
        if abs(fo - c['cost']) > .0051: return 'cost %r read back as %r' % (c['cost'], fo)
        if k != len(routes_of(sol)): return '%d routes read back as %d' % (len(routes_of(sol)), k)
        v = cvrp_io.as_VRPH_solution(sol)
        rts, cur = [], None
        for x in v[1:-1]:
            if x < 0: cur = [-x]; rts.append(cur)
            elif cur is None: return 'VRPH solution %s does not start a route' % v
            else: cur.append(x)
        if rts != routes_of(sol) or v[-1] != 0: return 'VRPH solution of %s is %s' % (sol, v)
        return None
    # write
    D = np.array(c['D'])
    if all(float(x).is_integer() for x in D.flat) and rng.random() < .5: D = D.astype(int)
    d = [0] + [x if x else 1 for x in c['d'][1:]]
    sel = c['sel']
    if sel is not None and 0 not in sel[:1] and c['ext'] == '.vrp': sel = [0] + [x for x in sel if x]
    if sel is not None and len(sel) < 2: sel = [0, 1]
    f = os.path.join(tmp, 'w' + c['ext'])
    D0, d0, sel0 = D.copy(), list(d), list(sel) if sel else sel
    cvrp_io.write_TSPLIB_file(f, D, d if c['wd'] else None, c['wC'], c['L'], selected_idxs=sel, float_to_int_precision=c['prec'])
    if not np.array_equal(D, D0) or d != d0 or sel != sel0: return 'input changed'
    p = cvrp_io.read_TSPLIB_CVRP(f)
    idx = sel or list(range(len(D)))
    if p.size != len(idx) - 1: return 'wrote %d nodes, read size %d' % (len(idx), p.size)
    for a, i in enumerate(idx):
        for b, j in enumerate(idx):
            w = float(D[i][j]) if c['prec'] is None else float(int(D[i][j] * c['prec']))
            if abs(float(p.distance_matrix[a][b]) - w) > 1e-9: return 'distance %d-%d written %r read %r' % (i, j, w, p.distance_matrix[a][b])
    if c['ext'] == '.vrp':
        if c['wd'] and [float(x) for x in p.customer_demands] != [0.0] + [float(d[i]) for i in idx[1:]]: return 'demands %s of %s read as %s' % (d, idx, p.customer_demands)
        if c['wC'] and p.capacity_constraint != c['wC']: return 'capacity %r read as %r' % (c['wC'], p.capacity_constraint)
        L = cvrp_io.read_TSBLIB_additional_constraints(f)[1]
        if L != c['L']: return 'limit %r read as %r' % (c['L'], L)
    return None


def without(sol): return [x for i, x in enumerate(sol) if i == 0 or x != 0 or sol[i - 1] != 0]


# ---- C22
def gen_ods(r):
    hi = r.choice([2, 4, 8])
    lo = r.choice([0, 0, 70000])  # large numbers: equal elements are not the same object
    hi += lo
    ops = []
    for _ in range(r.randint(1, 25)):
        k = r.choice(['add', 'add', 'add', 'rem', 'rem', 'diff', 'get', 'get', 'iter', 'slice', 'self'][:11 if r.random() < .2 else 10])
        x = r.randint(0, 8) if k in ('get', 'slice') else r.randint(lo, hi)
        ops.append([k, [r.randint(lo, hi) for _ in range(r.randint(0, 3))] if k == 'diff' else x])
    return dict(init=r.choice([None, [], [r.randint(lo, hi) for _ in range(r.randint(1, 5))]]), ops=ops, again=r.random() < .3)


def run_ods(c):
    s = OrderedDictSet() if c['init'] is None else OrderedDictSet(list(c['init']))
    m = []
    for x in c['init'] or []:
        if x not in m: m.append(x)
    for t, (k, x) in enumerate(c['ops']):
        if k == 'add':
            s.add(x)
            if x not in m: m.append(x)
        elif k == 'rem':
            if x in m: s.remove(x); m.remove(x)
            else:
                try: s.remove(x)
                except KeyError: pass
                else: return 'removing the missing %r was accepted' % x
        elif k == 'diff':
            s.difference_update(list(x))
            m = [y for y in m if y not in x]
        elif k == 'self':
            s.difference_update(s)
            m = []
        elif k == 'get':
            if m and s[x % len(m)] != m[x % len(m)]: return 'step %d: [%d] is %r, should be %r' % (t, x % len(m), s[x % len(m)], m[x % len(m)])
            if m and s[-1] != m[-1]: return 'step %d: last is %r' % (t, s[-1])
        elif k == 'slice':
            if list(s[1:]) != m[1:]: return 'step %d: slice is %s, should be %s' % (t, list(s[1:]), m[1:])
        else:
            if list(s) != m: return 'step %d: iterates %s, should be %s' % (t, list(s), m)
        if len(s) != len(m): return 'step %d: length %d, should be %d' % (t, len(s), len(m))
        if c['again']: s2 = OrderedDictSet(s); s = s2
    if list(s) != m: return 'iterates %s, should be %s' % (list(s), m)
    if [s[i] for i in range(len(m))] != m: return 'indexes %s, should be %s' % ([s[i] for i in range(len(m))], m)
    try: s[len(m)]
    except IndexError: pass
    else: return 'indexing past the end gave %r' % s[len(m)]
    for x in range(10):
        if (x in s) != (x in m): return 'membership of %d' % x
    return None


# ---- C23: the documented names (verypy/__init__.py lists them; copied here as the specification)
NAMES = {
    'ps': ('parallel_savings', 'ps cw64-ps cw parallelsavings clarkewright'),
    'gpl': ('gaskell_savings', 'gpl ga67-ps ga67-ps|pi ga67-ps|lambda gaskellpi gaskelllambda'),
    'ss': ('sequential_savings', 'ss we64-ss sequentialsavings'),
    'gps': ('paessens_savings', 'gps pa88-ps generalizedsavings generalizedparallelsavings paessens'),
    'ims': ('suppression_savings', 'ims hp76-ps hp76-ps|ims suppression iterativemergesuppression mergesuppressionsavings'),
    'ps2o': ('cawlip_savings', 'ps2o rt79-ps cawlip savingswith2opt'),
    'si': ('cheapest_insertion', 'si ci cheapestinsertion sequentialinsertion mj76-si'),
    'mj': ('mole_jameson_insertion', 'mj molejameson molejamesoninsertion'),
    'pi': ('cheapest_insertion', 'pi parallelinsertion parallelcheapestinsertion'),
    'mbsa': ('matchingvrp', 'mbsa dv89-mbsa matching maximummatching mm desrochersverhoog'),
    'cmt': ('cmt_2phase', 'cmt cmt79-2p tp twophase cmt2p cmt2phase cmttwophase'),
    'sn': ('nearest_neighbor', 'sn nn snn'),
    'pn': ('nearest_neighbor', 'pn pnn'),
    'ty': ('tyagi_nearest_neighbor', 'ty ty68-snn tyagi'),
    'swp': ('sweep', 'swp sweep'),
    'wh': ('wren_holliday_sweep', 'wh wh72-swls whs whswp wrenholliday wrenhollidaysweep'),
    'gm': ('gillet_miller_sweep', 'gm gm74-swri gms gmswp gilletmiller gilletmillersweep'),
    'rfcs': ('rfcs', 'rfcs be83-rfcs routefirstclustersecond beasley newtonthomas'),
    'gap': ('gapvrp', 'gap fj81-gap fisherjaikumar'),
    'ptl': ('petalvrp', 'ptl fr76-ptl petal fosterryan'),
    'lr3o': ('lr3opt', 'lr3o sg82-lr3opt lr3opt'),
}
CODE = {'ps': 'CW64-PS', 'ps2o': 'RT79-CAWLIP', 'ss': 'We64-SS', 'gps': 'Pa88-PS|G2P', 'ims': 'HP76-PS|IMS', 'si': 'vB94-SI', 'mj': 'MJ76-INS',
        'pi': 'vB94-PI', 'mbsa': 'DV89-MM', 'cmt': 'CMT79-2P', 'sn': 'vB95-SNN', 'pn': 'vB95-PNN', 'ty': 'Ty68-NN', 'swp': 'Sweep', 'wh': 'WH72-SwLS',
        'gm': 'GM74-SwRI', 'rfcs': 'Be83-RFCS', 'gap': 'FJ81-GAP', 'ptl': 'FR76-1PTL', 'lr3o': 'SG84-LR3OPT', 'gpl': 'Ga67-PS'}
ALL = set(NAMES)
CLASSICAL = ALL - {'ps2o', 'si', 'pi', 'sn', 'pn', 'swp'}
TABLE = {a: k for k, (m, s) in NAMES.items() for a in s.split()}
GROUPS = {'all': ALL, 'classical': CLASSICAL, 'classic': CLASSICAL}
_todo = []


def gen_names(r):
    global _todo
    if not _todo:
        _todo = sorted(TABLE) + sorted(GROUPS)
        r.shuffle(_todo)
    names = [_todo.pop()]
    for _ in range(r.choice([0, 0, 1, 2])):
        names.insert(r.randint(0, len(names)), r.choice([r.choice(sorted(TABLE)), 'nosuch', 'p', '', 'cw65', r.choice(sorted(TABLE)) + 'x']))
    def case(s):
        k = r.random()
        return s if k < .3 else s.upper() if k < .6 else s.title() if k < .8 else ''.join(ch.upper() if r.random() < .5 else ch for ch in s)
    names = [case(x) for x in names]
    if len(names) == 1 and r.random() < .5: names = names[0]
    return dict(names=names)


def run_names(c):
    names = c['names']
    with quiet(): got = verypy.get_algorithms(names)
    lst = [names] if isinstance(names, str) else names
    want = []
    for x in lst:
        k = x.lower()
        if k in GROUPS: want.append(GROUPS[k])
        elif k in TABLE: want.append({TABLE[k]})
    i = 0
    for w in want:
        g = got[i:i + len(w)]
        if sorted(x[0] for x in g) != sorted(w): return '%r gave %s' % (names, [x[0] for x in got])
        i += len(w)
    if i != len(got): return '%r gave %s' % (names, [x[0] for x in got])
    for x in got:
        if len(x) != 4 or not callable(x[3]): return '%r gave %r' % (names, x)
        if x[3].__module__.rsplit('.', 1)[-1] != NAMES[x[0]][0]: return '%r gave a function of %s' % (x[0], x[3].__module__)
        if not str(x[1]).startswith(CODE[x[0]]): return '%r is named %r' % (x[0], x[1])
    return None


PROPS = {'C11': (gen_feas, run_feas), 'C12': (gen_conv, run_conv), 'C13': (gen_norm, run_norm), 'C16': (gen_rd, run_rd),
         'C17': (gen_st, run_st), 'C18': (gen_io, run_io), 'C22': (gen_ods, run_ods), 'C23': (gen_names, run_names)}
