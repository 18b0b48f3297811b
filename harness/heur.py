"""Run-time contracts of the construction heuristics (C01, C02, C03, C14, C15, C19, C21, C24)."""
import sys, json, subprocess
from common import *
import signal
with quiet():
    import verypy
    ALGOS = {k: f for k, _, _, f in verypy.get_algorithms(['all'])}
from verypy.util import is_better_sol, objf
from verypy.cvrp_io import calculate_D
from verypy.classic_heuristics import parallel_savings as PS, sequential_savings as SS, gaskell_savings as GS, \
    paessens_savings as GPS, suppression_savings as IMS, cheapest_insertion as CI, mole_jameson_insertion as MJ, \
    nearest_neighbor as NN, tyagi_nearest_neighbor as TY, sweep as SW, rfcs as RF, cawlip_savings as CW
with quiet():
    from verypy.classic_heuristics import gillet_miller_sweep as GM, wren_holliday_sweep as WH, cmt_2phase as CMT, lr3opt as LR
from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_2opt, solve_tsp_3opt

MIP = ('gap', 'ptl', 'mbsa')
SAV = {'cw': PS.clarke_wright_savings_function, 'lambda': GS.gaskell_lambda_savings_function, 'pi': GS.gaskell_pi_savings_function,
       'paessens': lambda D: GPS.paessens_savings_function(D, 1.4, 0.5)}
LIM = {'gap': 5, 'ptl': 8, 'mbsa': 8, 'cmt': 14, 'lr3o': 9, 'gm': 12, 'wh': 14, 'mj': 14, 'rfcs': 15}

# option variants: name -> f(pts, D, d, C, L, mk)
VAR = {
    'ps.lambda': lambda p, D, d, C, L, mk: PS.parallel_savings_init(D, d, C, L, mk, SAV['lambda']),
    'ps.pi': lambda p, D, d, C, L, mk: PS.parallel_savings_init(D, d, C, L, mk, SAV['pi']),
    'ss.farthest': lambda p, D, d, C, L, mk: SS.sequential_savings_init(D, d, C, L, mk, 'farthest'),
    'ss.first': lambda p, D, d, C, L, mk: SS.sequential_savings_init(D, d, C, L, mk, 'first'),
    'ss.last': lambda p, D, d, C, L, mk: SS.sequential_savings_init(D, d, C, L, mk, 'last'),
    'gpl.lambda': lambda p, D, d, C, L, mk: GS.gaskell_savings_init(D, d, C, L, mk, 'lambda'),
    'gps.list': lambda p, D, d, C, L, mk: GPS.paessens_savings_init(D, d, C, L, mk, [(1.0, .2), (2.0, .9)], False),
    'si.closest': lambda p, D, d, C, L, mk: CI.cheapest_insertion_init(D, d, C, L, mk, 1, 'closest'),
    'si.strain': lambda p, D, d, C, L, mk: CI.cheapest_insertion_init(D, d, C, L, mk, 1, 'strain'),
    'pi.2': lambda p, D, d, C, L, mk: CI.cheapest_insertion_init(D, d, C, L, mk, 2, 'farthest'),
    'pi.3': lambda p, D, d, C, L, mk: CI.cheapest_insertion_init(D, d, C, L, mk, 3, 'closest'),
    'mj.prox': lambda p, D, d, C, L, mk: MJ.mole_jameson_insertion_init(D, d, C, L, mk, 'proximity_ranking'),
    'mj.min': lambda p, D, d, C, L, mk: MJ.mole_jameson_insertion_init(D, d, C, L, mk, 'min_strain'),
    'mj.gaskell': lambda p, D, d, C, L, mk: MJ.mole_jameson_insertion_init(D, d, C, L, mk, 'gaskell'),
    'nn.end': lambda p, D, d, C, L, mk: NN.nearest_neighbor_init(D, d, C, L, 1, 'closest', True),
    'nn.2': lambda p, D, d, C, L, mk: NN.nearest_neighbor_init(D, d, C, L, 2, 'farthest'),
    'nn.3': lambda p, D, d, C, L, mk: NN.nearest_neighbor_init(D, d, C, L, 3, 'closest'),
    'nn.nearest': lambda p, D, d, C, L, mk: NN.nearest_neighbor_init(D, d, C, L, 1, 'nearest'),
    'ty.orig': lambda p, D, d, C, L, mk: TY.tyagi_init(D, d, C, L, True, False, 'max_demand'),
    'ty.bal': lambda p, D, d, C, L, mk: TY.tyagi_init(D, d, C, L, False, True, 'balanced'),
    'swp.cw0': lambda p, D, d, C, L, mk: SW.sweep_init(p, D, d, C, L, mk, 'cw', SW.CLOSEST_TO_DEPOT),
    'swp.ccw': lambda p, D, d, C, L, mk: SW.sweep_init(p, D, d, C, L, mk, 'ccw', 1),
    'swp.tsp': lambda p, D, d, C, L, mk: SW.sweep_init(p, D, d, C, L, mk, 'ccw', SW.SMALLEST_ANGLE, routing_algo=GM.solve_tsp),
    'gm.cw': lambda p, D, d, C, L, mk: GM.gillet_miller_init(p, D, d, C, L, mk, 'cw', SW.SMALLEST_ANGLE),
    'wh.dense': lambda p, D, d, C, L, mk: WH.wren_holliday_init(p, D, d, C, L, mk, WH.LEAST_DENSE, 'ccw', False),
    'ss.savings': lambda p, D, d, C, L, mk: SS.sequential_savings_init(D, d, C, L, mk, 'savings'),
    'cmt.first': lambda p, D, d, C, L, mk: CMT.cmt_2phase_init(D, d, C, L, mk, 1.0, 1.0, 'first'),
    'cmt.biggest': lambda p, D, d, C, L, mk: CMT.cmt_2phase_init(D, d, C, L, mk, 2.0, 1.0, 'biggest'),
    'cmt.assoc2': lambda p, D, d, C, L, mk: CMT.cmt_2phase_init(D, d, C, L, mk, 2.0, 1.0, 'farthest', True, 2),
    'cmt.rnd': lambda p, D, d, C, L, mk: CMT.cmt_2phase_init(D, d, C, L, mk, 2.0, 1.0, 'farthest', True, 1, 3),
    'wh.alt': lambda p, D, d, C, L, mk: WH.wren_holliday_init(p, D, d, C, L, mk, WH.BEST_ALTERNATIVE, 'both'),
    'wh.int': lambda p, D, d, C, L, mk: WH.wren_holliday_init(p, D, d, C, L, mk, 0, 'cw'),
    'cmt.closest': lambda p, D, d, C, L, mk: CMT.cmt_2phase_init(D, d, C, L, mk, 1.0, 2.0, 'closest', False),
}


def polar(pts):
    """the (angle, radius, customer) stack the sweep heuristics accept instead of plane coordinates"""
    o = pts[0]
    a = sorted((math.atan2(y - o[1], x - o[0]), math.hypot(x - o[0], y - o[1]), i) for i, (x, y) in enumerate(pts) if i)
    return np.array(list(zip(*a)), dtype=float)


def _callbacks(m):
    ks = (('prepare_callback_datastructures', '_pack_datastructures_callback'), ('intra_route_improvement', '_improvement_callback'))
    return {k: getattr(m, n) for k, n in ks if hasattr(m, n)}


# sweeps started from polar coordinates the caller made (C19: these must stay as they are)
POLAR = {
    'swp': lambda s, D, d, C, L, mk: SW.sweep_init(s, D, d, C, L, mk, 'both', SW.SMALLEST_ANGLE),
    'swp.tsp': lambda s, D, d, C, L, mk: SW.sweep_init(s, D, d, C, L, mk, 'cw', SW.CLOSEST_TO_DEPOT, routing_algo=GM.solve_tsp),
    'gm': lambda s, D, d, C, L, mk: SW.sweep_init(s, D, d, C, L, mk, 'ccw', SW.SMALLEST_ANGLE, routing_algo=GM.solve_tsp, **_callbacks(GM)),
}


def gen_h(r, metric=True):
    pool = list(ALGOS) + list(VAR)
    pool += [a for a in ALGOS if a not in MIP]
    a = r.choice(pool)
    if a == 'gap' and r.random() < .8: a = r.choice(['ps', 'swp', 'si'])
    base = a.split('.')[0]
    inst = instance(r, nmax=LIM.get(base, 20), metric=metric)
    inst.update(algo=a, single=r.random() < .5, mk=r.random() < .35)
    if a in ('sn', 'pn', 'ty', 'lr3o'): inst['mk'] = False
    if a == 'gap':
        inst['single'] = True
        if inst['C'] is None: inst['C'] = sum(inst['d'])
    return inst


def dist(case):
    D = np.array(case['D'], dtype=float)
    return D.astype(int) if np.all(D == D.astype(int)) and len(case['d']) % 2 else D


def call(case, D=None, d=None, pts=None):
    if D is None: D = dist(case)
    d = list(case['d']) if d is None else d
    pts = [tuple(p) for p in case['pts']] if pts is None else pts
    with quiet():
        if case['algo'] in VAR: s = VAR[case['algo']](pts, D, d, case['C'], case['L'], case['mk'])
        else: s = ALGOS[case['algo']](pts, D, d, case['C'], case['L'], None, case['wt'], case['single'], case['mk'])
    return s


def refused(case, e):
    """outcomes C01 allows: a documented refusal, or a MIP heuristic that gives up"""
    if case['algo'] in MIP: return True
    return isinstance(e, NotImplementedError)


def run_h(case):
    try: s = call(case)
    except Exception as e:
        if refused(case, e): return {}
        import traceback
        return {'C01': 'raised %s' % ' / '.join(traceback.format_exc().strip().splitlines()[-3:])}
    if case['algo'] in MIP and s is None: return {}
    metric = case['wt'] == 'EXACT_2D'
    return sol_problems(s, case, metric=metric)


# ---- C14
def key(f, K, mk): return (K, f) if mk else (f,)


def gen_better(r):
    if r.random() < .5:
        v = lambda: r.choice([None, 0, 0.0, 1.0, 2.5, 3, -1.0, float('inf'), r.uniform(0, 3)])
        k = lambda: r.choice([None, 0, 1, 2, 3, float('inf')])
        return dict(kind='cmp', a=[v(), k(), v(), k()], mk=r.random() < .5)
    c = gen_h(r)
    c['kind'] = r.choice(['gpl', 'gps', 'ims', 'mj', 'swp', 'swp', 'gm'])
    if c['kind'] in ('mj', 'gm') and len(c['D']) > 9: c['kind'] = 'swp'
    c['algo'] = c['kind']
    return c


def run_better(case):
    if case['kind'] == 'cmp':
        bf, bk, f, k = case['a']
        mk = case['mk']
        got = bool(is_better_sol(bf, bk, f, k, mk))
        want = False if f is None or k is None else True if bf is None or bk is None else key(f, k, mk) < key(bf, bk, mk)
        return None if got == want else 'is_better_sol%r is %r' % (tuple(case['a'] + [mk]), got)
    D, d, C, L, mk = np.array(case['D'], dtype=float), list(case['d']), case['C'], case['L'], case['mk']
    pts = [tuple(p) for p in case['pts']]
    K = case['kind']
    n = len(D) - 1
    with quiet():
        if K == 'gpl':
            got = GS.gaskell_savings_init(D, d, C, L, mk, 'both')
            trials = [GS.gaskell_savings_init(D, d, C, L, mk, m) for m in ('lambda', 'pi')]
        elif K == 'gps':
            P = [(1.0, .1), (1.0, .5), (1.4, 0.0), (1.4, .5)]
            got = GPS.paessens_savings_init(D, d, C, L, mk, P)
            trials = [GPS.paessens_savings_init(D, d, C, L, mk, [p]) for p in P]
            m4 = GPS.paessens_savings_init(D, d, C, L, mk)
            trials2 = list(trials)
            if _worse(m4, trials, D, mk): return 'M4 returned %s, worse than one of its trials' % (m4,)
        elif K == 'ims':
            got = IMS.suppression_savings_init(D, d, C, L, mk, 4)
            trials = [IMS.suppression_savings_init(D, d, C, L, mk, i) for i in (1, 2, 3)]
        elif K == 'mj':
            got = MJ.mole_jameson_insertion_init(D, d, C, L, mk, 'all')
            trials = [MJ.mole_jameson_insertion_init(D, d, C, L, mk, s) for s in ('proximity_ranking', 'gaskell')]
        elif K in ('swp', 'gm'):
            f = SW.sweep_init if K == 'swp' else GM.gillet_miller_init
            got = f(pts, D, d, C, L, mk, 'both', SW.BEST_ALTERNATIVE)
            trials = [f(pts, D, d, C, L, mk, di, [s]) for di in ('cw', 'ccw') for s in range(n)]
    if _worse(got, trials, D, mk): return '%s returned %s, a trial gave a better solution: %s' % (K, got, min(trials, key=lambda s: key(cost(s, D), s.count(0), mk)))
    exact = K in ('gpl', 'gps', 'swp', 'gm')
    if exact and all(_worse(t, [got], D, mk) for t in trials): return '%s returned %s, which no trial gave' % (K, got)
    return None


def _worse(s, trials, D, mk):
    f, k = cost(s, D), len(routes_of(s))
    for t in trials:
        tf, tk = cost(t, D), len(routes_of(t))
        e = 1e-7 * max(1, f)
        if mk and tk < k: return True
        if (not mk or tk == k) and tf < f - e: return True
    return False


# ---- C15
def gen_sav(r):
    k = r.choice(['list', 'list', 'merge', 'merge', 'merge'])
    inst = instance(r, nmax=12)
    if r.random() < .6:
        D = manhattan([tuple(map(int, p)) for p in inst['pts']]) if r.random() < .6 else matrix(r, len(inst['D']) - 1, metric=False)
        inst['D'] = tolist(D)
        if inst['L']: inst['L'] = max(inst['L'], float(2 * D[0].max()))
    inst.update(kind=k, mk=r.random() < .5, f=r.choice(['cw', 'lambda', 'pi', 'paessens', 'ims', 'seq']),
                g=r.choice([.8, 1.0, 1.4, 2.0]), fm=r.choice([0, .1, .5, 1.0]), order=r.choice(['cw', 'random', 'pi', 'lambda']), seed=r.randint(0, 10**6))
    return inst


def run_sav(case):
    import random
    D = np.array(case['D'], dtype=float)
    n = len(D) - 1
    if case['kind'] == 'list':
        f = case['f']
        cw = lambda i, j: D[i, 0] + D[0, j] - D[i, j]
        if f == 'seq':
            rr = random.Random(case['seed'])
            un = set(x for x in range(1, n + 1) if rr.random() < .7)
            i = rr.randint(1, n)
            got = SS.clarke_wright_savings(set(un), i, D)
            if sorted(t[3] for t in got) != sorted(x for x in un if x != i): return 'entries %s for %s' % (got, un)
            for s, x, a, b in got:
                if a != i or abs(s - cw(i, b)) > 1e-9 * max(1, abs(s)): return 'entry %r, saving is %r' % ((s, x, a, b), cw(i, b))
            if any(a[0] > b[0] for a, b in zip(got, got[1:])): return 'not in order: %s' % got
            return None
        if f == 'ims':
            rr = random.Random(case['seed'])
            supp, cache = set(), []
            val = lambda i, j, sp: 0 if (i, j) in sp else max(0, cw(i, j))
            for it in range(rr.randint(1, max(1, min(5, n * (n - 1) // 2)))):
                before = set(supp)
                got = IMS.supression_savings_function(D, supp, cache)
                m = _savlist(got, n, lambda i, j: val(i, j, before))
                if m: return 'suppression round %d: %s' % (it, m)
                if n > 1 and (len(supp - before) > 1 or (got[0][2], got[0][3]) not in supp): return 'round %d suppressed %s' % (it, supp - before)
            return None
        avg = float(D.sum()) / (D.shape[0] * D.shape[1])
        F = {'cw': (PS.clarke_wright_savings_function, cw),
             'lambda': (GS.gaskell_lambda_savings_function, lambda i, j: cw(i, j) * (avg + abs(D[0, i] - D[0, j]) - D[i, j])),
             'pi': (GS.gaskell_pi_savings_function, lambda i, j: cw(i, j) - D[i, j]),
             'paessens': (lambda D: GPS.paessens_savings_function(D, case['g'], case['fm']),
                          lambda i, j: D[0, i] + D[0, j] - case['g'] * D[i, j] + case['fm'] * abs(D[0, i] - D[0, j]))}[f]
        return _savlist(F[0](D), n, F[1])
    # merge order
    d, C, L, mk = case['d'], case['C'], case['L'], case['mk']
    pairs = [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1)]
    if case['order'] == 'random':
        random.Random(case['seed']).shuffle(pairs)
        m = len(pairs)
        lst = [(float(m - k), 0.0, i, j) for k, (i, j) in enumerate(pairs)]
    else: lst = SAV[case['order']](D)
    want = _merge(lst, D, d, C, L, mk)
    if want is None: return None
    got = PS.parallel_savings_init(D, list(d), C, L, mk, lambda D: list(lst))
    if norm(got) != want: return 'merging %s gives %s, expected %s' % (lst[:6], norm(got), want)
    return None


def _savlist(got, n, val):
    if sorted((min(i, j), max(i, j)) for _, _, i, j in got) != [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1)]:
        return 'not one entry for every pair: %s' % [t[2:] for t in got]
    for s, _, i, j in got:
        if abs(s - val(i, j)) > 1e-9 * max(1, abs(s)): return 'entry %r for pair (%d,%d), value is %r' % (s, i, j, val(i, j))
    if any(a[0] < b[0] for a, b in zip(got, got[1:])): return 'not in decreasing order: %s' % got
    return None


def _merge(lst, D, d, C, L, mk):
    n = len(D) - 1
    rt = {i: [i] for i in range(1, n + 1)}
    for s, _, i, j in lst:
        cw = D[i, 0] + D[0, j] - D[i, j]
        if not mk:
            if abs(cw) < 1e-9 and cw != 0: return None     # rounding decides: no verdict
            if cw < 0: break
        a, b = rt[i], rt[j]
        if a is b or i not in (a[0], a[-1]) or j not in (b[0], b[-1]): continue
        if C:
            q = sum(d[x] for x in a + b)
            if abs(q - C) < 1e-7 and q != C: return None
            if q > C: continue
        x = a if a[-1] == i else a[::-1]
        y = b if b[0] == j else b[::-1]
        m = x + y
        if L:
            c = cost([0] + m + [0], D)
            if abs(c - L) < 1e-7 and c != L: return None
            if abs(c - L) < 1e-7 and not all(float(v).is_integer() for v in D.flat): return None
            if c > L: continue
        for v in m: rt[v] = m
    return sorted(min(r, r[::-1]) for r in {id(r): r for r in rt.values()}.values())


# ---- C19
CHILD = None


def gen_rep(r):
    if r.random() < .2:
        import ops
        k = r.choice(['ls', 'tsp', '3opt*'])
        c = {'ls': ops.gen_ls, 'tsp': ops.gen_tsp, '3opt*': ops.gen_3s}[k](r)
        if k == 'tsp' and c['mode'] == 'ropt-shuffle': c['mode'] = 'ropt'
        c.update(improver=k, child=r.random() < .2, as_array=r.random() < .3)
        return c
    c = gen_h(r, metric=r.random() < .7)
    c['algo'] = {'gap': 'ps', 'cmt.rnd': 'cmt'}.get(c['algo'], c['algo'])
    c['np'] = r.random() < .5
    c['child'] = r.random() < .3
    if r.random() < .12 and len(c['D']) <= 12:
        c.update(polar=r.choice(list(POLAR)), child=False)
    return c


def improve(case, D, d, sol):
    import ops
    k = case['improver']
    if k == 'ls': return ops.do_local_search([ops.FN[o] for o in case['ops']], sol, D, d, case['C'], case['L'], case['op_strategy'], case['it'], case['max_iterations'])
    if k == '3opt*': return ops.do_3optstar_move(sol, D, d, case['C'], case['L'], case['strategy'], case['best_delta'])
    o = dict(ropt={}, no3=dict(do3opt=False), no2=dict(do2opt=False), none=dict(do2opt=False, do3opt=False))
    if case['mode'] in o: return ops.solve_tsp_ropt(D, sol, **o[case['mode']])
    return (ops.solve_tsp_3opt if case['mode'] == '3opt' else ops.solve_tsp_2opt)(D, sol)


def improver_args(case):
    d = list(case.get('d', []))
    return np.array(case['D'], dtype=float), np.array(d) if case['as_array'] else d, list(case['sel'] if case['improver'] == 'tsp' else case['sol'])


def plain(x):
    if isinstance(x, (list, tuple)): return [plain(y) for y in x]
    return x.item() if hasattr(x, 'item') else x


def run_improver(case):
    D, d, sol = improver_args(case)
    s0, D0, d0 = list(sol), D.copy(), list(d)
    out = []
    for _ in range(2):
        try: out.append(plain(improve(case, D, d, sol)))
        except Exception as e: out.append(type(e).__name__)
        if not np.array_equal(D, D0): return 'the distance matrix was changed'
        if list(d) != d0: return 'the demands were changed to %s' % list(d)
        if list(sol) != s0: return 'the solution passed in was changed to %s' % sol
    if out[0] != out[1]: return 'two runs gave %s and %s' % tuple(out)
    if case['child']:
        c = child(case)
        if c != out[0]: return 'another process gave %s, this one %s' % (c, out[0])
    return None


def run_rep(case):
    if case.get('improver'): return run_improver(case)
    D = dist(case)
    D0 = D.copy()
    d, d0 = list(case['d']), list(case['d'])
    pts = [tuple(p) for p in case['pts']]
    if case['np']: pts = [list(p) for p in case['pts']]
    if case.get('polar'): pts = polar(pts)
    p0 = [tuple(p) for p in pts]
    def go():
        try:
            if case.get('polar'):
                with quiet(): return POLAR[case['polar']](pts, D, d, case['C'], case['L'], case['mk'])
            return call(case, D, d, pts)
        except Exception as e: return type(e).__name__
    a = go()
    if not np.array_equal(D, D0): return 'the distance matrix was changed'
    if d != d0: return 'the demands were changed to %s' % d
    if [tuple(p) for p in pts] != p0: return 'the coordinates were changed'
    b = go()
    f = lambda s: [int(x) for x in s] if isinstance(s, list) else s
    if f(a) != f(b): return 'two runs gave %s and %s' % (a, b)
    if case['child']:
        c = child(case)
        if f(a) != c: return 'another process gave %s, this one %s' % (c, f(a))
    return None


def child(case):
    global CHILD
    if CHILD is None:
        env = dict(os.environ, PYTHONHASHSEED='4242')
        CHILD = subprocess.Popen([sys.executable, '-O', '-B', os.path.abspath(__file__), '--serve'], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
    CHILD.stdin.write(json.dumps(case) + '\n'); CHILD.stdin.flush()
    return json.loads(CHILD.stdout.readline())


def serve():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        case = json.loads(line)
        try: s = plain(improve(case, *improver_args(case))) if case.get('improver') else [int(x) for x in call(case)]
        except Exception as e: s = type(e).__name__
        out.write(json.dumps(s) + '\n'); out.flush()


# ---- C21
def gen_rfcs(r):
    inst = instance(r, nmax=9)
    n = len(inst['D']) - 1
    tour = list(range(1, n + 1))
    r.shuffle(tour)
    inst.update(tour=tour, mode=r.choice(['plain', 'plain', 'default']), mk=r.random() < .4, closed=r.random() < .7)
    return inst


def run_rfcs(case):
    D, d, C, L, mk = np.array(case['D'], dtype=float), list(case['d']), case['C'], case['L'], case['mk']
    n = len(D) - 1
    tour = list(case['tour'])
    if n < 2: return None
    gt = tour + [tour[0]] if case['closed'] else list(tour)
    tl = cost(tour + [tour[0]], D)
    const = tl if mk else 0.0
    def close(D, r):
        r = list(r)
        if r[-1] != r[0] or len(r) == 1: r.append(r[0])
        return r, cost(r, D)
    plain = case['mode'] == 'plain'
    if plain: sol = RF.route_first_cluster_second_init(D, d, C, L, mk, lambda D, s: (list(gt), tl), close, close)
    else: sol = RF.route_first_cluster_second_init(D, d, C, L, mk, lambda D, s: (list(gt), tl))
    inst = dict(case)
    b = sol_problems(sol, inst)
    if b: return str(b)
    pos = {v: i for i, v in enumerate(tour)}
    rts = routes_of(sol)
    for t in rts:
        if plain:
            if any(pos[y] != (pos[x] + 1) % n for x, y in zip(t, t[1:])): return 'route %s is not in the order of the tour %s' % (t, tour)
        else:
            ps = {pos[x] for x in t}
            starts = [p for p in ps if (p - 1) % n not in ps]
            if len(starts) > 1: return 'route %s is not a stretch of the tour %s' % (t, tour)
    # shortest circular partition; stretch costs as the method prices them
    W = {}
    for u in range(n):
        rt = [0, 0]
        for m in range(1, n + 1):
            v = tour[(u + m - 1) % n]
            rt[-1] = v
            rt, c = close(D, rt) if plain else solve_tsp_2opt(D, rt)
            rt = list(rt)
            if L and c > L: break
            if C and sum(d[tour[(u + t) % n]] for t in range(m)) > C: break
            W[u, m] = c + const
    best = float('inf')
    for s in range(n):
        f = [float('inf')] * (n + 1)
        f[0] = 0
        for i in range(n):
            for m in range(1, n - i + 1):
                w = W.get(((s + i) % n, m))
                if w is not None and f[i] + w < f[i + m]: f[i + m] = f[i] + w
        best = min(best, f[n])
    got = cost(sol, D) + const * len(rts)
    if got > best + 1e-7 * max(1, best): return 'objective %r, the tour %s can be cut for %r (solution %s)' % (got, tour, best, sol)
    return None


# ---- C24
def gen_sweep(r):
    inst = instance(r, nmax=15)
    inst.update(dir=r.choice(['cw', 'ccw']), start=r.randrange(len(inst['D']) - 1), mk=False)
    return inst


def run_sweep(case):
    D, d, C, L = np.array(case['D'], dtype=float), list(case['d']), case['C'], case['L']
    pts = [tuple(p) for p in case['pts']]
    n = len(D) - 1
    sw = SW.get_sweep_from_cartesian_coordinates(pts)
    idx = [int(x) for x in sw[2]]
    if sorted(idx) != list(range(1, n + 1)): return 'sweep holds the customers %s' % idx
    ang = []
    for k, v in enumerate(idx):
        dx, dy = pts[v][0] - pts[0][0], pts[v][1] - pts[0][1]
        if abs(math.hypot(dx, dy) - sw[1][k]) > 1e-9 * max(1, sw[1][k]): return 'radius of %d is %r' % (v, sw[1][k])
        a = math.atan2(dy, dx)
        if abs(a - sw[0][k]) > 1e-9: return 'angle of %d is %r' % (v, sw[0][k])
        ang.append(a)
    if any(a > b for a, b in zip(sw[0], sw[0][1:])): return 'sweep is not in angular order'
    sol = SW.sweep_init(pts, D, d, C, L, False, case['dir'], [case['start']])
    b = sol_problems(sol, case)
    if b: return str(b)
    inc = 1 if case['dir'] == 'ccw' else -1
    order = [idx[(case['start'] + inc * k) % n] for k in range(n)]
    rts = routes_of(sol)
    if [x for t in rts for x in t] != order:
        return 'routes %s do not follow the sweep order %s' % (rts, order)
    for a, nx in zip(rts, rts[1:]):
        q = sum(d[x] for x in a) + d[nx[0]]
        c = cost([0] + a + [nx[0], 0], D)
        if not ((C and q > C - 1e-7) or (L and c > L - 1e-7 * max(1, L))): return 'route %s closed although %d still fits' % (a, nx[0])
    return None


def mk(pid):
    return (lambda r: gen_h(r, metric=pid == 'C03' or r.random() < .7)), (lambda c: run_h(c).get(pid))


PROPS = {'C01': mk('C01'), 'C02': mk('C02'), 'C03': mk('C03'), 'C14': (gen_better, run_better), 'C15': (gen_sav, run_sav),
         'C19': (gen_rep, run_rep), 'C21': (gen_rfcs, run_rfcs), 'C24': (gen_sweep, run_sweep)}

if __name__ == '__main__' and '--serve' in sys.argv: serve()
