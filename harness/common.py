"""Shared parts of the run-time contract harness: the real code of /repo is run on generated inputs and the
contracts' postconditions are evaluated on what it returns.  Everything here is bounded and is reported as such."""
import os, sys, math, io, contextlib, warnings, logging
warnings.simplefilter('ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
import numpy as np
from collections import Counter

EPS = 1e-10      # the library's documented tolerance
TOL = 1e-6       # slack of the oracle for accumulated floating point error


def quiet():
    s = contextlib.ExitStack()
    s.enter_context(contextlib.redirect_stdout(io.StringIO()))
    s.enter_context(contextlib.redirect_stderr(io.StringIO()))
    return s


def points(r, n, kinds=('int', 'int', 'float', 'line', 'cluster', 'ring', 'coin')):
    """n+1 points, depot first"""
    k = r.choice(kinds)
    span = r.choice([2, 4, 10, 100])
    if k == 'int': return [(r.randint(-span, span), r.randint(-span, span)) for _ in range(n + 1)]
    if k == 'line': return [(r.randint(-span, span), 0) for _ in range(n + 1)]
    if k == 'cluster':
        c = [(r.uniform(-span, span), r.uniform(-span, span)) for _ in range(r.randint(1, 3))]
        return [(0, 0)] + [(a + r.uniform(-1, 1), b + r.uniform(-1, 1)) for a, b in (r.choice(c) for _ in range(n))]
    if k == 'ring':
        return [(0, 0)] + [(span * math.cos(t), span * math.sin(t)) for t in (r.choice([r.uniform(-4, 4), r.randint(0, 8) * math.pi / 4]) for _ in range(n))]
    if k == 'coin':
        # co-located customers, possibly at the depot
        base = [(r.randint(-3, 3), r.randint(-3, 3)) for _ in range(max(1, n // 2))]
        return [base[0]] + [r.choice(base) for _ in range(n)]
    return [(r.uniform(-span, span), r.uniform(-span, span)) for _ in range(n + 1)]


def euclid(pts):
    n = len(pts)
    D = np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1, n):
            D[i, j] = D[j, i] = math.hypot(pts[i][0] - pts[j][0], pts[i][1] - pts[j][1])
    return D


def manhattan(pts):
    n = len(pts)
    return np.array([[abs(pts[i][0] - pts[j][0]) + abs(pts[i][1] - pts[j][1]) for j in range(n)] for i in range(n)], dtype=float)


def matrix(r, n, metric=True):
    """a symmetric matrix with zero diagonal; list of lists"""
    pts = points(r, n)
    k = r.random()
    if not metric and k < 0.4:
        hi = r.choice([3, 10, 100])
        D = np.zeros((n + 1, n + 1))
        for i in range(n + 1):
            for j in range(i + 1, n + 1):
                D[i, j] = D[j, i] = r.randint(0, hi) if r.random() < .6 else r.uniform(0, hi)
        return D
    if k < 0.6: return euclid(pts)
    D = manhattan(pts)
    return D


def cost(route, D): return sum(float(D[a][b]) for a, b in zip(route, route[1:]))


def routes_of(sol):
    out, cur = [], []
    for x in sol:
        if x == 0:
            if cur: out.append(cur)
            cur = []
        else: cur.append(x)
    if cur: out.append(cur)
    return out


def tolist(D): return [[float(x) for x in row] for row in np.asarray(D)]


def norm(sol):
    """canonical set of routes up to order and direction"""
    return sorted(min(r, r[::-1]) for r in routes_of(sol))


def instance(r, nmax=10, nmin=1, metric=True):
    """dict(pts, D, d, C, L, wt): every customer can be served alone; limits biased to be tight"""
    n = r.choice([x for x in (1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 30) if nmin <= x <= nmax])
    pts = points(r, n)
    wt = 'EXACT_2D'
    if metric: D = euclid(pts)
    else:
        wt = r.choice(['EXACT_2D', 'EUC_2D', 'EUC_2D'])
        D = euclid(pts)
        if wt == 'EUC_2D': D = np.floor(D + 0.5)
    if r.random() < .3:
        dem = [0] + [r.randint(1, 3) for _ in range(n)]
    else:
        hi = r.choice([1, 5, 20, 100])
        dem = [0] + [r.randint(1, hi) for _ in range(n)]
    if r.random() < .15: dem = [0] + [round(x * r.uniform(.1, 1), 3) for x in dem[1:]]
    if r.random() < .3: dem = [0] + [x * (r.random() < .7) for x in dem[1:]]
    m, s = max(dem), sum(dem)
    C = r.choice([None, m, s, s / 2.0, m + r.uniform(0, s), int(m + r.uniform(0, s)), int(m + r.uniform(0, m)), 2 * m, 3 * m])
    if C is not None: C = max(C, m)
    far = 2 * max(D[0]) if n else 0
    L = r.choice([None, None, far, far * 1.05, far * 1.3 + .5, far * 2, far * 3, far * 10, round(far * 1.5, 0)])
    if L is not None:
        L = max(float(L), float(far))
        if L <= 0: L = None
    return dict(pts=[list(map(float, p)) for p in pts], D=tolist(D), d=dem, C=C, L=L, wt=wt)


def sol_problems(sol, inst, limits=True, metric=True):
    """the clauses of C01..C03 that a returned solution violates"""
    D, d, C, L = inst['D'], inst['d'], inst['C'], inst['L']
    N = len(D)
    b = {}
    if not isinstance(sol, (list, tuple)) or len(sol) == 0: return {'C01': 'returned %r' % (sol,)}
    sol = [int(x) for x in sol]
    if sol[0] != 0 or sol[-1] != 0: b['C01'] = 'does not start and end at the depot'
    cnt = Counter(x for x in sol if x != 0)
    if cnt != Counter(range(1, N)):
        b['C01'] = 'missing %s, repeated %s, unknown %s' % (sorted(set(range(1, N)) - set(cnt)),
                                                           sorted(k for k in cnt if cnt[k] > 1), sorted(set(cnt) - set(range(1, N))))
    for rt in routes_of(sol):
        if any(x < 0 or x >= N for x in rt): continue
        q = sum(d[x] for x in rt)
        if C and q > C + TOL: b['C02'] = 'route %s demands %r > C=%r' % (rt, q, C)
        l = cost([0] + rt + [0], D)
        if metric and L and l > L + TOL * max(1, L): b['C03'] = 'route %s costs %r > L=%r' % (rt, l, L)
    return b
