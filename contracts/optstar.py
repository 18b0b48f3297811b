"""Contract of the solution-level 3-opt* move operator (C09)."""
from fractions import Fraction
import z3
from pyvc.values import *
from pyvc.values import _m
from pyvc import engine as E
from pyvc.contract import Contract
from .intra import mk_D, eps
from .inter import ceps

SO = 'verypy.local_search.solution_operators'


def edge_cost(P, D, nodes, edges):
    t = Fraction(0)
    for a, b in edges: t = add(t, D.get(P, nodes[a], nodes[b]))
    return t


def lv(P, l):
    """elements of a list of known length"""
    v = P.interp.tolist(l)
    if v is None: raise E.Missing('list of unknown length')
    return v


def chain(P, D, C, L, edges, end_p, end_n, cum_d, cum_l, l12, l34, which):
    """what _check_3opt_move tests: walking the three new edges, demand and cost collected since the last depot stay
    within the limits (terms; None limits are left out)"""
    out = []
    rd, rl = Fraction(0), Fraction(0)
    prev = None
    for a, b in edges:
        def passed(l):
            if l is None: return False
            x, y = end_p[prev[1]], end_p[a]
            return Or(And(LE(x, l), LE(l, y)), And(GE(x, l), GE(l, y)))
        reset = True if (a == 0 or prev[1] == 5) else Or(passed(l12), passed(l34))
        if C is not None:
            rd = add(Ite(reset, cum_d[a], rd), cum_d[b])
            if 'd' in which: out.append(LE(rd, add(C, ceps(P))))
        if L is not None:
            rl = add(add(Ite(reset, cum_l[a], rl), D.get(P, end_n[a], end_n[b])), cum_l[b])
            if 'l' in which: out.append(LE(rl, add(L, eps(P))))
        prev = (a, b)
    return And(*out)


class Check3Opt(Contract):
    """_check_3opt_move for every move definition in the table: the delta is the added minus the removed weight, it improves
    on the threshold, and a move is accepted exactly when it improves and the walk stays within the limits"""
    target = SO + ':_check_3opt_move'
    props = ('C09',)
    last_write = False

    def cases(self):
        for C in (False, True):
            for L in (False, True):
                for d in (0, 1, 2, 3): yield dict(C=C, L=L, depots=d)

    def setup(self, P, case):
        P.D = D = mk_D(P)
        P.C, P.L = P.fresh('C', R), P.fresh('L', R)
        P.fact(And(P.C > 0, P.L > 0))
        table = P.interp.lookup(SO + ':MOVES_3OPTSTAR')
        P.mv = mv = table[P.choose(len(table))]
        fr = lambda nm, s: [P.fresh('%s%d' % (nm, i), s) for i in range(6)]
        P.v = dict(end_p=fr('p', I), end_n=fr('n', I), cum_d=fr('cd', R), cum_l=fr('cl', R))
        P.l12 = P.fresh('l12', I) if case['depots'] & 1 else None
        P.l34 = P.fresh('l34', I) if case['depots'] & 2 else None
        P.rem, P.bd = P.fresh('removed', R), P.fresh('best_delta', R)
        lists = {k: E.HList(Seq.of(v)) for k, v in P.v.items()}
        return dict(D=D, C=P.C if case['C'] else None, L=P.L if case['L'] else None, removed_weights=P.rem, best_delta=P.bd,
                    edges=mv.fields['edges'], ldepot_12=P.l12, ldepot_34=P.l34, **lists)

    def post(self, P, case, res):
        v = P.v
        edges = P.mv.fields['edges']
        d = sub(edge_cost(P, P.D, v['end_n'], edges), P.rem)
        ok = And(LT(add(d, eps(P)), P.bd), chain(P, P.D, P.C if case['C'] else None, P.L if case['L'] else None, edges,
                                               v['end_p'], v['end_n'], v['cum_d'], v['cum_l'], P.l12, P.l34, 'dl'))
        if res is None: P.oblige('C09:no-improving-feasible-move-rejected', Not(ok)); return
        P.oblige('C09:delta-of-the-edges', EQ(res, d))
        P.oblige('C09:improves-and-feasible', ok)


def summ_check(I_, a):
    P = I_.P
    v = {k: lv(P, a[k]) for k in ('end_p', 'end_n', 'cum_d', 'cum_l')}
    C, L = (None if a[k] is None else a[k] for k in 'CL')
    d = sub(edge_cost(P, a['D'], v['end_n'], a['edges']), a['removed_weights'])
    b = P.fresh('accepted', B)
    P.fact(b == tz(And(LT(add(d, eps(P)), a['best_delta']), chain(P, a['D'], C, L, a['edges'], v['end_p'], v['end_n'], v['cum_d'], v['cum_l'],
                                                                  a['ldepot_12'], a['ldepot_34'], 'dl'))))
    return d if P.branch(b) else None


def depot_before(P, b): return P.lz
def mk_tour(P):
    """a giant tour from depot to depot"""
    n = P.fresh('solution.len', I)
    P.fact(n >= 1)
    b = P.fresh_base('solution', ('int',), n)
    P.on_touch(b, lambda t: (And(GE(t, 0), LT(t, n)), GE(b.raw(t), 0)))
    P.fact(And(b.raw(z3.IntVal(0)) == 0, b.raw(n - 1) == 0))
    b.get(z3.IntVal(0)); b.get(z3.simplify(n - 1))
    return b


def summ_cumulative(I_, a):
    """two lists of the length of the solution (contract of _build_cumulative_lists, see Cumulative)"""
    P = I_.P
    n = a['solution'].seq.length()
    mk = lambda nm: E.HList(Seq.base(P.fresh_base(nm, ('real',), n)))
    fwd = a['direction'] == 1
    cd, cl = mk('cum_d'), mk('cum_l')
    return cd, cl


def iff(a, b): return And(Implies(a, b), Implies(b, a))


class ThreeOptStar(Contract):
    frame = False       # C09:argument-unmodified says it
    target = SO + ':do_3optstar_move'
    props = ('C09',)
    last_write = False
    unroll = 6
    join_breaks = lazy_optionals = True
    touch_depth = 2
    budget = 660
    summaries = {SO + ':_check_3opt_move': summ_check, SO + ':_build_cumulative_lists': summ_cumulative}

    def cases(self):
        for s in (1, 2):
            for bd in ('none', 'real'):
                for C in (False, True):
                    for L in (False, True): yield dict(strategy=s, best_delta=bd, C=C, L=L)

    def quick(self, case, pid): return case['strategy'] == 1 and case['best_delta'] == 'none' and case['C'] == case['L']
    def weight(self, case): return 9

    def setup(self, P, case):
        P.b = b = mk_tour(P)
        P.D = D = mk_D(P, nonneg=True, zerodiag=True)
        P.d = d = Vec('d', nonneg=True, zero_at0=True)
        P.C, P.L = P.fresh('C', R), P.fresh('L', R)
        P.fact(And(P.C > 0, P.L > 0))
        P.s = E.HList(Seq.base(b))
        P.s0 = P.s.seq
        bd = None if case['best_delta'] == 'none' else P.fresh('best_delta', R)
        P.bd = Fraction(0) if bd is None else bd
        P.inputs = dict(solution=b, D=D)
        P.moves = P.interp.lookup(SO + ':MOVES_3OPTSTAR')
        P.zero = count_measure(z3.IntVal(0)).on_base(P, b)
        return dict(solution=P.s, D=D, demands=d, C=P.C if case['C'] else None, L=P.L if case['L'] else None, strategy=case['strategy'], best_delta=bd)

    def post(self, P, case, res):
        P.oblige('C09:argument-unmodified', E.same(P.s.seq, P.s0))
        if not (isinstance(res, tuple) and len(res) == 2): P.oblige('C09:returns-pair', False); return
        r, delta = res
        if r is None or delta is None:
            P.oblige('C09:none-together', r is None and delta is None); return
        x = P.fresh('x', I)
        P.fact(x >= 1)
        m = count_measure(x)
        n = r.seq.length()
        P.oblige('C09:same-customers', EQ(r.seq.sum_of(P, m), P.s0.sum_of(P, m)))
        P.oblige('C09:depot-ends', And(GE(n, 1), EQ(Tab(P, r.seq).num(0), 0), EQ(Tab(P, r.seq).num(sub(n, 1)), 0)))
        P.oblige('C09:delta-exact', EQ(sub(r.seq.cost(P, P.D), P.s0.cost(P, P.D)), delta))
        P.oblige('C09:improves-threshold', LT(delta, P.bd))

    # ---- invariants
    @staticmethod
    def cur(env):
        """the elements the loops of the nest take next / are at"""
        out = []
        for v, k in zip(env.views(), env.nexts()):
            if v is None or not hasattr(v, 'rng'): raise E.Missing('not a range loop')
            out.append(add(v.rng[0], mul(v.rng[1], k)))
        return out

    def clauses(self, env):
        P = env.P
        if len(P.interp.frames) != 1: return
        b, Z = P.b, P.zero
        rngs = [v for v in env.views() if v is not None and hasattr(v, 'rng')]
        lists = [v for v, x in env.lists()]
        tv = loopvars = [l.node.target.id for l in P.loopstack[:-1] if hasattr(l.node, 'target') and hasattr(l.node.target, 'id')]
        # entries of the small tables
        for v in lists:
            n = env[v].seq.length()
            yield E.Clause('len %s' % v, lambda env, v=v: EQ(env[v].seq.length(), 6))
            for c in range(6):
                for m, u in enumerate(tv):
                    if c // 2 != m: continue
                    yield E.Clause('%s[%d]=%s+%d' % (v, c, u, c % 2), lambda env, v=v, c=c, u=u: EQ(env[v].seq.at(P, c), add(env[u], c % 2)))
                    yield E.Clause('%s[%d]=node %s+%d' % (v, c, u, c % 2), lambda env, v=v, c=c, u=u: EQ(env[v].seq.at(P, c), b.get(tz(add(env[u], c % 2)))))
        # depot marks between two loop positions
        if len(rngs) == len(env.views()):
            opt = [v for v in sorted(env.lf.info.mod) if v in env.lf.names and env.interp.lazy(env.lf.info.mod[v])]
            for v in opt:
                for m in range(len(rngs) - 1):
                    def mark(env, v=v, m=m):
                        c = self.cur(env)
                        no, x = env.opt(v)
                        return Or(no, And(GT(x, c[m]), LT(x, c[m + 1]), EQ(b.get(tz(x)), 0)))
                    yield E.Clause('%s after %d' % (v, m), mark)
                    def left(env, v=v, m=m):
                        c = self.cur(env)
                        no, x = env.opt(v)
                        return EQ(Z.at(Ite(no, c[m + 1], x)), Z.at(add(c[m], 1)))
                    yield E.Clause('%s leftmost after %d' % (v, m), left)
                    def right(env, v=v, m=m):
                        c = self.cur(env)
                        no, x = env.opt(v)
                        return EQ(Z.at(c[m + 1]), Z.at(add(Ite(no, c[m], x), 1)))
                    yield E.Clause('%s rightmost after %d' % (v, m), right)
                for w in opt:
                    if w <= v: continue
                    yield E.Clause('%s,%s together' % (v, w), lambda env, v=v, w=w: iff(env.opt(v)[0], env.opt(w)[0]))
                    yield E.Clause('%s<=%s' % (v, w), lambda env, v=v, w=w: Or(env.opt(v)[0], LE(env.opt(v)[1], env.opt(w)[1])))
                    yield E.Clause('%s>=%s' % (v, w), lambda env, v=v, w=w: Or(env.opt(v)[0], GE(env.opt(v)[1], env.opt(w)[1])))
        # the best move so far
        for v in sorted(env.lf.names):
            x = env.fr.vars.get(v, UNBOUND)
            if v not in env.lf.info.mod or not (x is None or (isinstance(x, tuple) and len(x) == 3 and isinstance(x[2], tuple) and len(x[2]) == 10)): continue
            for nm in ('cuts', 'marks', 'delta', 'threshold', 'depots'):
                yield E.Clause('%s %s' % (v, nm), lambda env, v=v, nm=nm: getattr(self, 'm_' + nm)(env, env[v]))
            for w, y in env.numvars():
                if env.isreal(w): yield E.Clause('%s=delta of %s' % (w, v), lambda env, v=v, w=w: EQ(env[w], P.bd) if env[v] is None else EQ(env[w], env[v][1]))

    def m_cuts(self, env, mv):
        if mv is None: return True
        c = mv[2]
        n = env.P.b.length
        return And(GE(mv[0], 0), LT(mv[0], len(env.P.moves)), GE(c[0], 0), LT(c[0], c[2]), LT(c[2], c[4]), LT(add(c[4], 1), n), *[EQ(c[i + 1], add(c[i], 1)) for i in (0, 2, 4)])

    def m_marks(self, env, mv):
        if mv is None: return True
        c, b = mv[2], env.P.b
        out = []
        for lo, i in ((0, 6), (2, 8)):
            if (c[i] is None) != (c[i + 1] is None): return False
            if c[i] is None: continue
            out.append(And(LT(add(c[lo], 1), c[i]), LE(c[i], c[i + 1]), LE(c[i + 1], add(c[lo + 2], 1)), EQ(b.get(tz(sub(c[i], 1))), 0), EQ(b.get(tz(sub(c[i + 1], 1))), 0)))
        return And(*out)

    def m_delta(self, env, mv):
        if mv is None: return True
        P = env.P
        nodes = [P.b.get(tz(mv[2][i])) for i in range(6)]
        rem = edge_cost(P, P.D, nodes, ((0, 1), (2, 3), (4, 5)))
        return And(*[Implies(EQ(mv[0], i), EQ(mv[1], sub(edge_cost(P, P.D, nodes, m.fields['edges']), rem))) for i, m in enumerate(P.moves)])

    def m_threshold(self, env, mv): return True if mv is None else LT(mv[1], env.P.bd)

    def m_depots(self, env, mv):
        """a move that closes a loop over a stretch needs a depot on it"""
        if mv is None: return True
        return And(*[Implies(EQ(mv[0], i), And(mv[2][6] is not None or not m.fields['loop_12'], mv[2][8] is not None or not m.fields['loop_34'])) for i, m in enumerate(env.P.moves)])


ALL = [Check3Opt(), ThreeOptStar()]
