"""Contracts of the intra-route move operators (C04, C05, C07)."""
from pyvc.values import *
from pyvc.values import _m
from pyvc import engine as E
from pyvc.contract import Contract
from fractions import Fraction
import z3, ast

EPS = None
MOD = 'verypy.local_search.intra_route_operators'


def eps(P):
    """the library's tolerance, read from the current source"""
    return P.interp.modval(E.Module.get('verypy.config'), 'COST_EPSILON')


def mk_route(P, name='route', interior=True, distinct=False):
    """a route 0, c1, ..., cn, 0: any length >= 2, any interior nodes different from the depot"""
    n = P.fresh(name + '.len', I)
    P.fact(n >= 2)
    b = P.fresh_base(name, ('int',), n)
    P.fact(b.raw(z3.IntVal(0)) == 0)
    P.fact(b.raw(n - 1) == 0)
    if interior:
        def inner(t):
            return And(GT(t, 0), LT(t, sub(n, 1))), And(NE(b.raw(t), 0), GE(b.raw(t), 0))
        P.on_touch(b, inner)
    if distinct:
        # distinct customers: an inverse (position) function exists
        POS = z3.Function(name + '.pos', I, I)
        P.on_touch(b, lambda t: (z3.And(t > 0, t < n - 1), POS(b.raw(t)) == t))
    b.get(z3.IntVal(0)); b.get(z3.simplify(n - 1))
    return b


def mk_D(P, **kw):
    D = Mat('D', symmetric=True, **kw)
    return D


def mk_walk(P, name='route'):
    """any non-empty sequence of nodes"""
    n = P.fresh(name + '.len', I)
    P.fact(n >= 1)
    b = P.fresh_base(name, ('int',), n)
    P.on_touch(b, lambda t: (And(GE(t, 0), LT(t, n)), GE(b.raw(t), 0)))
    b.get(z3.IntVal(0)); b.get(z3.simplify(n - 1))
    return b


class Intra(Contract):
    distinct = False
    walk = False            # the operator is specified for any sequence of nodes, not only for routes from the depot

    def weight(self, case): return 15 if case['strategy'] == 2 else 5

    def cases(self):
        for s in (1, 2):
            for bd in ('none', 'zero', 'real'):
                yield dict(strategy=s, best_delta=bd)

    def setup(self, P, case):
        P.b = b = mk_walk(P) if self.walk else mk_route(P, distinct=self.distinct)
        P.D = D = mk_D(P)
        P.r = E.HList(Seq.base(b))
        P.r0 = P.r.seq
        bd = {'none': None, 'zero': Fraction(0), 'real': P.fresh('best_delta', R)}[case['best_delta']]
        if is_z(bd): P.fact(bd != 0)
        P.bd = Fraction(0) if bd is None else bd
        P.g = [P.fresh(x, I) for x in 'pqr']
        P.inputs = dict(route=b, D=D, strategy=case['strategy'], best_delta=bd)
        return [P.r, D, case['strategy'], bd]

    def post(self, P, case, res):
        e = eps(P)
        P.oblige('C04:route-argument-unmodified', E.same(P.r.seq, P.r0))
        if not (isinstance(res, tuple) and len(res) == 2):
            P.oblige('C04:returns-pair', False); return
        r, delta = res
        if r is None or delta is None:
            P.oblige('C05:none-together', r is None and delta is None)
            for nm, guard, d in self.goals(P):
                P.oblige('C07:no-improving-move-missed:' + nm, Implies(guard, GE(add(d, e), P.bd)))
            return
        n = r.seq.length()
        P.oblige('C04:length', EQ(n, P.b.length))
        x = P.fresh('x', I)
        m = count_measure(x)
        P.oblige('C04:same-customers', EQ(r.seq.sum_of(P, m), P.r0.sum_of(P, m)))
        P.oblige('C04:same-start', EQ(r.seq.at(P, 0), P.b.raw(z3.IntVal(0))))
        P.oblige('C04:same-end', EQ(r.seq.at(P, sub(n, 1)), P.b.raw(z3.simplify(P.b.length - 1))))
        P.oblige('C05:delta-exact', EQ(sub(r.seq.cost(P, P.D), P.r0.cost(P, P.D)), delta))
        P.oblige('C05:improves-threshold', LT(add(delta, e), P.bd))
        if case['strategy'] == 2:
            for nm, guard, d in self.goals(P):
                P.oblige('C07:best-move:' + nm, Implies(guard, GE(add(d, e), delta)))

    # the neighbourhood: (name, ghost indices, guard, cost change); goals default to the same moves
    def moves(self, P): return []
    def goals(self, P):
        if not P.proof.wants('C07'): return []
        return [(nm, g, d) for nm, _, g, d in self.mv(P) if ':' not in nm]

    def mv(self, P):
        if not hasattr(P, 'mv'): P.mv = self.moves(P)
        return P.mv

    def clauses(self, env):
        P = env.P
        if not P.proof.wants('C07'): return
        if len(P.interp.frames) != 1 and not self.deep: return
        e = eps(P)
        tv = loop_targets(env)
        vs = [v for v, x in env.numvars(mod_only=False) if v not in tv and env.isreal(v)]
        for nm, gs, guard, d in self.mv(P):
            done = lexdone(P, env, gs)
            yield E.Clause('C07 threshold ' + nm, lambda env, done=done, guard=guard, d=d: Implies(And(done(env), guard), GE(add(d, e), P.bd)))
            for v in vs:
                yield E.Clause('C07 %s %s' % (v, nm),
                               lambda env, v=v, done=done, guard=guard, d=d: Implies(And(done(env), guard), GE(add(d, e), env[v])))
    deep = True


def loop_targets(env):
    out = set()
    for l in env.P.loopstack:
        if hasattr(l.node, 'target'):
            out |= {n.id for n in ast.walk(l.node.target) if isinstance(n, ast.Name)}
    return out


def lexdone(P, env, ghosts):
    """the ghost indices have been enumerated by the loop nest: they are lexicographically below the
    values the loop targets take next (the ranges are read off the loops' iterables)"""
    def f(env):
        nx = []
        for v, k in zip(env.views(), env.nexts()):
            if v is None or not hasattr(v, 'rng'): raise E.Missing('not a range loop')
            nx.append(add(v.rng[0], mul(v.rng[1], k)))
        c = False
        eqs = True
        for g, x in zip(ghosts, nx):
            c = Or(c, And(eqs, LT(g, x)))
            eqs = And(eqs, EQ(g, x))
        return c
    return f


def node(P, b, t): return b.get(z3.simplify(tz(t)))


class TwoOpt(Intra):
    walk = True
    target = MOD + ':do_2opt_move'
    props = ('C04', 'C05', 'C07', 'C10')
    also = {'C10': ('C04', 'C05', 'C07')}

    def moves(self, P):
        p, q = P.g[:2]
        return [('2opt', (p, q), And(GE(p, 0), LT(p, q), LT(q, sub(P.b.length, 1))), two_opt_delta(P, p, q))]


def two_opt_delta(P, p, q):
    n = lambda t: node(P, P.b, t)
    d = lambda x, y: P.D.get(P, x, y)
    return d(n(p), n(q)) + d(n(p + 1), n(q + 1)) - d(n(p), n(p + 1)) - d(n(q), n(q + 1))


class ThreeOpt(Intra):
    walk = True
    target = MOD + ':do_3opt_move'
    props = ('C04', 'C05', 'C07', 'C10')
    also = {'C10': ('C04', 'C05', 'C07')}

    def moves(self, P):
        p, q, r = P.g
        z = z3.IntVal(0)
        L = P.b.length
        n = lambda t: node(P, P.b, t)
        D = lambda x, y: P.D.get(P, x, y)
        out = []

        def six(p, q, r, tag, only=None):
            a, b, c, d, e, f = n(p), n(p + 1), n(q), n(q + 1), n(r), n(r + 1)
            rem = D(a, b) + D(c, d) + D(e, f)
            g = And(GE(p, 0), LT(p, q), LT(q, r), LT(r, sub(L, 1)))
            for nm, s in (('ab.ce.df', D(a, b) + D(c, e) + D(d, f)), ('ae.dc.bf', D(a, e) + D(d, c) + D(b, f)),
                          ('ac.be.df', D(a, c) + D(b, e) + D(d, f)), ('ad.eb.cf', D(a, d) + D(e, b) + D(c, f)),
                          ('ad.ec.bf', D(a, d) + D(e, c) + D(b, f)), ('ae.db.cf', D(a, e) + D(d, b) + D(c, f))):
                if only is None or nm in only: out.append((tag + nm, (p, q, r), g, s - rem))
        six(p, q, r, '')
        # the 2-opt moves that leave the third edge alone, seen from other index triples
        six(z, p, q, '0pq:', ('ab.ce.df',))
        six(z, z3.IntVal(1), q, '01q:', ('ae.dc.bf',))
        return out

    def goals(self, P):
        p, q, r = P.g
        out = [(nm, g, d) for nm, _, g, d in self.mv(P) if ':' not in nm]
        # any 2-opt move (needs a third edge to exist: at least three edges)
        L = P.b.length
        out.append(('2opt', And(GE(p, 0), LT(p + 1, q), LT(q, sub(L, 1)), GE(L, 4)), two_opt_delta(P, p, q)))
        return out


class Relocate(Intra):
    target = MOD + ':do_relocate_move'
    props = ('C04', 'C05', 'C07')
    distinct = True

    def moves(self, P):
        p, q = P.g[:2]
        L = P.b.length
        n = lambda t: node(P, P.b, t)
        D = lambda x, y: P.D.get(P, x, y)
        def one(p, q):
            a, b, c, d, e = n(p - 1), n(p), n(p + 1), n(q - 1), n(q)
            # (p, p-1) only swaps p with its predecessor: it is the move (p-1, p+1)
            g = And(GE(p, 1), LT(p, sub(L, 1)), GE(q, 1), LT(q, L), NE(p, q), NE(sub(q, 1), p), NE(q, sub(p, 1)))
            return (p, q), g, -D(a, b) - D(b, c) + D(a, c) - D(d, e) + D(d, b) + D(b, e)
        return [('relocate',) + one(p, q), ('swap:',) + one(p - 1, p + 1)]

    def goals(self, P):
        p, q = P.g[:2]
        L = P.b.length
        n = lambda t: node(P, P.b, t)
        D = lambda x, y: P.D.get(P, x, y)
        a, b, c, d, e = n(p - 1), n(p), n(p + 1), n(q - 1), n(q)
        g = And(GE(p, 1), LT(p, sub(L, 1)), GE(q, 1), LT(q, L), NE(p, q), NE(sub(q, 1), p))
        return [('relocate', g, -D(a, b) - D(b, c) + D(a, c) - D(d, e) + D(d, b) + D(b, e))]


class Exchange(Intra):
    target = MOD + ':do_exchange_move'
    props = ('C04', 'C05', 'C07')
    distinct = True

    def moves(self, P):
        p, q = P.g[:2]
        L = P.b.length
        n = lambda t: node(P, P.b, t)
        D = lambda x, y: P.D.get(P, x, y)
        a, b, c, d, e, f = n(p - 1), n(p), n(p + 1), n(q - 1), n(q), n(q + 1)
        g = And(GE(p, 1), LT(p, q), LT(q, sub(L, 1)))
        adj = -D(a, b) - D(b, e) - D(e, f) + D(a, e) + D(e, b) + D(b, f)
        far = -D(a, b) - D(b, c) + D(a, e) + D(e, c) - D(d, e) - D(e, f) + D(d, b) + D(b, f)
        return [('adjacent', (p, q), And(g, EQ(q, p + 1)), adj), ('apart', (p, q), And(g, GT(q, p + 1)), far)]


ALL = [TwoOpt(), ThreeOpt(), Relocate(), Exchange()]
