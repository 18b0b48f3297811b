"""Contracts of the objective helpers: is_better_sol (C14), objf, totald, recalculate_objective (C12)."""
from fractions import Fraction
import z3
from pyvc.values import *
from pyvc import engine as E
from pyvc.contract import Contract

U = 'verypy.util'
OPS = 'verypy.cvrp_ops'


def sym_seq(P, name, lo=0, nonneg=True):
    """an arbitrary sequence of node indices of any length >= lo"""
    n = P.fresh(name + '.len', I)
    P.fact(n >= lo)
    b = P.fresh_base(name, ('int',), n)
    if nonneg: P.on_touch(b, lambda t: (And(GE(t, 0), LT(t, n)), GE(b.raw(t), 0)))
    return b


def edge_sum(P, b, D):
    return b.rsum(('edge', D.name), lambda t: D.get(P, b.raw(z3.simplify(tz(t) - 1)), b.raw(t)), D.nonneg, R)


class IsBetter(Contract):
    target = U + ':is_better_sol'
    props = ('C14',)
    KINDS = ('none', 'num', 'inf')

    def cases(self):
        for bf in self.KINDS:
            for bk in self.KINDS:
                for f in self.KINDS:
                    for k in self.KINDS:
                        if (bf == 'inf') != (bk == 'inf') or (f == 'inf') != (k == 'inf'): continue
                        yield dict(best_f=bf, best_K=bk, sol_f=f, sol_K=k)

    def setup(self, P, case):
        def mk(n, s):
            k = case[n]
            if k == 'none': return None
            if k == 'inf': return INF
            v = P.fresh(n, s); P.fact(v >= 0)
            return v
        a = [mk('best_f', R), mk('best_K', I), mk('sol_f', R), mk('sol_K', I)]
        P.mk = P.fresh('minimize_K', B)
        P.a = a
        P.inputs = dict(best_f=a[0], best_K=a[1], sol_f=a[2], sol_K=a[3], minimize_K=P.mk)
        return a + [P.mk]

    def post(self, P, case, res):
        bf, bk, f, k = P.a
        if f is None or k is None: want = False
        elif bf is None or bk is None: want = True
        else:
            byk = Or(LT(k, bk), And(EQ(k, bk), LT(f, bf)))
            want = Or(And(P.mk, byk), And(Not(P.mk), LT(f, bf)))
        got = P.interp.cond(res)
        P.oblige('C14:replaces-exactly-when-better', Or(And(got, want), And(Not(got), Not(want))))


class Objf(Contract):
    target = U + ':objf'
    props = ('C12', 'C10')
    also = {'C10': ('C12',)}

    def setup(self, P, case):
        P.b = b = sym_seq(P, 'sol')
        P.D = D = Mat('D', symmetric=False)
        P.S = edge_sum(P, b, D)
        P.specsums = [P.S]
        P.inputs = dict(sol=b, D=D)
        return [E.HList(Seq.base(b)), D]

    def post(self, P, case, res):
        n = P.b.length
        P.oblige('C12:sum-of-consecutive-distances', EQ(res, Ite(GE(n, 1), sub(P.S.at(n), P.S.at(1)), Fraction(0))))

    def clauses(self, env):
        for v, x in env.numvars():
            for off in (0, 1):
                yield E.Clause('%s=sum%d' % (v, off), lambda env, v=v, off=off: EQ(env[v], env.P.S.at(add(env.next, off)) - env.P.S.at(1)))


def summ_objf(interp, args):
    """call summary of objf (proved by Objf below)"""
    s, D = args['sol'], args['D']
    if not (isinstance(s, E.HList) and isinstance(D, Mat)): raise Unsupported('objf of something else')
    return s.seq.cost(interp.P, D)


def summ_totald(interp, args):
    """call summary of totald (proved by Totald below)"""
    s, d = args['sol'], args['d']
    if not isinstance(s, E.HList): raise Unsupported('totald of something else')
    return s.seq.sum_of(interp.P, d.measure()) if d is not None else 0


class Totald(Contract):
    target = U + ':totald'
    props = ('C12',)

    def cases(self):
        yield dict(d=True)
        yield dict(d=False)

    def setup(self, P, case):
        P.b = b = sym_seq(P, 'sol')
        n = P.fresh('N', I); P.fact(n >= 1)
        P.d = Vec('d', length=n) if case['d'] else None
        P.r = E.HList(Seq.base(b))
        if P.d is not None: P.specsums = [P.d.measure().on_base(P, b)]
        P.inputs = dict(sol=b)
        return [P.r, P.d]

    def post(self, P, case, res):
        P.oblige('C12:sum-of-demands', EQ(res, P.r.seq.sum_of(P, P.d.measure()) if P.d is not None else 0))

    def clauses(self, env):
        P = env.P
        if P.d is None: return
        S = P.d.measure().on_base(P, P.b)
        for v, x in env.numvars():
            yield E.Clause('%s=sum' % v, lambda env, v=v: EQ(env[v], S.at(env.next)))


class Recalculate(Contract):
    """a giant tour (closed by the edge from its last to its first node), or a list of routes that may lack depot visits"""
    target = OPS + ':recalculate_objective'
    props = ('C12',)

    def cases(self):
        yield dict(kind='giant tour')
        yield dict(kind='routes')

    def setup(self, P, case):
        from .tours import mk_table, lists_at, route_cost
        P.D = D = Mat('D', symmetric=False, zerodiag=True)
        if case['kind'] == 'giant tour':
            P.b = b = sym_seq(P, 'sol', lo=1)
            P.r = E.HList(Seq.base(b))
            P.inputs = dict(sol=b, D=D)
        else:
            P.T = T = mk_table(P, 'routes', none=False)
            P.fact(T.length >= 1)
            def entry(t):
                return And(GE(t, 0), LT(t, T.length)), And(*[Implies(c, GE(v.seq.length(), 1)) for c, v in lists_at(T, t)])
            P.on_touch(T, entry)
            def rc(t):
                x = Fraction(0)
                for c, v in lists_at(T, t): x = Ite(c, route_cost(P, v, D), x)
                return x
            P.ST = T.rsum('route_cost', rc, False, R)
            P.r = E.HList(Seq.base(T))
            P.inputs = dict(D=D)
        P.r0 = P.r.seq
        return [P.r, D]

    def post(self, P, case, res):
        P.oblige('C12:argument-unmodified', E.same(E.foldcells(E.freeze(P.r.seq)), P.r0))
        if case['kind'] == 'giant tour':
            n = P.b.length
            want = add(P.r0.cost(P, P.D), P.D.get(P, P.r0.at(P, sub(n, 1)), P.r0.at(P, 0)))
        else: want = P.ST.at(P.T.length)
        P.oblige('C12:objective-exact', EQ(res, want))

    def clauses(self, env):
        P = env.P
        for v, x in env.numvars():
            if P.proof.case['kind'] == 'routes': yield E.Clause('%s=sum of routes' % v, lambda env, v=v: EQ(env[v], P.ST.at(env.next)))
            else:
                S = edge_sum(P, P.b, P.D)
                for off in (0, 1): yield E.Clause('%s=sum%d' % (v, off), lambda env, v=v, off=off: EQ(env[v], S.at(add(env.next, off)) - S.at(1)))


ALL = [IsBetter(), Objf(), Totald(), Recalculate()]
