"""Contract of sequential_savings_init (C01, C02, C03): one emerging route at a time, a set of unrouted customers."""
from fractions import Fraction
import z3
from pyvc.values import *
from pyvc import engine as E
from pyvc.contract import Contract
from .intra import mk_D, eps
from .inter import mk_d, ceps
from .tours import Seg, route_cost
from .savings import TM, single_lemma, first_of, last_of

SS = 'verypy.classic_heuristics.sequential_savings'


class Construction(Contract):
    """what the constructions that grow routes customer by customer share"""
    props = ('C01', 'C02', 'C03')
    last_write = False
    touch_depth = 2
    budget = 300

    def quick(self, case, pid): return (pid != 'C02' or case['C']) and (pid != 'C03' or case['L'])
    def weight(self, case): return 5 + 4 * case['L'] + case['C']

    def instance(self, P, case):
        P.N = N = P.fresh('N', I)
        P.fact(N >= 2)
        P.D = D = mk_D(P, nonneg=True, zerodiag=True, size=N)
        P.d = d = Vec('d', nonneg=True, zero_at0=True, length=N)
        P.C, P.L = P.fresh('C', R), P.fresh('L', R)
        P.fact(And(P.C > 0, P.L > 0))
        P.bC, P.bL = add(P.C, ceps(P)), add(P.L, eps(P))
        P.x = x = P.fresh('x', I)
        P.fact(And(x >= 1, x < N))
        P.cx, P.c0, P.dm = count_measure(x), count_measure(z3.IntVal(0)), d.measure()
        P.seg = Seg(P, D, d, P.bC if case['C'] else P.fresh('B', R), P.bL if case['L'] else P.fresh('BL', R))
        P.inputs = dict(N=N)
        # the nodes, as a sequence: universal facts about nodes are instantiated at its touched indices
        P.Q = Base(P, 'nodes', N, lambda t: t, ('int',))
        P.single = lambda t: And(LE(d.get(P, t), P.C) if case['C'] else True, LE(add(D.get(P, 0, t), D.get(P, t, 0)), P.L) if case['L'] else True)
        P.on_touch(P.Q, lambda t: (And(GE(t, 1), LT(t, N)), P.single(t)))
        P.triggers.append(P.Q)
        P.setpoints = [x]
        P.on_member = lambda w: P.Q.touch(w)
        P.Q.touch(x)
        return dict(D=D, d=d, C=P.C if case['C'] else None, L=P.L if case['L'] else None)

    def post(self, P, case, res):
        if not isinstance(res, E.HList): P.oblige('C01:returns-a-solution', False); return
        s = res.seq
        P.oblige('C01:each-customer-exactly-once', EQ(s.sum_of(P, P.cx), 1))
        P.oblige('C01:starts-and-ends-at-the-depot', And(GE(s.length(), 2), EQ(s.at(P, 0), 0), EQ(s.at(P, sub(s.length(), 1)), 0)))
        if case['C']: P.oblige('C02:route-demand', P.seg.holds_load(s))
        if case['L']: P.oblige('C03:route-cost', P.seg.holds_cost(s))

    @staticmethod
    def sets(env):
        for v in sorted(env.lf.names):
            x = env.fr.vars.get(v)
            if isinstance(x, E.SSet): yield v, x

    def int_lists(self, env):
        for v, x in env.lists(mod_only=False):
            if E.shape_of(x)[1] == ('int',): yield v, x

    def count_clauses(self, env):
        """the ghost customer is in exactly one place"""
        P = env.P
        ins = lambda env, S: Ite(env.fr.vars[S].fn(P.x), 1, 0)
        cnt = lambda env, v: env[v].seq.sum_of(P, P.cx)
        ls = [v for v, _ in self.int_lists(env)]
        for S, _ in self.sets(env):
            for i, a in enumerate(ls):
                yield E.Clause('C01 x in %s+%s' % (S, a), lambda env, S=S, a=a: EQ(add(cnt(env, a), ins(env, S)), 1))
                for b in ls[i + 1:]:
                    yield E.Clause('C01 x in %s+%s+%s' % (S, a, b), lambda env, S=S, a=a, b=b: EQ(add(add(cnt(env, a), cnt(env, b)), ins(env, S)), 1))

    def tour_clauses(self, env):
        P = env.P
        for v, _ in self.int_lists(env):
            yield E.Clause('%s depot ends' % v, lambda env, v=v: And(GE(env[v].seq.length(), 1), EQ(Tab(P, env[v].seq).num(0), 0), EQ(Tab(P, env[v].seq).num(sub(env[v].seq.length(), 1)), 0)))
            yield E.Clause('C02 load of %s' % v, lambda env, v=v: P.seg.holds_load(env[v].seq))
            yield E.Clause('C03 cost of %s' % v, lambda env, v=v: P.seg.holds_cost(env[v].seq))

    def route_clauses(self, env):
        P, case = env.P, env.P.proof.case
        N = P.N
        for v, _ in self.int_lists(env):
            fl = lambda env, v=v: (first_of(env[v]), last_of(env[v]))
            yield E.Clause('%s route' % v, lambda env, v=v: And(GE(env[v].seq.length(), 1), EQ(env[v].seq.sum_of(P, P.c0), 0)))
            yield E.Clause('%s ends' % v, lambda env, v=v, fl=fl: And(GE(env[v].seq.length(), 1), *([And(GE(t, 1), LT(t, N)) for t in fl(env)] + [Or(EQ(env[v].seq.length(), 1), NE(*fl(env)))])))
            for S, _ in self.sets(env):
                yield E.Clause('%s ends not in %s' % (v, S), lambda env, v=v, S=S, fl=fl: And(*[Not(env.fr.vars[S].fn(t)) for t in fl(env)]))
            for w, x in env.numvars(mod_only=False):
                if not env.isreal(w): continue
                if case['C']: yield E.Clause('C02 %s=load of %s' % (w, v), lambda env, v=v, w=w: And(EQ(env[w], env[v].seq.sum_of(P, P.dm)), LE(env[w], P.bC)))
                if case['L']: yield E.Clause('C03 %s=cost of %s' % (w, v), lambda env, v=v, w=w: And(EQ(env[w], route_cost(P, env[v], P.D)), LE(env[w], P.bL)))

    def member_clauses(self, env):
        """whatever is still to be served is a customer, and stands once in a list of customers"""
        P = env.P
        for S, _ in self.sets(env):
            def cust(env, S=S):
                f = env.fr.vars[S].fn
                return ('forall', lambda t: (True, Implies(f(t), And(GE(t, 1), LT(t, P.N)))), [P.Q])
            yield E.Clause('%s customers' % S, cust)
            for v, _ in self.int_lists(env):
                def listed(env, S=S, v=v):
                    f, s, first = env.fr.vars[S].fn, env.seq(v), isinstance(env.next, int) and env.next == 0
                    def g(t):
                        m = count_measure(t)
                        if first: self.range_lemma(P, s, m, t)
                        return And(GE(t, 1), LT(t, P.N)), Implies(f(t), EQ(s.sum_of(P, m), 1))
                    return ('forall', g, [P.Q])
                yield E.Clause('%s in %s' % (S, v), listed)

    @staticmethod
    def range_lemma(P, s, m, t):
        for q in s.parts:
            if q[0] != 's': continue
            o = q[1].perm_of
            for r in (o.parts if o is not None else [q]):
                if r[0] == 's' and r[1].name == 'view':
                    first = r[1].raw(z3.IntVal(0))
                    step = sub(r[1].raw(z3.IntVal(1)), first)
                    if step in (1, -1): single_lemma(P, m.on_base(P, r[1]), r[2], r[3], z3.simplify(tz(mul(step, sub(t, first)))))


class SequentialSavings(Construction):
    frame_cases = 1
    target = SS + ':sequential_savings_init'

    def cases(self):
        for init in ('closest', 'farthest', 'first', 'last'):
            for mk in (False, True):
                for C in (False, True):
                    for L in (False, True): yield dict(init=init, minimize_K=mk, C=C, L=L)

    def quick(self, case, pid):
        return not case['minimize_K'] and case['init'] == 'closest' and Construction.quick(self, case, pid)

    def setup(self, P, case):
        args = self.instance(P, case)

        def callback(I_, a, k):
            P.oblige('C01:savings-of-the-distances', len(a) == 3 and a[2] is P.D)
            P.Q.touch(a[1])
            P.oblige('C01:savings-for-a-customer', And(GE(a[1], 1), LT(a[1], P.N)))
            n = P.fresh('savings.len', I)
            P.fact(n >= 0)
            b = P.fresh_base('savings', ('tuple', (('real',), ('real',), ('int',), ('int',))), n)
            P.on_touch(b, lambda t: (And(GE(t, 0), LT(t, n)), self.entry(P, b.raw(t))))
            return E.HList(Seq.base(b))
        return dict(args, minimize_K=case['minimize_K'], initialize_routes_with=case['init'],
                    savings_callback=E.Native('savings_callback', callback))

    def entry(self, P, e):
        i, j = e[2], e[3]
        return And(GE(i, 1), LT(i, P.N), GE(j, 1), LT(j, P.N), NE(i, j))

    def clauses(self, env):
        P = env.P
        yield from self.count_clauses(env)
        yield from self.tour_clauses(env)
        yield from self.route_clauses(env)
        yield from self.member_clauses(env)
        for v, x in env.lists(mod_only=False):
            sh = E.shape_of(x)[1]
            yield E.Clause('%s empty' % v, lambda env, v=v: EQ(env[v].seq.length(), 0))
            if sh is not None and sh[0] == 'tuple':
                def pairs(env, v=v):
                    s = env.seq(v)
                    return ('forall', lambda t: (And(GE(t, 0), LT(t, s.length())), Tab(P, s).pick(t, lambda e: False if e is None else self.entry(P, e))),
                            [q[1] for q in s.parts if q[0] == 's'])
                yield E.Clause('%s pairs of customers' % v, pairs)


ALL = [SequentialSavings()]
