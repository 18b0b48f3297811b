"""Contract of parallel_savings_init (C01, C02, C03): the merging loop over a table of emerging routes."""
from fractions import Fraction
import z3
from pyvc.values import *
from pyvc import engine as E
from pyvc.contract import Contract
from .intra import mk_D, eps
from .inter import mk_d, ceps
from .tours import Seg, lists_at, raw_first, route_cost, U

PS = 'verypy.classic_heuristics.parallel_savings'


def first_of(v):
    p = v.seq.parts[0]
    if p[0] == 'e': return p[1]
    return p[1].raw(z3.simplify(tz(p[2]))) if not p[4] else p[1].raw(z3.simplify(tz(sub(p[3], 1))))


def last_of(v):
    p = v.seq.parts[-1]
    if p[0] == 'e': return p[1]
    return p[1].raw(z3.simplify(tz(sub(p[3], 1)))) if not p[4] else p[1].raw(z3.simplify(tz(p[2])))


def split_table(seq):
    return all(p[0] == 'e' or not p[4] for p in seq.parts)


def summ_routes2sol(interp, args):
    """call summary of util.routes2sol (contracts/tours.py): the routes hold customers only, within the limits"""
    P = interp.P
    T = args['routes']
    s = T.seq
    n = s.length()
    r = P.fresh('r', I)
    for q in s.parts:
        if q[0] == 's':
            q[1].touch(r)
            P.m0.on_base(P, q[1]).at(r); P.m0.on_base(P, q[1]).at(r + 1)
    tab = Tab(P, s)
    inr = And(GE(r, 0), LT(r, n))
    P.fact(inr)
    def ok(v, f):
        if v is None: return True
        return f(v)
    P.oblige('C01:tour-precondition-some-route', GT(n, 0))
    for nm, f in P.entry_facts: P.oblige(nm, Implies(inr, tab.pick(r, lambda v: ok(v, f))))
    for m in P.msum: m.sum_in(P, s)
    out = P.fresh_base('solution', ('int',), P.fresh('solution.len', I))
    P.fact(out.length >= 2)
    sol = E.HList(Seq.base(out))
    P.fact(And(out.raw(z3.IntVal(0)) == 0, out.raw(z3.simplify(out.length - 1)) == 0))
    P.fact(EQ(sol.seq.sum_of(P, P.mx.m), P.mx.sum_in(P, s)))
    P.sol = sol
    P.fact(P.seg.holds_load(sol.seq))
    P.fact(P.seg.holds_cost(sol.seq))
    return sol


def single_lemma(P, S, lo, hi, w):
    """a sum with no term other than the one at w is that term (0 without w): some other term u is not 0, or it is equal"""
    u = P.fresh('u', I)
    inr = lambda t: And(GE(t, lo), LT(t, hi))
    other = And(inr(u), NE(u, w) if w is not None else True, NE(S.elt(u), 0))
    P.fact(Or(other, EQ(S.at(hi) - S.at(lo), Ite(inr(w), S.elt(z3.simplify(tz(w))), 0) if w is not None else 0)))


class TM(TableMeasure):
    """a table measure that also looks into explicit entries"""
    def sum_in(self, P, seq): return seq.sum_of(P, self)


class ParallelSavings(Contract):
    frame_cases = 1
    target = PS + ':parallel_savings_init'
    props = ('C01', 'C02', 'C03')
    summaries = {U + ':routes2sol': summ_routes2sol}
    last_write = False
    touch_depth = 2
    budget = 500

    def quick(self, case, pid):
        # minimize_K only removes an early stop
        return not case['minimize_K'] and (pid != 'C02' or case['C']) and (pid != 'C03' or case['L'])

    def weight(self, case): return 5 + 4 * case['L'] + case['C']

    def cases(self):
        for mk in (False, True):
            for C in (False, True):
                for L in (False, True): yield dict(minimize_K=mk, C=C, L=L)

    def setup(self, P, case):
        P.N = N = P.fresh('N', I)
        P.fact(N >= 2)
        P.D = D = mk_D(P, nonneg=True, zerodiag=True, size=N)
        P.d = d = Vec('d', nonneg=True, zero_at0=True, length=N)
        P.C, P.L = P.fresh('C', R), P.fresh('L', R)
        P.fact(And(P.C > 0, P.L > 0))
        P.bC, P.bL = add(P.C, ceps(P)), add(P.L, eps(P))
        P.x = x = P.fresh('x', I)
        P.fact(And(x >= 1, x < N))
        P.mx, P.m0 = TM(count_measure(x)), TM(count_measure(z3.IntVal(0)))
        P.md = TM(d.measure())
        P.msum = [P.mx, P.m0, P.md]
        P.seg = Seg(P, D, d, P.bC if case['C'] else P.fresh('B', R), P.bL if case['L'] else P.fresh('BL', R))
        P.entry_facts = [('C01:tour-precondition-customers', lambda v: self.customers(P, v))]
        if case['C']: P.entry_facts.append(('C02:every-route-within-capacity', lambda v: LE(v.seq.sum_of(P, d.measure()), P.bC)))
        if case['L']: P.entry_facts.append(('C03:every-route-within-the-cost-limit', lambda v: LE(route_cost(P, v, D), P.bL)))
        # every customer can be served alone
        one = lambda t: And(LE(d.get(P, t), P.C) if case['C'] else True, LE(add(D.get(P, 0, t), D.get(P, t, 0)), P.L) if case['L'] else True)
        P.single = one
        P.fact(one(x))
        P.inputs = dict(N=N)

        def callback(I_, a, k):
            P.oblige('C01:savings-of-the-distances', len(a) == 1 and a[0] is D)
            n = P.fresh('savings.len', I)
            P.fact(n >= 0)
            b = P.fresh_base('savings', ('tuple', (('real',), ('real',), ('int',), ('int',))), n)
            P.on_touch(b, lambda t: (And(GE(t, 0), LT(t, n)), self.savings_entry(P, b.raw(t))))
            return E.HList(Seq.base(b))
        return dict(D=D, d=d, C=P.C if case['C'] else None, L=P.L if case['L'] else None, minimize_K=case['minimize_K'],
                    savings_callback=E.Native('savings_callback', callback))

    def savings_entry(self, P, e):
        i, j = e[2], e[3]
        return And(GE(i, 1), LT(i, P.N), GE(j, 1), LT(j, P.N), NE(i, j))

    def customers(self, P, v):
        k = P.fresh('k', I)
        for m in (P.m0,): v.seq.sum_of(P, m.m)
        for q in v.seq.parts:
            if q[0] == 's': P.m0.m.on_base(P, q[1]).at(k); P.m0.m.on_base(P, q[1]).at(k + 1)
        return Implies(And(GE(k, 0), LT(k, v.seq.length())), NE(Tab(P, v.seq).num(k), 0))

    def post(self, P, case, res):
        if not isinstance(res, E.HList) or res is not getattr(P, 'sol', None): P.oblige('C01:returns-the-routes', False); return
        s = res.seq
        P.oblige('C01:each-customer-exactly-once', EQ(s.sum_of(P, P.mx.m), 1))
        P.oblige('C01:starts-and-ends-at-the-depot', And(EQ(s.at(P, 0), 0), EQ(s.at(P, sub(s.length(), 1)), 0)))
        if case['C']: P.oblige('C02:route-demand', P.seg.holds_load(s))
        if case['L']: P.oblige('C03:route-cost', P.seg.holds_cost(s))

    def clauses(self, env):
        P, case = env.P, env.P.proof.case
        D, d, N = P.D, P.d, P.N
        n = sub(N, 1)
        ls = dict(env.lists(mod_only=False))
        tables = [v for v, x in ls.items() if E.is_table(x.seq)]
        plain = [v for v, x in ls.items() if not E.is_table(x.seq)]
        def of(v, k):
            sh = E.shape_of(ls[v])[1]
            return sh is not None and (sh == (k,) or (sh[0] == 'union' and (k,) in sh[1]))
        nums, idxs = [v for v in plain if of(v, 'real')], [v for v in plain if of(v, 'int')]
        for v in ls: yield E.Clause('len(%s)=n' % v, lambda env, v=v: EQ(env[v].seq.length(), n))
        for v in plain: yield E.Clause('len(%s)=N' % v, lambda env, v=v: EQ(env[v].seq.length(), N))
        def bases(*ss): return [q[1] for s in ss for q in s.parts if q[0] == 's']
        for T in tables:
            def alone(t):
                # the precondition, at the customer of the t-th single-customer route
                P.fact(Implies(And(GE(t, 0), LT(t, n)), P.single(z3.simplify(tz(t) + 1))))
                return And(GE(t, 0), LT(t, n))
            def route(t, s, fn): return Tab(P, s).pick(t, lambda v: True if v is None else fn(v))
            def count(env, T=T):
                if isinstance(env.next, int) and env.next == 0:
                    for q in env[T].seq.parts:
                        if q[0] == 's':
                            single_lemma(P, P.mx.on_base(P, q[1]), q[2], q[3], sub(P.x, 1))
                            single_lemma(P, P.m0.on_base(P, q[1]), q[2], q[3], None)
                return And(EQ(P.mx.sum_in(P, env[T].seq), 1), EQ(P.m0.sum_in(P, env[T].seq), 0))
            yield E.Clause('count(%s)' % T, count)
            def shape(env, T=T):
                s = env.seq(T)
                f = lambda v: And(GE(v.seq.length(), 1), GE(first_of(v), 1), LT(first_of(v), N), GE(last_of(v), 1), LT(last_of(v), N),
                                  Or(EQ(v.seq.length(), 1), NE(first_of(v), last_of(v))))
                return ('forall', lambda t: (And(GE(t, 0), LT(t, n)), route(t, s, f)), bases(s))
            yield E.Clause('ends of %s' % T, shape)
            for X in nums:
                if case['C']:
                    def load(env, T=T, X=X):
                        s, xs = env.seq(T), env.seq(X)
                        return ('forall', lambda t: (alone(t), route(t, s, lambda v: And(EQ(v.seq.sum_of(P, d.measure()), Tab(P, xs).num(t)), LE(Tab(P, xs).num(t), P.bC)))),
                                bases(s, xs))
                    yield E.Clause('C02 %s=load of %s' % (X, T), load)
                if case['L']:
                    def cost(env, T=T, X=X):
                        s, xs = env.seq(T), env.seq(X)
                        return ('forall', lambda t: (alone(t), route(t, s, lambda v: And(EQ(route_cost(P, v, D), Tab(P, xs).num(t)), LE(Tab(P, xs).num(t), P.bL)))),
                                bases(s, xs))
                    yield E.Clause('C03 %s=cost of %s' % (X, T), cost)
            for X in idxs:
                def owner(env, T=T, X=X):
                    s, xs = env.seq(T), env.seq(X)
                    def f(t, v):
                        a, b = first_of(v), last_of(v)
                        for bb in bases(xs):
                            bb.touch(a); bb.touch(b)
                        tx = Tab(P, xs)
                        return And(Not(tx.isnone(a)), Not(tx.isnone(b)), EQ(tx.num(a, -1), t), EQ(tx.num(b, -1), t))
                    return ('forall', lambda t: (And(GE(t, 0), LT(t, n)), route(t, s, lambda v: f(t, v))), bases(s))
                yield E.Clause('ends of %s in %s' % (T, X), owner)
                def ended(env, T=T, X=X):
                    s, xs = env.seq(T), env.seq(X)
                    def f(t):
                        tx, tt = Tab(P, xs), Tab(P, s)
                        r = tx.num(t, -1)
                        for bb in bases(s): bb.touch(r)
                        return And(GE(t, 1), LT(t, N)), Or(tx.isnone(t), And(GE(r, 0), LT(r, n), tt.pick(r, lambda v: False if v is None else Or(EQ(first_of(v), t), EQ(last_of(v), t)))))
                    return ('forall', f, bases(xs))
                yield E.Clause('%s ends in %s' % (X, T), ended)


ALL = [ParallelSavings()]
