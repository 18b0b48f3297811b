"""Contract of cvrp_ops.validate_solution_feasibility (C11).

The solution s is read cyclically.  last(t) is the last depot visit at or before position t (t at or after the first depot
visit p); the route that ends at a depot visit v > p is s[last(v-1)..v], and one more route runs from last(n-1) over the end of
the list to p.  A verdict must be the negation of `a bad route (or customer) exists`; the existential is given by its two
rules: every bad one is a witness (used at the terms that occur), and if it is true, some witness w exists."""
from fractions import Fraction
import z3
from pyvc.values import *
from pyvc import engine as E
from pyvc.contract import Contract
from pyvc.numpy_ import HArr
from .intra import mk_D, eps
from .inter import ceps


class Feasibility(Contract):
    target = 'verypy.cvrp_ops:validate_solution_feasibility'
    props = ('C11',)
    last_write = False

    def cases(self):
        # one verdict at a time: the clauses about the other two are left out
        for C in (False, True):
            for L in (False, True):
                for D in ((True,) if L else (True, False)):
                    for what in ('service', 'capacity', 'cost'): yield dict(what=what, C=C, L=L, D=D)

    def weight(self, case): return 5 + 10 * case['C'] + 5 * case['L'] + 5 * (case['what'] != 'cost')

    def setup(self, P, case):
        n, N = P.fresh('n', I), P.fresh('N', I)
        P.n, P.N = n, N
        P.fact(And(n >= 1, N >= 1))
        P.b = b = P.fresh_base('solution', ('int',), n)
        P.p = p = P.fresh('p', I)
        P.fact(And(p >= 0, p < n))
        P.D = D = mk_D(P, size=N)
        P.d = d = Vec('d', nonneg=True, zero_at0=True, length=N)
        C, L = P.fresh('C', R), P.fresh('L', R)
        P.fact(And(C > 0, L > 0))
        LZ = z3.Function('last', I, I)
        S = b.rsum('load', lambda t: d.get(P, b.raw(t)), True, R)
        Ed = b.rsum('edges', lambda t: D.get(P, b.raw(z3.simplify(t - 1)), b.raw(t)), False, R)
        P.S, P.Ed, P.LZ = S, Ed, LZ
        P.badC, P.badL, P.badV = P.fresh('badC', B), P.fresh('badL', B), P.fresh('badV', B)
        at = lambda t: b.raw(z3.simplify(tz(t)))
        wrap = D.get(P, at(n - 1), at(0))
        u = lambda v: LZ(z3.simplify(tz(v) - 1)) + 1
        P.load = lambda v: S.at(tz(v) + 1) - S.at(u(v))
        P.cost = lambda v: Ed.at(tz(v) + 1) - Ed.at(u(v))
        P.wload = S.at(n) - S.at(LZ(z3.simplify(n - 1)) + 1) + S.at(p + 1)
        P.wcost = Ed.at(n) - Ed.at(LZ(z3.simplify(n - 1)) + 1) + wrap + Ed.at(p + 1) - Ed.at(1)
        P.wrap = wrap
        isroute = lambda v: And(GT(v, p), LT(v, n), EQ(at(v), 0))
        P.tooheavy = lambda v: And(isroute(v), P.load(v) - tz(ceps(P)) > C)
        P.toolong = lambda v: And(isroute(v), P.cost(v) - tz(eps(P)) > L)
        P.wheavy, P.wlong = P.wload - tz(ceps(P)) > C, P.wcost - tz(eps(P)) > L
        P.at = at

        def rule(t):
            g = And(GE(t, 0), LT(t, n))
            prev = z3.simplify(t - 1)
            out = [GE(at(t), 0), LT(at(t), N), Implies(LT(t, p), NE(at(t), 0)),
                   Implies(GE(t, p), And(LE(p, LZ(t)), LE(LZ(t), t), EQ(LZ(t), Ite(EQ(at(t), 0), t, LZ(prev)))))]
            if case['C'] and case['what'] == 'capacity': out.append(Implies(P.tooheavy(t), P.badC))
            if case['L'] and case['what'] == 'cost': out.append(Implies(P.toolong(t), P.badL))
            return g, And(*out)
        P.on_touch(b, rule)
        P.fact(at(p) == 0)
        for t in (p, z3.simplify(n - 1), z3.IntVal(0)): b.touch(t)
        P.gC, P.gL, P.x = P.fresh('routeC', I), P.fresh('routeL', I), P.fresh('x', I)
        for t in (P.gC, P.gL): b.touch(t)
        P.fact(EQ(P.badC, Or(P.tooheavy(P.gC), P.wheavy)) if case['C'] else Not(P.badC))
        P.fact(EQ(P.badL, Or(P.toolong(P.gL), P.wlong)) if case['L'] else Not(P.badL))
        # a customer that is not visited exactly once: P.x is one, if there is any
        P.fact(EQ(P.badV, self.off(P, P.x)))
        P.inputs = dict(solution=b, N=N)
        P.sol = E.HList(Seq.base(b))
        P.s0 = P.sol.seq
        return [P.sol, D if case['D'] else None, d if case['C'] or not case['D'] else None, C if case['C'] else None, L if case['L'] else None, False]

    @staticmethod
    def count(P, x, k): return count_measure(x).on_base(P, P.b).at(k)

    def off(self, P, x): return And(GE(x, 1), LT(x, P.N), NE(self.count(P, x, P.n), 1))

    def witness(self, P, x):
        """a node is a witness of badV when it is one"""
        P.fact(Implies(self.off(P, x), P.badV))

    def post(self, P, case, res):
        P.oblige('C11:solution-unmodified', E.same(P.sol.seq, P.s0))
        if not (isinstance(res, tuple) and len(res) == 3): P.oblige('C11:three-verdicts', False); return
        for t in list(P.triggers): t.touch(P.x)
        V, C, L = [P.interp.cond(x) for x in res]
        for nm, got, bad in (('service', V, P.badV), ('capacity', C, P.badC), ('cost', L, P.badL)):
            if nm != case['what']: continue
            P.oblige('C11:%s-verdict-no-false-alarm' % nm, Implies(Not(got), bad))
            P.oblige('C11:%s-verdict-misses-nothing' % nm, Implies(bad, Not(got)))

    def clauses(self, env):
        P = env.P
        case = P.proof.case
        b, n, p, S, Ed, LZ = P.b, P.n, P.p, P.S, P.Ed, P.LZ
        v0 = env.lf.view
        def idxs(env):
            """position in the solution of the next element: the list is enumerated from the start or from behind p"""
            return {'a': env.next, 'b': add(add(p, 1), env.next)}
        yield E.Clause('k<=p', lambda env: LE(env.next, p))
        for w in 'ab':
            ix = lambda env, w=w: idxs(env)[w]
            u = lambda env, ix=ix: LZ(z3.simplify(tz(ix(env)) - 1)) + 1
            if w == 'b':
                yield E.Clause('last known', lambda env, ix=ix: And(*[self.touch(P, sub(ix(env), 1)), LE(p, LZ(z3.simplify(tz(ix(env)) - 1)))]))
            for v, x in env.numvars():
                k = lambda env, v=v: env[v]
                yield E.Clause('%s=node %s' % (v, w), lambda env, k=k, ix=ix: EQ(k(env), Ite(EQ(ix(env), 0), P.at(n - 1), P.at(sub(ix(env), 1)))))
                if not env.isreal(v) or case['what'] == 'service': continue
                cap = case['what'] == 'capacity'
                if w == 'a':
                    if cap: yield E.Clause('%s=head load' % v, lambda env, k=k: EQ(k(env), S.at(env.next)))
                    else: yield E.Clause('%s=head cost' % v, lambda env, k=k: EQ(k(env), Ite(EQ(env.next, 0), Fraction(0), P.wrap + Ed.at(env.next) - Ed.at(1))))
                else:
                    if cap: yield E.Clause('%s=load' % v, lambda env, k=k, ix=ix, u=u: EQ(k(env), S.at(ix(env)) - S.at(u(env))))
                    else: yield E.Clause('%s=cost' % v, lambda env, k=k, ix=ix, u=u: EQ(k(env), Ed.at(ix(env)) - Ed.at(u(env))))
            for v in sorted(env.lf.names):
                x = env.fr.vars.get(v, UNBOUND)
                if not is_boolv(x): continue
                k = lambda env, v=v: env[v]
                if case['what'] == 'service': yield E.Clause('%s service %s' % (v, w), lambda env, k=k, ix=ix: And(Implies(k(env), Or(LT(P.x, 1), GE(P.x, P.N), LE(self.count(P, P.x, ix(env)), 1))), Implies(Not(k(env)), P.badV)))
                if w == 'b' and case['what'] == 'capacity' and case['C']:
                    yield E.Clause('%s capacity' % v, lambda env, k=k, ix=ix: And(Implies(k(env), Implies(LT(P.gC, ix(env)), Not(P.tooheavy(P.gC)))), Implies(Not(k(env)), P.badC)))
                if w == 'b' and case['what'] == 'cost' and case['L']:
                    yield E.Clause('%s length' % v, lambda env, k=k, ix=ix: And(Implies(k(env), Implies(LT(P.gL, ix(env)), Not(P.toolong(P.gL)))), Implies(Not(k(env)), P.badL)))
            for v, x in env.lists():
                def marked(env, v=v, ix=ix):
                    l, at = env.seq(v), ix(env)
                    bs = [q[1] for q in l.parts if q[0] == 's']
                    def body(t):
                        c = self.count(P, t, at)
                        self.count(P, t, add(at, 1))
                        self.witness(P, t)
                        return And(GE(t, 0), LT(t, P.N)), EQ(l.at(P, t), Ite(GE(c, 1), 1, 0))
                    return ('forall', body, bs)
                if case['what'] == 'service': yield E.Clause('%s marks %s' % (v, w), marked)
                yield E.Clause('len(%s)' % v, lambda env, v=v: EQ(env[v].seq.length(), P.N))

    def touch(self, P, t):
        P.b.touch(t)
        return True


ALL = [Feasibility()]
