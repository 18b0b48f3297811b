"""Contract of cvrp_ops.D2D_c (C17): service times folded into the distances."""
from fractions import Fraction
import z3
from pyvc.values import *
from pyvc import engine as E
from pyvc.contract import Contract
from pyvc.numpy_ import HArr


class ServiceTime(Contract):
    target = 'verypy.cvrp_ops:D2D_c'
    props = ('C17',)

    def cases(self):
        for D in ('int', 'real'):
            for st in ('int', 'real'): yield dict(D=D, st=st)

    def setup(self, P, case):
        n = P.fresh('N', I)
        P.fact(n >= 2)
        F = z3.Function('D', I, I, I if case['D'] == 'int' else R)
        P.st = st = P.fresh('st', I if case['st'] == 'int' else R)
        P.fact(st > 0)
        P.n, P.F = n, F
        P.D = HArr(n, lambda i, j: F(tz(i), tz(j)), case['D'] == 'int')
        P.fn0 = P.D.fn
        P.i, P.j = P.fresh('i', I), P.fresh('j', I)
        for x in (P.i, P.j): P.fact(And(x >= 0, x < n))
        for x, y in ((P.i, P.j), (P.i, P.i), (P.j, P.j)):
            P.fact(F(x, y) >= 0) # neither symmetry nor a zero diagonal is assumed
        P.inputs = dict(st=st, i=P.i, j=P.j, Dij=F(P.i, P.j))
        return [P.D, st]

    def allow_raise(self, P, case, exc): return False

    def post(self, P, case, res):
        P.oblige('C17:original-unchanged', P.D.fn is P.fn0)
        if not isinstance(res, HArr): P.oblige('C17:returns-a-matrix', False); return
        P.oblige('C17:another-matrix', res is not P.D)
        P.oblige('C17:same-size', EQ(res.n, P.n))
        st = treal(P.st)
        i, j = P.i, P.j
        G = lambda x, y: treal(res.fn(x, y))
        F = lambda x, y: treal(P.F(x, y))
        half = lambda x: Ite(EQ(x, 0), Fraction(0), st / 2)
        P.oblige('C17:zero-diagonal', EQ(G(i, i), 0))
        P.oblige('C17:edge', Implies(NE(i, j), EQ(G(i, j), F(i, j) + treal(half(i)) + treal(half(j)))))
        P.oblige('C17:symmetric', Implies(EQ(F(i, j), F(j, i)), EQ(G(i, j), G(j, i))))
        # Lemma (induction over the length of a route r from the depot): the cost of r[0..t] in the returned matrix is its
        # cost in D plus st for every customer among r[0..t], less half of st when r[t] is a customer.
        # A(t), B(t): cost of r[0..t] in the returned matrix and in D; C(t): customers among r[0..t]; r[t] = i, r[t+1] = j.
        A, B_ = P.fresh("A", R), P.fresh("B", R)
        # products of st with a count are instances of st*(c+1) = st*c + st
        SC = P.fresh('st*C', R)
        sc1 = SC + treal(Ite(EQ(j, 0), Fraction(0), st))
        P.oblige('C17:route-cost-step', Implies(And(NE(i, j), EQ(A, B_ + SC - treal(half(i)))),
                                                EQ(A + G(i, j), B_ + F(i, j) + sc1 - treal(half(j)))))


ALL = [ServiceTime()]
