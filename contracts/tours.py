"""Giant tours and route tables: routes2sol (C12; the callee contract the savings heuristics rely on)."""
from fractions import Fraction
import z3
from pyvc.values import *
from pyvc import engine as E
from pyvc.contract import Contract
from .intra import mk_D
from .inter import mk_d

U = 'verypy.util'


def first(P, v): return v.seq.at(P, 0)
def last(P, v): return v.seq.at(P, sub(v.seq.length(), 1))


def raw_first(v):
    p = v.seq.parts[0]
    return p[1] if p[0] == 'e' else p[1].raw(tz(p[2]))


def route_cost(P, v, D):
    """cost of the route through the nodes of list v, with the missing depot visits added (D[0,0] = 0)"""
    n = v.seq.length()
    c = v.seq.cost(P, D)
    return Ite(GT(n, 0), add(add(D.get(P, 0, first(P, v)), c), D.get(P, last(P, v), 0)), Fraction(0))


class Seg:
    """the giant-tour property at two ghost positions p < q: between two successive depot visits the demand is at
    most B and the cost at most BL"""
    def __init__(self, P, D, d, B=None, BL=None):
        self.P, self.D, self.d, self.B, self.BL = P, D, d, B, BL
        self.p, self.q = P.fresh('p', I), P.fresh('q', I)
        P.fact(And(self.p >= 0, self.p < self.q))
        self.zero = count_measure(z3.IntVal(0))

    def between(self, seq):
        P, p, q = self.P, self.p, self.q
        tp = Tab(P, seq)
        z = self.zero
        off = 0
        for x in seq.parts:
            if x[0] == 's' and not x[4]:
                for t in (p, q): x[1].touch(z3.simplify(tz(add(x[2], sub(t, off)))))
                self.zero.on_base(P, x[1]).at(sub(x[3], 1))
            off = add(off, 1 if x[0] == 'e' else sub(x[3], x[2]))
        no = EQ(seq.prefix(P, z, q), seq.prefix(P, z, add(p, 1)))
        return And(LT(q, seq.length()), EQ(tp.num(p), 0), EQ(tp.num(q), 0), no)

    def load(self, seq):
        m = self.d.measure()
        return sub(seq.prefix(self.P, m, self.q), seq.prefix(self.P, m, self.p))

    def cost(self, seq):
        return sub(seq.prefix_cost(self.P, self.D, self.q), seq.prefix_cost(self.P, self.D, self.p))

    def holds_load(self, seq): return Implies(self.between(seq), LE(self.load(seq), self.B))
    def holds_cost(self, seq): return Implies(self.between(seq), LE(self.cost(seq), self.BL))


def mk_table(P, name, none=True):
    n = P.fresh(name + '.len', I)
    P.fact(n >= 0)
    sh = ('list', ('int',))
    if none: sh = ('union', (('none',), sh))
    b = P.fresh_base(name, sh, n)
    return b


def lists_at(b, t):
    """[(condition, list)] alternatives of entry t that are lists"""
    out, neg = [], []
    for c, v in b.alts(z3.simplify(tz(t))):
        cc = And(*([Not(x) for x in neg] + [c]))
        if isinstance(v, E.HList): out.append((cc, v))
        neg.append(c)
    return out


class Routes2Sol(Contract):
    """entries: None, or lists of customers that may or may not begin and end with a depot visit"""
    target = U + ':routes2sol'
    props = ('C12', 'C01', 'C02', 'C03')

    def setup(self, P, case):
        P.D = D = mk_D(P, nonneg=True, zerodiag=True)
        P.d = d = mk_d(P)
        P.T = T = mk_table(P, 'routes')
        B, BL = P.fresh('B', R), P.fresh('BL', R)
        P.fact(And(B >= 0, BL >= 0))
        P.seg = Seg(P, D, d, B, BL)
        P.x = x = P.fresh('x', I)
        P.fact(x >= 1)

        def entry(t):
            out = []
            for c, v in lists_at(T, t):
                ib = v.seq.parts[0][1]
                n = ib.length
                P.on_touch(ib, lambda k, ib=ib, n=n, c=c: (And(c, GE(k, 0), LT(k, n)), And(GE(ib.raw(k), 0), Implies(And(GT(k, 0), LT(k, sub(n, 1))), NE(ib.raw(k), 0)))))
                ib.get(z3.IntVal(0)); ib.get(z3.simplify(n - 1))
                out.append(Implies(c, And(LE(v.seq.sum_of(P, d.measure()), B), LE(route_cost(P, v, D), BL))))
            return And(GE(t, 0), LT(t, T.length)), And(*out)
        P.on_touch(T, entry)
        P.mx, P.md = TableMeasure(count_measure(x)), TableMeasure(d.measure())
        P.ST = T.rsum('route_cost', lambda t: self.sel(P, T, t, lambda v: route_cost(P, v, D), Fraction(0)), True, R)

        def outlen(v):
            n = v.seq.length()
            f0, l0 = EQ(raw_first(v), 0), EQ(v.seq.parts[0][1].raw(z3.simplify(tz(n) - 1)), 0)
            return Ite(EQ(n, 0), 0, add(sub(n, Ite(f0, 1, 0)), Ite(l0, 0, 1)))
        P.OFF = T.rsum('outlen', lambda t: self.sel(P, T, t, outlen, 0), True, I)
        P.g, P.j = P.fresh('g', I), P.fresh('j', I)
        P.fact(P.g >= 0)
        P.r = E.HList(Seq.base(T))
        P.inputs = {}
        P.T0 = P.r.seq
        return [P.r]

    @staticmethod
    def sel(P, T, t, fn, dflt):
        x = dflt
        for c, v in lists_at(T, t): x = Ite(c, fn(v), x)
        return x

    def same_at(self, P, seq):
        """every customer of entry g stands in the tour where the lengths of the earlier entries put it"""
        out = []
        T, g, j = P.T, P.g, P.j
        T.touch(g)
        for c, v in lists_at(T, g):
            ib = v.seq.parts[0][1]
            f0 = EQ(raw_first(v), 0)
            pos = add(1, add(P.OFF.at(g), sub(j, Ite(f0, 1, 0))))
            ok = And(c, GE(j, Ite(f0, 1, 0)), LT(j, v.seq.length()))
            out.append(Implies(ok, And(LT(pos, seq.length()), EQ(Tab(P, seq).num(pos), ib.get(j)))))
        return And(*out)

    def facts(self, P, seq, k):
        """(name, condition) about the tour built from the first k entries"""
        n = seq.length()
        yield 'C12:starts-and-ends-at-depot', And(GE(n, 1), EQ(Tab(P, seq).num(0), 0), EQ(Tab(P, seq).num(sub(n, 1)), 0))
        yield 'C01:same-customers', EQ(seq.sum_of(P, P.mx.m), P.mx.on_base(P, P.T).at(k))
        yield 'C12:same-demand', EQ(seq.sum_of(P, P.md.m), P.md.on_base(P, P.T).at(k))
        yield 'C12:same-cost', EQ(seq.cost(P, P.D), P.ST.at(k))
        yield 'C12:length', EQ(n, add(1, P.OFF.at(k)))
        yield 'C12:same-order', Implies(LT(P.g, k), self.same_at(P, seq))
        yield 'C02:route-demand', P.seg.holds_load(seq)
        yield 'C03:route-cost', P.seg.holds_cost(seq)

    def post(self, P, case, res):
        P.oblige('C12:argument-unmodified', E.same(E.foldcells(E.freeze(P.r.seq)), P.T0))
        if res is None:
            P.oblige('C12:none-only-for-no-routes', EQ(P.T.length, 0)); return
        for nm, c in self.facts(P, res.seq, P.T.length): P.oblige(nm, c)

    def clauses(self, env):
        P = env.P
        for v, x in env.lists():
            for i, nm in enumerate(['ends', 'customers', 'demand', 'cost', 'length', 'order', 'segdem', 'segcost']):
                yield E.Clause('%s %s' % (v, nm), lambda env, v=v, i=i: list(self.facts(env.P, env[v].seq, env.next))[i][1])


ALL = [Routes2Sol()]
