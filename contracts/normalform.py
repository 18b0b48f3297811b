"""The normal form of a solution (C13): cvrp_ops.normalize_solution and its helpers."""
import ast
from fractions import Fraction
import z3
from pyvc.values import *
from pyvc import engine as E
from pyvc.contract import Contract

from .objective import sym_seq
from .savings import TM
from .tours import route_cost
from .conversions import edges, zero_lemma, bases

O = 'verypy.cvrp_ops'


def rcost(P, v, D): return route_cost(P, v, D) if v.seq.parts else Fraction(0)


class RouteCostTM(TM):
    """total cost of the routes of a table with their missing depot visits added"""
    def __init__(self, D): self.D, self.key, self.sort, self.nonneg = D, ('rtabcost', D.name), R, False
    def elem(self, path, v):
        if not isinstance(v, E.HList): raise E.Unsupported('not a list of routes')
        path.inclause += 1
        try: return rcost(path, v, self.D)
        finally: path.inclause -= 1


class CountTM(TM):
    def elem(self, path, v):
        if not isinstance(v, E.HList): raise E.Unsupported('not a list of routes')
        return TM.elem(self, path, v)


def none_lemma(P, s, m):
    """a part of which the counted elements number zero has none of them, at any index read"""
    for p in s.parts:
        if p[0] != 's': continue
        _, b, lo, hi, _ = p
        S = m.on_base(P, b)
        P.on_touch(b, lambda t, S=S, lo=lo, hi=hi: (And(LE(lo, t), LT(t, hi), EQ(S.at(hi), S.at(lo))), EQ(S.elt(t), 0)))


def some_lemma(P, s, m):
    """a part of which no element is counted numbers zero of them"""
    for p in s.parts:
        if p[0] == 's': zero_lemma(P, p[1], m.on_base(P, p[1]), p[2], p[3])


def reads(s):
    """the places of the parts which a goal about elements t and t+1 is about"""
    def at(t):
        off = 0
        for p in s.parts:
            if p[0] == 's' and not p[4]:
                for d in (0, 1): yield p[1], z3.simplify(tz(p[2]) + tz(t) + d - tz(off))
            off = add(off, 1 if p[0] == 'e' else sub(p[3], p[2]))
    return at


class NormalForm(Contract):
    """Giant tours from depot to depot, any number of depot visits in a row.  Routes up to direction are compared through
    their cost in an arbitrary symmetric matrix: the undirected edges (other than depot to depot) are the same."""
    target = O + ':normalize_solution'
    props = ('C13',)
    last_write = False

    def cases(self): return [dict(kind='tour'), dict(kind='routes')]

    def setup(self, P, case):
        P.D = D = Mat('D', symmetric=True, nonneg=True, zerodiag=True)
        P.x = P.fresh('x', I)
        P.fact(P.x >= 1)
        P.mx, P.m0, P.mc = CountTM(count_measure(P.x)), CountTM(count_measure(z3.IntVal(0))), RouteCostTM(D)
        P.list_features = [lambda v: v.seq.sum_of(P, P.m0.m)]
        P.g = P.fresh('g', I)
        P.fact(P.g >= 0)
        if case['kind'] == 'routes': return self.table(P)
        P.b = b = sym_seq(P, 'sol', lo=1)
        n = b.length
        P.fact(And(EQ(b.raw(z3.IntVal(0)), 0), EQ(b.raw(z3.simplify(n - 1)), 0)))
        P.r = E.HList(Seq.base(b))
        P.r0 = P.r.seq

        def group(b, lo, hi, key):
            for S in (P.mx.m.on_base(P, b), P.m0.m.on_base(P, b)): zero_lemma(P, b, S, lo, hi)
            zero_lemma(P, b, edges(P, b, D), z3.simplify(tz(lo) + 1), hi)
        P.on_group = [group]
        P.inputs = dict(sol=b)
        return [P.r]

    def table(self, P):
        n = P.fresh('routes.len', I)
        P.fact(n >= 1)
        T = P.fresh_base('routes', ('list', ('int',)), n)

        def entry(t):
            for c, v in T.alts(t):
                b = v.seq.parts[0][1]
                P.on_touch(b, lambda k, b=b: (And(GE(k, 0), LT(k, b.length)), And(GE(b.raw(k), 0), Implies(And(GT(k, 0), LT(k, sub(b.length, 1))), NE(b.raw(k), 0)))))
            return True, True
        P.on_touch(T, entry)
        P.r = E.HList(Seq.base(T))
        P.r0 = P.r.seq
        P.inputs = {}
        return [P.r]

    def intact(self, P):
        if E.same(P.r.seq, P.r0): return True
        # reading a list out of the argument splits it
        T, off, ok = P.r0.parts[0][1], 0, True
        for p in P.r.seq.parts:
            if p[0] == 'e':
                al = T.alts(z3.IntVal(off)) if isinstance(off, int) else ()
                ok = ok and len(al) == 1 and isinstance(p[1], E.HList) and E.same(p[1].seq, al[0][1].seq)
                off = add(off, 1)
            else:
                ok = ok and p[1] is T and not p[4] and EQ(p[2], off) is True
                off = p[3]
        return And(ok, EQ(off, T.length))

    def ends(self, P, s):
        n = s.length()
        if not s.parts: return False
        return And(GE(n, 1), EQ(Tab(P, s).num(0), 0), EQ(Tab(P, s).num(sub(n, 1)), 0))

    def oriented(self, P, s, t):
        """a route from the depot visit at g to the next one at t starts with the end of the lower index"""
        g1 = z3.simplify(P.g + 1)
        for i in (P.g, g1):
            for q, j in reads(s)(i): q.touch(j)
        for q, j in reads(s)(z3.simplify(tz(t) - 1)): q.touch(j)
        T, m = Tab(P, s), P.m0.m
        return (And(LT(g1, t), LT(t, s.length()), EQ(T.num(P.g), 0), EQ(T.num(t), 0), EQ(s.prefix(P, m, t), s.prefix(P, m, g1))),
                LE(T.num(g1), T.num(z3.simplify(tz(t) - 1))))

    def post(self, P, case, res):
        if not isinstance(res, E.HList): P.oblige('C13:returns-a-list', False); return
        s = res.seq
        P.oblige('C13:argument-unmodified', self.intact(P))
        P.oblige('C13:from-depot-to-depot', self.ends(P, s))
        P.oblige('C13:same-customers', EQ(s.sum_of(P, P.mx.m), P.r0.sum_of(P, P.mx.m) if case['kind'] == 'tour' else P.mx.sum_in(P, P.r0)))
        P.oblige('C13:same-edges', EQ(s.cost(P, P.D), P.r0.cost(P, P.D) if case['kind'] == 'tour' else P.mc.sum_in(P, P.r0)))
        t = P.fresh('t', I)
        P.fact(And(t >= 0, LT(t, sub(s.length(), 1))))
        for b in bases(s): b.touch(t); b.touch(z3.simplify(t + 1)); b.touch(P.g)
        T = Tab(P, s)
        P.oblige('C13:single-depot-visits', Or(NE(T.num(t), 0), NE(T.num(z3.simplify(t + 1)), 0)))
        P.oblige('C13:low-end-first', Implies(*self.oriented(P, s, t)))
        t1 = z3.simplify(t + 1)
        P.oblige('C13:low-end-first', Implies(*self.oriented(P, s, t1)))
        P.oblige('C13:routes-in-order', Implies(And(LE(P.g, t), EQ(T.num(P.g), 0), EQ(T.num(t), 0)), LE(T.num(z3.simplify(P.g + 1)), T.num(z3.simplify(t + 1)))))

    def route(self, P, v, directed, empty=False):
        if not isinstance(v, E.HList): raise E.Unsupported('not a list of routes')
        s = v.seq
        n = s.length()
        if empty: return Or(EQ(n, 0), self.route(P, v, directed))
        if not s.parts: return False
        first, last = s.at(P, 0), s.at(P, sub(n, 1))
        c = And(GE(n, 1), EQ(s.sum_of(P, P.m0.m), 0), GT(first, 0), GT(last, 0))
        return And(c, LE(first, last)) if directed else c

    def clauses(self, env):
        P = env.P
        gb = getattr(env.lf.view, 'bounds', None)
        src = env.lf.view.watch[0] if env.lf.view is not None and env.lf.view.watch else None
        if env.lf.view is None:
            # a list being trimmed at either end
            # (other loops: the invariants say nothing about them, so nothing is decided)
            if not any(isinstance(k, ast.Delete) or isinstance(k, ast.Call) and isinstance(k.func, ast.Attribute) for k in ast.walk(env.lf.node)): raise E.Unsupported('loop that trims no list')
            lf = env.lf
            heap1 = {p[1]: p for p in lf.info.heap if len(p) == 2}
            ls = [(v, x) for v, x in env.lists(mod_only=False) if (E.shape_of(x)[1] or ('int',))[0] in ('int', 'const')]
            for v, x in env.lists():
                if (v, x) not in ls: continue
                e = lf.entry_heap.get(heap1[v]) if v in heap1 else (lf.entry[v].seq if isinstance(lf.entry.get(v), E.HList) else None)
                if e is None: continue
                yield E.Clause('customers %s' % v, lambda env, v=v, e=e: EQ(env[v].seq.sum_of(P, P.mx.m), e.sum_of(P, P.mx.m)))
                yield E.Clause('cost %s' % v, lambda env, v=v, e=e: EQ(rcost(P, env[v], P.D), rcost(P, E.HList(e), P.D)))
                def inner(env, v=v):
                    s = env.seq(v)
                    return True if not s.parts else ('forall', lambda t: (And(GE(t, 0), LT(t, s.length())), And(GE(Tab(P, s).num(t), 0), Implies(And(GT(t, 0), LT(t, sub(s.length(), 1))), NE(Tab(P, s).num(t), 0)))), bases(s), reads(s))
                yield E.Clause('interior of %s' % v, inner)
                def head(env, v=v):
                    s = env.seq(v)
                    return True if not s.parts else Or(EQ(s.length(), 0), GT(Tab(P, s).num(0), 0))
                yield E.Clause('head of %s' % v, head)
            return
        for v, x in env.lists(mod_only=False):
            sh = E.shape_of(x)[1]
            if sh is None or sh[0] == 'list':
                for directed, empty in ((True, False), (False, False), (False, True)):
                    def shape(env, v=v, directed=directed, empty=empty):
                        s = env.seq(v)
                        for p in s.parts:
                            if p[0] == 'e' and isinstance(p[1], E.HList): some_lemma(P, p[1].seq, P.m0.m)
                        return True if not s.parts else ('forall', lambda t: (And(GE(t, 0), LT(t, s.length())), Tab(P, s).pick(t, lambda r: self.route(P, r, directed, empty))), bases(s))
                    yield E.Clause('routes %s %s %s' % (v, directed, empty), shape)
                if gb is not None:
                    at = lambda env: gb.get(tz(env.next))
                    yield E.Clause('customers %s' % v, lambda env, v=v: EQ(P.mx.sum_in(P, env[v].seq), P.mx.m.on_base(P, P.b).at(at(env))))
                    def cost(env, v=v):
                        q = at(env)
                        z = And(LT(q, P.b.length), EQ(P.b.get(q), 0))
                        return EQ(P.mc.sum_in(P, env[v].seq), Ite(z, P.r0.prefix_cost(P, P.D, q), P.r0.prefix_cost(P, P.D, sub(q, 1))))
                    yield E.Clause('cost %s' % v, cost)
                elif isinstance(src, E.HList) and src is not x:
                    for nm, m in (('customers', P.mx), ('cost', P.mc)):
                        yield E.Clause('%s %s' % (nm, v), lambda env, v=v, m=m: EQ(m.sum_in(P, env[v].seq), src.seq.prefix(P, m, env.next)))
            if (sh is None or sh[0] in ('int', 'const')) and isinstance(src, E.HList) and src is not x and gb is None:
                yield E.Clause('ends %s' % v, lambda env, v=v: self.ends(P, env[v].seq))
                yield E.Clause('customers in %s' % v, lambda env, v=v: EQ(env[v].seq.sum_of(P, P.mx.m), src.seq.prefix(P, P.mx, env.next)))
                yield E.Clause('cost of %s' % v, lambda env, v=v: EQ(env[v].seq.cost(P, P.D), src.seq.prefix(P, P.mc, env.next)))
                def single(env, v=v):
                    s = env.seq(v)
                    if not s.parts: return True
                    none_lemma(P, s, P.m0.m)
                    T = Tab(P, s)
                    return ('forall', lambda t: (And(GE(t, 0), LT(t, sub(s.length(), 1))), Or(NE(T.num(t), 0), NE(T.num(z3.simplify(tz(t) + 1)), 0))), bases(s), reads(s))
                yield E.Clause('single depot visits in %s' % v, single)
                def lower(env, v=v):
                    s = env.seq(v)
                    if not s.parts: return True
                    none_lemma(P, s, P.m0.m)
                    T = Tab(P, s)
                    k = env.next
                    for q in bases(src.seq): q.touch(z3.simplify(tz(k) - 1))
                    w = Tab(P, src.seq).pick(sub(env.next, 1), lambda r: Tab(P, r.seq).num(0) if isinstance(r, E.HList) and r.seq.parts else 0) if src.seq.parts else 0
                    return ('forall', lambda t: (And(GE(t, 0), LT(t, sub(s.length(), 1)), EQ(T.num(t), 0)), And(GT(k, 0), LE(T.num(z3.simplify(tz(t) + 1)), w))), bases(s), reads(s))
                yield E.Clause('firsts of %s' % v, lower)
                def order(env, v=v):
                    s = env.seq(v)
                    if not s.parts: return True
                    none_lemma(P, s, P.m0.m)
                    for q, i in reads(s)(P.g): q.touch(i)
                    T = Tab(P, s)
                    return ('forall', lambda t: (And(GE(t, P.g), LT(t, sub(s.length(), 1)), EQ(T.num(t), 0), EQ(T.num(P.g), 0)), LE(T.num(z3.simplify(P.g + 1)), T.num(z3.simplify(tz(t) + 1)))), bases(s), reads(s))
                yield E.Clause('order in %s' % v, order)


                def oriented(env, v=v):
                    s = env.seq(v)
                    return True if not s.parts else ('forall', lambda t: self.oriented(P, s, t), bases(s), reads(s))
                yield E.Clause('oriented %s' % v, oriented)


ALL = [NormalForm()]
