"""Conversions between giant tours, lists of routes and route records (C12)."""
from fractions import Fraction
import z3
from pyvc.values import *
from pyvc import engine as E
from pyvc.contract import Contract

from .inter import mk_d, RD
from .objective import sym_seq, summ_objf
from .savings import TM
from .tours import U


class CostTM(TM):
    """total cost of the routes of a table, each as it is listed"""
    def __init__(self, D): self.D, self.key, self.sort, self.nonneg = D, ('tabcost', D.name), R, False
    def elem(self, path, v): return v.seq.cost(path, self.D) if isinstance(v, E.HList) else v.fields['route'].seq.cost(path, self.D)


def edges(P, b, D): return b.rsum(('edge', D.name), lambda t: D.get(P, b.raw(z3.simplify(tz(t) - 1)), b.raw(t)), D.nonneg, R)
def zero_lemma(P, b, S, lo, hi):
    """a range sum is zero, or some term of it is not"""
    u = P.fresh('u', I)
    b.touch(u); b.touch(z3.simplify(u - 1))
    P.fact(Or(And(GE(u, lo), LT(u, hi), NE(S.elt(u), 0)), LE(hi, lo), EQ(S.at(hi), S.at(lo))))


def bases(*ss): return [q[1] for s in ss for q in s.parts if q[0] == 's']


class Sol2Routes(Contract):
    """giant tours from depot to depot, with any number of depot visits in a row"""
    target = U + ':sol2routes'
    props = ('C12',)
    last_write = False

    def cases(self): return [dict(kind='tour'), dict(kind='none')]

    def setup(self, P, case):
        if case['kind'] == 'none': return [None]
        P.D = D = Mat('D', symmetric=False, nonneg=True, zerodiag=True)
        P.b = b = sym_seq(P, 'sol', lo=2)
        n = b.length
        P.fact(And(EQ(b.raw(z3.IntVal(0)), 0), EQ(b.raw(z3.simplify(n - 1)), 0)))
        P.x = P.fresh('x', I)
        P.fact(P.x >= 1)
        P.mx, P.m0, P.mc = TM(count_measure(P.x)), TM(count_measure(z3.IntVal(0))), CostTM(D)
        P.r = E.HList(Seq.base(b))
        P.r0 = P.r.seq
        P.E = edges(P, b, D)

        def group(b, lo, hi, key):
            for S in (P.mx.m.on_base(P, b), P.m0.m.on_base(P, b)): zero_lemma(P, b, S, lo, hi)
            zero_lemma(P, b, edges(P, b, D), z3.simplify(tz(lo) + 1), hi)
        P.on_group = [group]
        P.inputs = dict(sol=b)
        return [P.r]

    def route(self, P, v):
        s = v.seq
        n = s.length()
        return And(GE(n, 3), EQ(s.at(P, 0), 0), EQ(s.at(P, sub(n, 1)), 0), EQ(s.sum_of(P, P.m0.m), 2))

    def post(self, P, case, res):
        if not isinstance(res, E.HList): P.oblige('C12:returns-a-list', False); return
        s = res.seq
        if case['kind'] == 'none': P.oblige('C12:no-routes', EQ(s.length(), 0)); return
        P.oblige('C12:argument-unmodified', E.same(P.r.seq, P.r0))
        P.oblige('C12:same-customers', EQ(P.mx.sum_in(P, s), P.r0.sum_of(P, P.mx.m)))
        P.oblige('C12:same-cost', EQ(P.mc.sum_in(P, s), P.r0.cost(P, P.D)))
        if not s.parts: return
        t = P.fresh('t', I)
        P.fact(And(t >= 0, LT(t, s.length())))
        for b in bases(s): b.touch(t)
        P.oblige('C12:routes-from-depot-to-depot-with-customers', Tab(P, s).pick(t, lambda v: self.route(P, v) if isinstance(v, E.HList) else False))

    def clauses(self, env):
        P, case = env.P, env.P.proof.case
        if case['kind'] == 'none': return
        gb = getattr(env.lf.view, 'bounds', None)
        for v, x in env.lists(mod_only=False):
            sh = E.shape_of(x)[1]
            if v.startswith('.') or sh is None or sh[0] == 'list':
                def shape(env, v=v):
                    s = env.seq(v)
                    return True if not s.parts else ('forall', lambda t: (And(GE(t, 0), LT(t, s.length())), Tab(P, s).pick(t, lambda r: self.route(P, r))), bases(s))
                yield E.Clause('routes %s' % v, shape)
                if gb is None:
                    yield from self.stepwise(env, v)
                    continue
                at = lambda env: gb.get(tz(env.next))
                yield E.Clause('customers %s' % v, lambda env, v=v: EQ(P.mx.sum_in(P, env[v].seq), P.mx.m.on_base(P, P.b).at(at(env))))
                def cost(env, v=v):
                    q = at(env)
                    z = And(LT(q, P.b.length), EQ(P.b.get(q), 0))
                    return EQ(P.mc.sum_in(P, env[v].seq), Ite(z, P.r0.prefix_cost(P, P.D, q), P.r0.prefix_cost(P, P.D, sub(q, 1))))
                yield E.Clause('cost %s' % v, cost)

    def stepwise(self, env, v):
        """loops over the tour that fill one route at a time"""
        P = env.P
        for w, y in env.lists(mod_only=False):
            sh = E.shape_of(y)[1]
            if w == v or sh is not None and sh[0] not in ('int', 'const'): continue
            for o in (0, 1):
                pos = lambda env, o=o: add(env.next, o)
                for lead in (True, False):
                    full = lambda env, w=w, lead=lead: env[w].seq if lead else Seq((('e', 0),) + env[w].seq.parts)
                    num = lambda env, i, full=full: Tab(P, full(env)).num(i) if full(env).parts else -1
                    tag = '%s %s%s@%d' % (v, '' if lead else '0+', w, o)
                    yield E.Clause('starts ' + tag, lambda env, full=full, num=num: And(GE(full(env).length(), 1), EQ(num(env, 0), 0), EQ(full(env).sum_of(P, P.m0.m), 1)))
                    yield E.Clause('last ' + tag, lambda env, full=full, num=num, pos=pos: Implies(GT(pos(env), 0), EQ(num(env, sub(full(env).length(), 1)), P.b.get(z3.simplify(tz(sub(pos(env), 1)))))))
                    yield E.Clause('empty ' + tag, lambda env, full=full, pos=pos: Implies(Or(EQ(pos(env), 0), EQ(P.b.get(z3.simplify(tz(sub(pos(env), 1)))), 0)), EQ(full(env).length(), 1)))
                    yield E.Clause('customers ' + tag, lambda env, full=full, pos=pos, v=v: EQ(add(P.mx.sum_in(P, env[v].seq), full(env).sum_of(P, P.mx.m)), P.mx.m.on_base(P, P.b).at(pos(env))))
                    yield E.Clause('cost ' + tag, lambda env, full=full, pos=pos, v=v: EQ(add(P.mc.sum_in(P, env[v].seq), full(env).cost(P, P.D)), Ite(GE(pos(env), 1), P.r0.prefix_cost(P, P.D, sub(pos(env), 1)), Fraction(0))))


class WithoutEmptyRoutes(Contract):
    """giant tours in which no customer is visited twice in a row"""
    target = U + ':without_empty_routes'
    props = ('C12',)
    last_write = False

    def setup(self, P, case):
        P.D = D = Mat('D', symmetric=False, nonneg=True, zerodiag=True)
        P.b = b = sym_seq(P, 'sol')
        P.on_touch(b, lambda t: (And(GE(t, 1), LT(t, b.length)), Or(EQ(b.raw(t), 0), NE(b.raw(t), b.raw(z3.simplify(tz(t) - 1))))))
        P.x = P.fresh('x', I)
        P.fact(P.x >= 1)
        P.cx = count_measure(P.x)
        P.r = E.HList(Seq.base(b))
        P.r0 = P.r.seq
        P.u = P.fresh('t', I)

        def group(b, lo, hi, key):
            # behind its first element a run has depot visits only (a run of two customers would repeat one)
            l1 = z3.simplify(tz(lo) + 1)
            b.touch(l1)
            zero_lemma(P, b, P.cx.on_base(P, b), l1, hi)
            zero_lemma(P, b, edges(P, b, D), l1, hi)
        P.on_group = [group]
        P.inputs = dict(sol=b)
        return [P.r]

    def post(self, P, case, res):
        if not isinstance(res, E.HList): P.oblige('C12:returns-a-list', False); return
        s = res.seq
        n, m = P.b.length, s.length()
        P.oblige('C12:argument-unmodified', E.same(P.r.seq, P.r0))
        P.oblige('C12:empty-stays-empty', EQ(EQ(m, 0), EQ(n, 0)))
        P.oblige('C12:same-customers', EQ(s.sum_of(P, P.cx), P.r0.sum_of(P, P.cx)))
        P.oblige('C12:same-cost', EQ(s.cost(P, P.D), P.r0.cost(P, P.D)))
        if s.parts:
            t = P.fresh('t', I)
            P.fact(And(t >= 0, LT(t, sub(m, 1))))
            for b in bases(s): b.touch(t)
            P.oblige('C12:no-empty-route-left', NE(Tab(P, s).num(t), Tab(P, s).num(z3.simplify(t + 1))))

    def clauses(self, env):
        P = env.P
        gb = getattr(env.lf.view, 'bounds', None)
        for v, x in env.lists(mod_only=False):
            sh = E.shape_of(x)[1]
            if sh is not None and sh[0] not in ('int', 'const'): continue
            def steps(env, v=v):
                s = env.seq(v)
                return True if not s.parts else ('forall', lambda t: (And(GE(t, 0), LT(t, sub(s.length(), 1))), NE(Tab(P, s).num(t), Tab(P, s).num(z3.simplify(tz(t) + 1)))), bases(s))
            yield E.Clause('%s steps' % v, steps)
            # gb: position in the tour after k runs; a loop over the tour itself is at position k or k+1
            for o, q in (('', lambda env: gb.get(tz(env.next))),) if gb is not None else ((0, lambda env: env.next), (1, lambda env: add(env.next, 1))):
                prev = lambda env, q=q: P.b.get(z3.simplify(tz(sub(q(env), 1))))
                yield E.Clause('%s grows%s' % (v, o), lambda env, v=v, q=q: EQ(EQ(env[v].seq.length(), 0), EQ(q(env), 0)))
                yield E.Clause('%s last%s' % (v, o), lambda env, v=v, q=q, prev=prev: Implies(GT(q(env), 0), EQ(Tab(P, env[v].seq).num(sub(env[v].seq.length(), 1)) if env[v].seq.parts else -1, prev(env))))
                yield E.Clause('%s customers%s' % (v, o), lambda env, v=v, q=q: EQ(env[v].seq.sum_of(P, P.cx), P.cx.on_base(P, P.b).at(q(env))))
                yield E.Clause('%s cost%s' % (v, o), lambda env, v=v, q=q: EQ(env[v].seq.cost(P, P.D), Ite(GE(q(env), 1), P.r0.prefix_cost(P, P.D, sub(q(env), 1)), Fraction(0))))


def rd_shape():
    f = dict(route=('list', ('int',)), cost=('real',), demand=('real',), node_set=('none',), aux_data_updated=('const', False),
             fwd_l=('none',), rwd_l=('none',), fwd_d=('none',), rwd_d=('none',))
    return ('obj', 'RouteData', tuple(sorted(f.items())))


def summ_nodeset(interp, args):
    """call summary of RouteData._route_to_nodeset (its own contract: contracts/routedata.py)"""
    P, r = interp.P, args['route']
    s = E.snapshot(r.seq)
    n = s.length()
    P.oblige('C12:node-set-precondition', And(GE(n, 2), EQ(s.at(P, 0), 0), EQ(s.at(P, sub(n, 1)), 0), EQ(s.sum_of(P, count_measure(z3.IntVal(0))), 2)))
    return E.SSet(lambda v: And(NE(v, 0), GT(s.sum_of(P, count_measure(tz(v))), 0)))


class FromRoutes(Contract):
    """any number of routes, each from depot to depot"""
    target = RD + ':RouteData.from_routes'
    props = ('C12',)
    summaries = {U + ':objf': summ_objf, RD + ':RouteData._route_to_nodeset': summ_nodeset}
    last_write = False

    def cases(self): return [dict(d=True), dict(d=False)]

    def setup(self, P, case):
        from .inter import rd_class
        P.classrefs['RouteData'] = rd_class(P)
        P.D = D = Mat('D', symmetric=False)
        P.d = d = mk_d(P) if case['d'] else None
        n = P.fresh('routes.len', I)
        P.fact(n >= 0)
        P.T = T = P.fresh_base('routes', ('list', ('int',)), n)
        P.c0 = count_measure(z3.IntVal(0))

        def entry(t):
            s = self.entry(P, t).seq
            m = s.length()
            return And(GE(t, 0), LT(t, n)), And(GE(m, 2), EQ(s.at(P, 0), 0), EQ(s.at(P, sub(m, 1)), 0), EQ(s.sum_of(P, P.c0), 2))
        P.on_touch(T, entry)
        P.x, P.j = P.fresh('x', I), P.fresh('j', I)
        P.fact(And(P.x >= 1, P.j >= 0))
        P.r = E.HList(Seq.base(T))
        P.r0 = P.r.seq
        P.inputs = {}
        return [P.r, D, d]

    def entry(self, P, t): return P.T.alts(z3.simplify(tz(t)))[0][1]

    def record(self, P, t, o):
        if not isinstance(o, E.HObj) or not isinstance(o.fields['route'], E.HList): return {'is-a-record': False}
        P.T.touch(t)
        s, f = self.entry(P, t).seq, o.fields
        r = f['route'].seq
        out = {'same-route': And(EQ(r.length(), s.length()), Implies(LT(P.j, s.length()), EQ(Tab(P, r).num(P.j), Tab(P, s).num(P.j)))),
               'true-cost': EQ(f['cost'], s.cost(P, P.D)),
               'true-demand': EQ(f['demand'], s.sum_of(P, P.d.measure()) if P.d is not None else 0),
               'node-set': And(EQ(f['node_set'].fn(P.x), GT(s.sum_of(P, count_measure(P.x)), 0)), Not(f['node_set'].fn(z3.IntVal(0)))) if isinstance(f['node_set'], E.SSet) else False}
        return out

    def post(self, P, case, res):
        if not isinstance(res, E.HList): P.oblige('C12:returns-a-list', False); return
        s = res.seq
        P.oblige('C12:argument-unmodified', E.same(E.foldcells(E.freeze(P.r.seq)), P.r0))
        P.oblige('C12:a-record-per-route', EQ(s.length(), P.T.length))
        if not s.parts: return
        t = P.fresh('t', I)
        P.fact(And(t >= 0, LT(t, s.length())))
        for b in bases(s): b.touch(t)
        for k in ('same-route', 'true-cost', 'true-demand', 'node-set'):
            P.oblige('C12:' + k, Tab(P, s).pick(t, lambda v: self.record(P, t, v).get(k, False)))

    def clauses(self, env):
        P = env.P
        for v, x in env.lists(mod_only=False):
            sh = E.shape_of(x)[1]
            if sh is not None and sh[0] != 'obj': continue
            yield E.Clause('%s one each' % v, lambda env, v=v: EQ(env[v].seq.length(), env.next))
            for k in ('same-route', 'true-cost', 'true-demand', 'node-set'):
                def rec(env, v=v, k=k):
                    s = env.seq(v)
                    return True if not s.parts else ('forall', lambda t: (And(GE(t, 0), LT(t, s.length())), Tab(P, s).pick(t, lambda o: self.record(P, t, o).get(k, False))), bases(s) + [P.T])
                yield E.Clause('%s %s' % (v, k), rec)


class ToSolution(Contract):
    """any number of records whose routes go from depot to depot"""
    target = RD + ':RouteData.to_solution'
    props = ('C12',)
    last_write = False

    def setup(self, P, case):
        from .inter import rd_class
        P.classrefs['RouteData'] = rd_class(P)
        P.D = D = Mat('D', symmetric=False, nonneg=True)
        n = P.fresh('records.len', I)
        P.fact(n >= 0)
        P.T = T = P.fresh_base('records', rd_shape(), n)

        def entry(t):
            s = self.entry(P, t)
            m = s.length()
            return And(GE(t, 0), LT(t, n)), And(GE(m, 2), EQ(s.at(P, 0), 0), EQ(s.at(P, sub(m, 1)), 0))
        P.on_touch(T, entry)
        P.x = P.fresh('x', I)
        P.cx = count_measure(P.x)
        P.SX = T.rsum('rd count', lambda t: self.entry(P, t).sum_of(P, P.cx), True, I)
        P.SC = T.rsum('rd cost', lambda t: self.entry(P, t).cost(P, D), True, R)
        P.r = E.HList(Seq.base(T))
        P.r0 = P.r.seq
        P.inputs = {}
        P.fact(P.x >= 1)
        return [P.r]

    def entry(self, P, t): return P.T.alts(z3.simplify(tz(t)))[0][1].fields['route'].seq

    def post(self, P, case, res):
        if not isinstance(res, E.HList): P.oblige('C12:returns-a-list', False); return
        s = res.seq
        P.oblige('C12:argument-unmodified', E.same(E.foldcells(E.freeze(P.r.seq)), P.r0))
        P.oblige('C12:from-depot-to-depot', And(GE(s.length(), 1), EQ(s.at(P, 0), 0), EQ(s.at(P, sub(s.length(), 1)), 0)))
        P.oblige('C12:same-customers', EQ(s.sum_of(P, P.cx), P.SX.at(P.T.length)))
        P.oblige('C12:same-cost', EQ(s.cost(P, P.D), P.SC.at(P.T.length)))

    def clauses(self, env):
        P = env.P
        stack = [lf for lf in P.loopstack if lf.view is not None]
        if env.lf not in stack: return
        i = stack.index(env.lf)
        outer = stack[0] if i else None
        for v, x in env.lists(mod_only=False):
            sh = E.shape_of(x)[1]
            if sh is not None and sh[0] not in ('int', 'const'): continue
            # the list is the tour so far, or the tour so far without the depot visit it starts with
            for lead in (True, False):
                full = lambda env, v=v, lead=lead: env[v].seq if lead else Seq((('e', 0),) + env[v].seq.parts)
                num = lambda env, i, full=full: Tab(P, full(env)).num(i) if full(env).parts else -1
                last = lambda env, full=full, num=num: num(env, sub(full(env).length(), 1))
                tag = v if lead else '0+' + v
                yield E.Clause('%s starts' % tag, lambda env, full=full, num=num: And(GE(full(env).length(), 1), EQ(num(env, 0), 0)))
                if outer is None:
                    yield E.Clause('%s ends' % tag, lambda env, last=last: EQ(last(env), 0))
                    yield E.Clause('%s customers' % tag, lambda env, full=full: EQ(full(env).sum_of(P, P.cx), P.SX.at(env.next)))
                    yield E.Clause('%s cost' % tag, lambda env, full=full: EQ(full(env).cost(P, P.D), P.SC.at(env.next)))
                else:
                    rt = lambda: self.entry(P, outer.next)
                    for o in (0, 1):
                        yield E.Clause('%s inner ends%d' % (tag, o), lambda env, last=last, o=o: EQ(last(env), Tab(P, rt()).num(sub(add(env.next, o), 0))))
                        yield E.Clause('%s inner customers%d' % (tag, o), lambda env, full=full, o=o: EQ(full(env).sum_of(P, P.cx), add(P.SX.at(outer.next), rt().prefix(P, P.cx, add(env.next, o)))))
                        yield E.Clause('%s inner cost%d' % (tag, o), lambda env, full=full, o=o: EQ(full(env).cost(P, P.D), add(P.SC.at(outer.next), rt().prefix_cost(P, P.D, add(env.next, o)))))


class FromSolution(Contract):
    """the composition of the two"""
    target = RD + ':RouteData.from_solution'
    summaries = {U + ':sol2routes': lambda I_, a: I_.P.callees[0](I_, a), RD + ':RouteData.from_routes': lambda I_, a: I_.P.callees[1](I_, a)}
    props = ('C12',)

    def setup(self, P, case):
        P.b = sym_seq(P, 'sol', lo=2)
        P.r = E.HList(Seq.base(P.b))
        P.r0 = P.r.seq
        P.D = Mat('D', symmetric=False)
        P.d = mk_d(P)
        n = P.fresh('routes.len', I)
        P.fact(n >= 0)
        P.routes, P.recs = E.HList(Seq.base(P.fresh_base('routes', ('list', ('int',)), n))), E.HList(Seq.base(P.fresh_base('records', rd_shape(), n)))

        def routes(I_, args):
            P.oblige('C12:routes-of-the-solution', args['sol'] is P.r and E.same(P.r.seq, P.r0))
            return P.routes

        def recs(I_, args):
            P.oblige('C12:records-of-its-routes', args['routes'] is P.routes and args['D'] is P.D and args['d'] is P.d)
            return P.recs
        P.callees = routes, recs
        P.inputs = {}
        return [P.r, P.D, P.d]

    def post(self, P, case, res):
        P.oblige('C12:returns-the-records', res is P.recs)


class Sol2EdgeSet(Contract):
    """all tours, the edge between two ghost nodes u and v"""
    target = U + ':sol2edgeset'
    props = ('C12',)
    symbolic_sets = True
    last_write = False

    def cases(self): return [dict(symmetric=True), dict(symmetric=False), dict(symmetric='default')]

    def setup(self, P, case):
        P.b = b = sym_seq(P, 'sol')
        P.r = E.HList(Seq.base(b))
        P.r0 = P.r.seq
        P.u, P.v = P.fresh('u', I), P.fresh('v', I)
        P.fact(And(P.u >= 0, P.v >= 0))
        if case['symmetric']: P.fact(P.u <= P.v)
        def here(t):
            x, y = b.raw(z3.simplify(tz(t) - 1)), b.raw(t)
            fwd = And(EQ(x, P.u), EQ(y, P.v))
            return Ite(Or(fwd, And(EQ(x, P.v), EQ(y, P.u))) if case['symmetric'] else fwd, 1, 0)
        # how often the tour goes over the edge up to a position
        P.S = b.rsum('edge uv', here, True, I)
        P.inputs = dict(sol=b)
        return [P.r] if case['symmetric'] == 'default' else [P.r, case['symmetric']]

    def post(self, P, case, res):
        n = P.b.length
        P.oblige('C12:argument-unmodified', E.same(P.r.seq, P.r0))
        if isinstance(res, E.CSet):
            s = E.SSet(lambda v: Or(*[P.interp.eq(v, x) for x in res.s]))
        elif isinstance(res, E.SSet): s = res
        else: P.oblige('C12:returns-a-set', False); return
        P.oblige('C12:exactly-the-edges', EQ(s.fn((P.u, P.v)), And(GE(n, 1), GT(sub(P.S.at(n), P.S.at(1)), 0))))
        if case['symmetric']: P.oblige('C12:smaller-node-first', Implies(LT(P.u, P.v), Not(s.fn((P.v, P.u)))))

    def clauses(self, env):
        P = env.P
        for v in sorted(env.lf.names):
            if not isinstance(env.fr.vars.get(v), E.SSet): continue
            for o in (0, 1):
                q = lambda env, o=o: add(env.next, o)
                yield E.Clause('%s edges%d' % (v, o), lambda env, v=v, q=q: EQ(env.fr.vars[v].fn((P.u, P.v)), And(GE(q(env), 1), GT(sub(P.S.at(q(env)), P.S.at(1)), 0))))
            if P.proof.case['symmetric']: yield E.Clause('%s ordered' % v, lambda env, v=v: Implies(LT(P.u, P.v), Not(env.fr.vars[v].fn((P.v, P.u)))))


ALL = [Sol2Routes(), WithoutEmptyRoutes(), FromRoutes(), ToSolution(), FromSolution(), Sol2EdgeSet()]
