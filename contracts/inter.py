"""Contracts of the inter-route move operators (C04, C05, C06, C07)."""
from fractions import Fraction
import z3
from pyvc.values import *
from pyvc import engine as E
from pyvc.contract import Contract
from .intra import mk_route, mk_D, loop_targets, lexdone, eps, node

MOD = 'verypy.local_search.inter_route_operators'
RD = 'verypy.routedata'


def ceps(P): return P.interp.modval(E.Module.get('verypy.config'), 'CAPACITY_EPSILON')


def rd_class(P): return P.interp.modval(E.Module.get(RD), 'RouteData')


def mk_rd(P, name, D, dvec, demand):
    """an accurate RouteData: cost and demand are those of its route"""
    b = mk_route(P, name)
    r = E.HList(Seq.base(b))
    cost = r.seq.cost(P, D)
    dem = r.seq.sum_of(P, dvec.measure()) if demand else P.fresh(name + '.demand', R)
    o = E.HObj('RouteData', dict(route=r, cost=cost, demand=dem, node_set=None, aux_data_updated=False,
                                 fwd_l=None, rwd_l=None, fwd_d=None, rwd_d=None))
    o.classref = rd_class(P)
    o.base = b
    return o


def mk_d(P, name='d'):
    n = P.fresh('N', I)
    P.fact(n >= 1)
    return Vec(name, nonneg=True, zero_at0=True, length=n)


def aux_lists(P, b, D, d):
    """the specification of RouteData.update_auxiliary_data for a route stored in base b"""
    n = b.length
    S = b.rsum(('edge', D.name), lambda t: D.get(P, b.raw(z3.simplify(tz(t) - 1)), b.raw(t)), D.nonneg, R)
    out = {}
    mk = lambda nm, f: E.HList(Seq.base(Base(P, nm, n, f, ('real',))))
    out['fwd_l'] = mk('fwd_l', lambda t: S.at(t + 1) - S.at(1))
    out['rwd_l'] = mk('rwd_l', lambda t: S.at(n) - S.at(t + 1))
    if d is not None:
        Sd = d.measure().on_base(P, b)
        out['fwd_d'] = mk('fwd_d', lambda t: Sd.at(t + 1) - Sd.at(1))
        out['rwd_d'] = mk('rwd_d', lambda t: Sd.at(z3.simplify(tz(n) - 1)) - Sd.at(t))
    else:
        z = lambda t: Fraction(0)
        out['fwd_d'] = mk('fwd_d', z); out['rwd_d'] = mk('rwd_d', z)
    return out


def summ_aux(interp, args):
    """call summary of RouteData.update_auxiliary_data (its own contract: contracts/routedata.py)"""
    P = interp.P
    o, D, d, direction = args['self'], args['D'], args['d'], args['direction']
    r = o.fields['route']
    p = r.seq.parts
    if not (len(p) == 1 and p[0][0] == 's' and p[0][4] is False and p[0][2] == 0 and EQ(p[0][3], p[0][1].length) is True):
        raise Unsupported('update_auxiliary_data on a composed route')
    b = p[0][1]
    n = b.length
    P.oblige('C06:aux-precondition', And(GE(n, 2), EQ(r.seq.at(P, 0), 0), EQ(r.seq.at(P, sub(n, 1)), 0)))
    if direction is not None and not isinstance(direction, int): raise Unsupported('direction')
    a = aux_lists(P, b, D, d)
    f = dict(o.fields)
    for k in a:
        if not direction or (direction > 0) == (k[0] == 'f'): f[k] = a[k]
    o.fields = f
    return None


class Inter(Contract):
    nroutes = 2
    summaries = {RD + ':RouteData.update_auxiliary_data': summ_aux}
    props = ('C04', 'C05', 'C06', 'C07')
    nghost = 2
    heavy = 1

    def quick(self, case, pid):
        # the quick tier leaves out combinations whose paths are covered by those kept: both or no limit with a
        # given threshold (which includes 0), a single limit without one
        if pid == 'C06' and not (case['C'] or case['L']): return False
        return case['strategy'] == 1 or (case['best_delta'] == 'real') == (case['C'] == case['L'])

    def weight(self, case):
        return self.heavy * (1 if case['strategy'] == 1 else 10) * (2 if case['best_delta'] == 'real' else 1) * (1 + 2 * case['C'] + case['L'])

    def cases(self):
        for s in (1, 2):
            for bd in ('none', 'zero', 'real'):
                for C in (False, True):
                    for L in (False, True):
                        yield dict(strategy=s, best_delta=bd, C=C, L=L)

    def setup(self, P, case):
        P.D = D = mk_D(P, triangle=True, nonneg=True)
        P.d = d = mk_d(P)
        P.C = P.fresh('C', R) if case['C'] else None
        P.L = P.fresh('L', R) if case['L'] else None
        P.rds = [mk_rd(P, 'r%d' % (i + 1), D, d, case['C']) for i in range(self.nroutes)]
        if case['C']:
            P.fact(P.C > 0)
            for o in P.rds: P.fact(o.fields['demand'] <= P.C + tz(ceps(P)))
        if case['L']:
            P.fact(P.L > 0)
            for o in P.rds: P.fact(o.fields['cost'] <= P.L + tz(eps(P)))
        P.before = [(o.fields['route'].seq, o.fields['cost'], o.fields['demand'], o.fields['route']) for o in P.rds]
        bd = {'none': None, 'zero': Fraction(0), 'real': P.fresh('best_delta', R)}[case['best_delta']]
        if is_z(bd): P.fact(bd != 0)
        P.bd = Fraction(0) if bd is None else bd
        P.g = [P.fresh(x, I) for x in 'pqr']
        P.case = case
        P.inputs = dict(strategy=case['strategy'], best_delta=bd, C=P.C, L=P.L, routes=[o.base for o in P.rds], D=D, d=d)
        return list(P.rds) + [D, d if case['C'] else None, P.C, P.L, case['strategy'], bd]

    def post(self, P, case, res):
        e, ce = eps(P), ceps(P)
        for i, (o, (seq, cost, dem, lst)) in enumerate(zip(P.rds, P.before)):
            P.oblige('C04:argument-%d-unmodified' % i, o.fields['route'] is lst and E.same(lst.seq, seq)
                     and o.fields['cost'] is cost and o.fields['demand'] is dem)
        l = P.interp.tolist(res)
        if l is None or len(l) != self.nroutes + 1:
            P.oblige('C04:returns-%d-tuple' % (self.nroutes + 1), False); return
        if any(x is None for x in l):
            P.oblige('C05:none-together', all(x is None for x in l))
            for nm, g, d in self.goals(P):
                P.oblige('C07:no-improving-move-missed:' + nm, Implies(g, GE(add(d, e), P.bd)))
            return
        rds, delta = l[:-1], l[-1]
        x = P.fresh('x', I)
        m = count_measure(x)
        new = old = newc = oldc = 0
        for o, (seq, cost, dem, _) in zip(rds, P.before):
            ok = isinstance(o, E.HObj) and isinstance(o.fields.get('route'), E.HList)
            if not ok:
                P.oblige('C04:returns-route-records', False); return
            s = o.fields['route'].seq
            n = s.length()
            P.oblige('C04:at-least-two-nodes', GE(n, 2))
            P.oblige('C04:starts-at-depot', EQ(s.at(P, 0), 0))
            P.oblige('C04:ends-at-depot', EQ(s.at(P, sub(n, 1)), 0))
            c = s.cost(P, P.D)
            newc, oldc = add(newc, c), add(oldc, cost)
            P.oblige('C05:route-cost-exact', EQ(o.fields['cost'], c) if o.fields['cost'] is not None else False)
            new, old = add(new, s.sum_of(P, m)), add(old, seq.sum_of(P, m))
            if case['C']:
                dd = s.sum_of(P, P.d.measure())
                P.oblige('C05:route-demand-exact', EQ(o.fields['demand'], dd) if o.fields['demand'] is not None else False)
                P.oblige('C06:capacity', LE(dd, add(P.C, ce)))
            if case['L']: P.oblige('C06:route-cost', LE(c, add(P.L, e)))
        P.oblige('C04:same-customers', Implies(NE(x, 0), EQ(new, old)))
        P.oblige('C05:delta-exact', EQ(sub(newc, oldc), delta))
        P.oblige('C05:improves-threshold', LT(add(delta, e), P.bd))
        if case['strategy'] == 2:
            for nm, g, d in self.goals(P):
                P.oblige('C07:best-move:' + nm, Implies(g, GE(add(d, e), delta)))

    def moves(self, P): return []
    def mv(self, P):
        if not hasattr(P, 'mv'): P.mv = self.moves(P)
        return P.mv
    def goals(self, P):
        if not P.proof.wants('C07'): return []
        return [(nm, g, d) for nm, _, g, d in self.mv(P)]

    def clauses(self, env):
        P = env.P
        if not P.proof.wants('C07'): return
        e = eps(P)
        tv = loop_targets(env)
        vs = [v for v, x in env.numvars(mod_only=False) if v not in tv and env.isreal(v)]
        for nm, gs, guard, d in self.mv(P):
            done = lexdone(P, env, gs)
            yield E.Clause('C07 threshold ' + nm, lambda env, done=done, guard=guard, d=d: Implies(And(done(env), guard), GE(add(d, e), P.bd)))
            for v in vs:
                if 'delta' not in v and v not in env.lf.info.mod: continue
                yield E.Clause('C07 %s %s' % (v, nm),
                               lambda env, v=v, done=done, guard=guard, d=d: Implies(And(done(env), guard), GE(add(d, e), env[v])))

    def feas(self, P, i, demand, cost):
        """route i would have this demand and cost"""
        c = True
        if P.C is not None and demand is not None: c = And(c, LE(demand, P.C))
        if P.L is not None and cost is not None: c = And(c, LE(cost, P.L))
        return c


class OnePoint(Inter):
    target = MOD + ':do_1point_move'

    def moves(self, P):
        p, q = P.g[:2]
        b1, b2 = P.rds[0].base, P.rds[1].base
        D = lambda x, y: P.D.get(P, x, y)
        a, x, c = node(P, b1, p - 1), node(P, b1, p), node(P, b1, p + 1)
        u, v = node(P, b2, q - 1), node(P, b2, q)
        rem, ins = D(a, c) - D(a, x) - D(x, c), D(u, x) + D(x, v) - D(u, v)
        f2 = P.rds[1].fields
        g = And(GE(p, 1), LT(p, sub(b1.length, 1)), GE(q, 1), LT(q, b2.length),
                self.feas(P, 1, None if P.C is None else add(P.before[1][2], P.d.get(P, x)), add(P.before[1][1], ins)))
        return [('1point', (p, q), g, rem + ins)]


class TwoPoint(Inter):
    target = MOD + ':do_2point_move'

    def moves(self, P):
        p, q = P.g[:2]
        b1, b2 = P.rds[0].base, P.rds[1].base
        D = lambda x, y: P.D.get(P, x, y)
        a, x, c = node(P, b1, p - 1), node(P, b1, p), node(P, b1, p + 1)
        u, y, v = node(P, b2, q - 1), node(P, b2, q), node(P, b2, q + 1)
        d1 = D(a, y) + D(y, c) - D(a, x) - D(x, c)
        d2 = D(u, x) + D(x, v) - D(u, y) - D(y, v)
        dx, dy = P.d.get(P, x), P.d.get(P, y)
        cap = P.C is not None
        g = And(GE(p, 1), LT(p, sub(b1.length, 1)), GE(q, 1), LT(q, sub(b2.length, 1)),
                self.feas(P, 0, P.before[0][2] - dx + dy if cap else None, P.before[0][1] + d1),
                self.feas(P, 1, P.before[1][2] - dy + dx if cap else None, P.before[1][1] + d2))
        return [('2point', (p, q), g, d1 + d2)]


class TwoOptStar(Inter):
    target = MOD + ':do_2optstar_move'
    heavy = 8

    def moves(self, P):
        p, q = P.g[:2]
        b1, b2 = P.rds[0].base, P.rds[1].base
        D = lambda x, y: P.D.get(P, x, y)
        a, b, c, d = node(P, b1, p), node(P, b1, p + 1), node(P, b2, q), node(P, b2, q + 1)
        A1, A2 = aux_lists(P, b1, P.D, P.d), aux_lists(P, b2, P.D, P.d)
        at = lambda l, t: l.seq.parts[0][1].raw(tz(z3.simplify(tz(t))))
        cap = P.C is not None
        base = And(GE(p, 0), LT(p, sub(b1.length, 1)), GE(q, 0), LT(q, sub(b2.length, 1)))
        rem = D(a, b) + D(c, d)
        out = []
        g = And(base, self.feas(P, 0, at(A1['fwd_d'], p) + at(A2['fwd_d'], q) if cap else None,
                                at(A1['fwd_l'], p) + D(a, c) + at(A2['fwd_l'], q) if P.L is not None else None),
                self.feas(P, 1, at(A1['rwd_d'], p + 1) + at(A2['rwd_d'], q + 1) if cap else None,
                          at(A1['rwd_l'], p + 1) + D(b, d) + at(A2['rwd_l'], q + 1) if P.L is not None else None))
        out.append(('ac.bd', (p, q), g, D(a, c) + D(b, d) - rem))
        g = And(base, self.feas(P, 0, at(A1['fwd_d'], p) + at(A2['rwd_d'], q + 1) if cap else None,
                                at(A1['fwd_l'], p) + D(a, d) + at(A2['rwd_l'], q + 1) if P.L is not None else None),
                self.feas(P, 1, at(A1['rwd_d'], p + 1) + at(A2['fwd_d'], q) if cap else None,
                          at(A1['rwd_l'], p + 1) + D(b, c) + at(A2['fwd_l'], q) if P.L is not None else None))
        out.append(('ad.bc', (p, q), g, D(a, d) + D(b, c) - rem))
        return out


class Chain(Inter):
    target = MOD + ':do_chain_move'
    heavy = 3
    nroutes = 3

    def moves(self, P):
        p, q, r = P.g
        b1, b2, b3 = [o.base for o in P.rds]
        D = lambda x, y: P.D.get(P, x, y)
        a, x, c = node(P, b1, p - 1), node(P, b1, p), node(P, b1, p + 1)
        u, y, v = node(P, b2, q - 1), node(P, b2, q), node(P, b2, q + 1)
        s, t = node(P, b3, r - 1), node(P, b3, r)
        d1 = D(a, c) - D(a, x) - D(x, c)
        d2 = D(u, x) + D(x, v) - D(u, y) - D(y, v)
        d3 = D(s, y) + D(y, t) - D(s, t)
        cap = P.C is not None
        dx, dy = P.d.get(P, x), P.d.get(P, y)
        g = And(GE(p, 1), LT(p, sub(b1.length, 1)), GE(q, 1), LT(q, sub(b2.length, 1)), GE(r, 1), LT(r, b3.length),
                self.feas(P, 1, P.before[1][2] - dy + dx if cap else None, P.before[1][1] + d2),
                self.feas(P, 2, P.before[2][2] + dy if cap else None, P.before[2][1] + d3))
        return [('chain', (p, q, r), g, d1 + d2 + d3)]


class Insert(Contract):
    """do_insert_move: a customer, a list of customers or a whole route is inserted into a route"""
    target = MOD + ':do_insert_move'
    props = ('C04', 'C05', 'C06', 'C07')

    def cases(self):
        for what in ('node', 'list', 'route'):
            for s in (1, 2):
                for bd in ('none', 'real'):
                    for C in (False, True):
                        for L in (False, True): yield dict(what=what, strategy=s, best_delta=bd, C=C, L=L)

    def quick(self, case, pid):
        if pid == 'C06' and not (case['C'] or case['L']): return False
        if pid == 'C07' and not (case['what'] == 'node' and case['strategy'] == 2): return False
        return (case['best_delta'] == 'real') == (case['C'] == case['L']) or case['what'] == 'node'

    def setup(self, P, case):
        P.D = D = mk_D(P, triangle=True, nonneg=True, zerodiag=True)
        P.d = d = mk_d(P)
        P.C = P.fresh('C', R) if case['C'] else None
        P.L = P.fresh('L', R) if case['L'] else None
        P.rd = rd = mk_rd(P, 'r', D, d, case['C'])
        if case['C']: P.fact(And(P.C > 0, rd.fields['demand'] <= P.C + tz(ceps(P))))
        if case['L']: P.fact(And(P.L > 0, rd.fields['cost'] <= P.L + tz(eps(P))))
        P.x, P.q = P.fresh('x', I), P.fresh('q', I)
        P.cx = count_measure(P.x)
        P.rds = [rd]
        if case['what'] == 'node':
            u = P.fresh('u', I); P.fact(u >= 1)
            P.ins = Seq.of([u])
            P.u = u
        elif case['what'] == 'list':
            n = P.fresh('u.len', I); P.fact(n >= 1)
            b = P.fresh_base('unrouted', ('int',), n)
            P.on_touch(b, lambda t: (And(GE(t, 0), LT(t, n)), GE(b.raw(t), 1)))
            P.ins = Seq.base(b)
            u = E.HList(P.ins)
        else:
            u = mk_rd(P, 'u', D, d, case['C'])
            P.fact(u.base.length >= 3)
            P.rds.append(u)
            P.ins = Seq([('s', u.base, 1, z3.simplify(u.base.length - 1), False)])
        P.before = [(o.fields['route'].seq, o.fields['cost'], o.fields['demand'], o.fields['route']) for o in P.rds]
        P.bd = P.fresh('best_delta', R) if case['best_delta'] == 'real' else None
        P.inputs = dict(strategy=case['strategy'], best_delta=P.bd, C=P.C, L=P.L, routes=[o.base for o in P.rds], inserted=E.HList(P.ins), D=D, d=d)
        return [u, rd, D, d if case['C'] else None, P.C, P.L, case['strategy'], P.bd]

    def at(self, P, case):
        """inserting the customer at ghost position q of the receiving route: (feasible, delta)"""
        b = P.rd.base
        D = lambda x, y: P.D.get(P, x, y)
        a, c = node(P, b, P.q - 1), node(P, b, P.q)
        ins = D(a, P.u) + D(P.u, c) - D(a, c)
        g = And(GE(P.q, 1), LT(P.q, b.length))
        if case['C']: g = And(g, LE(add(P.rd.fields['demand'], P.d.get(P, P.u)), P.C))
        if case['L']: g = And(g, LE(add(P.rd.fields['cost'], ins), P.L))
        return g, ins

    def post(self, P, case, res):
        e, ce = eps(P), ceps(P)
        for i, (o, (seq, cost, dem, lst)) in enumerate(zip(P.rds, P.before)):
            P.oblige('C04:argument-%d-unmodified' % i, o.fields['route'] is lst and E.same(lst.seq, seq)
                     and o.fields['cost'] is cost and o.fields['demand'] is dem)
        l = P.interp.tolist(res)
        if l is None or len(l) != 3: P.oblige('C04:returns-3-tuple', False); return
        best = case['what'] == 'node' and case['strategy'] == 2
        if best: g, ins = self.at(P, case)
        if any(x is None for x in l):
            P.oblige('C05:none-together', all(x is None for x in l))
            if best: P.oblige('C07:no-feasible-position-missed', Implies(g, False if P.bd is None else GE(add(ins, e), P.bd)))
            return
        empty, o, delta = l
        for r in (empty, o):
            if not (isinstance(r, E.HObj) and isinstance(r.fields.get('route'), E.HList)): P.oblige('C04:returns-route-records', False); return
        es, s = empty.fields['route'].seq, o.fields['route'].seq
        n = s.length()
        P.oblige('C04:starts-at-depot', And(GE(n, 2), EQ(s.at(P, 0), 0)))
        P.oblige('C04:ends-at-depot', EQ(s.at(P, sub(n, 1)), 0))
        P.oblige('C04:same-customers', Implies(NE(P.x, 0), EQ(add(s.sum_of(P, P.cx), es.sum_of(P, P.cx)), add(P.before[0][0].sum_of(P, P.cx), P.ins.sum_of(P, P.cx)))))
        c = s.cost(P, P.D)
        P.oblige('C05:route-cost-exact', EQ(o.fields['cost'], c) if o.fields['cost'] is not None else False)
        P.oblige('C05:delta-exact', EQ(sub(c, P.before[0][1]), delta))
        if P.bd is not None: P.oblige('C05:improves-threshold', LE(add(delta, e), P.bd))
        if case['C']:
            dd = s.sum_of(P, P.d.measure())
            P.oblige('C05:route-demand-exact', EQ(o.fields['demand'], dd) if o.fields['demand'] is not None else False)
            P.oblige('C06:capacity', LE(dd, add(P.C, ce)))
        if case['L']: P.oblige('C06:route-cost', LE(c, add(P.L, e)))
        if best: P.oblige('C07:cheapest-position', Implies(g, GE(ins, delta)))

    def clauses(self, env):
        P, case = env.P, env.P.proof.case
        e = eps(P)
        ks = env.nexts()
        pre = lambda m, k: P.ins.prefix(P, m, k)
        reals = [v for v, x in env.numvars(mod_only=False) if env.isreal(v)]
        dm = P.d.measure()
        if len(ks) == 1 and case['what'] != 'node':
            for v, x in env.lists(mod_only=False):
                if E.shape_of(x)[1] != ('int',): continue
                yield E.Clause('%s ends' % v, lambda env, v=v: And(GE(env[v].seq.length(), 2), EQ(Tab(P, env[v].seq).num(0), 0), EQ(Tab(P, env[v].seq).num(sub(env[v].seq.length(), 1)), 0)))
                yield E.Clause('C04 %s customers' % v, lambda env, v=v: Or(EQ(P.x, 0), EQ(env[v].seq.sum_of(P, P.cx), add(P.before[0][0].sum_of(P, P.cx), pre(P.cx, env.next)))))
                yield E.Clause('%s load' % v, lambda env, v=v: EQ(env[v].seq.sum_of(P, dm), add(P.before[0][0].sum_of(P, dm), pre(dm, env.next))))
                for w in reals:
                    yield E.Clause('%s=cost %s' % (w, v), lambda env, v=v, w=w: EQ(env[w], env[v].seq.cost(P, P.D)))
                    if case['C']: yield E.Clause('%s=load %s' % (w, v), lambda env, v=v, w=w: EQ(env[w], env[v].seq.sum_of(P, dm)))
            for w in reals:
                if case['L']: yield E.Clause('%s<=L' % w, lambda env, w=w: LE(env[w], add(P.L, e)))
                for u in reals:
                    if u != w: yield E.Clause('%s=cost+%s' % (w, u), lambda env, w=w, u=u: EQ(env[w], add(P.before[0][1], env[u])))
                if P.bd is not None: yield E.Clause('%s below threshold' % w, lambda env, w=w: Or(EQ(env.next, 0), LE(add(env[w], e), P.bd)))
        if len(ks) == (1 if case['what'] == 'node' else 2):
            D = lambda x, y: P.D.get(P, x, y)
            ints = [v for v, x in env.numvars(mod_only=False) if isinstance(x, int) or is_z(x) and z3.is_int(x)]
            for z, x in env.lists(mod_only=False):
                if E.shape_of(x)[1] != ('int',): continue
                for v in ints:
                    if v not in env.lf.info.mod: continue
                    for w in reals:
                        if w not in env.lf.info.mod: continue
                        for u in ints:
                            if u in env.lf.info.mod or u == z: continue
                            def inserted(env, z=z, v=v, w=w, u=u):
                                t = Tab(P, env[z].seq)
                                a, b = t.num(sub(env[v], 1)), t.num(env[v])
                                return And(GE(env[v], 1), LT(env[v], env[z].seq.length()), EQ(env[w], sub(add(D(a, env[u]), D(env[u], b)), D(a, b))))
                            yield E.Clause('%s=inserting %s to %s at %s' % (w, u, z, v), inserted)
        if case['what'] == 'node' and case['strategy'] == 2 and P.proof.wants('C07'):
            g, ins = self.at(P, case)
            done = lambda env: And(g, LE(P.q, env.next))
            for v in sorted(env.lf.info.mod):
                x = env.fr.vars.get(v, UNBOUND)
                if x is None: yield E.Clause('C07 %s none' % v, lambda env: Not(done(env)))
                elif is_num(x): yield E.Clause('C07 %s best' % v, lambda env, v=v: Implies(done(env), GE(ins, env[v])))


def accurate(P, case, o):
    """a route record as do_insert_move needs it: from depot to depot, with its true cost and demand, within the limits"""
    s = o.fields['route'].seq
    n = s.length()
    c = s.cost(P, P.D)
    out = [GE(n, 2), EQ(s.at(P, 0), 0), EQ(s.at(P, sub(n, 1)), 0), EQ(o.fields['cost'], c)]
    if case['C']:
        dd = s.sum_of(P, P.d.measure())
        out += [EQ(o.fields['demand'], dd), LE(dd, add(P.C, ceps(P)))]
    if case['L']: out.append(LE(c, add(P.L, eps(P))))
    return out


def summ_insert(interp, args):
    """do_insert_move with a single customer (contract Insert): no move, or an accurate route with the customer in it"""
    P = interp.P
    case = P.proof.case
    u, o = args['unrouted'], args['recieving_route_data']
    P.oblige('C04:insertion-of-a-customer', is_num(u) and args['D'] is P.D and (not case['C'] or args['d'] is P.d) and args['C'] is P.C and args['L'] is P.L and args['best_delta'] is None)
    P.oblige('C04:insertion-of-a-customer', GE(u, 1))
    for c in accurate(P, case, o): P.oblige('insert-precondition', c)
    if P.branch(P.fresh('no_move', B)): return (None, None, None)
    P.ninsert = getattr(P, 'ninsert', 0) + 1
    b = mk_route(P, 'inserted%d' % P.ninsert)
    r = E.HList(Seq.base(b))
    s0 = o.fields['route'].seq
    cost = P.fresh('cost', R)
    P.fact(EQ(cost, r.seq.cost(P, P.D)))
    dem = P.fresh('demand', R)
    if case['C']: P.fact(EQ(dem, r.seq.sum_of(P, P.d.measure())))
    delta = P.fresh('delta', R)
    P.fact(EQ(delta, sub(cost, o.fields['cost'])))
    P.fact(EQ(r.seq.sum_of(P, P.cx), add(s0.sum_of(P, P.cx), Ite(EQ(u, P.x), 1, 0))))
    if case['C']: P.fact(LE(dem, add(P.C, ceps(P))))
    if case['L']: P.fact(LE(cost, add(P.L, eps(P))))
    mk = lambda route, cost, dem: E.HObj('RouteData', dict(route=route, cost=cost, demand=dem, node_set=None, aux_data_updated=False, fwd_l=None, rwd_l=None, fwd_d=None, rwd_d=None))
    new, empty = mk(r, cost, dem), mk(E.HList(Seq.of([0, 0])), Fraction(0), Fraction(0))
    new.classref = empty.classref = rd_class(P)
    return (empty, new, delta)


class Redistribute(Contract):
    """do_redistribute_move: the customers of one route are inserted one by one into the receiving routes"""
    target = MOD + ':do_redistribute_move'
    props = ('C04', 'C05', 'C06')
    last_write = False
    fixed_lists = True
    summaries = {MOD + ':do_insert_move': summ_insert}

    def cases(self):
        for to in ('record', 'list of 1', 'list of 2', 'list of 3', 'list of 4', 'list of 5'):
            for level in (0, 2):
                if level and to != 'list of 2': continue
                for bd in ('none', 'real'):
                    for C in (False, True):
                        for L in (False, True): yield dict(to=to, level=level, best_delta=bd, C=C, L=L)

    def quick(self, case, pid): return case['to'] in ('record', 'list of 1', 'list of 2') and (pid != 'C06' or case['C'] or case['L'])

    def setup(self, P, case):
        P.D = D = mk_D(P, triangle=True, nonneg=True, zerodiag=True)
        P.d = d = mk_d(P)
        P.C = P.fresh('C', R) if case['C'] else None
        P.L = P.fresh('L', R) if case['L'] else None
        if case['C']: P.fact(P.C > 0)
        if case['L']: P.fact(P.L > 0)
        k = 1 if case['to'] == 'record' else int(case['to'][-1])
        P.rds = [mk_rd(P, 'r%d' % i, D, d, case['C']) for i in range(k + 1)]
        P.fact(P.rds[0].base.length >= 3)
        for o in P.rds[1:]:
            if case['C']: P.fact(o.fields['demand'] <= P.C + tz(ceps(P)))
            if case['L']: P.fact(o.fields['cost'] <= P.L + tz(eps(P)))
        P.x = P.fresh('x', I)
        P.fact(P.x >= 1)
        P.cx = count_measure(P.x)
        b = P.rds[0].base
        P.ins = Seq([('s', b, 1, z3.simplify(b.length - 1), False)])
        P.before = [(o.fields['route'].seq, o.fields['cost'], o.fields['demand'], o.fields['route']) for o in P.rds]
        P.bd = P.fresh('best_delta', R) if case['best_delta'] == 'real' else None
        P.to = P.rds[1] if case['to'] == 'record' else E.HList(Seq.of(P.rds[1:]))
        P.inputs = dict(best_delta=P.bd, C=P.C, L=P.L, routes=[o.base for o in P.rds])
        return [P.rds[0], P.to, D, d if case['C'] else None, P.C, P.L, P.fresh('strategy', I), P.bd, case['level']]

    def total(self, P, rds, f):
        t = 0
        for o in rds: t = add(t, f(o))
        return t

    def post(self, P, case, res):
        for i, (o, (seq, cost, dem, lst)) in enumerate(zip(P.rds, P.before)):
            P.oblige('C04:argument-%d-unmodified' % i, o.fields['route'] is lst and E.same(lst.seq, seq) and o.fields['cost'] is cost and o.fields['demand'] is dem)
        if isinstance(P.to, E.HList): P.oblige('C04:receiving-routes-unmodified', [id(o) for o in P.interp.tolist(P.to) or ()] == [id(o) for o in P.rds[1:]])
        l = P.interp.tolist(res)
        if l is None or len(l) != len(P.rds) + 1: P.oblige('C04:returns-a-record-per-route', False); return
        if any(x is None for x in l):
            P.oblige('C05:none-together', all(x is None for x in l)); return
        delta = l.pop()
        for o in l:
            if not (isinstance(o, E.HObj) and isinstance(o.fields.get('route'), E.HList)): P.oblige('C04:returns-route-records', False); return
        P.oblige('C04:distinct-records', len({id(o) for o in l}) == len(l))
        es = l[0].fields['route'].seq
        P.oblige('C04:redistributed-route-is-empty', LE(es.length(), 2))
        seqs = [o.fields['route'].seq for o in l]
        P.oblige('C04:same-customers', EQ(self.total(P, seqs, lambda s: s.sum_of(P, P.cx)), self.total(P, P.before, lambda t: t[0].sum_of(P, P.cx))))
        for o in l[1:]:
            s = o.fields['route'].seq
            n = s.length()
            P.oblige('C04:from-depot-to-depot', And(GE(n, 2), EQ(s.at(P, 0), 0), EQ(s.at(P, sub(n, 1)), 0)))
            c = s.cost(P, P.D)
            P.oblige('C05:route-cost-exact', EQ(o.fields['cost'], c) if o.fields['cost'] is not None else False)
            if case['C']:
                dd = s.sum_of(P, P.d.measure())
                P.oblige('C05:route-demand-exact', EQ(o.fields['demand'], dd) if o.fields['demand'] is not None else False)
                P.oblige('C06:capacity', LE(dd, add(P.C, ceps(P))))
            if case['L']: P.oblige('C06:route-cost', LE(c, add(P.L, eps(P))))
        P.oblige('C05:delta-exact', EQ(delta, sub(self.total(P, seqs, lambda s: s.cost(P, P.D)), self.total(P, P.before[1:], lambda t: t[1]))))
        if P.bd is not None: P.oblige('C05:improves-threshold', Or(EQ(P.bd, 0), LT(delta, P.bd)))

    def clauses(self, env):
        P, case = env.P, env.P.proof.case
        reals = [v for v, x in env.numvars(mod_only=False) if env.isreal(v) or isinstance(x, (int, Fraction)) and not isinstance(x, bool)]
        for v, x in env.lists(mod_only=False):
            els = lambda env, v=v: P.interp.tolist(env[v])
            l = P.interp.tolist(x)
            if not l or not all(isinstance(o, E.HObj) for o in l): continue
            for i in range(len(l)):
                yield E.Clause('%s[%d] accurate' % (v, i), lambda env, i=i, els=els: And(*accurate(P, case, els(env)[i])))
            yield E.Clause('%s customers' % v, lambda env, els=els: EQ(self.total(P, els(env), lambda o: o.fields['route'].seq.sum_of(P, P.cx)),
                                                                    add(self.total(P, P.before[1:], lambda t: t[0].sum_of(P, P.cx)), P.ins.prefix(P, P.cx, env.next))))
            for w in reals:
                yield E.Clause('%s=change of %s' % (w, v), lambda env, w=w, els=els: EQ(env[w], sub(self.total(P, els(env), lambda o: o.fields['cost']), self.total(P, P.before[1:], lambda t: t[1]))))


ALL = [OnePoint(), TwoPoint(), TwoOptStar(), Chain(), Insert(), Redistribute()]
