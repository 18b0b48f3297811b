"""Contracts of RouteData (C16; the cumulative figures are the callee contract the inter-route operators rely on)."""
from fractions import Fraction
import z3
from pyvc.values import *
from pyvc import engine as E
from pyvc.contract import Contract
from .intra import mk_route, mk_D, node
from .inter import mk_rd, mk_d, aux_lists, rd_class, RD, summ_aux


class UpdateAux(Contract):
    frame = False
    target = RD + ':RouteData.update_auxiliary_data'
    props = ('C16', 'C06', 'C07')
    # the direction-less call recurses into the two directed ones, whose contracts are the other cases
    summaries = {RD + ':RouteData.update_auxiliary_data': summ_aux}

    def cases(self):
        for dr in (None, 1, -1):
            for d in (True, False): yield dict(direction=dr, d=d)

    def setup(self, P, case):
        P.D = D = mk_D(P)
        P.d = mk_d(P) if case['d'] else None
        P.o = o = mk_rd(P, 'r', D, mk_d(P, 'dd'), False)
        P.b = o.base
        P.r0 = o.fields['route'].seq
        P.g = P.fresh('t', I)
        P.fact(And(P.g >= 0, P.g < P.b.length))
        P.spec = aux_lists(P, P.b, D, P.d)
        P.before = dict(o.fields)
        P.inputs = dict(route=P.b, direction=case['direction'])
        return [o, D, P.d, case['direction']]

    def post(self, P, case, res):
        f = P.o.fields
        P.oblige('C16:returns-nothing', res is None)
        P.oblige('C16:route-unmodified', f['route'] is P.before['route'] and E.same(f['route'].seq, P.r0))
        for k in ('cost', 'demand', 'node_set'): P.oblige('C16:%s-unmodified' % k, E.same(f[k], P.before[k]))
        dr = case['direction']
        for k, sp in P.spec.items():
            if dr and (dr > 0) != (k[0] == 'f'):
                P.oblige('C16:%s-kept' % k, E.same(f[k], P.before[k])); continue
            v = f[k]
            if not isinstance(v, E.HList): P.oblige('C16:%s-is-a-list' % k, False); continue
            n = v.seq.length()
            P.oblige('C16:%s-length' % k, EQ(n, P.b.length))
            P.oblige('C16:%s-exact' % k, EQ(v.seq.at(P, P.g), sp.seq.at(P, P.g)))

    def clauses(self, env):
        P = env.P
        k, n, b, D = env.next, P.b.length, P.b, P.D
        S = b.rsum(('edge', D.name), lambda t: D.get(P, b.raw(z3.simplify(tz(t) - 1)), b.raw(t)), D.nonneg, R)
        Sd = P.d.measure().on_base(P, b) if P.d is not None else None
        for v, x in env.numvars():
            if env.isreal(v):
                yield E.Clause(v + '=l+', lambda env, v=v: EQ(env[v], S.at(add(env.next, 1)) - S.at(1)))
                yield E.Clause(v + '=l-', lambda env, v=v: EQ(env[v], S.at(n) - S.at(sub(n, env.next))))
                if Sd is not None:
                    yield E.Clause(v + '=d+', lambda env, v=v: EQ(env[v], Sd.at(add(env.next, 1)) - Sd.at(1)))
                    yield E.Clause(v + '=d-', lambda env, v=v: EQ(env[v], Sd.at(sub(n, 1)) - Sd.at(sub(sub(n, 1), env.next))))
            else:
                yield E.Clause(v + '=node+', lambda env, v=v: EQ(env[v], node(P, b, env.next)))
                yield E.Clause(v + '=node-', lambda env, v=v: EQ(env[v], node(P, b, sub(sub(n, 1), env.next))))
        for v, x in env.lists():
            for nm, sp in P.spec.items():
                lo, hi = (1, lambda k: k) if nm[0] == 'f' else (None, None)
                def cl(env, v=v, sp=sp, nm=nm):
                    k = env.next
                    done = And(GE(P.g, 1), LE(P.g, k)) if nm[0] == 'f' else And(GE(P.g, sub(sub(n, 1), k)), LE(P.g, sub(n, 2)))
                    val = env[v].seq.at(P, P.g)
                    return And(GE(env[v].seq.length(), n), Implies(done, EQ(val, sp.seq.at(P, P.g))), Implies(Not(done), EQ(val, 0)))
                yield E.Clause('%s[g]=%s' % (v, nm), cl)


class Normalize(Contract):
    frame = False
    target = RD + ':RouteData.normalize'
    props = ('C16',)

    def setup(self, P, case):
        P.o = o = mk_rd(P, 'r', mk_D(P), mk_d(P), False)
        P.before = dict(o.fields)
        P.r0 = o.fields['route'].seq
        P.x = P.fresh('x', I)
        P.inputs = dict(route=o.base)
        return [o]

    def post(self, P, case, res):
        f = P.o.fields
        P.oblige('C16:returns-nothing', res is None)
        for k in P.before:
            if k != 'route': P.oblige('C16:%s-unmodified' % k, E.same(f[k], P.before[k]))
        if not isinstance(f['route'], E.HList): P.oblige('C16:still-a-route', False); return
        s, n = f['route'].seq, P.r0.length()
        P.oblige('C16:same-length', EQ(s.length(), n))
        t = P.fresh('t', I)
        P.fact(And(t >= 0, LT(t, n)))
        P.oblige('C16:same-or-reversed', Or(EQ(s.at(P, t), P.r0.at(P, t)), EQ(s.at(P, t), P.r0.at(P, sub(sub(n, 1), t)))))
        P.oblige('C16:smaller-end-first', LE(s.at(P, 1), s.at(P, sub(n, 2))))
        P.oblige('C16:same-customers', EQ(s.sum_of(P, count_measure(P.x)), P.r0.sum_of(P, count_measure(P.x))))


class IsEmpty(Contract):
    target = RD + ':RouteData.is_empty'
    props = ('C16',)

    def setup(self, P, case):
        from .objective import sym_seq
        P.b = b = sym_seq(P, 'route')
        P.o = o = mk_rd(P, 'r', mk_D(P), mk_d(P), False)
        o.fields = dict(o.fields, route=E.HList(Seq.base(b)))
        P.inputs = dict(route=b)
        return [o]

    def post(self, P, case, res):
        n = P.b.length
        want = Or(EQ(n, 0), And(EQ(n, 2), EQ(P.b.raw(z3.IntVal(0)), 0), EQ(P.b.raw(z3.IntVal(1)), 0)))
        got = P.interp.cond(res)
        P.oblige('C16:empty-exactly-without-customers', Or(And(got, want), And(Not(got), Not(want))))


class NodeSet(Contract):
    """routes with any number of depot visits at either end"""
    target = RD + ':RouteData._route_to_nodeset'
    props = ('C16',)

    def cases(self): return [dict(customers=True), dict(customers=False)]

    def setup(self, P, case):
        from .objective import sym_seq
        P.b = b = sym_seq(P, 'route')
        n = b.length
        P.lo, P.hi = lo, hi = P.fresh('lo', I), P.fresh('hi', I)
        # a route without a customer is [] or at least [0,0]
        P.fact(And(lo >= 0, lo < hi, hi <= n) if case['customers'] else And(lo == 0, hi == 0, n != 1))
        P.on_touch(b, lambda t: (And(GE(t, 0), LT(t, n)), EQ(NE(b.raw(t), 0), And(LE(lo, t), LT(t, hi)))))
        P.r = E.HList(Seq.base(b))
        P.r0 = P.r.seq
        P.x = P.fresh('x', I)
        P.m, P.z = count_measure(P.x), count_measure(z3.IntVal(0))
        S, Z = P.m.on_base(P, b), P.z.on_base(P, b)
        # there is no depot visit between lo and hi, and there are only depot visits elsewhere
        P.fact(Z.at(hi) == Z.at(lo))
        P.fact(z3.Implies(P.x != 0, z3.And(S.at(lo) == 0, S.at(n) == S.at(hi))))
        P.inputs = dict(route=b)
        return [P.r]

    def post(self, P, case, res):
        P.oblige('C16:route-unmodified', E.same(P.r.seq, P.r0))
        if isinstance(res, E.CSet): s = Seq.of(res.s)
        elif isinstance(res, E.SSet) and res.seq is not None: s = res.seq
        else: P.oblige('C16:returns-a-set', False); return
        P.oblige('C16:no-depot', EQ(s.sum_of(P, P.z), 0))
        P.oblige('C16:exactly-the-customers', Implies(NE(P.x, 0), EQ(GT(s.sum_of(P, P.m), 0), GT(P.r0.sum_of(P, P.m), 0))))

    def clauses(self, env):
        P = env.P
        n = P.b.length
        for v, x in env.numvars():
            yield E.Clause(v + '<n', lambda env, v=v: LT(env[v], n))
            yield E.Clause(v + '>=-n', lambda env, v=v: And(LT(env[v], 0), GE(add(env[v], n), 0)))
            if P.proof.case['customers']:
                yield E.Clause(v + '<=lo', lambda env, v=v: LE(env[v], P.lo))
                yield E.Clause(v + '>=hi', lambda env, v=v: And(LT(env[v], 0), GE(add(env[v], n), sub(P.hi, 1))))


ALL = [UpdateAux(), Normalize(), IsEmpty(), NodeSet()]
