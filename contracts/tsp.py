"""Contract of the built-in tour improver solve_tsp_ropt and its two wrappers (C10)."""
from fractions import Fraction
import z3
from pyvc.values import *
from pyvc import engine as E
from pyvc.contract import Contract
from .objective import U, summ_objf
from .intra import mk_D, mk_walk, eps, MOD

T = 'verypy.tsp_solvers.tsp_solver_ropt'


def listpred(P, name, seq):
    """an uninterpreted predicate of the content of a list (equal contents, equal values - syntactically)"""
    tab = P.__dict__.setdefault('listpreds', {}).setdefault(name, [])
    for s, b in tab:
        if E.same(s, seq): return b
    b = P.fresh(name, B)
    tab.append((seq, b))
    return b


def summ_move(kind):
    """call summary of do_2opt_move / do_3opt_move under FIRST_ACCEPT without a bound (contracts/intra.py, C04 C05 C07):
    nothing and no improving move exists, or a rearrangement with the same ends and its exact, improving cost change"""
    def f(interp, args):
        P = interp.P
        r, D = args['route'], args['D']
        n = r.seq.length()
        P.oblige('C10:move-precondition', And(GE(n, 1), D is P.D and not args.get('best_delta')))
        none = P.fresh(kind + '.none', B)
        if P.branch(none):
            P.fact(listpred(P, kind, r.seq))
            return (None, None)
        b = P.fresh_base('moved', ('int',), n)
        P.on_touch(b, lambda t: (And(GE(t, 0), LT(t, n)), GE(b.raw(t), 0)))
        q = E.HList(Seq.base(b))
        delta = P.fresh('delta', R)
        P.fact(delta + tz(eps(P)) < 0)
        P.fact(EQ(q.seq.at(P, 0), r.seq.at(P, 0)))
        P.fact(EQ(q.seq.at(P, sub(n, 1)), r.seq.at(P, sub(n, 1))))
        P.fact(EQ(q.seq.sum_of(P, P.mx), r.seq.sum_of(P, P.mx)))
        P.fact(EQ(q.seq.cost(P, D), add(r.seq.cost(P, D), delta)))
        return (q, delta)
    return f


def summ_shuffle(interp, args, kw):
    """random.shuffle: some rearrangement of the list, in place"""
    P = interp.P
    o = args[0]
    n = o.seq.length()
    old = o.seq.sum_of(P, P.mx)
    b = P.fresh_base('shuffled', ('int',), n)
    P.on_touch(b, lambda t: (And(GE(t, 0), LT(t, n)), GE(b.raw(t), 0)))
    o.seq = Seq.base(b)
    P.fact(EQ(o.seq.sum_of(P, P.mx), old))


class Ropt(Contract):
    target = T + ':solve_tsp_ropt'
    props = ('C10', 'C01')
    also = {'C01': ('C10',)}
    summaries = {U + ':objf': summ_objf, MOD + ':do_2opt_move': summ_move('2opt'), MOD + ':do_3opt_move': summ_move('3opt')}
    externals = {'random.shuffle': summ_shuffle}

    def cases(self):
        for sh in (False, True):
            for o2 in (False, True):
                for o3 in (False, True): yield dict(shuffle=sh, do2opt=o2, do3opt=o3)

    def setup(self, P, case):
        P.D = mk_D(P, nonneg=True, zerodiag=True)
        P.b = b = mk_walk(P, 'nodes')
        P.r = E.HList(Seq.base(b))
        P.r0 = P.r.seq
        P.x = P.fresh('x', I)
        P.mx = count_measure(P.x)
        P.first, P.last = P.r0.at(P, 0), P.r0.at(P, sub(b.length, 1))
        # the length of the closed tour in the given order
        P.c0 = add(P.r0.cost(P, P.D), P.D.get(P, P.last, P.first))
        P.inputs = dict(nodes=b, D=P.D)
        return [P.D, P.r, case['shuffle'], case['do2opt'], case['do3opt']]

    def post(self, P, case, res):
        P.oblige('C10:selection-unmodified', E.same(P.r.seq, P.r0))
        if not (isinstance(res, tuple) and len(res) == 2 and isinstance(res[0], E.HList) and is_num(res[1])):
            P.oblige('C10:returns-tour-and-cost', False); return
        s, c = res[0].seq, res[1]
        n = s.length()
        P.oblige('C10:not-empty', GE(n, 1))
        P.oblige('C10:starts-at-first-node', EQ(s.at(P, 0), P.first))
        P.oblige('C10:ends-at-first-node', EQ(s.at(P, sub(n, 1)), P.first))
        P.oblige('C10:visits-the-selected-nodes', Implies(NE(P.x, P.first), EQ(s.sum_of(P, P.mx), P.r0.sum_of(P, P.mx))))
        # the node it starts from: once more than selected when the selection is not closed
        P.oblige('C10:visits-the-first-node', Implies(And(EQ(P.x, P.first), NE(P.last, P.first)),
                                                     EQ(s.sum_of(P, P.mx), add(P.r0.sum_of(P, P.mx), 1))))
        P.oblige('C10:cost-exact', EQ(c, s.cost(P, P.D)))
        if not case['shuffle']: P.oblige('C10:no-costlier-than-given-order', LE(c, P.c0))
        if case['do3opt']: P.oblige('C10:no-improving-3opt-move', listpred(P, '3opt', s))
        elif case['do2opt']: P.oblige('C10:no-improving-2opt-move', listpred(P, '2opt', s))

    def clauses(self, env):
        P = env.P
        for v, x in env.lists():
            sq = lambda env, v=v: env[v].seq
            yield E.Clause(v + ' ends', lambda env, sq=sq: And(GE(sq(env).length(), 1), EQ(sq(env).at(P, 0), P.first),
                                                               EQ(sq(env).at(P, sub(sq(env).length(), 1)), P.first)))
            e = env.lf.entry.get(v)
            if isinstance(e, E.HList):
                yield E.Clause(v + ' nodes', lambda env, sq=sq, e=e: EQ(sq(env).sum_of(P, P.mx), e.seq.sum_of(P, P.mx)))
                yield E.Clause(v + ' no costlier', lambda env, sq=sq, e=e: LE(sq(env).cost(P, P.D), e.seq.cost(P, P.D)))
            for w, y in env.numvars(mod_only=False):
                if env.isreal(w): yield E.Clause('%s cost of %s' % (w, v), lambda env, sq=sq, w=w: EQ(env[w], sq(env).cost(P, P.D)))
            for w in sorted(env.lf.names):
                if is_boolv(env.fr.vars.get(w, UNBOUND)):
                    for kind in ('2opt', '3opt'):
                        yield E.Clause('%s or %s %s' % (w, kind, v), lambda env, sq=sq, w=w, kind=kind: Or(env[w], listpred(P, kind, sq(env))))


class Ropt2(Ropt):
    target = T + ':solve_tsp_2opt'
    mode = dict(shuffle=False, do2opt=True, do3opt=False)

    def cases(self): yield self.mode
    def setup(self, P, case): return Ropt.setup(self, P, case)[:2]


class Ropt3(Ropt2):
    target = T + ':solve_tsp_3opt'
    mode = dict(shuffle=False, do2opt=False, do3opt=True)


ALL = [Ropt(), Ropt2(), Ropt3()]
