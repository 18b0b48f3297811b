"""Contracts of the heuristics that try several savings criteria (C01, C02, C03 of the result; C14: the best trial wins)."""
from fractions import Fraction
import z3
from pyvc.values import *
from pyvc import engine as E
from pyvc.contract import Contract
from .intra import mk_D
from .objective import U, summ_objf
from .tsp import listpred
from .savings import PS
from .savinglists import H

KINDS = ('complete', 'within-capacity', 'within-cost')


def good(P, seq): return And(*[listpred(P, k, seq) for k in KINDS])


def trial_no(P):
    """how many trials were started before this one: the iterations of the outermost loop"""
    return P.loopstack[0].next if P.loopstack else P.__dict__.setdefault('calls', 0)


def new_solution(P, name):
    b = P.fresh_base(name, ('int',), P.fresh(name + '.len', I))
    P.fact(b.length >= 2)
    s = E.HList(Seq.base(b))
    P.fact(tz(good(P, s.seq)))
    return s


def record(P, sol):
    """the ghost trial: an arbitrary one of all trials"""
    no = trial_no(P)
    f, K = sol.seq.cost(P, P.D), sub(sol.seq.sum_of(P, P.m0), 1)
    P.fact(Implies(EQ(P.g, no), And(EQ(P.Gf, f), EQ(P.GK, K))))
    if not P.loopstack: P.calls = P.calls + 1


def summ_savings(interp, args):
    """parallel_savings_init (contracts/savings.py): a complete solution within the limits, for a callback that gives a
    proper savings list of the distances"""
    P = interp.P
    P.oblige('trial-of-the-given-instance', args['D'] is P.D and args['d'] is P.d and args['C'] is P.C and args['L'] is P.L
             and args['minimize_K'] is P.mk)
    r = interp.call(args['savings_callback'], [P.D], {})
    P.oblige('trial-with-a-savings-list', r is P.savings)
    s = new_solution(P, 'sol')
    if not P.improved: record(P, s)
    return s


def summ_list(interp, args):
    """a savings criterion (contracts/savinglists.py)"""
    P = interp.P
    P.oblige('savings-of-the-distances', args['D'] is P.D)
    return P.savings


def pairs(P):
    """twice the number of pairs of customers"""
    return z3.simplify((P.N - 1) * (P.N - 1) - (P.N - 1))


def summ_cached(interp, args):
    """supression_savings_function: needs an empty cache, or its own from an earlier call while some pair is not suppressed"""
    P = interp.P
    c = args['savings_cache']
    no = trial_no(P)
    pairs_ = pairs(P)
    P.oblige('savings-of-the-distances', args['D'] is P.D and isinstance(c, E.HList))
    P.oblige('C01:cache-precondition', Or(EQ(c.seq.length(), 0), And(listpred(P, 'cache', c.seq), LT(2 * tz(no), pairs_))))
    b = P.fresh_base('cache', ('tuple', (('real',), ('real',), ('int',), ('int',))), P.fresh('cache.len', I))
    P.fact(2 * b.length == pairs_)
    P.fact(b.length >= 0)
    c.seq = Seq.base(b)
    P.fact(listpred(P, 'cache', c.seq))
    return P.savings


def summ_ls(interp, args):
    """do_local_search on a complete solution within the limits (C08): one that is, too"""
    P = interp.P
    P.oblige('C01:local-search-precondition', isinstance(args['sol'], E.HList) and args['D'] is P.D and args['d'] is P.d
             and args['C'] is P.C and args['L'] is P.L)
    P.oblige('C01:local-search-precondition', good(P, args['sol'].seq))
    return new_solution(P, 'improved')


def summ_trim(interp, args):
    """without_empty_routes keeps the routes"""
    P = interp.P
    P.oblige('C01:solution-with-routes', isinstance(args['sol'], E.HList))
    P.oblige('C01:solution-with-routes', good(P, args['sol'].seq))
    s = new_solution(P, 'trimmed')
    record(P, s)
    return s


class Driver(Contract):
    props = ('C01', 'C02', 'C03', 'C14')
    last_write = False
    improved = False
    summaries = {U + ':objf': summ_objf, PS + ':parallel_savings_init': summ_savings}

    def setup(self, P, case):
        P.N = N = P.fresh('N', I)
        P.fact(N >= 2)
        P.D = mk_D(P, nonneg=True, zerodiag=True, size=N)
        P.d = Vec('d', length=N)
        P.C, P.L, P.mk = P.fresh('C', R), P.fresh('L', R), P.fresh('minimize_K', B)
        P.m0 = count_measure(z3.IntVal(0))
        P.g, P.Gf, P.GK = P.fresh('g', I), P.fresh('Gf', R), P.fresh('GK', I)
        P.fact(P.g >= 0)
        P.calls = 0
        P.savings = E.HList(Seq())
        P.improved = self.improved
        P.inputs = dict(N=N, g=P.g)
        return dict(D=P.D, d=P.d, C=P.C, L=P.L, minimize_K=P.mk, **self.args(P, case))

    def args(self, P, case): return {}

    def better(self, P, f, K, bf, bK): return Or(And(P.mk, Or(LT(K, bK), And(EQ(K, bK), LT(f, bf)))), And(Not(P.mk), LT(f, bf)))

    def post(self, P, case, res):
        if not isinstance(res, E.HList):
            P.oblige('C01:returns-a-solution', False); return
        for pid, k in zip(('C01', 'C02', 'C03'), KINDS): P.oblige('%s:%s' % (pid, k), listpred(P, k, res.seq))
        f, K = res.seq.cost(P, P.D), sub(res.seq.sum_of(P, P.m0), 1)
        P.oblige('C14:no-trial-is-better', Implies(LT(P.g, self.trials(P)), Not(self.better(P, P.Gf, P.GK, f, K))))

    def trials(self, P): return P.calls

    def clauses(self, env):
        P = env.P
        lists = [v for v, x in env.lists() if E.shape_of(x)[1] == ('int',)]
        reals = [v for v, x in env.numvars() if is_z(x) and z3.is_real(x)]
        ints = [v for v, x in env.numvars() if isinstance(x, int) or (is_z(x) and z3.is_int(x))]
        for v in lists:
            yield E.Clause('good(%s)' % v, lambda env, v=v: good(P, env[v].seq))
            for w in reals: yield E.Clause('%s=cost(%s)' % (w, v), lambda env, v=v, w=w: EQ(env[w], env[v].seq.cost(P, P.D)))
            for w in ints: yield E.Clause('%s=routes(%s)' % (w, v), lambda env, v=v, w=w: EQ(env[w], sub(env[v].seq.sum_of(P, P.m0), 1)))
        for w in reals:
            for u in ints:
                yield E.Clause('C14 %s,%s best' % (w, u), lambda env, w=w, u=u: Implies(LT(P.g, env.next), Not(self.better(P, P.Gf, P.GK, env[w], env[u]))))
        for v in sorted(env.lf.info.mod):
            if env.fr.vars.get(v, UNBOUND) is None: yield E.Clause('%s none at first' % v, lambda env: EQ(env.next, 0))
        nones = [v for v in sorted(env.lf.info.mod) if v in env.lf.entry and env.lf.entry[v] is None]
        for a in nones:
            for b in nones:
                if a < b: yield E.Clause('%s none iff %s none' % (a, b), lambda env, a=a, b=b: (env[a] is None) == (env[b] is None))
        for u in ints: yield E.Clause('%s counts' % u, lambda env, u=u: EQ(env[u], env.next))
        caches = [v for v, x in env.lists(mod_only=False) if (E.shape_of(x)[1] or ('tuple',))[0] == 'tuple']
        for v, x in env.lists(mod_only=False): yield E.Clause('len(%s)>=1' % v, lambda env, v=v: GE(env[v].seq.length(), 1))
        for v in caches:
            yield E.Clause('cache %s' % v, lambda env, v=v: Or(And(EQ(env.next, 0), EQ(env[v].seq.length(), 0)),
                                                                            And(listpred(P, 'cache', env[v].seq), EQ(mul(2, env[v].seq.length()), pairs(P)))))


class Gaskell(Driver):
    target = H + 'gaskell_savings:gaskell_savings_init'
    summaries = dict(Driver.summaries, **{H + 'gaskell_savings:gaskell_lambda_savings_function': summ_list,
                                          H + 'gaskell_savings:gaskell_pi_savings_function': summ_list})

    def cases(self):
        for m in ('both', 'lambda', 'pi'): yield dict(savings_method=m)

    def args(self, P, case): return dict(savings_method=case['savings_method'])

    def post(self, P, case, res):
        P.oblige('C14:every-criterion-tried', P.calls == (2 if case['savings_method'] == 'both' else 1))
        Driver.post(self, P, case, res)


class SuppressionInit(Driver):
    target = H + 'suppression_savings:suppression_savings_init'
    summaries = dict(Driver.summaries, **{H + 'suppression_savings:supression_savings_function': summ_cached})

    def cases(self):
        yield dict(Lprime='auto')
        yield dict(Lprime='given')

    def args(self, P, case):
        P.Lp = P.fresh('Lprime', I)
        return dict(Lprime='auto' if case['Lprime'] == 'auto' else P.Lp)

    def trials(self, P): return P.lastcount


class Paessens(Driver):
    target = H + 'paessens_savings:paessens_savings_init'
    improved = True
    summaries = dict(Driver.summaries, **{H + 'paessens_savings:paessens_savings_function': summ_list,
                                          'verypy.local_search:do_local_search': summ_ls,
                                          'verypy.util:without_empty_routes': summ_trim})

    def cases(self):
        for s in ('M4', 'given'):
            for o in (True, False): yield dict(strategy=s, do_3opt=o)

    def args(self, P, case):
        s = 'M4'
        if case['strategy'] == 'given':
            b = P.fresh_base('params', ('tuple', (('real',), ('real',))), P.fresh('params.len', I))
            P.fact(b.length >= 1)
            s = E.HList(Seq.base(b))
        return dict(strategy=s, do_3opt=case['do_3opt'])

    def trials(self, P): return P.lastcount


ALL = [Paessens(), Gaskell(), SuppressionInit()]
