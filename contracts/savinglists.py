"""Contracts of the savings criteria (C15): every unordered pair of customers once, with its value, best first."""
from fractions import Fraction
import z3
from pyvc.values import *
from pyvc import engine as E
from pyvc.contract import Contract
from .intra import mk_D

H = 'verypy.classic_heuristics.'


def pair_measure(x, y):
    """1 for an entry about the pair x<y"""
    return Measure(('pair', tz(x).sexpr(), tz(y).sexpr()),
                   lambda P, v: 0 if v is None else Ite(And(EQ(v[2], x), EQ(v[3], y)), 1, 0), True, I)


def cw(P, i, j): return sub(add(P.D.get(P, i, 0), P.D.get(P, 0, j)), P.D.get(P, i, j))
def absdiff(P, i, j):
    a = sub(P.D.get(P, i, 0), P.D.get(P, 0, j))
    return Ite(GE(a, 0), a, sub(0, a))
def absdiff0(P, i, j):
    a = sub(P.D.get(P, 0, i), P.D.get(P, 0, j))
    return Ite(GE(a, 0), a, sub(0, a))


class SavingsList(Contract):
    props = ('C15', 'C01', 'C02', 'C03')      # the latter three: callee contract of ParallelSavings
    last_write = False
    extra = ()

    def value(self, P, i, j): raise NotImplementedError

    def setup(self, P, case):
        P.N = N = P.fresh('N', I)
        P.fact(N >= 2)
        P.n = n = z3.simplify(N - 1)
        P.D = mk_D(P, nonneg=False, zerodiag=False, size=N)
        P.x, P.y = P.fresh('x', I), P.fresh('y', I)
        P.fact(And(P.x >= 1, P.x < P.y, P.y < N))
        P.pair = pair_measure(P.x, P.y)
        # lemma: a product of consecutive integers is even
        P.half = P.fresh('half', I)
        P.fact(And(n * n - n == 2 * P.half, P.half >= 0))
        P.inputs = dict(N=N)
        args = dict(D=P.D)
        for nm in self.extra: args[nm] = P.fresh(nm, R)
        P.args = args
        return args

    def entry_ok(self, P, e, i=None):
        if e is None: return False
        return And(GE(e[2], 1), LT(e[2], e[3]), LT(e[3], P.N), EQ(e[0], self.value(P, e[2], e[3])), EQ(e[1], sub(0, P.D.get(P, e[2], e[3]))))

    def post(self, P, case, res):
        if not isinstance(res, E.HList): P.oblige('C15:returns-a-list', False); return
        s = res.seq
        a, b = P.fresh('a', I), P.fresh('b', I)
        for q in s.parts:
            if q[0] == 's': q[1].touch(a); q[1].touch(b)
        n = s.length()
        P.oblige('C15:each-pair-exactly-once', EQ(s.sum_of(P, P.pair), 1))
        t = Tab(P, s)
        P.oblige('entries-are-pairs-of-customers', Implies(And(GE(a, 0), LT(a, n)), t.pick(a, lambda v: False if v is None else And(GE(v[2], 1), LT(v[2], v[3]), LT(v[3], P.N)))))
        P.oblige('C15:value-by-definition', Implies(And(GE(a, 0), LT(a, n)), t.pick(a, lambda v: self.entry_ok(P, v))))
        ordered = t.pick(a, lambda v: t.pick(b, lambda w: False if v is None or w is None else GE(v[0], w[0])))
        P.oblige('C15:decreasing-savings', Implies(And(GE(a, 0), LE(a, b), LT(b, n)), ordered))

    def zero(self, P, env, v):
        """nothing recorded yet: the sum of zeros (lemma: a sum with only zero terms is zero)"""
        for q in env[v].seq.parts:
            if q[0] == 's' and q[1].eshape == ('none',):
                S = P.pair.on_base(P, q[1])
                P.fact(EQ(S.at(q[3]) - S.at(q[2]), 0))

    def clauses(self, env):
        P = env.P
        n, x, y = P.n, P.x, P.y
        ks = env.nexts()
        if len(ks) == 1:
            k = ks[0]
            done = lambda i, j: LE(i, k)
            total = sub(sub(mul(2, mul(k, n)), mul(k, k)), k)
            P.fact(tz((n - k - 1) * (n - k - 2) >= 0))          # lemma: consecutive integers
        elif len(ks) == 2:
            k, kk = ks
            i0 = add(k, 1)
            done = lambda i, j: Or(LT(i, i0), And(EQ(i, i0), LE(j, add(i0, kk))))
            total = add(sub(sub(mul(2, mul(k, n)), mul(k, k)), k), mul(2, kk))
            P.fact(tz((n - k - 1) * (n - k - 2) >= 0))
        else: return
        ints = [v for v, x_ in env.numvars() if not (is_z(x_) and z3.is_real(x_)) and not isinstance(x_, Fraction)]
        for v in ints:
            yield E.Clause('2*%s=entries' % v, lambda env, v=v: EQ(mul(2, env[v]), total))
        for v, l in env.lists(mod_only=False):
            yield E.Clause('len(%s)=pairs' % v, lambda env, v=v: EQ(env[v].seq.length(), P.half))
            def count(env, v=v):
                self.zero(P, env, v)
                for q in env[v].seq.parts:
                    if q[0] == 's': q[1].touch(q[3])
                return EQ(env[v].seq.sum_of(P, P.pair), Ite(done(x, y), 1, 0))
            yield E.Clause('pair(%s)' % v, count)
            for w in ints:
                def valid(env, v=v, w=w):
                    s, m = env.seq(v), env[w]
                    f = lambda t: (And(GE(t, 0), LT(t, m)), Tab(P, s).pick(t, lambda e: self.entry_ok(P, e)))
                    return ('forall', f, [q[1] for q in s.parts if q[0] == 's'])
                def unset(env, v=v, w=w):
                    s, m = env.seq(v), env[w]
                    n_ = s.length()
                    return ('forall', lambda t: (And(GE(t, m), LT(t, n_)), Tab(P, s).isnone(t)), [q[1] for q in s.parts if q[0] == 's'])
                yield E.Clause('%s unset from %s' % (v, w), unset)
                yield E.Clause('%s valid below %s' % (v, w), valid)


class ClarkeWright(SavingsList):
    target = H + 'parallel_savings:clarke_wright_savings_function'
    def value(self, P, i, j): return cw(P, i, j)


class GaskellPi(SavingsList):
    target = H + 'gaskell_savings:gaskell_pi_savings_function'
    def value(self, P, i, j): return sub(add(P.D.get(P, i, 0), P.D.get(P, 0, j)), mul(2, P.D.get(P, i, j)))


class GaskellLambda(SavingsList):
    target = H + 'gaskell_savings:gaskell_lambda_savings_function'
    externals = {'numpy.average': lambda I_, a, k: I_.P.avg_of(a)}
    def setup(self, P, case):
        r = SavingsList.setup(self, P, case)
        P.avg = P.fresh('avg', R)
        def avg_of(a):
            P.oblige('C15:average-of-the-distances', len(a) == 1 and a[0] is P.D)
            return P.avg
        P.avg_of = avg_of
        return r
    def value(self, P, i, j): return mul(cw(P, i, j), sub(add(P.avg, absdiff0(P, i, j)), P.D.get(P, i, j)))


class Paessens(SavingsList):
    target = H + 'paessens_savings:paessens_savings_function'
    extra = ('g_multiplier', 'f_multiplier')
    def value(self, P, i, j):
        g, f = P.args['g_multiplier'], P.args['f_multiplier']
        return add(sub(add(P.D.get(P, i, 0), P.D.get(P, 0, j)), mul(g, P.D.get(P, i, j))), mul(f, absdiff(P, i, j)))


class Suppression(SavingsList):
    mutates = ('savings_cache',)
    """Holmes & Parker: the value is max(0, saving), or 0 for a suppressed pair; the best remaining pair becomes suppressed.
    A cache that is given holds every pair once already, and not every pair is suppressed yet."""
    target = H + 'suppression_savings:supression_savings_function'

    def cases(self):
        for cache in ('none', 'empty', 'reused'): yield dict(cache=cache)

    def setup(self, P, case):
        SavingsList.setup(self, P, case)
        P.mem0 = z3.Function('suppressed', I, I, B)
        P.set = E.SSet(lambda v: P.mem0(tz(v[0]), tz(v[1])))
        if case['cache'] == 'none': P.cache = None
        elif case['cache'] == 'empty': P.cache = E.HList(Seq())
        else:
            b = P.fresh_base('cache', ('tuple', (('real',), ('real',), ('int',), ('int',))), P.half)
            P.fact(P.half > 0)
            s = Seq.base(b)
            def known(t):
                x = b.raw(t)
                o = [Implies(And(GE(u, 0), LE(u, t)), GE(b.raw(u)[0], x[0])) for u in b.touched if not u.eq(t)]
                o += [Implies(And(LT(u, P.half), LE(t, u)), GE(x[0], b.raw(u)[0])) for u in b.touched if not u.eq(t)]
                return And(GE(t, 0), LT(t, P.half)), And(self.entry_ok(P, x), *o)
            P.on_touch(b, known)
            P.fact(EQ(s.sum_of(P, P.pair), 1))
            P.w = P.fresh('w', I)
            P.fact(And(P.w >= 0, P.w < P.half))
            P.b = b
            P.triggers.append(b)
            e = b.get(P.w)
            P.fact(tz(Not(P.set.fn((e[2], e[3])))))
            P.cache = E.HList(s)
        return dict(D=P.D, suppressed=P.set, savings_cache=P.cache)

    def entry_ok(self, P, e, i=None):
        if e is None: return False
        c = cw(P, e[2], e[3])
        return And(GE(e[2], 1), LT(e[2], e[3]), LT(e[3], P.N), EQ(e[1], sub(0, P.D.get(P, e[2], e[3]))),
                   Or(EQ(e[0], Ite(GE(c, 0), c, 0)), And(EQ(e[0], 0), P.set.fn((e[2], e[3])))))

    def clauses(self, env):
        P = env.P
        if P.proof.case['cache'] != 'reused':
            yield from SavingsList.clauses(self, env)
            return
        ints = [v for v, x_ in env.numvars() if not (is_z(x_) and z3.is_real(x_)) and not isinstance(x_, Fraction)]
        for v in ints:
            for w, x_ in sorted(env.fr.vars.items()):
                if is_boolv(x_): yield E.Clause('%s or %s=0' % (w, v), lambda env, v=v, w=w: Or(env[w], EQ(env[v], 0)))
        for v in ints: yield E.Clause('%s<=w' % v, lambda env, v=v: And(GE(env[v], 0), LE(env[v], P.w)))
        for v, l in env.lists(mod_only=False):
            yield E.Clause('len(%s)=pairs' % v, lambda env, v=v: EQ(env[v].seq.length(), P.half))
            def count(env, v=v):
                for q in env[v].seq.parts:
                    if q[0] == 's': q[1].touch(q[3])
                return EQ(env[v].seq.sum_of(P, P.pair), 1)
            yield E.Clause('pair(%s)' % v, count)
            def valid(env, v=v):
                s = env.seq(v)
                return ('forall', lambda t: (And(GE(t, 0), LT(t, P.half)), Tab(P, s).pick(t, lambda e: self.entry_ok(P, e))), [q[1] for q in s.parts if q[0] == 's'])
            yield E.Clause('%s valid' % v, valid)
            for w in ints:
                def rest(env, v=v, w=w):
                    s, m = env.seq(v), env[w]
                    def f(t):
                        P.b.touch(t)
                        return And(GE(t, m), LT(t, P.half)), Tab(P, s).pick(t, lambda e: False if e is None else And(*[EQ(p, q) for p, q in zip(e, P.b.raw(t))]))
                    return ('forall', f, [q[1] for q in s.parts if q[0] == 's'])
                yield E.Clause('%s unchanged from %s' % (v, w), rest)

    def post(self, P, case, res):
        if case['cache'] != 'none': P.oblige('C15:the-cache-is-returned', res is P.cache)
        SavingsList.post(self, P, case, res)
        x, y = P.fresh('px', I), P.fresh('py', I)
        P.oblige('C15:suppressed-stay-suppressed', Implies(P.mem0(x, y), P.set.fn((x, y))))
        s = res.seq
        if isinstance(s.length(), int) and s.length() == 0: return
        top = Tab(P, s).pick(z3.IntVal(0), lambda e: False if e is None else P.set.fn((e[2], e[3])))
        P.oblige('C15:best-pair-becomes-suppressed', Implies(GT(s.length(), 0), top))


ALL = [Suppression(), ClarkeWright(), GaskellPi(), GaskellLambda(), Paessens()]
