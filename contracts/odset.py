"""Contracts of util.OrderedDictSet (C22).

Abstract view of a set: the sequence S of its elements in insertion order (the keys of the dict `ods`).
Representation invariant: `keylist` is None or a list equal to S.  Python's dict (distinct keys, kept in insertion
order, deletion keeps the order of the others) is the trusted data type."""
import z3
from pyvc.values import *
from pyvc import engine as E
from pyvc.contract import Contract

U = 'verypy.util'
CLS = 'OrderedDictSet'


def sym_keys(P, name='S'):
    n = P.fresh(name + '.len', I)
    P.fact(n >= 0)
    b = P.fresh_base(name, ('int',), n)
    POS = z3.Function(name + '.pos', I, I)        # distinct: every element has one position
    P.on_touch(b, lambda t: (And(GE(t, 0), LT(t, n)), POS(b.raw(t)) == t))
    P.POS = POS
    return b


class OD(Contract):
    frame = False
    props = ('C22',)
    args = ('elem',)

    def cases(self): return [dict(keylist=k) for k in ('none', 'list')]

    def setup(self, P, case):
        P.b = b = sym_keys(P)
        P.x, P.g = P.fresh('x', I), P.fresh('g', I)
        P.m = count_measure(P.x)
        P.S = Seq.base(b)
        P.fact(LE(P.S.sum_of(P, P.m), 1))
        P.ods = E.HDict(P.S)
        P.kl = None
        if case['keylist'] == 'list':
            # another list with the same contents
            kb = P.fresh_base('keylist', ('int',), b.length)
            P.on_touch(kb, lambda t: (And(GE(t, 0), LT(t, b.length)), EQ(kb.raw(t), b.get(t))))
            P.kl = E.HList(Seq.base(kb))
        P.o = E.HObj(CLS, dict(ods=P.ods, keylist=P.kl))
        P.o.classref = P.interp.modval(E.Module.get(U), CLS)
        P.inputs = dict(keys=b)
        return [P.o] + self.more(P, case)

    def more(self, P, case): return []

    def coherent(self, P):
        f = P.o.fields
        if not isinstance(f.get('ods'), E.HDict): P.oblige('C22:elements-in-a-dict', False); return None
        S, k = f['ods'].seq, f.get('keylist', 0)
        if k is not None:
            if not isinstance(k, E.HList): P.oblige('C22:index-list', False); return S
            P.oblige('C22:index-list-length', EQ(k.seq.length(), S.length()))
            g = And(GE(P.g, 0), LT(P.g, S.length()))
            if P.branch(g): P.oblige('C22:index-list-agrees', EQ(k.seq.at(P, P.g), S.at(P, P.g)))
        P.oblige('C22:each-once', LE(S.sum_of(P, P.m), 1))
        return S

    def unchanged(self, P):
        S = self.coherent(P)
        P.oblige('C22:elements-unchanged', S is not None and E.same(S, P.S))


class ODAdd(OD):
    target = U + ':' + CLS + '.add'

    def more(self, P, case):
        P.e = P.fresh('e', I); return [P.e]

    def post(self, P, case, res):
        S = self.coherent(P)
        if S is None: return
        P.oblige('C22:returns-nothing', res is None)
        m = count_measure(P.e)
        had = GT(P.S.sum_of(P, m), 0)
        n = P.b.length
        P.oblige('C22:new-goes-last', Implies(Not(had), And(EQ(S.length(), add(n, 1)), EQ(S.at(P, sub(S.length(), 1)), P.e))))
        P.oblige('C22:present-keeps-its-place', Implies(had, EQ(S.length(), n)))
        if P.branch(And(GE(P.g, 0), LT(P.g, n))): P.oblige('C22:others-keep-their-place', EQ(S.at(P, P.g), P.b.get(P.g)))


class ODRemove(OD):
    target = U + ':' + CLS + '.remove'

    def more(self, P, case):
        P.e = P.fresh('e', I); return [P.e]

    def allow_raise(self, P, case, exc):
        P.oblige('C22:no-KeyError-for-a-member', Not(GT(P.S.sum_of(P, count_measure(P.e)), 0)))
        if exc.name == 'KeyError': self.unchanged(P)
        return exc.name == 'KeyError'

    def post(self, P, case, res):
        S = self.coherent(P)
        if S is None: return
        P.oblige('C22:KeyError-for-a-stranger', GT(P.S.sum_of(P, count_measure(P.e)), 0))
        P.oblige('C22:gone', EQ(S.sum_of(P, count_measure(P.e)), 0))
        P.oblige('C22:others-kept', Implies(NE(P.x, P.e), EQ(S.sum_of(P, P.m), P.S.sum_of(P, P.m))))
        if P.branch(And(GE(P.g, 0), LT(P.g, sub(S.length(), 1)))):
            P.oblige('C22:order-kept', LT(P.POS(S.at(P, P.g)), P.POS(S.at(P, add(P.g, 1)))))


class ODDiff(OD):
    target = U + ':' + CLS + '.difference_update'

    def cases(self): return [dict(c, collection=k) for c in super().cases() for k in ('another', 'the set itself')]

    def more(self, P, case):
        P.itself = case['collection'] == 'the set itself'
        if P.itself: P.c = P.b; return [P.o]
        n = P.fresh('collection.len', I)
        P.fact(n >= 0)
        P.c = P.fresh_base('collection', ('int',), n)
        P.coll = E.HList(Seq.base(P.c))
        return [P.coll]

    def post(self, P, case, res):
        S = self.coherent(P)
        if S is None: return
        if P.itself: P.oblige('C22:nothing-left', EQ(S.sum_of(P, P.m), 0)); return
        P.oblige('C22:argument-unmodified', E.same(P.coll.seq, Seq.base(P.c)))
        inc = GT(P.coll.seq.sum_of(P, P.m), 0)
        P.oblige('C22:listed-elements-gone', Implies(inc, EQ(S.sum_of(P, P.m), 0)))
        P.oblige('C22:others-kept', Implies(Not(inc), EQ(S.sum_of(P, P.m), P.S.sum_of(P, P.m))))
        if P.branch(And(GE(P.g, 0), LT(P.g, sub(S.length(), 1)))):
            P.oblige('C22:order-kept', LT(P.POS(S.at(P, P.g)), P.POS(S.at(P, add(P.g, 1)))))

    def clauses(self, env):
        P = env.P
        C = P.m.on_base(P, P.c)
        S0 = P.S.sum_of(P, P.m)
        def seq(env):
            f = P.o.fields
            if not isinstance(f.get('ods'), E.HDict): raise E.Missing('ods')
            return f['ods'].seq
        def mem(env):
            return EQ(seq(env).sum_of(P, P.m), Ite(GT(C.at(env.next), 0), 0, S0))
        yield E.Clause('C22 members', mem)
        def order(env):
            s = seq(env)
            n = s.length()
            bs = [p[1] for p in s.parts if p[0] == 's']
            return ('forall', lambda t: (And(GE(t, 0), LT(t, sub(n, 1))), LT(P.POS(s.at(P, t)), P.POS(s.at(P, add(t, 1))))), bs)
        yield E.Clause('C22 order', order)


class ODGet(OD):
    target = U + ':' + CLS + '.__getitem__'

    def more(self, P, case):
        P.i = P.fresh('i', I); return [P.i]

    def allow_raise(self, P, case, exc):
        n = P.b.length
        P.oblige('C22:IndexError-only-outside', Or(GE(P.i, n), LT(add(P.i, n), 0)))
        self.unchanged(P)
        return exc.name == 'IndexError'

    def post(self, P, case, res):
        n = P.b.length
        self.unchanged(P)
        P.oblige('C22:index-in-range', And(LT(P.i, n), GE(add(P.i, n), 0)))
        P.oblige('C22:indexing-in-insertion-order', EQ(res, P.S.at(P, Ite(LT(P.i, 0), add(P.i, n), P.i))))


class ODIter(OD):
    target = U + ':' + CLS + '.__iter__'

    def post(self, P, case, res):
        self.unchanged(P)
        s = P.interp.seq_of(res)
        P.oblige('C22:iterates-over-all', EQ(s.length(), P.b.length))
        if P.branch(And(GE(P.g, 0), LT(P.g, P.b.length))): P.oblige('C22:iterates-in-insertion-order', EQ(s.at(P, P.g), P.b.get(P.g)))


class ODLen(OD):
    target = U + ':' + CLS + '.__len__'

    def post(self, P, case, res):
        self.unchanged(P)
        P.oblige('C22:length', EQ(res, P.b.length))


class ODInit(OD):
    """the set made of a collection is dict.fromkeys(collection): each element once, in the order of first occurrence"""
    target = U + ':' + CLS + '.__init__'
    def fromkeys(I_, a, k):
        P = I_.P
        P.oblige('C22:made-of-the-collection', E.same(I_.seq_of(a[0]), Seq.base(P.c)) and (len(a) < 2 or a[1] is None))
        P.ods = E.HDict(P.S)
        return P.ods
    externals = {'dict.fromkeys': fromkeys}

    def cases(self): return [dict(keylist='none', given=g) for g in (True, False)]

    def more(self, P, case):
        P.o.fields = {}
        n = P.fresh('collection.len', I)
        P.fact(n >= 0)
        P.c = P.fresh_base('collection', ('int',), n)
        P.fact(And(LE(P.b.length, n), EQ(n == 0, P.b.length == 0)))
        P.coll = E.HList(Seq.base(P.c)) if case['given'] else None
        P.ods = None
        return [P.coll]

    def post(self, P, case, res):
        f = P.o.fields
        S = self.coherent(P)
        if S is None: return
        if P.ods is not None: P.oblige('C22:elements-of-the-collection', f['ods'] is P.ods and E.same(S, P.S))
        else: P.oblige('C22:empty', And(EQ(S.length(), 0), True if not case['given'] else EQ(P.c.length, 0)))
        if case['given']: P.oblige('C22:argument-unmodified', E.same(P.coll.seq, Seq.base(P.c)))


ALL = [ODInit(), ODAdd(), ODRemove(), ODDiff(), ODGet(), ODIter(), ODLen()]
