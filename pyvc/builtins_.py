"""Built-in functions, methods of built-in types and the few library functions the verified code uses."""
import itertools
from fractions import Fraction
import z3
from .values import *
from .values import _m
from . import engine as E
from .engine import Native, HList, HObj, HDict, CDict, CSet, View, TypeRef, PyRaise, External, ClassRef

NATIVES, EXT = {}, {}


def nat(name, *ext):
    def deco(f):
        n = Native(name, f)
        NATIVES[name] = n
        for e in ext: EXT[e] = n
        return f
    return deco


def ext(name):
    def deco(f):
        EXT[name] = Native(name, f); return f
    return deco


@nat('len')
def _len(I_, a, k):
    v = a[0]
    if isinstance(v, (tuple, str)): return len(v)
    if isinstance(v, (HList, HDict)): return v.seq.length()
    if isinstance(v, CDict): return len(v.d)
    if isinstance(v, CSet): return len(v.s)
    if isinstance(v, View): return v.length
    if type(v).__name__ == 'HArr': return v.n
    if isinstance(v, Mat):
        if v.size is None: raise Unsupported('len of an unsized matrix')
        return v.size
    if isinstance(v, Vec):
        if v.length is None: raise Unsupported('len of an unsized vector')
        return v.length
    if isinstance(v, HObj):
        f = I_.classattr(I_.classref_of(v), '__len__')
        return I_.call_func(f, [v], {})
    if v is None: raise PyRaise('TypeError', 'len(None)')
    raise Unsupported('len of %s' % type(v).__name__)


@nat('range')
def _range(I_, a, k):
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if not isinstance(st, int) or st == 0: raise Unsupported('range step')
    d = sub(hi, lo) if st > 0 else sub(lo, hi)
    s = abs(st)
    if isinstance(d, int): n = max(0, -(-d // s))
    else:
        if s != 1: raise Unsupported('symbolic range with a step')
        n = d if I_.P.branch(GE(d, 0)) else 0
    v = View(n, lambda t: add(lo, mul(st, t)))
    v.rng = (lo, st)
    return v


def watched(l, *os):
    """a list that stands for a live view of os: iterating over it must not see them change"""
    l.watch = os
    return l


@nat('enumerate')
def _enumerate(I_, a, k):
    v = I_.view(a[0])
    st = a[1] if len(a) > 1 else k.get('start', 0)
    return View(v.length, lambda t: (add(t, st), v.at(t)), v.src, v.watch)


@nat('zip')
def _zip(I_, a, k):
    vs = [I_.view(x) for x in a]
    n = vs[0].length
    for v in vs[1:]:
        if EQ(n, v.length) is True: continue
        n = n if I_.P.branch(LE(n, v.length)) else v.length
    return View(n, lambda t: tuple(v.at(t) for v in vs), None, [w for v in vs for w in v.watch])


@nat('list')
def _list(I_, a, k):
    if not a: return HList(Seq())
    from .interp import GenView
    if isinstance(a[0], GenView): return HList(a[0].as_seq())
    if isinstance(a[0], View):
        v = a[0]
        if isinstance(v.length, int): return HList(Seq.of([v.at(i) for i in range(v.length)]))
        return HList(I_.seq_of(v))
    if isinstance(a[0], HObj): return _list(I_, [I_.iter_obj(a[0])], {})
    return HList(I_.seq_of(a[0]))


@nat('tuple')
def _tuple(I_, a, k):
    if not a: return ()
    l = I_.tolist(a[0])
    if l is None: raise Unsupported('tuple of a symbolic sequence')
    return tuple(l)


def ones_lemma(P, b, lo, hi, s):
    """b[lo..hi) sums to s: when s is not the number of elements, some element is not 1; unless some element exceeds 1,
    s is at most the number of elements and equals it only when every element is 1 (inductions: pyvc/lemmas.py)"""
    n = sub(hi, lo)
    w1, w2 = P.fresh('w', I), P.fresh('w', I)
    inr = lambda t: And(GE(t, lo), LT(t, hi))
    P.fact(Implies(And(GT(n, 0), NE(s, n)), And(inr(w1), NE(b.get(w1), 1))))
    over = And(inr(w2), GT(b.get(w2), 1))
    P.fact(Or(LE(n, 0), over, LE(s, n)))
    P.on_touch(b, lambda t: (And(inr(t), EQ(s, n)), Or(over, EQ(b.raw(t), 1))))


@nat('sum', 'numpy.sum')
def _sum(I_, a, k):
    from .interp import GenView
    v = a[0]
    st = a[1] if len(a) > 1 else 0
    if isinstance(v, GenView): return add(st, v.sum())
    l = I_.tolist(v) if not isinstance(v, HList) or v.seq.concrete() is not None else None
    if l is None:
        if isinstance(v, HList):
            tot = st
            for p in v.seq.parts:
                if p[0] == 'e': tot = add(tot, p[1]); continue
                b = p[1]
                S = b.rsum('self', lambda t, b=b: b.raw(t), False, R if b.eshape == ('real',) else I)
                ps = S.over(p[2], p[3])
                if b.eshape == ('int',): ones_lemma(I_.P, b, p[2], p[3], ps)
                tot = add(tot, ps)
            return tot
        if isinstance(v, View) and v.src is None:
            t = I_.P.fresh('sk', E.I)
        raise Unsupported('sum of %s' % type(v).__name__)
    tot = st
    for x in l: tot = I_.binop(__import__('ast').Add(), tot, x)
    return tot


def _minmax(I_, a, k, less):
    if 'key' in k or 'default' in k: raise Unsupported('min/max with key')
    l = list(a) if len(a) > 1 else I_.tolist(a[0])
    if l is None: raise Unsupported('min/max of a symbolic sequence')
    if not l: raise PyRaise('ValueError', 'empty')
    r = l[0]
    for x in l[1:]:
        if is_num(x) and is_num(r):
            r = Ite(LT(x, r) if less else GT(x, r), x, r)
        else:
            c = I_.compare(__import__('ast').Lt(), x, r) if less else I_.compare(__import__('ast').Gt(), x, r)
            if I_.P.branch(c): r = x
    return r


@nat('min')
def _min(I_, a, k): return _minmax(I_, a, k, True)
@nat('max')
def _max(I_, a, k): return _minmax(I_, a, k, False)


@nat('abs')
def _abs(I_, a, k):
    return Ite(GE(a[0], 0), a[0], sub(0, a[0]))


@nat('float', 'numpy.float64')
def _float(I_, a, k):
    v = a[0]
    if isinstance(v, str):
        if v.lower() in ('inf', 'infinity', '+inf'): return INF
        if v.lower() == '-inf': return Inf(True)
        raise Unsupported('float(str)')
    if isinstance(v, int): return Fraction(v)
    if is_num(v): return fold(z3.simplify(treal(v))) if is_z(v) else v
    if isinstance(v, Inf): return v
    raise Unsupported('float')


@nat('int')
def _int(I_, a, k):
    v = a[0]
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if isinstance(v, Fraction): return int(v)
    if is_z(v) and z3.is_int(v): return v
    if is_z(v) and z3.is_real(v):
        return Ite(GE(v, 0), z3.ToInt(v), sub(0, z3.ToInt(-v)))
    if is_boolv(v): return tint(v)
    raise Unsupported('int()')


@nat('bool')
def _bool(I_, a, k): return I_.cond(a[0])


@nat('isinstance')
def _isinstance(I_, a, k):
    v, t = a
    ts = t if isinstance(t, tuple) else (t,)
    for t in ts:
        if isinstance(t, ClassRef):
            if isinstance(v, HObj) and v.cls == t.name: return True
        elif isinstance(t, (TypeRef, Native)):
            n = t.name
            if n == typename(v): return True
            if n == 'int' and typename(v) == 'bool': return True
        else: raise Unsupported('isinstance of %r' % (t,))
    return False


def typename(v):
    if v is None: return 'NoneType'
    if is_boolv(v): return 'bool'
    if isinstance(v, int) or (is_z(v) and z3.is_int(v)): return 'int'
    if isinstance(v, (Fraction, Inf)) or (is_z(v) and z3.is_real(v)): return 'float'
    if isinstance(v, str): return 'str'
    if isinstance(v, tuple): return 'tuple'
    if isinstance(v, HList): return 'list'
    if isinstance(v, (HDict, CDict)): return 'dict'
    if isinstance(v, CSet): return 'set'
    if isinstance(v, HObj): return v.cls
    return type(v).__name__


@nat('type')
def _type(I_, a, k): return TypeRef(typename(a[0]))


@nat('hasattr')
def _hasattr(I_, a, k):
    v, n = a
    if n in ('__iter__', '__len__'):
        if isinstance(v, (HList, tuple, HDict, CDict, CSet, str)): return True
        if is_num(v) or is_boolv(v) or v is None: return False
    if isinstance(v, HObj): return n in v.fields or I_.classattr(I_.classref_of(v), n, UNBOUND) is not UNBOUND
    raise Unsupported('hasattr')


@nat('any')
def _any(I_, a, k):
    l = I_.tolist(a[0])
    if l is None: raise Unsupported('any of a symbolic sequence')
    return Or(*[I_.cond(x) for x in l])


@nat('all')
def _all(I_, a, k):
    l = I_.tolist(a[0])
    if l is None: raise Unsupported('all of a symbolic sequence')
    return And(*[I_.cond(x) for x in l])


@nat('reversed')
def _reversed(I_, a, k):
    v = a[0]
    if isinstance(v, HList): return watched(HList(v.seq.reversed()), v)
    if isinstance(v, tuple): return v[::-1]
    if isinstance(v, View): return View(v.length, lambda t: v.at(sub(sub(v.length, 1), t)), None, v.watch)
    raise Unsupported('reversed')


@nat('set')
def _set(I_, a, k):
    if not a: return E.SSet(lambda v: False) if I_.P.proof.contract.symbolic_sets else CSet()
    if isinstance(a[0], CSet): return CSet(a[0].s)
    if isinstance(a[0], E.SSet): return E.SSet(a[0].fn)
    r = getattr(a[0], 'rng', None)
    if r is not None and r[1] == 1:
        lo, hi = r[0], add(r[0], a[0].length)
        return E.SSet(lambda v: And(GE(v, lo), LT(v, hi)))
    s = I_.seq_of(a[0])
    c = s.concrete()
    if c is not None and not all(isinstance(v, int) for v in c): return E.SSet(lambda v: Or(*[I_.eq(v, x) for x in c])) if all(isinstance(v, tuple) for v in c) else _symset(I_, s)
    return _symset(I_, s)


def _symset(I_, s):
    fn = lambda v: I_.contains(HList(s), v)
    fn.seq = s
    return E.SSet(fn)


@nat('iter')
def _iter(I_, a, k):
    v = I_.view(a[0])
    return v


@nat('sorted')
def _sorted(I_, a, k):
    l = I_.tolist(a[0])
    if l is None or k or len(l) > 4: raise Unsupported('sorted')
    out = []
    for x in l:
        for i, y in enumerate(out):
            if I_.P.branch(I_.compare(__import__('ast').Lt(), x, y)):
                out.insert(i, x); break
        else: out.append(x)
    return HList(Seq.of(out))


NATIVES['print'] = Native('print', lambda I_, a, k: None)
EXT['logging.log'] = Native('log', lambda I_, a, k: None)
EXT['logging.DEBUG'] = 10
EXT['sys.stderr'] = External('sys.stderr')
class _VI: pass
EXT['sys.version_info'] = (3, 12, 0)
EXT['numpy.inf'] = INF
def _namedtuple(I_, a, k):
    fields = a[1] if not isinstance(a[1], HList) else a[1].seq.concrete()
    if isinstance(fields, str): fields = fields.replace(',', ' ').split()
    def make(I_, b, kk):
        if len(b) + len(kk) != len(fields): raise PyRaise('TypeError', a[0])
        return HObj('namedtuple ' + a[0], {**dict(zip(fields, b)), **kk})
    return Native(a[0], make)
EXT['collections.namedtuple'] = Native('namedtuple', _namedtuple)
EXT['collections.deque'] = Native('deque', lambda I_, a, k: HList(I_.seq_of(a[0])) if a else HList(Seq()))
for _n in ('object',): NATIVES[_n] = TypeRef(_n)


@nat('str')
def _str(I_, a, k): return '<str>'


# ------------------------------------------------------------------ methods
def _append(I_, o, a, k): o.seq = o.seq.concat(Seq.of([a[0]]))
def _extend(I_, o, a, k): o.seq = o.seq.concat(I_.seq_of(a[0]))
def _reverse(I_, o, a, k): o.seq = o.seq.reversed()
def _copy(I_, o, a, k): return HList(o.seq)


def _pop(I_, o, a, k):
    i = a[0] if a else -1
    n = o.seq.length()
    p = I_.norm(i, n)
    v = o.seq.at(I_.P, p)
    f, r = o.seq.split(I_.P, p)
    _, r2 = r.split(I_.P, 1)
    o.seq = f.concat(r2)
    return v


def _insert(I_, o, a, k):
    n = o.seq.length()
    p = I_.clamp(a[0], n, None)
    f, r = o.seq.split(I_.P, p)
    o.seq = f.concat(Seq.of([a[1]])).concat(r)


def _dfromkeys(I_, o, a, k):
    s = I_.seq_of(a[0])
    if s.concrete() == [] : return HDict(Seq(), None)
    x = I_.P.proof.contract.externals.get('dict.fromkeys')
    if x is not None:
        I_.P.proof.summ_used.add('dict.fromkeys (assumed)')
        return x(I_, a, k)
    # keys of a sequence: order of first occurrence; supported when the elements are distinct
    d = HDict(s, a[1] if len(a) > 1 else None)
    b = getattr(I_.P, 'distinct_bases', set())
    for p in s.parts:
        if p[0] == 's' and p[1] not in b: raise Unsupported('dict.fromkeys of possibly repeated elements')
    return d


def _dpop(I_, o, a, k):
    if isinstance(o, HDict):
        if I_.P.branch(I_.contains(o, a[0])):
            I_.dict_remove(o, a[0]); return o.val
        if len(a) > 1: return a[1]
        raise PyRaise('KeyError')
    for kk in list(o.d):
        if I_.P.branch(I_.eq(kk, a[0])):
            d = dict(o.d); v = d.pop(kk); o.d = d; return v
    if len(a) > 1: return a[1]
    raise PyRaise('KeyError')


def _dget(I_, o, a, k):
    for kk in o.d:
        if I_.P.branch(I_.eq(kk, a[0])): return o.d[kk]
    return a[1] if len(a) > 1 else None


def _sadd(I_, o, a, k):
    x, f = a[0], o.fn
    o.fn = lambda v: Or(f(v), I_.eq(v, x))


def _sremove(I_, o, a, k):
    x, f = a[0], o.fn
    if not I_.P.branch(f(x)): raise PyRaise('KeyError', 'set.remove')
    o.fn = lambda v: And(f(v), Not(I_.eq(v, x)))


def _sdiscard(I_, o, a, k):
    x, f = a[0], o.fn
    o.fn = lambda v: And(f(v), Not(I_.eq(v, x)))


def _sort_lists(P, o, old, sh):
    """list of lists of numbers: a permutation of the lists (entry t is entry pi(t) of the old one: same length, ends and
    contract-supplied functions of its content, P.list_features), in lexicographic order (of which only the order of the
    first elements is used).  The lists themselves are not to be modified afterwards."""
    for _, v in P.interp.reach():
        if isinstance(v, HList) and v.owner is not None and v.owner[1] is o: v.borrowed = True
    for p in old.parts:
        if p[0] == 'e' and isinstance(p[1], HList): p[1].borrowed = True
    old = E.snapshot(old)
    n = old.length()
    bases = [p[1] for p in old.parts if p[0] == 's']
    b = P.fresh_base('sorted', sh, tz(n))
    pi = z3.Function('pi!%s' % b.tag, I, I)

    def feats(v):
        s = v.seq
        n = s.length()
        ends = (0, 0) if not s.parts else (Tab(P, s).num(0), Tab(P, s).num(sub(n, 1)))
        return (n,) + ends + tuple(f(v) for f in getattr(P, 'list_features', ()))
    def first(t):
        v = b.alts(t)[0][1]
        return GT(v.seq.length(), 0), Tab(P, v.seq).num(0)
    def at(t):
        t = z3.simplify(t)
        for q in bases: q.touch(pi(t))
        fx = feats(b.alts(t)[0][1])
        same = And(*[EQ(x, Tab(P, old).pick(pi(t), lambda v, i=i: feats(v)[i])) for i, x in enumerate(fx)])
        ge, ft = first(t)
        order = []
        for s in b.touched:
            if s.eq(t): continue
            gs, fs = first(s)
            order.append(Implies(And(GE(s, 0), LE(s, t), gs, ge), LE(fs, ft)))
            order.append(Implies(And(LT(s, n), LE(t, s), gs, ge), LE(ft, fs)))
        return And(GE(t, 0), LT(t, n)), And(GE(pi(t), 0), LT(pi(t), n), same, *order)
    P.on_touch(b, at)
    b.perm_of = old
    o.seq = Seq.base(b)


def _sort(I_, o, a, k):
    """the result is a permutation of the list (an uninterpreted index map; every element measure keeps its total) in
    non-decreasing (reverse: non-increasing) order; stability is not modelled"""
    P = I_.P
    if a or set(k) - {'reverse', 'key'} or not isinstance(k.get('reverse', False), bool): raise Unsupported('sort arguments')
    key = k.get('key')
    op = '>=' if k.get('reverse', False) else '<='
    old = o.seq
    n = old.length()
    if isinstance(n, int) and n <= 1: return
    sh = E.shape_of(HList(old))[1]
    shs = [x for x in (sh[1] if sh[0] == 'union' else (sh,)) if x != ('none',)]
    if sh[0] == 'list' and sh[1] in (('int',), ('real',)) and not k: return _sort_lists(P, o, old, sh)
    if len(shs) != 1 or not (shs[0] in (('int',), ('real',)) or shs[0][0] == 'tuple'): raise Unsupported('sort of %s' % (sh,))
    bases = [p[1] for p in old.parts if p[0] == 's']
    u = P.fresh('u', I)
    for b in bases: b.touch(u)
    P.oblige('sort-compares-numbers', Implies(And(GE(u, 0), LT(u, n)), Not(Tab(P, old).isnone(u))))
    if key is not None:
        # the key is computed for an arbitrary element, with all its run-time checks; the order is not modelled
        if not P.branch(GT(n, 0)): return
        P.fact(And(GE(u, 0), LT(u, n)))
        P.nofork += 1
        try: I_.call(key, [old.at(P, u)], {})
        finally: P.nofork -= 1
    b = P.fresh_base('sorted', shs[0], tz(n))
    pi = z3.Function('pi!%s' % b.tag, I, I)
    def eqv(x, y): return And(*[EQ(p, q) for p, q in zip(x, y)]) if isinstance(x, tuple) else EQ(x, y)
    def le(x, y): return I_.lex(op, x, y) if isinstance(x, tuple) else cmp(op, x, y)
    def at(t):
        for q in bases: q.touch(pi(t))
        x = b.raw(t)
        ordered = [] if key is not None else [Implies(And(GE(s, 0), LE(s, t)), le(b.raw(s), x)) for s in b.touched if not s.eq(t)]
        if key is None: ordered += [Implies(And(LT(s, n), LE(t, s)), le(x, b.raw(s))) for s in b.touched if not s.eq(t)]
        return And(GE(t, 0), LT(t, n)), And(GE(pi(t), 0), LT(pi(t), n), Tab(P, old).pick(pi(t), lambda v: False if v is None else eqv(x, v)), *ordered)
    P.on_touch(b, at)
    b.perm_of = old
    o.seq = Seq.base(b)


METHODS = [
    (HList, {'sort': _sort, 'appendleft': lambda I_, o, a, k: setattr(o, 'seq', Seq.of([a[0]]).concat(o.seq)),
             'popleft': lambda I_, o, a, k: _pop(I_, o, [0], {}), 'count': lambda I_, o, a, k: o.seq.sum_of(I_.P, count_measure(a[0])),
             'append': _append, 'extend': _extend, 'reverse': _reverse, 'copy': _copy, 'pop': _pop, 'insert': _insert,
             'index': lambda I_, o, a, k: (_ for _ in ()).throw(Unsupported('list.index'))}),
    (HDict, {'keys': lambda I_, o, a, k: watched(HList(o.seq), o), 'pop': _dpop}),
    (CDict, {'keys': lambda I_, o, a, k: watched(HList(Seq.of(list(o.d))), o), 'values': lambda I_, o, a, k: watched(HList(Seq.of(list(o.d.values()))), o),
             'items': lambda I_, o, a, k: watched(HList(Seq.of([(x, y) for x, y in o.d.items()])), o), 'pop': _dpop, 'get': _dget}),
    (E.SSet, {'add': _sadd, 'remove': _sremove, 'discard': _sdiscard, 'copy': lambda I_, o, a, k: E.SSet(o.fn)}),
    (CSet, {'add': lambda I_, o, a, k: setattr(o, 's', o.s + ([] if a[0] in o.s else [a[0]])) }),
    (str, {'join': lambda I_, o, a, k: '<str>', 'format': lambda I_, o, a, k: '<str>', 'lower': lambda I_, o, a, k: o.lower()}),
]
class _DictNS: pass
NATIVES['dict'] = Native('dict', lambda I_, a, k: CDict() if not a else (_ for _ in ()).throw(Unsupported('dict()')))
ATTRS = [
    (Native, {'fromkeys': lambda I_, o: Native('fromkeys', lambda I2, a, k: _dfromkeys(I2, o, a, k))}),
]
EXT['numpy.ndarray'] = TypeRef('ndarray')
EXT['collections.OrderedDict'] = NATIVES['dict']
def _items(I_, x, what):
    l = [x.at(i) for i in range(x.length)] if isinstance(x, View) and isinstance(x.length, int) else I_.tolist(x)
    if l is None: raise Unsupported('%s of a sequence of unknown length' % what)
    return l


@ext('itertools.permutations')
def _permutations(I_, a, k):
    l = list(itertools.permutations(_items(I_, a[0], 'permutations'), *a[1:]))
    return View(len(l), lambda t: l[t])


@ext('itertools.product')
def _product(I_, a, k):
    if k: raise Unsupported('product with repeat')
    l = list(itertools.product(*[_items(I_, x, 'product') for x in a]))
    return View(len(l), lambda t: l[t])


@ext('itertools.groupby')
def _groupby(I_, a, k):
    """the maximal runs of elements with equal keys, in order (what the itertools documentation says)"""
    P = I_.P
    key = a[1] if len(a) > 1 else k.get('key')
    kv = (lambda x: I_.call(key, [x], {})) if key is not None else (lambda x: x)
    s = E.snapshot(I_.seq_of(a[0]))
    if not s.parts: return View(0, lambda t: None)
    if len(s.parts) != 1 or s.parts[0][0] != 's' or s.parts[0][4]: raise Unsupported('groupby of a partly known sequence')
    _, b, lo0, hi0, _ = s.parts[0]
    m = P.fresh('groups', z3.IntSort())
    P.fact(m >= 0)
    P.fact(EQ(EQ(m, 0), LE(hi0, lo0)))
    gb = P.fresh_base('group', ('int',), z3.simplify(m + 1))
    P.fact(EQ(gb.raw(z3.IntVal(0)), lo0))
    P.fact(Implies(LE(lo0, hi0), EQ(gb.raw(m), hi0)))
    P.on_touch(gb, lambda t: (And(GE(t, 0), LT(t, m)), And(LE(lo0, gb.raw(t)), LT(gb.raw(t), gb.raw(z3.simplify(tz(t) + 1))), LE(gb.raw(z3.simplify(tz(t) + 1)), hi0))))

    def at(t):
        lo, hi = gb.get(t), gb.get(z3.simplify(tz(t) + 1))
        gb.touch(z3.simplify(tz(t) - 1))
        kl = kv(b.get(lo))
        P.on_touch(b, lambda j: (And(LE(lo, j), LT(j, hi)), I_.eq(kv(b.raw(j)), kl)))
        P.fact(Implies(LT(hi, hi0), NE(b.raw(hi), b.raw(lo)) if key is None else Not(I_.eq(kv(b.raw(hi)), kl))))
        pr = z3.simplify(tz(lo) - 1)
        P.fact(Implies(GT(lo, lo0), NE(b.raw(pr), b.raw(lo)) if key is None else Not(I_.eq(kv(b.raw(pr)), kl))))
        for f in getattr(P, 'on_group', ()): f(b, lo, hi, kl)
        return (kl, HList(Seq(((('s', b, lo, hi, False)),))))
    v = View(m, at, None, I_.view(a[0]).watch)
    v.bounds = gb
    return v


EXT['itertools.chain'] = External('itertools.chain')

from . import numpy_  # noqa: E402
for _n, _f in numpy_.EXTS.items(): EXT[_n] = Native(_n, _f)
