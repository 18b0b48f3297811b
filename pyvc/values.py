"""Symbolic values, sequences and range sums of the VC generator (see ../DESIGN.md section 2).

Numbers are mathematical: Python ints are z3 Int, Python/numpy floats are z3 Real.  Concrete
numbers stay Python int / Fraction so that constant code folds.
"""
import z3
from . import fastz3 as FZ
from fractions import Fraction

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()


class Unsupported(Exception):
    """The construct is outside the verified subset (an engine limit, not a verdict)."""


class _Sing:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n


UNBOUND = _Sing('UNBOUND')


class Inf:
    def __init__(self, neg=False): self.neg = neg
    def __repr__(self): return '-inf' if self.neg else 'inf'
    def __eq__(self, o): return isinstance(o, Inf) and o.neg == self.neg
    def __hash__(self): return hash(('inf', self.neg))


INF = Inf()


def is_z(v): return isinstance(v, z3.ExprRef)
def is_num(v):
    return (isinstance(v, (int, Fraction)) and not isinstance(v, bool)) or (is_z(v) and z3.is_arith(v))
def is_boolv(v): return isinstance(v, bool) or (is_z(v) and z3.is_bool(v))


def tz(v):
    if is_z(v): return v
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, Fraction): return z3.RealVal(str(v))
    raise Unsupported('cannot make a term of %r' % (v,))


def tint(v):
    v = tz(v)
    if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def treal(v):
    v = tz(v)
    if z3.is_bool(v): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return z3.ToReal(v) if z3.is_int(v) else v


def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a): return False
    if not a: return True
    if len(a) == 1: return a[0]
    return FZ.mk_and(a)


def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a): return True
    if not a: return False
    if len(a) == 1: return a[0]
    return FZ.mk_or(a)


def Not(a): return (not a) if isinstance(a, bool) else FZ.mk_not(a)
def Implies(a, b): return Or(Not(a), b)


def fold(v):
    """concrete Python value of a numeral/boolean term, else the term"""
    if is_z(v):
        if z3.is_int_value(v): return v.as_long()
        if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_true(v): return True
        if z3.is_false(v): return False
    return v


def Ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, (int, Fraction)) and a == b and type(a) == type(b): return a
    a, b = tz(a), tz(b)
    if a.eq(b): return a
    if z3.is_arith(a) and z3.is_arith(b) and z3.is_int(a) != z3.is_int(b):
        a, b = treal(a), treal(b)
    return FZ.mk_ite(c, a, b)


def add(a, b):
    if isinstance(a, int) and a == 0 and not isinstance(a, bool) and is_num(b): return b
    if isinstance(b, int) and b == 0 and not isinstance(b, bool) and is_num(a): return a
    if not is_z(a) and not is_z(b): return a + b
    return fold(z3.simplify(_m(a) + _m(b)))


def sub(a, b):
    if isinstance(b, int) and b == 0 and not isinstance(b, bool) and is_num(a): return a
    if not is_z(a) and not is_z(b): return a - b
    return fold(z3.simplify(_m(a) - _m(b)))


def mul(a, b):
    if not is_z(a) and not is_z(b): return a * b
    return fold(z3.simplify(_m(a) * _m(b)))


def _m(a):
    a = tz(a)
    if z3.is_bool(a): return z3.If(a, z3.IntVal(1), z3.IntVal(0))
    return a


def cmp(op, a, b):
    """op in < <= > >= == != on numbers/bools"""
    if isinstance(a, Inf) or isinstance(b, Inf):
        return _cmpinf(op, a, b)
    if not is_z(a) and not is_z(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if is_boolv(a) and is_boolv(b) and op in ('==', '!='):
        x, y = tz(a), tz(b)
    else:
        x, y = _m(a), _m(b)
    r = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
         '==': lambda: x == y, '!=': lambda: x != y}[op]()
    if x.eq(y): return op in ('<=', '>=', '==')
    return fold(r) if (z3.is_true(r) or z3.is_false(r)) else r


def _cmpinf(op, a, b):
    def rank(v): return (-1 if v.neg else 1) if isinstance(v, Inf) else 0
    ra, rb = rank(a), rank(b)
    return {'<': ra < rb, '<=': ra <= rb, '>': ra > rb, '>=': ra >= rb, '==': ra == rb, '!=': ra != rb}[op]


LT = lambda a, b: cmp('<', a, b)
LE = lambda a, b: cmp('<=', a, b)
GT = lambda a, b: cmp('>', a, b)
GE = lambda a, b: cmp('>=', a, b)
EQ = lambda a, b: cmp('==', a, b)
NE = lambda a, b: cmp('!=', a, b)


def smin(a, b):
    c = LE(a, b)
    return Ite(c, a, b)


def smax(a, b):
    c = GE(a, b)
    return Ite(c, a, b)


# ---------------------------------------------------------------- range sums
class RangeSum:
    """F with F(t+1) = F(t) + elt(t) for every t; sum of elt over [lo,hi) is F(hi)-F(lo).
    Ground instances of the recurrence are asserted at every touched index (and, for
    non-negative summands, monotonicity between touched indices - an induction lemma proved
    once in pyvc/lemmas.py)."""

    def __init__(self, path, key, elt, nonneg, sort, shared=None, params=()):
        self.path, self.key, self.elt, self.nonneg = path, key, elt, nonneg
        if shared is None: self.F = z3.Function('S!%d' % len(path.rsums), I, sort)
        else:
            # one function for all lists of a table: equal indices have equal sums by congruence
            G = z3.Function('S!' + shared, *([I] * len(params) + [I, sort]))
            self.F = lambda t: G(*(tuple(params) + (tz(t),)))
        self.idx = []
        self.idxid = set()
        self.rec = set()
        self.keep = []
        path.fact(self.F(0) == 0)
        self.touch(z3.IntVal(0))

    def step(self, t):
        """the recurrence at index t (a simplified term)"""
        if t.get_id() in self.rec: return
        self.rec.add(t.get_id()); self.keep.append(t)
        self.path.fact(self.F(z3.simplify(t + 1)) == self.F(t) + _m(self.elt(t)))

    def touch(self, t):
        t = z3.simplify(tz(t))
        if t.get_id() in self.idxid: return
        self.idxid.add(t.get_id())
        self.idx.append(t)
        p = self.path
        t1 = z3.simplify(t + 1)
        self.step(t)
        self.step(z3.simplify(t - 1))
        if self.nonneg:
            for s in self.idx[:-1]:
                p.fact(z3.Implies(t <= s, self.F(t) <= self.F(s)))
                p.fact(z3.Implies(s <= t, self.F(s) <= self.F(t)))
                s1 = z3.simplify(s + 1)
                p.fact(z3.Implies(s1 <= t, self.F(s1) <= self.F(t)))
                p.fact(z3.Implies(t1 <= s, self.F(t1) <= self.F(s)))

    def at(self, t):
        t = z3.simplify(tz(t))
        self.touch(t)
        return self.F(t)

    def over(self, lo, hi):
        """sum over [lo,hi), 0 when empty"""
        d = self.at(hi) - self.at(lo)
        c = LE(lo, hi)
        if c is True: return d
        return z3.If(c, d, 0)


# ---------------------------------------------------------------- sequences
class Base:
    """An (immutable) sequence of unknown length given by an element function."""
    def __init__(self, path, name, length, getter, eshape):
        self.path, self.name, self.length, self.getter, self.eshape = path, name, length, getter, eshape
        self.sums = []
        self.touched = []
        self.touchid = set()
        self.cbs = []
        self.depth = 0
        self.perm_of = None     # the sequence this one is a permutation of
        self.params = None
        self.tag = name
        self.alts = lambda t: [(True, self.raw(tz(t)))]

    def raw(self, t): return self.getter(t)

    def get(self, t):
        v = self.getter(tz(t) if not is_z(t) else t)
        self.touch(t)
        return v

    def touch(self, t):
        t = z3.simplify(tz(t))
        if t.get_id() in self.touchid: return
        P = self.path
        # instances of instances of instances are not generated
        if self.depth > 1 or P.tdepth >= P.maxdepth: return
        self.touchid.add(t.get_id())
        self.touched.append(t)
        self.depth += 1
        P.tdepth += 1
        try:
            for s in list(self.sums): s.step(t)
            for cb in list(self.cbs): cb(t)
        finally:
            self.depth -= 1
            P.tdepth -= 1

    def rsum(self, key, elt, nonneg, sort):
        """range sum attached to this base (touched whenever the base is read)"""
        if self.params is not None: s = self.path.range_sum((id(self), key), elt, nonneg, sort, '%s|%s' % (self.tag, key), self.params)
        elif key[0] == 'count':
            # equal elements have equal counts, by congruence
            s = self.path.range_sum((id(self), key), elt, nonneg, sort, '%d|count' % self.path.bases.setdefault(id(self), len(self.path.bases)), (elt.x,))
        else: s = self.path.range_sum((id(self), key), elt, nonneg, sort)
        if s not in self.sums:
            self.sums.append(s)
            for t in list(self.touched): s.step(t)
        return s


class Seq:
    """Concatenation of parts: ('e', value) or ('s', base, lo, hi, rev) with lo<=hi."""
    __slots__ = ('parts',)

    def __init__(self, parts=()):
        self.parts = tuple(parts)

    @staticmethod
    def of(vals): return Seq([('e', v) for v in vals])

    @staticmethod
    def base(b): return Seq([('s', b, 0, b.length, False)])

    def concrete(self):
        """list of values if the length is concrete, else None"""
        if all(p[0] == 'e' for p in self.parts): return [p[1] for p in self.parts]
        out = []
        for p in self.parts:
            if p[0] == 'e': out.append(p[1]); continue
            n = sub(p[3], p[2])
            if not isinstance(n, int): return None
            ks = range(n)
            for k in ks:
                out.append(p[1].get(add(p[2], k)) if not p[4] else p[1].get(sub(sub(p[3], 1), k)))
        return out

    def length(self):
        n = 0
        for p in self.parts:
            n = add(n, 1 if p[0] == 'e' else sub(p[3], p[2]))
        return n

    def concat(self, o):
        ps = list(self.parts)
        for p in o.parts:
            if ps and p[0] == 's' and ps[-1][0] == 's' and ps[-1][1] is p[1] and not p[4] and not ps[-1][4]:
                if EQ(ps[-1][3], p[2]) is True:
                    ps[-1] = ('s', p[1], ps[-1][2], p[3], False)
                    continue
            ps.append(p)
        return Seq(ps)

    def reversed(self):
        ps = []
        for p in reversed(self.parts):
            ps.append(p if p[0] == 'e' else ('s', p[1], p[2], p[3], not p[4]))
        return Seq(ps)

    # --- element access; k must be known to be within [0,len)
    def at(self, path, k):
        ps = self.parts
        if not ps: raise Unsupported('read from an empty sequence')
        off = 0
        cands = []
        for idx, p in enumerate(ps):
            ln = 1 if p[0] == 'e' else sub(p[3], p[2])
            end = add(off, ln)
            c = LT(k, end)
            if c is True or idx == len(ps) - 1:
                cands.append((True, p, off)); break
            lo = GE(k, off)
            if c is False: off = end; continue
            cands.append((c, p, off))
            off = end

        def val(p, off):
            if p[0] == 'e': return p[1]
            i = sub(k, off)
            return p[1].get(add(p[2], i) if not p[4] else sub(sub(p[3], 1), i))
        if len(cands) == 1: return val(cands[0][1], cands[0][2])
        # which cuts are decided by the path?
        live = []
        for c, p, off in cands:
            if c is True: live.append((c, p, off)); break
            st = path.decide(c)
            if st is True: live.append((True, p, off)); break
            if st is False: continue
            live.append((c, p, off))
        if len(live) == 1: return val(live[0][1], live[0][2])
        if all((p[0] == 'e' and is_num(p[1])) or (p[0] == 's' and p[1].eshape in (('int',), ('real',))) for _, p, _ in live):
            v = val(live[-1][1], live[-1][2])
            for c, p, off in reversed(live[:-1]):
                v = Ite(c, val(p, off), v)
            return v
        for c, p, off in live:
            if c is True or path.branch(c): return val(p, off)

    def split(self, path, k):
        """cut at position k, 0<=k<=len: (front, back)"""
        front, back = [], []
        off = 0
        done = False
        for p in self.parts:
            if done: back.append(p); continue
            ln = 1 if p[0] == 'e' else sub(p[3], p[2])
            end = add(off, ln)
            if EQ(k, off) is True:
                back.append(p); done = True; continue
            if EQ(k, end) is True:
                front.append(p); off = end; continue
            if path.truth_of(GE(k, end)):
                front.append(p); off = end; continue
            # k < end
            done = True
            if p[0] == 'e':
                back.append(p)
            else:
                i = sub(k, off)
                _, b, lo, hi, rev = p
                if not rev:
                    front.append(('s', b, lo, add(lo, i), False)); back.append(('s', b, add(lo, i), hi, False))
                else:
                    front.append(('s', b, sub(hi, i), hi, True)); back.append(('s', b, lo, sub(hi, i), True))
        return Seq(front), Seq(back)

    def slice(self, path, lo, hi):
        if isinstance(lo, int) and lo == 0:
            f = self
            return f.split(path, hi)[0] if EQ(hi, self.length()) is not True else self
        if EQ(hi, self.length()) is True: return self.split(path, lo)[1]
        f, _ = self.split(path, hi)
        return f.split(path, lo)[1]

    def store(self, path, k, v):
        f, r = self.split(path, k)
        if len(r.parts) == 0: raise Unsupported('store outside')
        _, r2 = r.split(path, 1)
        return Seq(f.parts + (('e', v),)).concat(r2)

    # --- measures
    def sum_of(self, path, m):
        """additive measure m (class Measure)"""
        tot = 0
        for p in self.parts:
            if p[0] == 'e': tot = add(tot, m.elem(path, p[1]))
            else:
                s = m.on_base(path, p[1])
                tot = add(tot, s.over(p[2], p[3]))
        return tot

    def prefix(self, path, m, q):
        """measure of the first q elements, as a term (0 <= q <= len)"""
        tot, off = 0, 0
        for p in self.parts:
            ln = 1 if p[0] == 'e' else sub(p[3], p[2])
            end = add(off, ln)
            if p[0] == 'e': full, part = m.elem(path, p[1]), 0
            else:
                s = m.on_base(path, p[1])
                full = s.over(p[2], p[3])
                i = sub(q, off)
                part = (s.at(add(p[2], i)) - s.at(p[2])) if not p[4] else (s.at(p[3]) - s.at(sub(p[3], i)))
            tot = add(tot, Ite(GE(q, end), full, Ite(LE(q, off), 0, part)))
            off = end
        return tot

    def prefix_cost(self, path, D, q):
        """sum of D over consecutive elements up to position q, as a term (0 <= q < len)"""
        tot, off = Fraction(0), 0
        prev = None      # (empty, last)
        for p in self.parts:
            ln = 1 if p[0] == 'e' else sub(p[3], p[2])
            end = add(off, ln)
            if p[0] == 'e': e, fi, la, full, part = False, p[1], p[1], Fraction(0), Fraction(0)
            else:
                _, b, lo, hi, rev = p
                if rev and not D.symmetric: raise Unsupported('reversed slice under an asymmetric matrix')
                e = EQ(ln, 0)
                if not isinstance(e, bool):
                    st = path.decide(e)
                    if st is not None: e = st
                if e is True: continue
                s = b.rsum(('edge', D.name), lambda t, b=b: D.get(path, b.raw(z3.simplify(t - 1)), b.raw(t)), D.nonneg, R)
                full = s.at(hi) - s.at(add(lo, 1))
                i = sub(q, off)
                part = (s.at(add(add(lo, i), 1)) - s.at(add(lo, 1))) if not rev else (s.at(hi) - s.at(sub(hi, i)))
                fi, la = b.get(lo), b.get(sub(hi, 1))
                if rev: fi, la = la, fi
            x = Ite(GE(q, sub(end, 1)), full, part)
            if prev is not None: x = add(x, Ite(prev[0], Fraction(0), D.get(path, prev[1], fi)))
            tot = add(tot, Ite(And(GE(q, off), Not(e)), x, Fraction(0)))
            prev = (e, la) if prev is None else (And(prev[0], e), Ite(e, prev[1], la))
            off = end
        return tot

    def cost(self, path, D):
        """sum of D over consecutive elements (D symmetric when a reversed slice occurs)"""
        acc = None   # (empty, first, last, cost)
        for p in self.parts:
            if p[0] == 'e': cur = (False, p[1], p[1], 0)
            else:
                _, b, lo, hi, rev = p
                n = sub(hi, lo)
                e = EQ(n, 0)
                if not isinstance(e, bool):
                    st = path.decide(e)
                    if st is not None: e = st
                if e is True: continue
                if rev and not D.symmetric:
                    raise Unsupported('reversed slice under an asymmetric matrix')
                s = b.rsum(('edge', D.name), lambda t, b=b: D.get(path, b.raw(z3.simplify(t - 1)), b.raw(t)), D.nonneg, R)
                one = add(lo, 1)
                c = s.at(hi) - s.at(one)
                if e is not False: c = Ite(e, Fraction(0), c)
                fi, la = b.get(lo), b.get(sub(hi, 1))
                if rev: fi, la = la, fi
                cur = (e, fi, la, c)
            if acc is None: acc = cur; continue
            e1, f1, l1, c1 = acc
            e2, f2, l2, c2 = cur
            j = D.get(path, l1, f2)
            both = And(Not(e1), Not(e2))
            c = add(add(c1, c2), Ite(both, j, Fraction(0)))
            acc = (And(e1, e2), Ite(e1, f2, f1), Ite(e2, l1, l2), c)
        return 0 if acc is None else acc[3]


class Measure:
    def __init__(self, key, fn, nonneg=False, sort=R):
        self.key, self.fn, self.nonneg, self.sort = key, fn, nonneg, sort

    def elem(self, path, v): return self.fn(path, v)

    def on_base(self, path, b):
        def elt(t):
            al = b.alts(t)
            v = self.fn(path, al[-1][1])
            for c, x in reversed(al[:-1]): v = Ite(c, self.fn(path, x), v)
            return v
        elt.x = self.x
        new = b.perm_of is not None and (id(b), self.key) not in path.rsum_by_key
        s = b.rsum(self.key, elt, self.nonneg, self.sort)
        if new: path.fact(s.at(b.length) - s.at(0) == b.perm_of.sum_of(path, self))
        return s
    x = None


def count_measure(x):
    m = Measure(('count', tz(x).sexpr()), lambda p, v: Ite(EQ(v, x), 1, 0), True, I)
    m.x = tz(x)
    return m


class Mat:
    """2D numeric array seen as a total function of two indices."""
    def __init__(self, name, fn=None, symmetric=True, nonneg=False, zerodiag=False, triangle=False, size=None, isint=False):
        self.name, self.symmetric, self.nonneg, self.zerodiag, self.triangle = name, symmetric, nonneg, zerodiag, triangle
        self.size = size
        self.isint = isint
        self.F = z3.Function(name, I, I, R) if fn is None else None
        self.fn = fn

    def get(self, path, i, j):
        if self.fn is not None: return self.fn(path, i, j)
        i, j = tz(i), tz(j)
        t = self.F(i, j)
        key = (self.name, i.get_id(), j.get_id())
        if key not in path.matseen:
            path.matseen[key] = (i, j)
            if self.symmetric:
                path.fact(t == self.F(j, i))
                path.matseen[(self.name, j.get_id(), i.get_id())] = (j, i)
            if self.nonneg: path.fact(t >= 0)
            if self.zerodiag: path.fact(z3.Implies(i == j, t == 0))
            if self.triangle: path.mats.setdefault(self.name, (self, []))[1].append((i, j))
        return t


class Vec:
    """1D numeric array seen as a total function."""
    def __init__(self, name, nonneg=False, zero_at0=False, fn=None, sort=R, length=None):
        self.name, self.nonneg, self.zero0 = name, nonneg, zero_at0
        self.F = z3.Function(name, I, sort) if fn is None else None
        self.fn = fn
        self.length = length

    def get(self, path, i):
        if self.fn is not None: return self.fn(path, i)
        i = tz(i)
        t = self.F(i)
        key = (self.name, i.get_id())
        if key not in path.matseen:
            path.matseen[key] = i
            if self.nonneg: path.fact(t >= 0)
            if self.zero0: path.fact(z3.Implies(i == 0, t == 0))
        return t

    def measure(self):
        return Measure(('vec', self.name), lambda p, v: self.get(p, v), self.nonneg, R)


# ---------------------------------------------------------------- specification view of tables and optional elements
class Tab:
    """reads a sequence at a symbolic index without committing to a part: results are if-then-else terms"""
    def __init__(self, path, seq): self.P, self.seq = path, seq

    def locate(self, t):
        """[(condition, value)] for the element at index t; the last condition is implied"""
        P = self.P
        t = fold(z3.simplify(t)) if is_z(t) else t
        key = (id(self.seq), t.get_id() if is_z(t) else ('c', t))
        hit = P.located.get(key)
        if hit is not None: return hit[0]
        off = 0
        out = []
        ps = self.seq.parts
        for idx, p in enumerate(ps):
            ln = 1 if p[0] == 'e' else sub(p[3], p[2])
            end = add(off, ln)
            c = True if idx == len(ps) - 1 else LT(t, end)
            if c is False: off = end; continue
            if p[0] == 'e': out.append((c, p[1]))
            else:
                i = sub(t, off)
                j = add(p[2], i) if not p[4] else sub(sub(p[3], 1), i)
                al = p[1].alts(z3.simplify(tz(j)))
                out.extend((And(c, cc), x) for cc, x in al[:-1])
                out.append((c, al[-1][1]))
            if c is True: break
            off = end
        P.located[key] = (out, self.seq, t)
        return out

    def pick(self, t, fn):
        """fn(value) -> term, for the element at index t"""
        out = self.locate(t)
        if not out: return None
        v = fn(out[-1][1])
        for c, x in reversed(out[:-1]): v = Ite(c, fn(x), v)
        return v

    def isnone(self, t): return self.pick(t, lambda v: v is None)
    def num(self, t, dflt=0): return self.pick(t, lambda v: dflt if v is None else v)
    def length(self): return self.seq.length()


class TableMeasure:
    """sum over the lists of a table of an additive measure of each list"""
    def __init__(self, m): self.m, self.key, self.sort, self.nonneg = m, ('tab', m.key), m.sort, m.nonneg

    def elem(self, path, v):
        if v is None: return 0
        return v.seq.sum_of(path, self.m)

    def on_base(self, path, b):
        def elt(t):
            al = b.alts(t)
            x = self.elem(path, al[-1][1])
            for c, v in reversed(al[:-1]): x = Ite(c, self.elem(path, v), x)
            return x
        new = b.perm_of is not None and (id(b), self.key) not in path.rsum_by_key
        s = b.rsum(self.key, elt, self.nonneg, self.sort)
        if new: path.fact(s.at(b.length) - s.at(0) == b.perm_of.sum_of(path, self))
        return s
