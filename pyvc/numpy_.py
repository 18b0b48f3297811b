"""numpy arrays that the code creates or modifies: a size and a cell function (snapshots are immutable; an array object
points at its current snapshot).  Supported: two-dimensional square arrays, slices with step 1, arithmetic with numbers
and with equally shaped arrays, copies and dtype conversions.  Integer dtypes are mathematical integers."""
import ast
import z3
from .values import *
from . import engine as E


class DType:
    def __init__(self, isint): self.isint = isint
    def __eq__(self, o): return isinstance(o, DType) and o.isint == self.isint
    def __hash__(self): return hash(self.isint)


def isint_v(v): return isinstance(v, int) or (is_z(v) and z3.is_int(v))


def trunc(v):
    if isint_v(v): return v
    if isinstance(v, Fraction): return int(v)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def dtype_of(I_, x):
    if isinstance(x, DType): return x
    n = getattr(x, 'name', x)
    if n in ('d', 'f8', 'float', 'float64', 'numpy.float64', 'numpy.double', 'double', 'numpy.float_'): return DType(False)
    if n in ('int', 'numpy.int64', 'int64', 'i8', 'l', 'numpy.int_'): return DType(True)
    raise Unsupported('dtype %r' % (x,))


class HArr:
    def __init__(self, n, fn, isint): self.n, self.fn, self.isint = n, fn, isint
    def copy(self): return HArr(self.n, self.fn, self.isint)
    @staticmethod
    def of_mat(P, m): return HArr(m.size, lambda i, j: m.get(P, i, j), m.isint)

    def rng(self, x):
        """index set of one axis: (predicate, selected index or None)"""
        if isinstance(x, E.SliceV):
            if x.st not in (None, 1): raise Unsupported('array slice step')
            def bound(b):
                if isinstance(b, int): return b if b >= 0 else add(self.n, b)
                raise Unsupported('symbolic array slice')
            lo = 0 if x.lo is None else bound(x.lo)
            hi = None if x.hi is None else bound(x.hi)
            return (lambda i: And(GE(i, lo), True if hi is None else LT(i, hi))), None, (x.lo, x.hi)
        return None, x, None

    def axes(self, I_, ix):
        if not isinstance(ix, tuple): ix = (ix, E.SliceV(None, None, None))
        if len(ix) != 2: raise Unsupported('array index')
        out = []
        for x in ix:
            p, k, key = self.rng(x)
            if p is None:
                k = I_.norm(k, self.n)
                p = lambda i, k=k: EQ(i, k)
            out.append((p, k, key))
        return out

    def getitem(self, I_, ix):
        (p, a, ka), (q, b, kb) = self.axes(I_, ix)
        if a is not None and b is not None: return self.fn(tz(a), tz(b))
        return View2(self, self.fn, ix, (a if a is not None else ka, b if b is not None else kb))

    def cast(self, v):
        if isint_v(v): return v if self.isint else treal(v)
        if self.isint: return trunc(v)
        return v

    def setitem(self, I_, ix, v):
        (p, a, ka), (q, b, kb) = self.axes(I_, ix)
        old = self.fn
        if isinstance(v, View2):
            if v.key != (a if a is not None else ka, b if b is not None else kb) or v.arr is not self: raise Unsupported('array assignment')
            new = v.fn
        elif is_num(v):
            c = self.cast(v)
            new = lambda i, j: c
        else: raise Unsupported('array assignment of %s' % type(v).__name__)
        self.fn = lambda i, j: Ite(And(p(i), q(j)), new(i, j), old(i, j))

    def aug(self, I_, ix, op, v):
        if self.isint and is_num(v) and not isint_v(v): raise E.PyRaise('TypeError', 'cannot cast float to int in place')
        cur = self.getitem(I_, ix)
        self.setitem(I_, ix, I_.binop(op, cur, v))

    @staticmethod
    def binop(I_, op, a, b):
        w = a if isinstance(a, (HArr, View2)) else b
        if isinstance(op, ast.Div): isint = False
        else: isint = all((x.isint if isinstance(x, (HArr, View2)) else isint_v(x)) for x in (a, b))
        for x in (a, b):
            if isinstance(x, View2) and isinstance(w, View2) and x.key != w.key: raise Unsupported('array arithmetic with different shapes')
            if isinstance(x, (HArr, View2)) and type(x) is not type(w): raise Unsupported('array arithmetic with different shapes')
            if not isinstance(x, (HArr, View2)) and not is_num(x): raise Unsupported('array arithmetic')
        def cell(x): return x.fn if isinstance(x, (HArr, View2)) else (lambda i, j: x)
        ca, cb = cell(a), cell(b)
        if isinstance(op, ast.Div) and not is_num(b): raise Unsupported('array division')
        fn = lambda i, j: I_.binop(op, ca(i, j), cb(i, j))
        if isinstance(w, View2): return View2(w.arr, fn, w.ix, w.key, isint)
        return HArr(w.n, fn, isint)

    def astype(self, I_, a, k):
        d = dtype_of(I_, a[0] if a else k['dtype'])
        f, o = self.fn, self
        r = HArr(self.n, f, d.isint)
        if d.isint != self.isint: r.fn = lambda i, j: r.cast(f(i, j))
        return r


class View2:
    """the value of a slice of an array at some moment (only used to be written back or combined)"""
    def __init__(self, arr, fn, ix, key, isint=None):
        self.arr, self.fn, self.ix, self.key = arr, fn, ix, key
        self.isint = arr.isint if isint is None else isint


def np_copy(I_, a, k):
    if isinstance(a[0], HArr):
        r = a[0].copy()
        dt = k.get('dtype', a[1] if len(a) > 1 else None)
        return r.astype(I_, [dt], {}) if dt is not None else r
    raise Unsupported('numpy copy of %s' % type(a[0]).__name__)


def np_fill_diagonal(I_, a, k):
    o, v = a[0], a[1]
    if not isinstance(o, HArr) or not is_num(v): raise Unsupported('fill_diagonal')
    old, c = o.fn, o.cast(v)
    o.fn = lambda i, j: Ite(EQ(i, j), c, old(i, j))


EXTS = {'numpy.copy': np_copy, 'numpy.array': np_copy, 'numpy.fill_diagonal': np_fill_diagonal}


def attr(I_, o, name):
    if name == 'dtype': return DType(o.isint)
    if name == 'shape': return (o.n, o.n)
    if name == 'copy': return E.Native('copy', lambda I2, a, k: o.copy())
    if name == 'astype': return E.Native('astype', lambda I2, a, k: o.astype(I2, a, k))
    raise Unsupported('array attribute ' + name)


def dtype_attr(I_, o, name):
    if name == 'type': return E.Native('dtype.type', lambda I2, a, k: trunc(a[0]) if o.isint else treal(a[0]))
    if name == 'kind': return 'i' if o.isint else 'f'
    raise Unsupported('dtype attribute ' + name)
