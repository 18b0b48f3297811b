"""Faster term construction through the z3 Python API: the same C API calls, without the repeated sort and
error-code look-ups of the generic wrappers.  Every term *constructor* still has its error code checked."""
import z3, ctypes
from z3 import z3 as Z, z3core as K
from z3.z3types import Ast



class _L:
    pass


for _n in 'Z3_inc_ref Z3_dec_ref Z3_get_ast_kind Z3_get_sort Z3_get_sort_kind Z3_is_algebraic_number Z3_get_ast_id Z3_is_eq_ast'.split():
    setattr(_L, _n, getattr(K, _n).__defaults__[-1].f)

CTX = z3.main_ctx()
_c = CTX.ref()
_inc, _dec, _kind, _sort, _skind, _isalg, _id, _eqast = (_L.Z3_inc_ref, _L.Z3_dec_ref, _L.Z3_get_ast_kind, _L.Z3_get_sort,
    _L.Z3_get_sort_kind, _L.Z3_is_algebraic_number, _L.Z3_get_ast_id, _L.Z3_is_eq_ast)
_old_to_expr, _old_coerce, _old_call = Z._to_expr_ref, Z._coerce_exprs, z3.FuncDeclRef.__call__
NUM, QUANT = z3.Z3_NUMERAL_AST, z3.Z3_QUANTIFIER_AST
BOOL, INT, REAL = z3.Z3_BOOL_SORT, z3.Z3_INT_SORT, z3.Z3_REAL_SORT
ArithRef, BoolRef, IntNumRef, RatNumRef = z3.ArithRef, z3.BoolRef, z3.IntNumRef, z3.RatNumRef


def _init(self, ast, ctx=None):
    self.ast = ast
    self.ctx = CTX if ctx is None else ctx
    _inc(self.ctx.ctx, ast)


def _del(self):
    if _dec is None: return
    a = self.__dict__.get('ast')
    if a is not None and self.ctx.ctx is not None:
        _dec(self.ctx.ctx, a)
        self.ast = None


def to_expr(a, ctx):
    if ctx is CTX and type(a) is Ast:
        s = _skind(_c, _sort(_c, a))
        if s == BOOL:
            if _kind(_c, a) == QUANT: return Z.QuantifierRef(a, ctx)
            return BoolRef(a, ctx)
        if s == INT: return IntNumRef(a, ctx) if _kind(_c, a) == NUM else ArithRef(a, ctx)
        if s == REAL:
            if _kind(_c, a) == NUM: return RatNumRef(a, ctx)
            if not _isalg(_c, a): return ArithRef(a, ctx)
    return _old_to_expr(a, ctx)


def _sk(x): return _skind(_c, _sort(_c, x.ast))


def coerce(a, b, ctx=None):
    if isinstance(a, ArithRef) and isinstance(b, ArithRef):
        if _sk(a) == _sk(b): return a, b
    elif isinstance(a, BoolRef) and isinstance(b, BoolRef): return a, b
    return _old_coerce(a, b, ctx)


def call(self, *args):
    d = self.__dict__.get('_dom')
    if d is None:
        d = self._dom = tuple(_skind(_c, K.Z3_get_domain(_c, self.ast, i)) for i in range(K.Z3_get_arity(_c, self.ast)))
    n = len(args)
    if n == len(d):
        arr = (Ast * n)()
        for i, x in enumerate(args):
            if not isinstance(x, (ArithRef, BoolRef)) or _sk(x) != d[i] or d[i] not in (BOOL, INT, REAL): break
            arr[i] = x.ast
        else:
            return to_expr(K.Z3_mk_app(_c, self.ast, n, arr), CTX)
    return _old_call(self, *args)


def simplify(a, *x, **k):
    if x or k: return _old_simplify(a, *x, **k)
    return to_expr(K.Z3_simplify(_c, a.ast), CTX)


def solver_add(self, *args):
    for a in args:
        if isinstance(a, BoolRef): K.Z3_solver_assert(_c, self.solver, a.ast)
        else: self.assert_exprs(a)


def eq(self, o):
    return bool(_eqast(_c, self.ast, o.ast))


_old_simplify = z3.simplify
z3.AstRef.__init__ = _init
z3.AstRef.__del__ = _del
z3.AstRef.eq = eq
z3.AstRef.get_id = lambda self: _id(_c, self.ast)
Z._to_expr_ref = to_expr
Z._coerce_exprs = coerce
z3.FuncDeclRef.__call__ = call
Z.simplify = z3.simplify = simplify
z3.Solver.add = solver_add


def mk_and(args):
    n = len(args)
    arr = (Ast * n)()
    for i, x in enumerate(args):
        if not isinstance(x, BoolRef): return z3.And(*args)
        arr[i] = x.ast
    return BoolRef(K.Z3_mk_and(_c, n, arr), CTX)


def mk_or(args):
    n = len(args)
    arr = (Ast * n)()
    for i, x in enumerate(args):
        if not isinstance(x, BoolRef): return z3.Or(*args)
        arr[i] = x.ast
    return BoolRef(K.Z3_mk_or(_c, n, arr), CTX)


def mk_not(a):
    if not isinstance(a, BoolRef): return z3.Not(a)
    return BoolRef(K.Z3_mk_not(_c, a.ast), CTX)


def mk_ite(c, a, b):
    if isinstance(c, BoolRef) and ((isinstance(a, ArithRef) and isinstance(b, ArithRef) and _sk(a) == _sk(b)) or
                                   (isinstance(a, BoolRef) and isinstance(b, BoolRef))):
        return to_expr(K.Z3_mk_ite(_c, c.ast, a.ast, b.ast), CTX)
    return z3.If(c, a, b)


def _gid(self): return _id(_c, self.ast)


for _k in (z3.ExprRef, z3.FuncDeclRef, z3.SortRef): _k.get_id = _gid
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
_tid, _fid = TRUE.get_id(), FALSE.get_id()
z3.is_true = Z.is_true = lambda a: isinstance(a, BoolRef) and _id(_c, a.ast) == _tid
z3.is_false = Z.is_false = lambda a: isinstance(a, BoolRef) and _id(_c, a.ast) == _fid
z3.is_int_value = Z.is_int_value = lambda a: isinstance(a, IntNumRef)
z3.is_rational_value = Z.is_rational_value = lambda a: isinstance(a, RatNumRef)
_ints = {}
_IV = z3.IntVal


def IntVal(v, ctx=None):
    if type(v) is int and ctx is None:
        r = _ints.get(v)
        if r is None:
            r = _IV(v)
            if len(_ints) < 5000: _ints[v] = r
        return r
    return _IV(v, ctx)


z3.IntVal = Z.IntVal = IntVal
