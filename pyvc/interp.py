"""Interpreter part of the verifier: statements, expressions, loops, built-ins."""
import ast
from fractions import Fraction
import z3
from .values import *
from .values import _m
from .live import Live, assigned
from . import engine as E

UNROLL = 24
BRK, CNT = ('break',), ('continue',)
_live_cache, _comp_cache = {}, {}


class SymbolicComp(Unsupported): pass


class Frame:
    def __init__(self, func, key):
        self.func, self.key = func, key
        self.vars = {}
        self.module = func.module
        node = func.node
        if id(node) not in _live_cache:
            _live_cache[id(node)] = (Live(node), self.ordinals(node), node)
        self.live, self.ord, _ = _live_cache[id(node)]
        self.locals = None
        self.yields = None
        self.wc = {}

    @staticmethod
    def ordinals(node):
        out, n = {}, 0
        for x in ast.walk(node):
            if isinstance(x, (ast.For, ast.While, ast.GeneratorExp, ast.ListComp, ast.SetComp)):
                out[id(x)] = n; n += 1
        return out


class Env:
    """what a contract clause sees at a loop head"""
    def __init__(self, interp, fr, lf):
        self.interp, self.P, self.fr, self.lf = interp, interp.P, fr, lf

    dead = False

    def frozen(self):
        """a view for one clause evaluation: universal clauses are instantiated later and must have captured what they read"""
        e = Env(self.interp, self.fr, self.lf)
        return e

    def __getitem__(self, name):
        if self.dead: raise RuntimeError('a universal clause reads %s after its evaluation' % name)
        v = self.fr.vars.get(name, UNBOUND)
        if v is UNBOUND or isinstance(v, E.Phi): raise E.Missing(name)
        return v

    def entry(self, name):
        v = self.lf.entry.get(name, UNBOUND)
        if v is UNBOUND: raise E.Missing(name)
        return v

    def opt(self, name):
        """(is it None, its value otherwise) of a variable that is None or a number"""
        if self.dead: raise RuntimeError('a universal clause reads %s after its evaluation' % name)
        v = self.fr.vars.get(name, UNBOUND)
        if v is UNBOUND: raise E.Missing(name)
        a, b = self.interp.optional(v)
        if b is UNBOUND or isinstance(b, (tuple, str)): raise E.Missing(name)
        return a, b

    def seq(self, name):
        """the content of a list variable, as it is now"""
        return E.snapshot(self[name].seq)

    @property
    def next(self):
        if self.dead: raise RuntimeError('a universal clause reads the iteration count after its evaluation')
        return self.lf.next
    @property
    def depth(self): return len(self.P.loopstack)
    def nexts(self):
        """completed iterations of the enclosing loops, outermost first"""
        if self.dead: raise RuntimeError('a universal clause reads the iteration counts after its evaluation')
        return [l.next for l in self.P.loopstack]
    def views(self): return [l.view for l in self.P.loopstack]

    def numvars(self, mod_only=True):
        for v in sorted(self.lf.names):
            x = self.fr.vars.get(v, UNBOUND)
            if is_num(x) or isinstance(x, Inf):
                if not mod_only or v in self.lf.info.mod: yield v, x

    def isreal(self, v):
        """not known to be an integer counter"""
        x = self.fr.vars[v]
        sh = self.lf.info.mod.get(v)
        if sh in (('int',), ('real',)): return sh == ('real',)
        return isinstance(x, (Fraction, Inf)) or (isinstance(x, int) and x == 0) or (is_z(x) and z3.is_real(x))

    def lists(self, mod_only=True):
        heap = {p[1] for p in self.lf.info.heap if len(p) == 2}
        for v in sorted(self.lf.names):
            x = self.fr.vars.get(v, UNBOUND)
            if isinstance(x, E.HList) and (not mod_only or v in self.lf.info.mod or v in heap): yield v, x


class LoopFrame:
    def __init__(self, node, view, entry, info, names, key):
        self.node, self.view, self.entry, self.info, self.names, self.key = node, view, entry, info, names, key
        self.next = 0
        self.entry_lens = {}


class Interp:
    def __init__(self, P):
        self.P = P
        self.frames = []
        from .builtins_ import NATIVES, EXT
        self.natives, self.ext = NATIVES, EXT

    # ------------------------------------------------ name resolution
    def lookup(self, target):
        mod, name = target.split(':')
        m = E.Module.get(mod)
        parts = name.split('.')
        v = self.modval(m, parts[0])
        for p in parts[1:]:
            if isinstance(v, E.ClassRef): v = self.classattr(v, p)
            else: v = self.inner(v, p)
        return v

    def inner(self, f, name):
        """a nested function of a function (closed only over module names)"""
        for s in ast.walk(f.node):
            if isinstance(s, ast.FunctionDef) and s.name == name: return E.Func(s, f.module)
        raise Unsupported('no %s in %s' % (name, f.qual))

    def modval(self, m, name):
        if name in m.vals: return m.vals[name]
        d = m.defs.get(name)
        if d is None:
            if name in self.natives: return self.natives[name]
            if name in ('__name__',): return m.name
            raise E.PyRaise('NameError', name)
        if isinstance(d, ast.FunctionDef): v = E.Func(d, m)
        elif isinstance(d, ast.ClassDef): v = E.ClassRef(d, m)
        elif isinstance(d, tuple) and d[0] == 'import':
            v = E.Module.get(d[1]) if E.Module.exists(d[1]) and d[1].startswith('verypy') else self.external(d[1])
        elif isinstance(d, tuple):
            mod = d[1] or ''
            if mod.startswith('verypy') and E.Module.exists(mod):
                v = E.Module.get(mod + '.' + d[2]) if E.Module.exists(mod + '.' + d[2]) else self.modval(E.Module.get(mod), d[2])
            else: v = self.external(mod + '.' + d[2])
        else:
            fr = Frame(E.Func(ast.Lambda(args=ast.arguments([], [], None, [], [], None, []), body=d.value), m), ('module',))
            self.frames.append(fr)
            try: v = self.eval(d.value, fr)
            finally: self.frames.pop()
            if isinstance(v, (E.HList, E.HObj, E.CDict, E.CSet, E.SSet)): return v
        m.vals[name] = v
        return v

    def external(self, name):
        fn = self.P.proof.contract.externals.get(name)
        if fn is not None:
            self.P.proof.summ_used.add(name + ' (assumed)')
            return E.Native(name, fn)
        if name.startswith('builtins.') and name[9:] in self.natives: return self.natives[name[9:]]
        if name in self.ext: return self.ext[name]
        return E.External(name)

    def classattr(self, c, name, missing=None):
        for s in c.node.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                f = E.Func(s, c.module, cls=c.name)
                f.static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in s.decorator_list)
                return f
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        fr = Frame(E.Func(ast.Lambda(args=ast.arguments([], [], None, [], [], None, []), body=s.value), c.module), ('class',))
                        return self.eval(s.value, fr)
        for b in c.node.bases:
            if isinstance(b, ast.Name) and b.id != 'object':
                bc = self.modval(c.module, b.id)
                if isinstance(bc, E.ClassRef):
                    r = self.classattr(bc, name, UNBOUND)
                    if r is not UNBOUND: return r
        if missing is not None: return missing
        raise E.PyRaise('AttributeError', name)

    # ------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, E.Native): return f.fn(self, args, kw)
        if isinstance(f, E.Bound): return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, E.ClassRef): return self.instantiate(f, args, kw)
        if isinstance(f, E.TypeRef): return self.call(self.natives[f.name], args, kw)
        if isinstance(f, E.Func): return self.call_func(f, args, kw)
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, c, args, kw):
        o = E.HObj(c.name, {})
        o.classref = c
        init = self.classattr(c, '__init__', UNBOUND)
        if init is not UNBOUND: self.call_func(init, [o] + list(args), kw)
        return o

    def call_func(self, f, args, kw):
        summ = self.P.proof.contract.summaries.get(f.qual)
        if summ is not None and self.frames:
            self.P.proof.summ_used.add(f.qual)
            return summ(self, self.bind(f, args, kw))
        if len(self.frames) > 12: raise Unsupported('call depth')
        key = (self.frames[-1].key if self.frames else ()) + (f.name,)
        fr = Frame(f, key)
        fr.closure = f.closure
        fr.vars.update(self.bind(f, args, kw))
        self.P.proof.used.add(f.qual)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda): return self.eval(f.node.body, fr)
            gen = getattr(f.node, 'is_gen', None)
            if gen is None: gen = f.node.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in self.own_nodes(f.node))
            if gen: fr.yields = []
            sig = self.block(f.node.body, fr)
            if gen: return E.HList(Seq.of(fr.yields))
            return sig[1] if sig and sig[0] == 'return' else None
        finally:
            self.frames.pop()

    @staticmethod
    def own_nodes(fn):
        st = list(fn.body)
        while st:
            n = st.pop()
            yield n
            if not isinstance(n, (ast.FunctionDef, ast.Lambda)): st.extend(ast.iter_child_nodes(n))

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args); kw = dict(kw)
        if len(args) > len(names):
            if a.vararg: out[a.vararg.arg] = tuple(args[len(names):]); args = args[:len(names)]
            else: raise E.PyRaise('TypeError', 'too many arguments to ' + f.name)
        elif a.vararg: out[a.vararg.arg] = ()
        for n, v in zip(names, args): out[n] = v
        for n in names[len(args):] + [x.arg for x in a.kwonlyargs]:
            if n in kw: out[n] = kw.pop(n)
        if kw:
            if a.kwarg: out[a.kwarg.arg] = E.CDict(kw)
            else: raise E.PyRaise('TypeError', 'unexpected arguments ' + ','.join(kw))
        dfr = None
        for n, d in list(zip(names[::-1], a.defaults[::-1])) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
            if n not in out:
                if dfr is None: dfr = Frame(E.Func(ast.Lambda(args=ast.arguments([], [], None, [], [], None, []), body=d), f.module), ('default',))
                out[n] = self.eval(d, dfr)
        for n in names:
            if n not in out: raise E.PyRaise('TypeError', 'missing argument ' + n)
        return out

    # ------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            sig = self.stmt(s, fr)
            if sig is not None: return sig
        return None

    def stmt(self, s, fr):
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ('log', 'print'):
                return None                      # tracing output, arguments are effect free
            if isinstance(s.value, ast.Constant): return None
            if isinstance(s.value, ast.Yield):
                fr.yields.append(self.eval(s.value.value, fr)); return None
            self.eval(s.value, fr); return None
        if t is ast.Assign:
            v = self.eval(s.value, fr)
            for tg in s.targets: self.assign(tg, v, fr)
            return None
        if t is ast.AnnAssign:
            if s.value is not None: self.assign(s.target, self.eval(s.value, fr), fr)
            return None
        if t is ast.AugAssign:
            self.augassign(s, fr); return None
        if t is ast.Return:
            return ('return', self.eval(s.value, fr) if s.value is not None else None)
        if t is ast.If:
            if self.is_debug(s.test):
                return self.block(self.debug_body(s, fr), fr)
            c = self.cond(self.eval(s.test, fr))
            if not isinstance(c, bool) and self.P.loopstack and self.mergeable(s) and self.merge_if(s, c, fr): return None
            if self.P.branch(c): return self.block(s.body, fr)
            return self.block(s.orelse, fr)
        if t is ast.For: return self.for_(s, fr)
        if t is ast.While: return self.cut(s, fr, None)
        if t is ast.Break: return BRK
        if t is ast.Continue: return CNT
        if t is ast.Pass: return None
        if t in (ast.FunctionDef,):
            fr.vars[s.name] = E.Func(s, fr.module, closure=fr); return None
        if t is ast.Raise:
            if s.exc is None: raise Unsupported('bare raise')
            e = s.exc
            nm = e.func if isinstance(e, ast.Call) else e
            name = nm.id if isinstance(nm, ast.Name) else '?'
            raise E.PyRaise(name, None)
        if t is ast.Try: return self.try_(s, fr)
        if t is ast.Assert:
            if not self.truth(self.eval(s.test, fr)): raise E.PyRaise('AssertionError')
            return None
        if t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Name): fr.vars.pop(tg.id, None)
                elif isinstance(tg, ast.Subscript):
                    self.delitem(self.eval(tg.value, fr), self.index(tg.slice, fr))
                else: raise Unsupported('del')
            return None
        if t in (ast.Import, ast.ImportFrom):
            for a in s.names:
                if t is ast.ImportFrom:
                    m = s.module or ''
                    if m.startswith('verypy') and E.Module.exists(m): fr.vars[a.asname or a.name] = self.modval(E.Module.get(m), a.name)
                    else: fr.vars[a.asname or a.name] = self.external(m + '.' + a.name)
                else: fr.vars[(a.asname or a.name).split('.')[0]] = self.external(a.name)
            return None
        if t is ast.Global or t is ast.Nonlocal: raise Unsupported('global')
        raise Unsupported('statement %s' % t.__name__)

    # --- conditional assignments are merged into one path (if-conversion)
    def mergeable(self, s):
        r = getattr(s, '_merge', None)
        if r is None:
            def ok(b):
                if isinstance(b, ast.Assign):
                    return all(isinstance(t, ast.Name) for t in b.targets) and not any(
                        isinstance(x, (ast.Call, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.IfExp)) for x in ast.walk(b.value))
                if isinstance(b, ast.If): return True
                if isinstance(b, ast.Expr): return self.is_trace(b) or isinstance(b.value, ast.Constant)
                return isinstance(b, ast.Pass)
            r = s._merge = all(ok(b) for b in s.body + s.orelse) and any(isinstance(b, ast.Assign) for b in s.body)
        return r

    @staticmethod
    def is_trace(b):
        return isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Name) and b.value.func.id in ('log', 'print')

    def merge_if(self, s, c, fr):
        P = self.P
        if P.nomerge:
            r = P.decide(c)
            if r is None: raise E.NoMerge()
            return False
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c) or c.get_id() in P.known: return False

        def attempt():
            if P.decide(c) is not None: return False
            old = dict(fr.vars)
            P.nomerge += 1
            outs = []
            try:
                for body in (s.body, s.orelse):
                    fr.vars = dict(old)
                    sig = self.block(body, fr)
                    if sig is not None: return False
                    outs.append(fr.vars)
                a, b = outs
                new = dict(old)
                wr = []
                for v in set(a) | set(b):
                    x, y = a.get(v, UNBOUND), b.get(v, UNBOUND)
                    if same(x, y): continue
                    if x is UNBOUND or y is UNBOUND: return False
                    new[v] = self.phi(c, x, y)
                    if not same(x, old.get(v, UNBOUND)): wr.append((v, c))
                    if not same(y, old.get(v, UNBOUND)): wr.append((v, z3.Not(c)))
                self._merged = (new, wr)
                return True
            except (E.NoMerge, E.PyRaise, Unsupported, E.PathEnd): return False
            finally:
                P.nomerge -= 1
                fr.vars = old
        if P.replaying:
            flag = P.prefix[len(P.dec)]
            P.dec.append(flag)
            if not flag: return False
            if not attempt(): raise Unsupported('merge replay')
        else:
            n, known = len(P.dec), dict(P.known)
            if attempt(): P.dec.insert(n, True)
            else:
                del P.dec[n:]
                P.dec.append(False)
                P.known = known
                return False
        new, wr = self._merged
        fr.vars = new
        for v, cc in wr: fr.wc.setdefault(v, []).append(cc)
        return True

    def phi(self, c, x, y):
        if (is_num(x) or isinstance(x, bool)) and is_num(y) and is_num(x): return Ite(c, x, y)
        if is_boolv(x) and is_boolv(y): return Ite(c, x, y)
        def flat(v): return list(v.alts) if isinstance(v, E.Phi) else [(True, v)]
        def imm(v):
            if isinstance(v, tuple): return all(imm(e) for e in v)
            return v is None or is_num(v) or is_boolv(v) or isinstance(v, (str, Inf))
        fx = flat(x); fy = flat(y)
        if not all(imm(v) for _, v in fx + fy): raise E.NoMerge()
        return E.Phi([(And(c, cc) if cc is not True else c, v) for cc, v in fx] + fy)

    def resolve(self, v):
        for cc, x in v.alts[:-1]:
            if self.P.branch(cc): return x
        return v.alts[-1][1]

    @staticmethod
    def optional(v):
        """(is it None, the number it is otherwise)"""
        if v is None: return True, 0
        if not isinstance(v, E.Phi): return False, v
        none, val = None, None
        for c, x in reversed(v.alts):
            none = (x is None) if none is None else Ite(c, x is None, none)
            if x is not None:
                if val is None: val = x
                elif not is_num(x) or not is_num(val): val = UNBOUND
                else: val = Ite(c, x, val)
        return none, 0 if val is None else val

    def lazy(self, shape):
        return shape[0] == 'union' and (('unbound',) in shape[1] or self.P.proof.contract.lazy_optionals and ('none',) in shape[1] and all(x[0] in ('none', 'int', 'real') or x[0] == 'const' and is_num(x[1]) for x in shape[1]))

    @staticmethod
    def is_debug(t): return isinstance(t, ast.Name) and t.id == '__debug__'

    def debug_body(self, s, fr):
        """`if __debug__:` keeps only statements that can influence anything outside such blocks"""
        fn = fr.func.node
        used = set()

        def walk(n, dbg):
            for c in ast.iter_child_nodes(n):
                d = dbg or (isinstance(n, ast.If) and self.is_debug(n.test) and c in n.body)
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load) and not d: used.add(c.id)
                walk(c, d)
        walk(fn, False)
        out = []

        def pure(n): return not any(isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)) for x in ast.walk(n))
        keep = True
        names = set()
        for b in s.body: names |= assigned([b])
        if not (names & used):
            ok = all(isinstance(b, (ast.Expr, ast.Assign, ast.If, ast.For)) and pure(b) and self.debug_pure(b) for b in s.body)
            if ok: return []
        for b in s.body:
            out.append(b)
        return out

    DBG_OK = {'log', 'print', 'str', 'routes2sol', 'objf', 'list', 'zip', 'sum', 'len', 'totald', 'join', 'to_solution', 'sorted', 'range', 'enumerate', 'tuple', 'float', 'int', 'min', 'max'}

    def debug_pure(self, b):
        for x in ast.walk(b):
            if isinstance(x, ast.Call):
                n = x.func.id if isinstance(x.func, ast.Name) else (x.func.attr if isinstance(x.func, ast.Attribute) else '?')
                if n not in self.DBG_OK: return False
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if not all(isinstance(y, (ast.Name, ast.Tuple, ast.expr_context)) for y in ast.walk(t)): return False
            if isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Raise)): return False
        return True

    def try_(self, s, fr):
        if s.finalbody: raise Unsupported('finally')
        hs = [h for h in s.handlers]
        try:
            sig = self.block(s.body, fr)
        except E.PyRaise as e:
            for h in hs:
                names = []
                if h.type is None: names = ['Exception']
                else:
                    for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                        names.append(x.id if isinstance(x, ast.Name) else x.attr)
                n = e.name
                while n:
                    if n in names:
                        if h.name: fr.vars[h.name] = E.HObj('exception', {})
                        return self.block(h.body, fr)
                    n = E.EXC_PARENTS.get(n)
            raise
        if sig is None and s.orelse: return self.block(s.orelse, fr)
        return sig

    def assign(self, tg, v, fr):
        if isinstance(tg, ast.Name):
            fr.vars[tg.id] = v
            if not self.P.nomerge: fr.wc[tg.id] = [True]
            return
        if isinstance(tg, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(tg.elts))
            for t, x in zip(tg.elts, vals): self.assign(t, x, fr)
            return
        if isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, fr)
            if not isinstance(o, E.HObj): raise Unsupported('attribute store on %r' % (o,))
            f = dict(o.fields); f[tg.attr] = v; o.fields = f
            return
        if isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, fr)
            self.setitem(o, self.index(tg.slice, fr), v)
            return
        raise Unsupported('assignment target')

    def unpack(self, v, n):
        vals = self.tolist(v)
        if vals is None and v is None: raise E.PyRaise('TypeError', 'unpack None')
        if vals is None: raise Unsupported('unpacking a sequence of unknown length')
        if len(vals) != n: raise E.PyRaise('ValueError', 'unpack')
        return vals

    def tolist(self, v):
        """python list of the elements when the length is concrete, else None"""
        if isinstance(v, tuple): return list(v)
        if isinstance(v, E.HList):
            c = v.seq.concrete()
            if c is not None: return c
            n = v.seq.length()
            for k in range(0, 5):
                if self.P.decide(EQ(n, k)) is True:
                    return [v.seq.at(self.P, i) for i in range(k)]
            return None
        if isinstance(v, E.HObj):
            w = self.iter_obj(v)
            return self.tolist(w)
        if isinstance(v, E.View) and isinstance(v.length, int): return [v.at(i) for i in range(v.length)]
        if isinstance(v, E.CSet): return list(v.s)
        if isinstance(v, E.CDict): return list(v.d)
        return None

    def iter_obj(self, o):
        c = getattr(o, 'classref', None)
        if c is None: c = self.classref_of(o)
        it = self.classattr(c, '__iter__')
        return self.call_func(it, [o], {})

    def classref_of(self, o):
        c = getattr(o, 'classref', None)
        if c is not None: return c
        raise Unsupported('no class for object %s' % o.cls)

    def augassign(self, s, fr):
        tg = s.target
        rhs_first = None
        if isinstance(tg, ast.Name):
            cur = self.getname(tg.id, fr)
            v = self.eval(s.value, fr)
            if isinstance(cur, E.HList) and isinstance(s.op, ast.Add):
                cur.seq = cur.seq.concat(self.seq_of(v)); return
            fr.vars[tg.id] = self.binop(s.op, cur, v)
            fr.wc[tg.id] = [True]
            return
        if isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, fr)
            cur = self.getattr(o, tg.attr)
            v = self.eval(s.value, fr)
            if isinstance(cur, E.HList) and isinstance(s.op, ast.Add):
                cur.seq = cur.seq.concat(self.seq_of(v)); return
            f = dict(o.fields); f[tg.attr] = self.binop(s.op, cur, v); o.fields = f
            return
        if isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, fr)
            i = self.index(tg.slice, fr)
            if isinstance(o, HArr): o.aug(self, i, s.op, self.eval(s.value, fr)); return
            cur = self.getitem(o, i)
            v = self.eval(s.value, fr)
            if isinstance(cur, E.HList) and isinstance(s.op, ast.Add):
                cur.seq = cur.seq.concat(self.seq_of(v)); return
            self.setitem(o, i, self.binop(s.op, cur, v))
            return
        raise Unsupported('augmented target')

    # ------------------------------------------------ loops
    def for_(self, s, fr):
        it = self.eval(s.iter, fr)
        view = self.view(it)
        n = view.length
        if isinstance(n, int) and n <= (self.P.proof.contract.unroll or UNROLL):
            for k in range(n):
                w = self.watch(view)
                self.assign(s.target, view.at(k), fr)
                sig = self.block(s.body, fr)
                if sig is BRK: return None
                if sig is None or sig is CNT: self.watched(w, k)
                if sig is CNT: continue
                if sig is not None: return sig
            return self.block(s.orelse, fr) if s.orelse else None
        return self.cut(s, fr, view)

    def roots(self):
        out = []
        for d, f in enumerate(self.frames):
            for k, v in f.vars.items(): out.append(((d, k), v))
        return out

    def reach(self):
        """heap objects reachable from any frame: list of (access path, object)"""
        seen, out = set(), []
        st = [(p, v) for p, v in reversed(self.roots())]
        while st:
            p, v = st.pop()
            if isinstance(v, tuple):
                st.extend((p + (i,), x) for i, x in enumerate(v)); continue
            if isinstance(v, E.Func) and isinstance(v.closure, Frame): continue
            if isinstance(v, (E.HList, E.HObj, E.HDict, E.CDict, E.CSet, E.SSet, HArr)):
                if id(v) in seen: continue
                seen.add(id(v))
                out.append((p, v))
                if isinstance(v, E.HObj): st.extend((p + (k,), x) for k, x in v.fields.items())
                if isinstance(v, E.HList) and not E.is_table(v.seq): st.extend((p + (i,), q[1]) for i, q in enumerate(v.seq.parts) if q[0] == 'e')
                if isinstance(v, E.CDict): st.extend((p + (k,), x) for k, x in v.d.items())
        return out

    @staticmethod
    def content(v):
        if isinstance(v, E.HList): return E.freeze(v.seq)
        if isinstance(v, E.HObj): return v.fields
        if isinstance(v, E.HDict): return v.seq
        if isinstance(v, E.CDict): return dict(v.d)
        if isinstance(v, E.CSet): return list(v.s)
        if isinstance(v, (HArr, E.SSet)): return v.fn

    @staticmethod
    def restore(v, c):
        if isinstance(v, E.HList): v._seq = E.thaw(c)
        elif isinstance(v, E.HDict): v.seq = c
        elif isinstance(v, E.HObj): v._fields = c
        elif isinstance(v, E.CDict): v.d = dict(c)
        elif isinstance(v, E.CSet): v.s = list(c)
        elif isinstance(v, (HArr, E.SSet)): v.fn = c

    @staticmethod
    def content_same(v, c):
        if isinstance(v, E.HList): return same(v.seq, c) if not E.is_table(v.seq) else same(E.foldcells(E.freeze(v.seq)), E.foldcells(c))
        if isinstance(v, E.HDict): return same(v.seq, c)
        if isinstance(v, E.HObj): return v.fields is c or (set(v.fields) == set(c) and all(same(v.fields[k], c[k]) for k in c))
        if isinstance(v, E.CDict): return v.d == c
        if isinstance(v, E.CSet): return v.s == c
        if isinstance(v, (HArr, E.SSet)): return v.fn is c

    def cut(self, s, fr, view):
        P = self.P
        if len(P.loopstack) > 6: raise Unsupported('loop nesting')
        key = fr.key + (fr.ord.get(id(s), -1),)
        li = P.proof.loops.setdefault(key, E.LoopInfo())
        head_live = fr.live.head[id(s)]
        after_live = fr.live.after[id(s)]
        body_names = assigned(s.body)
        tnames = assigned([ast.Assign(targets=[s.target], value=ast.Constant(0))]) if view is not None else set()
        entry = dict(fr.vars)
        reach0 = self.reach()
        snap0 = [(p, v, self.content(v)) for p, v in reach0]
        by_path = {p: v for p, v, _ in snap0}
        lf = LoopFrame(s, view, entry, li, head_live, key)
        lf.entry_heap = {p: c for p, v, c in snap0}
        P.loopstack.append(lf)
        try:
            env = Env(self, fr, lf)
            lf.next = 0
            for v in sorted(head_live):
                if isinstance(fr.vars.get(v), E.Phi) and v in li.mod and not self.lazy(li.mod[v]):
                    fr.vars[v] = entry[v] = self.resolve(fr.vars[v])
            if view is not None and view.src is not None: src_seq = view.src.seq
            # --- clauses hold on entry
            if not P.ghost and not P.replaying:
                for cl in self.covered(fr, li, by_path, self.clauses(env, li), 'check'):
                    self.check_clause(env, cl, li, 'entry')

            def head():
                for v in sorted(li.mod):
                    if v in head_live:
                        x = P.havoc(v, li.mod[v], True)
                        if x is UNBOUND: fr.vars.pop(v, None)
                        else: fr.vars[v] = x
                for p in sorted(li.heap, key=str):
                    o = by_path.get(p)
                    if o is None: raise Unsupported('loop modifies an object that is not always reachable: %s' % (p,))
                    self.havoc_heap(o, p, li.heap[p])
                k = P.fresh('k', I)
                P.fact(k >= 0)
                if view is not None: P.fact(LE(k, view.length))
                lf.next = k
                for cl in self.covered(fr, li, by_path, self.clauses(env, li), 'assume'): self.assume_clause(env, cl)
                return k

            def iteration(k):
                """run one iteration from the current head state; returns the signal"""
                w = self.watch(view)
                if view is not None:
                    P.fact(LT(k, view.length))
                    self.assign(s.target, view.at(k), fr)
                else:
                    if not self.truth(self.eval(s.test, fr)): raise E.PathEnd()
                sig = self.block(s.body, fr)
                if sig is None or sig is CNT: self.watched(w, k)
                return sig

            # in a ghost iteration an inner iteration only matters when it can leave the loop
            if P.ghost and not li.sigs:
                li.skipped = True
                mode = 1
            else:
                bi = P.proof.loops.get(key + ('break',))
                mode = P.choose(3 if bi is not None and bi.mod else 2)
            if mode == 2:
                # left by a break: one generic state described by the clauses every break establishes
                lf.info = bi
                for v in sorted(bi.mod):
                    x = P.havoc(v, bi.mod[v], True)
                    if x is UNBOUND: fr.vars.pop(v, None)
                    else: fr.vars[v] = x
                    fr.wc[v] = [True]
                for p in sorted(bi.heap, key=str): self.havoc_heap(by_path[p], p, bi.heap[p])
                k = P.fresh('kbreak', I)
                P.fact(k >= 0)
                if view is not None: P.fact(LT(k, view.length))
                lf.next = k
                for cl in self.covered(fr, bi, by_path, self.clauses(env, bi), 'assume'): self.assume_clause(env, cl)
                if P.check(z3.BoolVal(True)) == z3.unsat: raise E.PathEnd()
                self.forget(fr, body_names | tnames, after_live)
                return None
            if mode == 0:
                k = head()
                if view is not None and P.check(tz(LT(k, view.length))) == z3.unsat: raise E.PathEnd()
                hv = dict(fr.vars)
                hh = [(p, v, self.content(v)) for p, v in self.reach()]
                wc0, fr.wc = fr.wc, {}
                try: sig = iteration(k)
                except E.PyRaise:
                    self.leaves(li)
                    raise
                if sig is not None and sig is not CNT: self.leaves(li)
                if sig is BRK and P.proof.contract.join_breaks:
                    self.joinbreak(fr, lf, env, k, by_path, entry, after_live, key)
                    raise E.PathEnd()
                if sig is BRK:
                    lf.next = add(k, 1)
                    for v in set(fr.wc) | set(li.mod): wc0[v] = [True]
                    fr.wc = wc0
                    self.forget(fr, body_names | tnames, after_live)
                    return None
                if sig is not None and sig is not CNT: return sig
                # --- back-edge
                self.backedge(s, fr, li, lf, env, hv, hh, head_live, k, by_path, entry, view)
                raise E.PathEnd()
            # --- exit branch
            groups = self.groups(li, after_live, head_live)
            kept_vars, kept_heap = {}, {}
            for g in groups:
                w = P.choose(2)
                if w == 0:
                    for m in g:
                        if m[0] == 'v': kept_vars[m[1]] = entry.get(m[1], UNBOUND)
                        else: kept_heap[m[1]] = lf.entry_heap[m[1]]
                    continue
                P.ghost += 1
                k = head()
                hv = dict(fr.vars)
                hh = {p: (v, self.content(v)) for p, v in self.reach()}
                wc0, fr.wc = fr.wc, {}
                sig = None
                try:
                    sig = iteration(k)
                except E.PyRaise: raise E.PathEnd()
                if sig is not None and sig is not CNT: raise E.PathEnd()
                wrote = False
                conds = []
                for m in g:
                    if m[0] == 'v':
                        cur = fr.vars.get(m[1], UNBOUND)
                        if not same(cur, hv.get(m[1], UNBOUND)):
                            wrote = True
                            conds.extend(fr.wc.get(m[1], [True]))
                        kept_vars[m[1]] = cur
                    else:
                        v, c = hh[m[1]]
                        if not self.content_same(v, c): wrote = True; conds.append(True)
                        kept_heap[m[1]] = self.content(v)
                if not wrote: raise E.PathEnd()
                P.fact(Or(*conds))
                P.ghost -= 1
                fr.wc = wc0
                fr.vars = dict(entry)
                for p, v, c in snap0: self.restore(v, c)
            # final state
            for v in sorted(li.mod):
                if v in head_live and v not in kept_vars:
                    x = P.havoc(v, li.mod[v], True)
                    if x is UNBOUND: fr.vars.pop(v, None)
                    else: fr.vars[v] = x
            for v in li.mod:
                if v not in kept_vars or not same(kept_vars[v], entry.get(v, UNBOUND)): fr.wc[v] = [True]
            for v, x in kept_vars.items():
                if x is UNBOUND: fr.vars.pop(v, None)
                else: fr.vars[v] = x
            for p in sorted(li.heap, key=str):
                o = by_path.get(p)
                if o is None: raise Unsupported('unreachable heap object at exit')
                if p in kept_heap: self.restore(o, kept_heap[p])
                else: self.havoc_heap(o, p, li.heap[p])
            if view is not None: lf.next = view.length
            else:
                kf = P.fresh('kexit', I); P.fact(kf >= 0); lf.next = kf
            for cl in self.covered(fr, li, by_path, self.clauses(env, li), 'assume'): self.assume_clause(env, cl)
            if view is None:
                if self.truth(self.eval(s.test, fr)): raise E.PathEnd()
            live_t = tnames & after_live
            if live_t:
                if live_t & body_names: raise Unsupported('loop target modified and used after the loop')
                if P.branch(GT(view.length, 0)): self.assign(s.target, view.at(sub(view.length, 1)), fr)
            self.forget(fr, body_names | tnames, after_live)
        finally:
            P.loopstack.pop()
            P.lastcount = lf.next           # how often the loop that was just left ran (ghost, for contracts)
        return self.block(s.orelse, fr) if s.orelse else None

    def joinbreak(self, fr, lf, env, k, by_path, entry, after_live, key):
        P = self.P
        bi = P.proof.loops.setdefault(key + ('break',), E.LoopInfo())
        bi.sigs = True
        restart = False
        for v in sorted(after_live):
            cur = fr.vars.get(v, UNBOUND)
            if isinstance(cur, E.Phi) and not self.lazy(E.shape_of(cur)): cur = fr.vars[v] = self.resolve(cur)
            if same(cur, entry.get(v, UNBOUND)) and v not in bi.mod: continue
            if isinstance(cur, (E.Func, E.ClassRef, E.Module, E.Native)): continue
            sh = E.join(bi.mod.get(v), E.shape_of(cur))
            if bi.mod.get(v) != sh: bi.mod[v] = sh; restart = True
        for p, o in by_path.items():
            if self.content_same(o, lf.entry_heap[p]) and p not in bi.heap: continue
            if not isinstance(o, E.HList) or E.is_table(o.seq): raise Unsupported('break out of a loop that modified a %s' % type(o).__name__)
            sh = E.join(bi.heap.get(p), E.shape_of(o))
            if bi.heap.get(p) != sh: bi.heap[p] = sh; restart = True
        if not bi.mod: raise Unsupported('a break that leaves no trace')
        if restart: raise E.Restart()
        if P.replaying: return
        lf.next, lf.info = k, bi
        for cl in self.covered(fr, bi, by_path, self.clauses(env, bi), 'check'): self.check_clause(env, cl, bi, 'break')

    @staticmethod
    def leaves(li):
        if not li.sigs:
            li.sigs = True
            if li.skipped: raise E.Restart()

    @staticmethod
    def forget(fr, names, keep):
        for n in names:
            if n not in keep: fr.vars.pop(n, None)

    def havoc_heap(self, o, p, shape):
        P = self.P
        if isinstance(o, E.HList):
            if E.is_table(o.seq): self.no_cell_aliases(o)
            nm = '.'.join(map(str, p))
            o._seq = P.fresh_elements(nm, shape[1]) if shape[0] == 'clist' else P.fresh_seq(nm, shape[1])
        elif isinstance(o, E.HDict): o.seq = P.fresh_seq('.'.join(map(str, p)), shape[1])
        elif isinstance(o, E.HObj):
            f = dict(o.fields)
            for k in shape[1]: f[k] = P.havoc(k, shape[1][k])
            o._fields = f
        elif isinstance(o, E.SSet): o.fn = P.fresh_set('.'.join(map(str, p)))
        else: raise Unsupported('loop modifies a %s' % type(o).__name__)

    def no_cell_aliases(self, o):
        """a table is about to be forgotten: nothing else may refer to one of its elements"""
        cells = {id(p[1]) for p in o.seq.parts if p[0] == 'e' and isinstance(p[1], E.Cell)}
        if not cells: return
        for p, v in self.reach():
            if id(v) in cells and v is not o: raise Unsupported('an element of a table is referred to across a loop head')
            if isinstance(v, E.HList) and v is not o and any(q[0] == 'e' and id(q[1]) in cells for q in v.seq.parts):
                raise Unsupported('an element is shared by two lists across a loop head')

    def tab_read(self, o, k):
        """element k (in range) of a list of mutable objects: it becomes an explicit part, so that its identity is kept"""
        P = self.P
        parts = o.seq.parts
        off = 0
        for idx, p in enumerate(parts):
            end = add(off, 1 if p[0] == 'e' else sub(p[3], p[2]))
            if idx == len(parts) - 1 or P.branch(LT(k, end)): break
            off = end
        if p[0] == 'e': return p[1]
        b = p[1]
        i = sub(k, off)
        t = add(p[2], i) if not p[4] else sub(sub(p[3], 1), i)
        v = b.get(t)
        if not isinstance(v, E.Cell): return v
        if isinstance(v, E.HList): c = E.HList(v.seq); c.orig = v.seq
        else:
            c = E.HObj(v.cls, v.fields); c.orig = dict(v.fields)
            c.classref = getattr(v, 'classref', None)
        c.owner = (P, o, b, t)
        rev = p[4]
        pre = ('s', b, p[2], t, False) if not rev else ('s', b, add(t, 1), p[3], True)
        post = ('s', b, add(t, 1), p[3], False) if not rev else ('s', b, p[2], t, True)
        ps = list(parts[:idx])
        if EQ(i, 0) is not True: ps.append(pre)
        ps.append(('e', c))
        if EQ(add(k, 1), end) is not True: ps.append(post)
        o._seq = Seq(tuple(ps) + parts[idx + 1:])
        return c

    def groups(self, li, after_live, head_live):
        mem, dead = [], []
        if not self.P.proof.contract.last_write: return []
        for v in sorted(li.mod):
            if v in head_live: (mem if v in after_live else dead).append(('v', v))
        for p in sorted(li.heap, key=str): mem.append(('h', p))
        pats = sorted(li.patterns, key=lambda f: sorted(map(str, f)))
        by = {}
        for m in mem:
            vec = tuple(m in pt for pt in pats)
            if not pats or all(vec): continue
            by.setdefault(vec, []).append(m)
        # values that are dead after the loop are tracked only along with live ones (clauses mention them)
        for m in dead:
            vec = tuple(m in pt for pt in pats)
            if vec in by: by[vec].append(m)
        return [by[k] for k in sorted(by)]

    def backedge(self, s, fr, li, lf, env, hv, hh, head_live, k, by_path, entry, view):
        P = self.P
        changed = set()
        restart = False
        for v in sorted(head_live):
            cur, h = fr.vars.get(v, UNBOUND), hv.get(v, UNBOUND)
            if cur is UNBOUND and h is UNBOUND: continue
            if same(cur, h): continue
            if isinstance(cur, (E.Func, E.ClassRef, E.Module, E.Native)): continue
            changed.add(('v', v))
            sh = E.join(li.mod.get(v), E.shape_of(entry.get(v, UNBOUND))) if v not in li.mod else li.mod[v]
            sh = E.join(sh, E.shape_of(cur))
            if li.mod.get(v) != sh: li.mod[v] = sh; restart = True
        for p, v, c in hh:
            if self.content_same(v, c): continue
            q = None
            for bp, bv in by_path.items():
                if bv is v: q = bp; break
            if q is None:
                # object created at the head by havoc of a rebound variable: treat as a rebind of that variable
                names = [n for n in head_live if fr.vars.get(n, UNBOUND) is v or hv.get(n, UNBOUND) is v]
                if not names: raise Unsupported('loop modifies an untracked object')
                for n in names:
                    changed.add(('v', n))
                    sh = E.join(li.mod.get(n), E.shape_of(fr.vars.get(n, UNBOUND)))
                    if li.mod.get(n) != sh: li.mod[n] = sh; restart = True
                continue
            if isinstance(v, E.HList):
                sh = E.join(E.join(li.heap.get(q), E.shape_of(E.HList(lf.entry_heap[q]))), E.shape_of(v))
            elif isinstance(v, E.HDict):
                sh = E.join(E.join(li.heap.get(q), E.shape_of(E.HList(lf.entry_heap[q]))), E.shape_of(E.HList(v.seq)))
            elif isinstance(v, E.HObj):
                d = dict(li.heap[q][1]) if q in li.heap else {}
                for f in v.fields:
                    if not same(v.fields[f], c.get(f, UNBOUND)) or f in d:
                        d[f] = E.join(E.join(d.get(f), E.shape_of(lf.entry_heap[q].get(f, UNBOUND))), E.shape_of(v.fields[f]))
                sh = ('fields', d)
            elif isinstance(v, E.SSet): sh = ('sset',)
            else: raise Unsupported('loop modifies a %s' % type(v).__name__)
            changed.add(('h', q))
            if li.heap.get(q) != sh: li.heap[q] = sh; restart = True
        # aliasing: a rebound list/object variable must be the only way to reach its object
        rebound = [v[1] for v in changed if v[0] == 'v' and isinstance(fr.vars.get(v[1]), (E.HList, E.HObj))]
        for n in rebound:
            o = fr.vars[n]
            others = [x for x in head_live if x != n and fr.vars.get(x) is o]
            if others: raise Unsupported('aliasing of %s and %s in a loop' % (n, others[0]))
            if any(v is o for v in by_path.values()): raise Unsupported('%s is rebound to an older object in a loop' % n)
        pat = frozenset(changed)
        maybe = {m for m in changed if m[0] == 'v' and True not in fr.wc.get(m[1], [True])}
        for pt in {pat, pat - maybe}:
            if pt not in li.patterns:
                li.patterns.add(pt); restart = True
        if restart:
            import os
            if os.environ.get('PYVC_TRACE'): print('restart', lf.key, li.mod, li.heap, [sorted(map(str,p)) for p in li.patterns])
            raise E.Restart()
        if P.ghost: return
        if P.replaying: return
        lf.next = add(k, 1)
        for v in sorted(head_live):
            if isinstance(fr.vars.get(v), E.Phi) and v in li.mod and not self.lazy(li.mod[v]):
                fr.vars[v] = self.resolve(fr.vars[v])
        for cl in self.covered(fr, li, by_path, self.clauses(env, li), 'check'): self.check_clause(env, cl, li, 'step')

    # ------------------------------------------------ clauses
    def clauses(self, env, li):
        out = []
        self.P.inclause += 1
        try:
            for cl in self.P.proof.contract.clauses(env):
                if not self.P.proof.skip(cl.name): out.append(cl)
            out.extend(self.auto(env))
        finally: self.P.inclause -= 1
        return [c for c in out if c.name not in li.dropped]

    def kinds(self, fr, li, by_path):
        """the kinds of values of the loop-modified variables: which clauses are generated may depend on them"""
        def kind(v):
            if v is None: return 'none'
            if v is UNBOUND: return 'unbound'
            if isinstance(v, bool) or is_z(v) and z3.is_bool(v): return 'bool'
            if is_num(v) or isinstance(v, Inf): return 'num'
            if isinstance(v, tuple): return tuple(kind(x) for x in v)
            return type(v).__name__
        out = []
        for v, sh in li.mod.items():
            if self.lazy(sh): continue
            out.append((v, kind(fr.vars.get(v, UNBOUND))))
        for p in li.heap:
            o = by_path.get(p)
            if isinstance(o, E.HObj): out.append((p, tuple(sorted((k, kind(x)) for k, x in o.fields.items()))))
        return str(sorted(out, key=str))

    def covered(self, fr, li, by_path, cls, role):
        """clauses may depend on the kinds of values: a clause that is assumed for some kinds must be among those that are
        checked whenever a state of these kinds reaches the loop head; otherwise it is dropped"""
        k, names = self.kinds(fr, li, by_path), {c.name for c in cls}
        rnd = self.P.proof.round
        if li.round != rnd: li.round, li.assumed, li.checked = rnd, {}, {}
        if role == 'assume': li.assumed[k] = li.assumed.get(k, set()) | names
        else: li.checked[k] = li.checked[k] & names if k in li.checked else names
        bad = li.assumed.get(k, set()) - li.checked[k] - li.dropped if k in li.checked else set()
        if bad:
            import os
            if os.environ.get('PYVC_TRACE'): print('not covered', li.key if hasattr(li, 'key') else '', fr.key, sorted(bad), k)
            li.dropped |= bad
            self.P.proof.changed = True
        return [c for c in cls if c.name not in bad]

    def clause_term(self, env, cl):
        self.P.inclause += 1
        env = env.frozen()
        try: return cl.fn(env)
        except (E.Missing, E.PyRaise): return None
        finally:
            self.P.inclause -= 1
            env.dead = True

    def auto(self, env):
        P = self.P
        lf = env.lf
        for v, x in env.numvars():
            e = lf.entry.get(v, UNBOUND)
            if not is_num(e) or isinstance(x, Inf): continue
            yield E.Clause('%s<=entry' % v, lambda env, v=v, e=e: LE(env[v], e))
            yield E.Clause('%s>=entry' % v, lambda env, v=v, e=e: GE(env[v], e))
            isint = isinstance(e, int) or (is_z(e) and z3.is_int(e))
            if isint:
                yield E.Clause('%s==entry+k' % v, lambda env, v=v, e=e: EQ(env[v], add(e, env.next)))
                yield E.Clause('%s==entry-k' % v, lambda env, v=v, e=e: EQ(env[v], sub(e, env.next)))
                if isinstance(lf.node, ast.While):
                    for nd in ast.walk(lf.node.test):
                        if isinstance(nd, ast.Compare) and len(nd.ops) == 1 and isinstance(nd.ops[0], (ast.Lt, ast.Gt, ast.NotEq)):
                            if any(isinstance(z, ast.Call) and not (isinstance(z.func, ast.Name) and z.func.id in ('len', 'abs')) for z in ast.walk(nd)): continue
                            if any(isinstance(z, ast.Subscript) for z in ast.walk(nd)): continue
                            def rel(env, nd=nd):
                                a = self.eval(nd.left, env.fr); b = self.eval(nd.comparators[0], env.fr)
                                return GE(a, b) if isinstance(nd.ops[0], ast.Gt) else LE(a, b)
                            yield E.Clause('relax:' + ast.unparse(nd), rel)
            if len(P.specsums) <= 6:
                for i, S in enumerate(P.specsums):
                    for off in (0, 1):
                        yield E.Clause('%s==entry+S%d[%d..]' % (v, i, off),
                                       lambda env, v=v, e=e, S=S, off=off: EQ(env[v], add(e, S.over(off, add(env.next, off)))))
        heap1 = {p[1]: p for p in lf.info.heap if len(p) == 2}
        for v, x in env.lists():
            e = lf.entry_heap.get(heap1[v]) if v in heap1 else (lf.entry[v].seq if isinstance(lf.entry.get(v), E.HList) else None)
            if e is None: continue
            yield E.Clause('len(%s)==entry' % v, lambda env, v=v, e=e: EQ(env[v].seq.length(), e.length()))

    def check_clause(self, env, cl, li, where):
        P = self.P
        c = self.clause_term(env, cl)
        if c is None: ok = False
        elif isinstance(c, tuple) and c[0] == 'forall':
            _, cond = self.forall_goal(c)
            ok = P.valid(cond)
        else: ok = P.valid(c)
        if ok: P.proof.obls.append(('invariant %s [%s] %s' % ('/'.join(map(str, env.lf.key)), cl.name, where), 'proved', 'z3'))
        else:
            li.dropped.add(cl.name)
            import os
            if os.environ.get('PYVC_TRACE') and os.environ['PYVC_TRACE'] in cl.name:
                print('drop', env.lf.key, cl.name, where, c)
                if c is not None and not isinstance(c, (bool, tuple)): print(P.proof.contract.model_info(P, c)); print(P.solver.assertions())
            li.__dict__.setdefault('dropped_at', {})[cl.name] = where
            P.proof.changed = True

    def forall_goal(self, c):
        """('forall', fn(t) -> (guard, body))"""
        # one arbitrary index per path serves all universal goals: nothing is ever assumed about it alone
        t = self.P.goal_t
        if t is None: t = self.P.goal_t = z3.Int('t!goal')
        for b in list(self.P.triggers): b.touch(t)
        for b, x in (c[3](t) if len(c) > 3 else ()): b.touch(x)
        g, b = c[1](t)
        return t, Implies(g, b)

    def assume_clause(self, env, cl):
        P = self.P
        c = self.clause_term(env, cl)
        if c is None: return
        if isinstance(c, tuple) and c[0] == 'forall':
            # assumed at every index of the trigger bases that is ever read
            fn, bases = c[1], c[2]
            for b in bases:
                P.on_touch(b, fn)
                if b not in P.triggers: P.triggers.append(b)
            return
        P.fact(c)

    # ------------------------------------------------ values
    def truth(self, v):
        return self.P.branch(self.cond(v))

    def cond(self, v):
        if v is None: return False
        if isinstance(v, bool): return v
        if isinstance(v, (int, Fraction)): return v != 0
        if isinstance(v, Inf): return True
        if is_z(v): return v if z3.is_bool(v) else v != 0
        if isinstance(v, tuple): return len(v) > 0
        if isinstance(v, str): return len(v) > 0
        if isinstance(v, (E.HList, E.HDict)): return GT(v.seq.length(), 0)
        if isinstance(v, E.CDict): return len(v.d) > 0
        if isinstance(v, E.CSet): return len(v.s) > 0
        if isinstance(v, E.SSet):
            # not empty: there is a witness; empty: nothing the contract asks about is in it
            P = self.P
            b, w = P.fresh('nonempty', B), P.fresh('member', I)
            P.fact(Implies(b, v.fn(w)))
            for x in list(P.setpoints) + ([P.goal_t] if getattr(P, 'goal_t', None) is not None else []): P.fact(Implies(v.fn(x), b))
            if P.on_member: P.on_member(w)
            return b
        if isinstance(v, E.View): return GT(v.length, 0)
        if isinstance(v, Vec): return GT(v.length, 0)
        if isinstance(v, E.HObj):
            c = self.classref_of(v)
            if self.classattr(c, '__len__', UNBOUND) is not UNBOUND or self.classattr(c, '__bool__', UNBOUND) is not UNBOUND:
                raise Unsupported('truth of an object with __len__')
            return True
        if isinstance(v, (E.Func, E.Native, E.ClassRef, E.TypeRef)): return True
        raise Unsupported('truth of %r' % (v,))

    def getname(self, n, fr):
        if n in fr.vars:
            v = fr.vars[n]
            if isinstance(v, E.Phi):
                v = self.resolve(v)
                if not self.P.proof.contract.lazy_optionals: fr.vars[n] = v
            if v is UNBOUND: raise E.PyRaise('NameError', n)
            return v
        c = getattr(fr, 'closure', None)
        while c is not None:
            if n in c.vars:
                if isinstance(c.vars[n], E.Phi): c.vars[n] = self.resolve(c.vars[n])
                return c.vars[n]
            c = getattr(c, 'closure', None)
        if n in ('True', 'False', 'None'): return {'True': True, 'False': False, 'None': None}[n]
        if n == '__debug__': return False
        if fr.locals is None:
            fn = fr.func.node
            fr.locals = assigned(fn.body) if isinstance(fn.body, list) else set()
        if n in fr.locals and not any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in ast.walk(fr.func.node)):
            raise E.PyRaise('NameError', n)
        return self.modval(fr.module, n)

    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float): return Fraction(str(v)) if v == v and v not in (float('inf'), float('-inf')) else Inf(v < 0)
        if isinstance(v, (int, str, bool)) or v is None: return v
        raise Unsupported('constant %r' % (v,))

    def e_Name(self, e, fr): return self.getname(e.id, fr)
    def e_Tuple(self, e, fr): return tuple(self.elts(e, fr))
    def e_List(self, e, fr): return E.HList(Seq.of(self.elts(e, fr)))
    def e_Set(self, e, fr): return E.CSet(self.elts(e, fr))
    def e_Dict(self, e, fr):
        return E.CDict([(self.eval(k, fr), self.eval(v, fr)) for k, v in zip(e.keys, e.values)])

    def elts(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.tolist(self.eval(x.value, fr))
                if v is None: raise Unsupported('starred')
                out.extend(v)
            else: out.append(self.eval(x, fr))
        return out

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1: return v
            t = self.truth(v)
            if isand and not t: return v if not is_z(v) else (False if z3.is_bool(v) else v)
            if not isand and t: return v if not is_z(v) else (True if z3.is_bool(v) else v)
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not): return Not(self.cond(v)) if not isinstance(self.cond(v), bool) else (not self.cond(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, Inf): return Inf(not v.neg)
            return sub(0, v)
        if isinstance(e.op, ast.UAdd): return v
        raise Unsupported('unary')

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr): return E.Func(e, fr.module, closure=fr)

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b):
        if isinstance(a, (HArr, View2)) or isinstance(b, (HArr, View2)): return HArr.binop(self, op, a, b)
        if is_num(a) and is_num(b) or (is_boolv(a) and is_num(b)) or (is_num(a) and is_boolv(b)) or (is_boolv(a) and is_boolv(b)):
            a = int(a) if isinstance(a, bool) else a
            b = int(b) if isinstance(b, bool) else b
            if isinstance(op, ast.Add): return add(a, b)
            if isinstance(op, ast.Sub): return sub(a, b)
            if isinstance(op, ast.Mult): return mul(a, b)
            if isinstance(op, ast.Div):
                if self.P.branch(EQ(b, 0)): raise E.PyRaise('ZeroDivisionError')
                if not is_z(a) and not is_z(b): return Fraction(a) / Fraction(b)
                return fold(z3.simplify(treal(a) / treal(b)))
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if not (isinstance(b, int) and b > 0): raise Unsupported('integer division by a variable')
                if isinstance(a, int): return a // b if isinstance(op, ast.FloorDiv) else a % b
                if is_z(a) and z3.is_int(a): return a / b if isinstance(op, ast.FloorDiv) else a % b
                raise Unsupported('real floor division')
            if isinstance(op, ast.Pow):
                if isinstance(b, int) and 0 <= b <= 3:
                    r = 1
                    for _ in range(b): r = mul(r, a)
                    return r
                raise Unsupported('power')
            raise Unsupported('operator %s' % type(op).__name__)
        if isinstance(a, Inf) or isinstance(b, Inf):
            if isinstance(op, ast.Add):
                if isinstance(a, Inf) and not isinstance(b, Inf): return a
                if isinstance(b, Inf) and not isinstance(a, Inf): return b
            if isinstance(op, ast.Sub) and isinstance(a, Inf) and not isinstance(b, Inf): return a
            raise Unsupported('infinity arithmetic')
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
            if isinstance(a, str) and isinstance(b, str): return a + b
            if isinstance(a, E.HList) and isinstance(b, E.HList): return E.HList(a.seq.concat(b.seq))
        if isinstance(op, ast.Mult):
            if isinstance(b, E.HList): a, b = b, a
            if isinstance(a, E.HList) and (isinstance(b, int) or (is_z(b) and z3.is_int(b))):
                vals = a.seq.concrete()
                if isinstance(b, int) and b <= UNROLL and vals is not None: return E.HList(Seq.of(vals * max(b, 0)))
                if vals is not None and len(vals) == 1 and (vals[0] is None or is_num(vals[0]) or isinstance(vals[0], bool)):
                    n = smax(b, 0)
                    if self.P.decide(GE(b, 0)) is True: n = b
                    v = vals[0]
                    return E.HList(Seq.base(Base(self.P, 'const', n, lambda t, v=v: v, E.shape_of(v))))
        if isinstance(op, ast.Mod) and isinstance(a, str): return '<formatted>'
        if a is None or b is None: raise E.PyRaise('TypeError', 'None operand')
        raise Unsupported('operator %s on %s and %s' % (type(op).__name__, type(a).__name__, type(b).__name__))

    def e_Compare(self, e, fr):
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(e.left, ast.Name) and isinstance(e.comparators[0], ast.Constant) \
                and e.comparators[0].value is None and isinstance(fr.vars.get(e.left.id), E.Phi):
            r = self.optional(fr.vars[e.left.id])[0]
            return r if isinstance(e.ops[0], ast.Is) else Not(r)
        a = self.eval(e.left, fr)
        acc = True
        for op, y in zip(e.ops, e.comparators):
            b = self.eval(y, fr)
            c = self.compare(op, a, b)
            acc = And(acc, c)
            if acc is False: return False
            a = b
        return acc

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is or t is ast.IsNot:
            if a is None or b is None: r = (a is None) and (b is None)
            elif isinstance(a, E.TypeRef) or isinstance(b, E.TypeRef):
                ty = lambda v: E.TypeRef(v.name) if isinstance(v, E.Native) else v
                r = ty(a) == ty(b)
            elif isinstance(a, bool) or isinstance(b, bool): r = self.eq(a, b)
            else: r = a is b
            return r if t is ast.Is else Not(r)
        if t is ast.Eq: return self.eq(a, b)
        if t is ast.NotEq: return Not(self.eq(a, b))
        if t is ast.In: return self.contains(b, a)
        if t is ast.NotIn: return Not(self.contains(b, a))
        s = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[t]
        if (is_num(a) or isinstance(a, Inf) or is_boolv(a)) and (is_num(b) or isinstance(b, Inf) or is_boolv(b)): return cmp(s, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple): return self.lex(s, a, b)
        if isinstance(a, str) and isinstance(b, str): return cmp(s, a, b) if False else {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[s]
        if a is None or b is None: raise E.PyRaise('TypeError', 'ordering None')
        raise Unsupported('ordering of %s and %s' % (type(a).__name__, type(b).__name__))

    def lex(self, s, a, b):
        if not a or not b:
            return {'<': len(a) < len(b), '<=': len(a) <= len(b), '>': len(a) > len(b), '>=': len(a) >= len(b)}[s]
        st = '<' if s[0] == '<' else '>'
        return Or(cmp(st, a[0], b[0]), And(self.eq(a[0], b[0]), self.lex(s, a[1:], b[1:])))

    def eq(self, a, b):
        if a is None or b is None: return a is None and b is None
        if isinstance(a, str) or isinstance(b, str): return isinstance(a, str) and isinstance(b, str) and a == b
        if (is_num(a) or isinstance(a, Inf) or is_boolv(a)) and (is_num(b) or isinstance(b, Inf) or is_boolv(b)):
            if is_boolv(a) and is_num(b): a = tint(a) if is_z(a) else int(a)
            if is_boolv(b) and is_num(a): b = tint(b) if is_z(b) else int(b)
            return cmp('==', a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return And(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, E.HList) and isinstance(b, E.HList):
            if same(a.seq, b.seq): return True
            for x, y in ((a, b), (b, a)):
                vals = y.seq.concrete()
                if vals is not None:
                    n = EQ(x.seq.length(), len(vals))
                    if self.P.branch(n):
                        return And(*[self.eq(x.seq.at(self.P, i), v) for i, v in enumerate(vals)])
                    return False
            raise Unsupported('comparison of two symbolic lists')
        if isinstance(a, (E.HObj, E.Func, E.ClassRef, E.TypeRef, Mat, Vec)) or isinstance(b, (E.HObj, E.Func, E.ClassRef, E.TypeRef)):
            if isinstance(a, E.TypeRef) or isinstance(b, E.TypeRef): return a == b
            if isinstance(a, E.HObj) and self.classattr(self.classref_of(a), '__eq__', UNBOUND) is not UNBOUND:
                raise Unsupported('__eq__')
            return a is b
        if type(a) != type(b) and (isinstance(a, (tuple, E.HList)) or isinstance(b, (tuple, E.HList))): return False
        raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))

    def contains(self, c, x):
        if isinstance(c, E.CDict): return Or(*[self.eq(k, x) for k in c.d])
        if isinstance(c, E.CSet): return Or(*[self.eq(k, x) for k in c.s])
        if isinstance(c, tuple): return Or(*[self.eq(k, x) for k in c])
        if isinstance(c, E.SSet): return c.fn(x)
        if isinstance(c, E.HList):
            v = c.seq.concrete()
            if v is not None: return Or(*[self.eq(k, x) for k in v])
            return GT(c.seq.sum_of(self.P, count_measure(x)), 0)
        if isinstance(c, E.HDict):
            n = c.seq.sum_of(self.P, count_measure(x))
            self.P.fact(LE(n, 1))           # the keys of a dict are distinct
            return GT(n, 0)
        raise Unsupported('membership in %s' % type(c).__name__)

    # ------------------------------------------------ attributes, items
    def e_Attribute(self, e, fr): return self.getattr(self.eval(e.value, fr), e.attr)

    def getattr(self, o, name):
        if isinstance(o, E.HObj):
            if name in o.fields: return o.fields[name]
            c = self.classref_of(o)
            f = self.classattr(c, name)
            if isinstance(f, E.Func): return f if getattr(f, 'static', False) else E.Bound(f, o)
            return f
        if isinstance(o, E.ClassRef): return self.classattr(o, name)
        if isinstance(o, E.Module): return self.modval(o, name)
        if isinstance(o, E.External): return self.external(o.name + '.' + name)
        if isinstance(o, HArr): return numpy_.attr(self, o, name)
        if isinstance(o, numpy_.DType): return numpy_.dtype_attr(self, o, name)
        from .builtins_ import METHODS, ATTRS
        for ty, d in ATTRS:
            if isinstance(o, ty) and name in d: return d[name](self, o)
        for ty, d in METHODS:
            if isinstance(o, ty) and name in d:
                fn = d[name]
                return E.Native(name, lambda I, a, k, fn=fn, o=o: fn(I, o, a, k))
        if o is None: raise E.PyRaise('AttributeError', 'None.' + name)
        raise Unsupported('attribute %s of %s' % (name, type(o).__name__))

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, fr)
            return E.SliceV(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.index(e.slice, fr))

    def norm(self, k, n):
        """index k into a sequence of length n as a position (raises IndexError when it may be outside)"""
        P = self.P
        if isinstance(k, bool) or not (isinstance(k, int) or (is_z(k) and z3.is_int(k))):
            raise E.PyRaise('TypeError', 'list index')
        if P.__dict__.get('total_mode') is not None: return P.total_mode(k, n)
        if P.branch(LT(k, 0)):
            k2 = add(k, n)
            if not P.branch(GE(k2, 0)): raise E.PyRaise('IndexError')
            return k2
        if not P.branch(LT(k, n)): raise E.PyRaise('IndexError')
        return k

    def getitem(self, o, i):
        P = self.P
        if isinstance(o, Mat):
            if isinstance(i, tuple) and len(i) == 2 and not any(isinstance(x, E.SliceV) for x in i): return o.get(P, i[0], i[1])
            if isinstance(i, E.SliceV) and i.lo in (None, 0) and i.hi is None and i.st in (None, 1): return o
            if o.size is not None and is_num(i):
                if not self.P.branch(And(GE(i, 0), LT(i, o.size))): raise E.PyRaise('IndexError')
                return E.View(o.size, lambda j: o.get(P, i, j))
            raise Unsupported('matrix indexing form')
        if isinstance(o, E.View) and getattr(o, 'rng', None) is None and o.src is None:
            if isinstance(i, E.SliceV) and i.lo in (None, 0) and i.hi is None and i.st in (None, 1): return o
            if is_num(i): return o.at(self.norm(i, o.length))
        if isinstance(o, Vec):
            if isinstance(i, E.SliceV): return self.vec_slice(o, i)
            if isinstance(i, int) and i < 0: raise Unsupported('negative vector index')
            return o.get(P, i)
        if isinstance(o, HArr): return o.getitem(self, i)
        if isinstance(i, E.SliceV):
            if isinstance(o, tuple):
                if any(x is not None and not isinstance(x, int) for x in (i.lo, i.hi, i.st)): raise Unsupported('symbolic tuple slice')
                return o[i.lo:i.hi:i.st]
            if isinstance(o, E.HList): return E.HList(self.slice(o.seq, i))
            raise Unsupported('slice of %s' % type(o).__name__)
        if isinstance(o, tuple):
            if isinstance(i, int):
                if -len(o) <= i < len(o): return o[i]
                raise E.PyRaise('IndexError')
            if not (is_z(i) and z3.is_int(i)): raise Unsupported('symbolic tuple index')
            for j, x in enumerate(o):
                if P.branch(Or(EQ(i, j), EQ(i, j - len(o)))): return x
            raise E.PyRaise('IndexError')
        if isinstance(o, E.HList):
            k = self.norm(i, o.seq.length())
            if E.is_table(o.seq): return self.tab_read(o, k)
            return o.seq.at(P, k)
        if isinstance(o, E.CDict):
            for k in o.d:
                if self.P.branch(self.eq(k, i)): return o.d[k]
            raise E.PyRaise('KeyError')
        if isinstance(o, E.HDict):
            if not self.P.branch(self.contains(o, i)): raise E.PyRaise('KeyError')
            return o.val
        if isinstance(o, E.HObj):
            f = self.classattr(self.classref_of(o), '__getitem__')
            return self.call_func(f, [o, i], {})
        if o is None: raise E.PyRaise('TypeError', 'None is not subscriptable')
        raise Unsupported('subscript of %s' % type(o).__name__)

    def vec_slice(self, o, i):
        P = self.P
        if i.st not in (None, 1) or i.hi is not None: raise Unsupported('vector slice')
        lo = 0 if i.lo is None else i.lo
        b = Base(P, o.name, o.length, lambda t, o=o: o.get(P, t), ('real',))
        return E.HList(Seq([('s', b, lo, o.length, False)]))

    def clamp(self, k, n, dflt):
        P = self.P
        if k is None: return dflt
        if P.branch(LT(k, 0)):
            k = add(k, n)
            if P.branch(LT(k, 0)): return 0
            return k
        if P.branch(GT(k, n)): return n
        return k

    def slice(self, seq, s):
        P = self.P
        st = 1 if s.st is None else s.st
        n = seq.length()
        if st == 1:
            lo = self.clamp(s.lo, n, 0)
            hi = self.clamp(s.hi, n, n)
            if P.branch(GE(lo, hi)): return Seq()
            return seq.slice(P, lo, hi)
        if st == -1:
            # positions lo, lo-1, ..., hi+1
            n1 = sub(n, 1)
            if s.lo is None: lo = n1
            else:
                lo = s.lo
                if P.branch(LT(lo, 0)):
                    lo = add(lo, n)
                    if P.branch(LT(lo, 0)): lo = -1
                elif P.branch(GT(lo, n1)): lo = n1
            if s.hi is None: hi = -1
            else:
                hi = s.hi
                if P.branch(LT(hi, 0)):
                    hi = add(hi, n)
                    if P.branch(LT(hi, 0)): hi = -1
                elif P.branch(GT(hi, n1)): hi = n1
            if P.branch(GE(hi, lo)): return Seq()
            return seq.slice(P, add(hi, 1), add(lo, 1)).reversed()
        raise Unsupported('slice step %r' % (st,))

    def setitem(self, o, i, v):
        P = self.P
        if isinstance(o, E.HList):
            if isinstance(i, E.SliceV):
                if i.lo not in (None, 0) or i.hi is not None or i.st not in (None, 1): raise Unsupported('slice assignment')
                o.seq = self.seq_of(v); return
            k = self.norm(i, o.seq.length())
            o.seq = o.seq.store(P, k, v); return
        if isinstance(o, E.CDict):
            for k in list(o.d):
                if P.branch(self.eq(k, i)): o.d = {**o.d, k: v}; return
            o.d = {**o.d, i: v}; return
        if isinstance(o, E.HDict):
            if not same(o.val, v):
                if o.seq.concrete() != []: raise Unsupported('dict with different values')
                o.val = v
            if P.branch(self.contains(o, i)): return
            o.seq = o.seq.concat(Seq.of([i])); return
        if isinstance(o, HArr): o.setitem(self, i, v); return
        if isinstance(o, (Mat, Vec)):
            P.oblige('C19:distances-and-demands-not-written', False)
            raise E.PathEnd()
        if o is None: raise E.PyRaise('TypeError', 'item store on None')
        raise Unsupported('item store on %s' % type(o).__name__)

    def delitem(self, o, i):
        P = self.P
        if isinstance(o, E.HList):
            if isinstance(i, E.SliceV): raise Unsupported('slice deletion')
            k = self.norm(i, o.seq.length())
            f, r = o.seq.split(P, k)
            _, r2 = r.split(P, 1)
            o.seq = f.concat(r2); return
        if isinstance(o, E.HDict):
            if not P.branch(self.contains(o, i)): raise E.PyRaise('KeyError')
            self.dict_remove(o, i); return
        if isinstance(o, E.CDict):
            for k in list(o.d):
                if P.branch(self.eq(k, i)):
                    d = dict(o.d); del d[k]; o.d = d; return
            raise E.PyRaise('KeyError')
        raise Unsupported('deletion')

    def dict_remove(self, o, x):
        """remove key x, known to be present: some position w holds it (keys are distinct)"""
        P = self.P
        w = P.fresh('pos', I)
        n = o.seq.length()
        P.fact(And(GE(w, 0), LT(w, n)))
        P.fact(EQ(o.seq.at(P, w), x))
        f, r = o.seq.split(P, w)
        _, r2 = r.split(P, 1)
        o.seq = f.concat(r2)

    # ------------------------------------------------ sequences / iteration
    def seq_of(self, v):
        if isinstance(v, E.HList): return v.seq
        l = self.tolist(v)
        if l is not None: return Seq.of(l)
        if isinstance(v, E.HDict): return v.seq
        if isinstance(v, E.View):
            if getattr(v, 'seq', None) is not None: return v.seq
            return Seq.base(Base(self.P, 'view', v.length, v.at, getattr(v, 'eshape', None) or E.widen(E.shape_of(v.at(self.P.fresh('sh', I))))))
        if isinstance(v, Vec): return Seq.base(Base(self.P, v.name, v.length, lambda t: v.get(self.P, t), ('real',)))
        raise Unsupported('sequence from %s' % type(v).__name__)

    def view(self, v):
        w = self.view1(v)
        if not isinstance(v, (E.View, tuple, str, E.HObj)): w.watch = (v,) + tuple(getattr(v, 'watch', ()))
        return w

    def view1(self, v):
        if isinstance(v, E.View): return v
        if isinstance(v, tuple): return E.View(len(v), lambda k: self.getitem(v, k))
        if isinstance(v, (E.HList, E.HDict)):
            s = v.seq
            c = s.concrete()
            if c is not None: return E.View(len(c), lambda k: c[k] if isinstance(k, int) else s.at(self.P, k), v)
            if isinstance(v, E.HList) and E.is_table(s): return E.View(s.length(), lambda k: self.tab_read(v, k), v)
            return E.View(s.length(), lambda k: s.at(self.P, k), v)
        if isinstance(v, E.CSet): return E.View(len(v.s), lambda k: v.s[k])
        if isinstance(v, E.CDict):
            ks = list(v.d)
            return E.View(len(ks), lambda k: ks[k])
        if isinstance(v, E.HObj): return self.view(self.iter_obj(v))
        if isinstance(v, Vec): return E.View(v.length, lambda k: v.get(self.P, k))
        if isinstance(v, str): return E.View(len(v), lambda k: v[k])
        if v is None: raise E.PyRaise('TypeError', 'None is not iterable')
        raise Unsupported('iteration over %s' % type(v).__name__)

    # a container that is iterated over: what its iterator would notice of a change
    @staticmethod
    def structure(v):
        if isinstance(v, (E.HList, E.HDict)): return v.seq
        if isinstance(v, E.CDict): return tuple(v.d)
        if isinstance(v, E.CSet): return tuple(v.s)

    def watch(self, view): return [(v, self.structure(v)) for v in view.watch] if view is not None else ()

    def watched(self, w, k):
        """after the iteration with index k: the rest of the iteration is as if the containers had been copied beforehand"""
        for v, s0 in w:
            s = self.structure(v)
            if same(s, s0): continue
            if isinstance(v, (E.CDict, E.CSet)):
                if len(s) != len(s0): raise E.PyRaise('RuntimeError', 'changed size during iteration')
                if s == s0: continue
            elif isinstance(v, E.HDict):
                if self.P.branch(NE(s.length(), s0.length())): raise E.PyRaise('RuntimeError', 'dictionary changed size during iteration')
            elif isinstance(v, E.HList) and EQ(s.length(), s0.length()) is True:
                if E.is_table(s): continue
                a, b = s.concrete(), s0.concrete()
                if a is not None and b is not None and isinstance(k, int): a, b = tuple(a[k + 1:]), tuple(b[k + 1:])
                else: a, b = (x.split(self.P, add(k, 1))[1] for x in (s, s0))
                if same(a, b): continue
            raise Unsupported('change of a container that is being iterated over')

    # ------------------------------------------------ comprehensions
    def e_ListComp(self, e, fr): return E.HList(self.comp(e, fr))
    def e_GeneratorExp(self, e, fr):
        it = e.generators[0]
        if len(e.generators) == 1:
            view = self.view(self.eval(it.iter, fr))
            if not isinstance(view.length, int) or view.length > UNROLL: return GenView(self, e, fr, view)
        return E.HList(self.comp(e, fr))
    def e_SetComp(self, e, fr):
        c = self.comp(e, fr).concrete()
        if c is None: raise Unsupported('symbolic set comprehension')
        return E.CSet(c)

    def e_DictComp(self, e, fr):
        g = e.generators
        if len(g) != 1: raise Unsupported('dict comprehension')
        vs = self.tolist(self.eval(g[0].iter, fr))
        if vs is None: raise Unsupported('symbolic dict comprehension')
        d = E.CDict()
        sv = dict(fr.vars)
        for v in vs:
            self.assign(g[0].target, v, fr)
            if all(self.truth(self.eval(c, fr)) for c in g[0].ifs): self.setitem(d, self.eval(e.key, fr), self.eval(e.value, fr))
        fr.vars = sv
        return d

    def comp(self, e, fr):
        out = []
        sv = dict(fr.vars)

        def rec(gi):
            if gi == len(e.generators):
                out.append(self.eval(e.elt, fr)); return
            g = e.generators[gi]
            vs = self.tolist_iter(self.eval(g.iter, fr))
            for v in vs:
                self.assign(g.target, v, fr)
                if all(self.truth(self.eval(c, fr)) for c in g.ifs): rec(gi + 1)
        if len(e.generators) == 1:
            g = e.generators[0]
            it = self.eval(g.iter, fr)
            view = self.view(it)
            if not isinstance(view.length, int) or view.length > UNROLL:
                if g.ifs or hasattr(view, 'bounds') or self.loops_in(e.elt, fr): return self.comp_loop(e, fr)
                gv = GenView(self, e, fr, view)
                if isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name) and e.elt.id == g.target.id:
                    return self.seq_of(it)
                return gv.as_seq()
        try: rec(0)
        except SymbolicComp:
            fr.vars = sv
            return self.comp_loop(e, fr)
        fr.vars = sv
        return Seq.of(out)

    def loops_in(self, e, fr):
        """the expression is a call of a function (without a summary) that has while loops"""
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name)): return False
        f = self.eval(e.func, fr)
        if not isinstance(f, E.Func) or f.qual in self.P.proof.contract.summaries: return False
        return any(isinstance(x, ast.While) for x in ast.walk(f.node))

    def comp_loop(self, e, fr):
        """a comprehension over sequences of unknown length is the loop that appends its elements"""
        hit = _comp_cache.get(id(e))
        if hit is None:
            nm = '.comp%d' % fr.ord.get(id(e), 0)
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), 'append', ast.Load()), [e.elt], []))]
            for g in reversed(e.generators):
                for c in reversed(g.ifs): body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            body = [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load()))] + body
            for x in body: ast.fix_missing_locations(ast.copy_location(x, e))
            m = ast.Module(body + [ast.Return(ast.Name(nm, ast.Load()))], [])
            loops = [x for x in ast.walk(ast.Module(body, [])) if isinstance(x, ast.For)]
            hit = _comp_cache[id(e)] = (nm, body, Live(m), loops, e)
        nm, body, lv, loops, _ = hit
        fr.live.head.update(lv.head); fr.live.after.update(lv.after)
        for i, x in enumerate(loops): fr.ord[id(x)] = ('comp', fr.ord.get(id(e), 0), i)
        sv = dict(fr.vars)
        self.block(body, fr)
        out = fr.vars[nm].seq
        fr.vars = sv
        return out

    def tolist_iter(self, v):
        vw = self.view(v)
        if not isinstance(vw.length, int): raise SymbolicComp('nested comprehension over a symbolic sequence')
        return [vw.at(i) for i in range(vw.length)]

    # ------------------------------------------------ call expression
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id in ('log', 'print') : return None
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.tolist(self.eval(a.value, fr))
                if v is None: raise Unsupported('starred call')
                args.extend(v)
            else: args.append(self.eval(a, fr))
        kw = {k.arg: self.eval(k.value, fr) for k in e.keywords}
        return self.call(f, args, kw)

    def e_JoinedStr(self, e, fr): return '<formatted>'


class GenView:
    """generator expression over a symbolic view; the element expression must be branch free"""
    def __init__(self, interp, e, fr, view):
        self.I, self.e, self.fr, self.view = interp, e, fr, view
        g = e.generators[0]
        P = interp.P
        # one arbitrary element, with all run-time checks
        k = P.fresh('gk', I)
        self.k = k
        self.signs = []
        sv = dict(fr.vars)
        nonempty = P.branch(GT(view.length, 0)) if not isinstance(view.length, int) else view.length > 0
        self.empty = not nonempty
        if nonempty:
            P.fact(And(k >= 0, LT(k, view.length)))
            P.nofork += 1
            interp.assign(g.target, view.at(k), fr)
            self.cond0 = And(*[interp.cond(interp.eval(c, fr)) for c in g.ifs])
            self.elt0 = interp.eval(e.elt, fr)
            P.nofork -= 1
        fr.vars = sv
        self.fvars = dict(fr.vars)

    def at(self, t):
        """(condition, element) at index t, in range by assumption"""
        I_, fr = self.I, self.fr
        g = self.e.generators[0]
        sv = fr.vars
        fr.vars = dict(self.fvars)
        try:
            I_.assign(g.target, self.view.at(t), fr)
            c = And(*[I_.cond(I_.eval(c, fr)) for c in g.ifs])
            return c, I_.eval(self.e.elt, fr)
        finally:
            fr.vars = sv

    def as_seq(self):
        if self.empty: return Seq()
        sh = E.widen(E.shape_of(self.elt0))
        k0 = self.k

        def get(t):
            # substitute the skolem index in the element term
            return subst(self.elt0, k0, tz(t))
        return Seq.base(Base(self.I.P, 'comp', self.view.length, get, sh))

    def candidates(self):
        """edge and element sums of the lists the summand mentions"""
        ls, ms = [], []
        for x in ast.walk(self.e.elt):
            if not isinstance(x, ast.Name): continue
            try: v = self.I.getname(x.id, self.fr)
            except E.PyRaise: continue
            if isinstance(v, E.HList) and len(v.seq.parts) == 1 and v.seq.parts[0][0] == 's' and v.seq.parts[0][2] == 0 and not v.seq.parts[0][4]: ls.append(v.seq.parts[0][1])
            elif isinstance(v, (Mat, Vec)): ms.append(v)
        if isinstance(self.view.src, E.HList):
            p = self.view.src.seq.parts
            if len(p) == 1 and p[0][0] == 's' and p[0][2] == 0 and not p[0][4]: ls.append(p[0][1])
        out = []
        for b in ls:
            for m in ms:
                if isinstance(m, Mat): S = b.rsum(('edge', m.name), lambda t, b=b, m=m: m.get(self.I.P, b.raw(z3.simplify(tz(t) - 1)), b.raw(t)), m.nonneg, R)
                else: S = m.measure().on_base(self.I.P, b)
                if S not in out: out.append(S)
        return [S for S in out if S not in self.I.P.specsums]

    def sum(self):
        """sum-congruence: match the summand against the prefix sums of the specification"""
        P = self.I.P
        if self.empty: return 0
        k = self.k
        x = Ite(self.cond0, self.elt0, Fraction(0) if not isinstance(self.elt0, int) else 0)
        n = self.view.length
        for S in list(P.specsums) + self.candidates():
            for off in (0, 1, -1):
                if P.decide(EQ(_m(S.elt(z3.simplify(k + off))), x)) is True:
                    return S.over(off, add(n, off))
        if self.view.src is not None and not self.e.generators[0].ifs:
            pass
        S = P.range_sum(('gen', self.fr.key, P.nfresh), lambda t: subst(x, k, tz(t)), False, R)
        return S.over(0, n)


def subst(v, k, t):
    if isinstance(v, tuple): return tuple(subst(x, k, t) for x in v)
    if isinstance(v, E.HList):
        if any(p[0] != 'e' for p in v.seq.parts): raise Unsupported('comprehension of composed lists')
        o = E.HList(Seq([('e', subst(p[1], k, t)) for p in v.seq.parts]))
        o.borrowed = True
        return o
    if isinstance(v, E.HObj):
        o = E.HObj(v.cls, {f: subst(x, k, t) for f, x in v.fields.items()})
        o.classref = getattr(v, 'classref', None); o.borrowed = True
        return o
    if is_z(v): return z3.substitute(v, (k, t))
    return v


from . import numpy_  # noqa: E402
from .numpy_ import HArr, View2  # noqa: E402
from .engine import same  # noqa: E402
