"""Deductive verifier for a subset of Python: symbolic execution of the CURRENT source in /repo with
loop invariants, one path at a time (see ../DESIGN.md section 2).

Every path re-executes the function from its entry; the decisions taken so far are replayed.  A loop is
cut at its head: the state there is forgotten except for the invariant clauses; one arbitrary iteration
is verified (branch A) and execution continues behind the loop (branch B).
"""
import ast, os, time
from fractions import Fraction
import z3
from .values import *
from .values import _m
from .live import Live, assigned

REPO = os.environ.get('VERIF_REPO', '/repo')


class PathEnd(Exception): pass
class Restart(Exception): pass
class PyRaise(Exception):
    def __init__(self, name, value=None):
        Exception.__init__(self, name); self.name, self.value = name, value
class Missing(Exception): pass
class Abort(Exception): pass


EXC_PARENTS = {'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception',
               'ValueError': 'Exception', 'TypeError': 'Exception', 'AttributeError': 'Exception',
               'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'AssertionError': 'Exception',
               'StopIteration': 'Exception', 'NameError': 'Exception', 'NotImplementedError': 'RuntimeError',
               'RuntimeError': 'Exception', 'ImportError': 'Exception'}


# ------------------------------------------------------------------ modules
class Module:
    cache = {}

    def __init__(self, name):
        self.name = name
        p = os.path.join(REPO, *name.split('.'))
        p = os.path.join(p, '__init__.py') if os.path.isdir(p) else p + '.py'
        self.path = p
        with open(p, encoding='utf-8') as f: self.src = f.read()
        self.tree = ast.parse(self.src)
        self.defs = {}
        self._scan(self.tree.body)
        self.vals = {}

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)): self.defs[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name): self.defs[t.id] = s
            elif isinstance(s, ast.Import):
                for a in s.names: self.defs[(a.asname or a.name).split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names: self.defs[a.asname or a.name] = ('from', s.module, a.name)
            elif isinstance(s, ast.If): self._scan(s.body); self._scan(s.orelse)
            elif isinstance(s, ast.Try): self._scan(s.body)

    @classmethod
    def get(cls, name):
        if name not in cls.cache: cls.cache[name] = cls(name)
        return cls.cache[name]

    @staticmethod
    def exists(name):
        p = os.path.join(REPO, *name.split('.'))
        return os.path.exists(p + '.py') or os.path.exists(os.path.join(p, '__init__.py'))


class Func:
    def __init__(self, node, module, closure=None, cls=None):
        self.node, self.module, self.closure, self.cls = node, module, closure, cls
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = module.name + ':' + ((cls + '.') if cls else '') + self.name
class Bound:
    def __init__(self, func, self_): self.func, self.self_ = func, self_
class Native:
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return '<native %s>' % self.name
class External:
    def __init__(self, name): self.name = name
    def __repr__(self): return '<external %s>' % self.name
class ClassRef:
    def __init__(self, node, module): self.node, self.module, self.name = node, module, node.name
class TypeRef:
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, TypeRef) and o.name == self.name
    def __hash__(self): return hash(self.name)


class Cell:
    """mutable object that may live in a symbolic table (list of lists or of objects).  `owner` = (path, table, base,
    index) for an element materialised from a table; `borrowed` for one read without materialising it."""
    owner = None
    borrowed = False
    def mutated(self):
        if self.borrowed: raise Unsupported('modification of a table element that was read through an iteration')
        if self.owner is not None:
            P, tab, b, t = self.owner
            for _, v in P.interp.reach():
                if isinstance(v, HList) and v is not tab and any(p[0] == 's' and p[1] is b for p in v._seq.parts):
                    raise Unsupported('modification of an element that two tables share')


class HList(Cell):
    def __init__(self, seq): self._seq = seq
    @property
    def seq(self): return self._seq
    @seq.setter
    def seq(self, s):
        if self.borrowed or self.owner is not None: self.mutated()
        self._seq = s
class HObj(Cell):
    def __init__(self, cls, fields): self.cls, self._fields = cls, dict(fields)
    @property
    def fields(self): return self._fields
    @fields.setter
    def fields(self, f):
        if self.borrowed or self.owner is not None: self.mutated()
        self._fields = f


def cellular(sh):
    """elements of this shape are mutable objects"""
    if sh is None: return False
    if sh[0] == 'union': return any(cellular(x) for x in sh[1])
    return sh[0] in ('list', 'obj')


def is_table(seq):
    return any(p[0] == 's' and cellular(p[1].eshape) for p in seq.parts)


class Frozen:
    """content of a cell at some moment"""
    def __init__(self, obj, content): self.obj, self.content = obj, content


def snapshot(seq):
    """the same content with the cells of a table replaced by read-only copies"""
    if not any(p[0] == 'e' and isinstance(p[1], (HList, HObj)) for p in seq.parts): return seq
    out = []
    for p in seq.parts:
        if p[0] == 'e' and isinstance(p[1], HList):
            v = HList(snapshot(p[1].seq)); v.borrowed = True
            p = ('e', v)
        elif p[0] == 'e' and isinstance(p[1], HObj):
            v = HObj(p[1].cls, {k: HList(snapshot(x.seq)) if isinstance(x, HList) else SSet(x.fn) if isinstance(x, SSet) else x for k, x in p[1].fields.items()})
            if any(isinstance(x, (HObj, CDict, CSet, HDict)) for x in p[1].fields.values()): raise Unsupported('snapshot of an object')
            v.classref, v.borrowed = getattr(p[1], 'classref', None), True
            p = ('e', v)
        out.append(p)
    return Seq(out)


def freeze(seq):
    if not is_table(seq): return seq
    out = []
    for p in seq.parts:
        if p[0] == 'e' and isinstance(p[1], HList): out.append(('e', Frozen(p[1], freeze(p[1].seq))))
        elif p[0] == 'e' and isinstance(p[1], HObj): out.append(('e', Frozen(p[1], dict(p[1].fields))))
        else: out.append(p)
    return Seq(out)


def thaw(seq):
    if not any(p[0] == 'e' and isinstance(p[1], Frozen) for p in seq.parts): return seq
    out = []
    for p in seq.parts:
        if p[0] == 'e' and isinstance(p[1], Frozen):
            o = p[1].obj
            if isinstance(o, HList): o._seq = thaw(p[1].content)
            else: o._fields = dict(p[1].content)
            out.append(('e', o))
        else: out.append(p)
    return Seq(out)


def foldcells(seq):
    """write unmodified materialised cells back as slices of their table's base (for comparison only)"""
    if not any(p[0] == 'e' and isinstance(p[1], Frozen) for p in seq.parts): return seq
    out = Seq()
    for p in seq.parts:
        if p[0] == 'e' and isinstance(p[1], Frozen) and p[1].obj.owner is not None:
            _, _, b, t = p[1].obj.owner
            c, orig = p[1].content, p[1].obj.orig
            ok = same(c, orig) if isinstance(c, Seq) else set(c) == set(orig) and all(same(c[k], orig[k]) for k in c)
            if ok: p = ('s', b, t, add(t, 1), False)
        out = out.concat(Seq([p]))
    return out
class HDict:
    """dict with a (symbolic) sequence of distinct keys; values are not tracked (all equal to `val`)"""
    def __init__(self, seq, val=None): self.seq, self.val = seq, val
class CDict:
    """dict with concrete keys"""
    def __init__(self, items=()): self.d = dict(items)
class CSet:
    """set of concrete or symbolic values held as list without duplicates checks (concrete keys only)"""
    def __init__(self, items=()): self.s = list(items)
class SSet:
    """a set (of integers, when a loop changes it) given by its membership predicate"""
    def __init__(self, fn): self.fn = fn
    @property
    def seq(self): return getattr(self.fn, 'seq', None)      # set(sequence): membership is membership in the sequence
class View:
    """something iterable with a (possibly symbolic) length"""
    def __init__(self, length, at, src=None, watch=()): self.length, self.at, self.src, self.watch = length, at, src, tuple(watch)
class Phi:
    """value of a variable after a conditional assignment: first alternative whose condition holds"""
    def __init__(self, alts): self.alts = tuple(alts)
class NoMerge(Exception): pass
class SliceV:
    def __init__(self, lo, hi, st): self.lo, self.hi, self.st = lo, hi, st


# ------------------------------------------------------------------ shapes
FIXED = False       # lists of a known number of objects keep their length (Contract.fixed_lists)


def shape_of(v):
    if isinstance(v, Phi):
        s = None
        for _, x in v.alts: s = join(s, shape_of(x))
        return s
    if isinstance(v, Frozen): return shape_of(HList(thawed(v.content)) if isinstance(v.content, Seq) else HObj(v.obj.cls, v.content))
    if v is None: return ('none',)
    if v is UNBOUND: return ('unbound',)
    if isinstance(v, bool): return ('const', v)
    if isinstance(v, (str, Inf)): return ('const', v)
    if isinstance(v, int): return ('const', v)
    if isinstance(v, Fraction): return ('const', v)
    if is_z(v):
        return ('bool',) if z3.is_bool(v) else (('int',) if z3.is_int(v) else ('real',))
    if isinstance(v, tuple): return ('tuple', tuple(shape_of(x) for x in v))
    if isinstance(v, HList):
        es = None
        if FIXED and v.seq.parts and all(p[0] == 'e' and isinstance(p[1], (HObj, Frozen)) for p in v.seq.parts):
            return ('clist', tuple(shape_of(p[1]) for p in v.seq.parts))
        for p in v.seq.parts:
            s = shape_of(p[1]) if p[0] == 'e' else p[1].eshape
            es = s if es is None else join(es, s)
        return ('list', widen(es) if es is not None else None)
    if isinstance(v, HObj): return ('obj', v.cls, tuple(sorted((k, shape_of(x)) for k, x in v.fields.items())))
    if isinstance(v, SSet): return ('sset',)
    return ('opaque', v)


def thawed(seq): return seq


def widen(s):
    if s[0] == 'const':
        if isinstance(s[1], bool): return ('bool',)
        if isinstance(s[1], int): return ('int',)
        if isinstance(s[1], Fraction): return ('real',)
    if s[0] == 'tuple': return ('tuple', tuple(widen(x) for x in s[1]))
    return s


def join(a, b):
    if a is None: return b
    if b is None: return a
    if a == b: return a
    wa, wb = widen(a), widen(b)
    if wa == wb: return wa
    if {wa, wb} == {('int',), ('real',)}: return ('real',)
    if {wa, wb} <= {('int',), ('real',), ('bool',)}: raise Unsupported('join of bool and number')
    if wa[0] == wb[0] == 'tuple' and len(wa[1]) == len(wb[1]):
        return ('tuple', tuple(join(x, y) for x, y in zip(a[1], b[1])))
    if wa[0] == wb[0] == 'clist' and len(wa[1]) == len(wb[1]): return ('clist', tuple(join(x, y) for x, y in zip(a[1], b[1])))
    if 'clist' in (wa[0], wb[0]) and {wa[0], wb[0]} <= {'clist', 'list'}: raise Unsupported('a list of objects changes its length in a loop')
    if wa[0] == wb[0] == 'list': return ('list', join(wa[1], wb[1]))
    if wa[0] == wb[0] == 'obj' and wa[1] == wb[1] and [k for k, _ in wa[2]] == [k for k, _ in wb[2]]:
        return ('obj', wa[1], tuple((k, join(x, y)) for (k, x), (_, y) in zip(wa[2], wb[2])))
    if wa[0] == wb[0] != 'union': raise Unsupported('join of two kinds of %s' % wa[0])
    # union
    alts = []
    for s in (a, b):
        for t in (s[1] if s[0] == 'union' else (s,)):
            for i, u in enumerate(alts):
                try:
                    if widen(u)[0] == widen(t)[0] or {widen(u), widen(t)} == {('int',), ('real',)}:
                        alts[i] = join(u, t); break
                except Unsupported: pass
            else: alts.append(t)
    if len(alts) == 1: return alts[0]
    return ('union', tuple(alts))


def same(a, b):
    """identical for the purpose of 'not modified'"""
    if a is b: return True
    if is_z(a) and is_z(b): return a.eq(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Seq) and isinstance(b, Seq):
        return len(a.parts) == len(b.parts) and all(
            p[0] == q[0] and all(same(x, y) for x, y in zip(p[1:], q[1:])) for p, q in zip(a.parts, b.parts))
    if isinstance(a, (int, Fraction, str, Inf)) and type(a) == type(b): return a == b
    if isinstance(a, View) and isinstance(b, View): return a is b
    if isinstance(a, Frozen) and isinstance(b, Frozen):
        if a.obj is not b.obj: return False
        x, y = a.content, b.content
        return same(x, y) if isinstance(x, Seq) else set(x) == set(y) and all(same(x[k], y[k]) for k in x)
    return False


# ------------------------------------------------------------------ proof bookkeeping
class Clause:
    """candidate invariant: fn(env) -> bool term, or ('forall', HList, pred).  Missing -> not applicable"""
    def __init__(self, name, fn): self.name, self.fn = name, fn


class LoopInfo:
    def __init__(self):
        self.mod = {}          # var -> shape
        self.heap = {}         # access path -> True
        self.dropped = set()
        self.round = None       # bookkeeping of Interp.covered
        self.written = {}      # var -> set of {True, False} over back-edges
        self.patterns = set()
        self.sigs = False       # an iteration has left the loop by break or return
        self.skipped = False    # a ghost iteration relied on that not happening


class Proof:
    """state shared by all paths of one (function, case)"""
    def __init__(self, contract, case, only=None):
        self.contract, self.case = contract, case
        # property under check: obligations tagged with other properties are left out, unless the contract is
        # checked as a callee contract of that property
        self.only = None if only is None else {only} | set(contract.also.get(only, ()))
        self.loops = {}
        self.obls = []          # (name, status, detail)
        self.changed = False
        self.paths = 0
        self.used = set()       # functions whose body was executed
        self.solver_s = 0.0
        self.queries = 0
        self.summ_used = set()
        self.max_paths = contract.max_paths
        self.reached = set()
        self.deadline = None

    def skip(self, name):
        return self.only is not None and name[0] == 'C' and name[1:3].isdigit() and name[:3] not in self.only

    def wants(self, pid): return self.only is None or pid in self.only

    def run(self, budget=240):
        t0 = time.time()
        self.deadline = t0 + budget
        rounds = 0
        while True:
            rounds += 1
            self.round = rounds
            self.changed = False
            self.obls, self.paths, self.reached = [], 0, set()
            work = [[]]
            try:
                while work:
                    pre = work.pop()
                    self.paths += 1
                    if self.paths > self.max_paths: raise Unsupported('more than %d paths' % self.max_paths)
                    if time.time() > self.deadline: raise Unsupported('time budget of %d s used up' % budget)
                    p = Path(self, pre)
                    try:
                        p.go()
                    except PathEnd: pass
                    self.solver_s += p.solver_s; self.queries += p.queries
                    work.extend(p.pending)
            except Restart:
                # larger loop frames: clauses refuted under the smaller frames get another chance
                for li in self.loops.values(): li.dropped = set()
                if rounds > 120: raise Unsupported('no fixpoint of loop frames')
                continue
            if not self.changed: break
            if rounds > 120: raise Unsupported('no fixpoint of invariants')
        self.rounds = rounds
        self.wall = time.time() - t0
        return self


class Path:
    TIMEOUT = 8000

    def __init__(self, proof, prefix):
        self.proof, self.prefix = proof, prefix
        self.dec = []
        self.pending = []
        self.solver = z3.SolverFor('QF_UFLIRA') if False else z3.Solver()
        self.solver.set('timeout', self.TIMEOUT)
        self.rsums, self.rsum_by_key = [], {}
        self.bases = {}
        self.matseen, self.mats = {}, {}
        self.tri_done = set()
        self.nfresh = 0
        self.ghost = 0
        self.solver_s = 0.0
        self.queries = 0
        self.known = {}
        self.loopstack = []
        self.setpoints, self.on_member = [], None
        self.specsums = []      # RangeSums usable as summation templates
        self.depth = 0
        self.nofork = 0
        self.nomerge = 0
        self.inner, self.classrefs, self.triggers = {}, {}, []
        self.inclause = 0
        self.goal_t = None
        self.tdepth, self.maxdepth = 0, proof.contract.touch_depth
        self.located, self.altcache = {}, {}

    # ----- solver
    def fresh(self, name, sort):
        self.nfresh += 1
        return z3.Const('%s!%d' % (name, self.nfresh), sort)

    def fact(self, c):
        if c is True: return
        if c is False: c = z3.BoolVal(False)
        self.solver.add(c)

    assume = fact

    def check(self, *a):
        t = time.time()
        r = self.solver.check(*a)
        self.solver_s += time.time() - t
        self.queries += 1
        return r

    def on_touch(self, b, fn):
        def cb(t):
            g, c = fn(t)
            self.fact(Implies(g, c))
        for t in list(b.touched): cb(t)
        b.cbs.append(cb)

    def range_sum(self, key, elt, nonneg, sort, shared=None, params=()):
        if key not in self.rsum_by_key:
            s = RangeSum(self, key, elt, nonneg, sort, shared, params)
            self.rsum_by_key[key] = s
            self.rsums.append(s)
        return self.rsum_by_key[key]

    def tri(self):
        """instantiate the triangle inequality on the ground triples that occur"""
        for nm, (m, pairs) in self.mats.items():
            adj = {}
            term = {}
            for i, j in pairs:
                for a, b in ((i, j), (j, i)):
                    adj.setdefault(a.get_id(), {})[b.get_id()] = True
                    term[a.get_id()] = a; term[b.get_id()] = b
            for a in adj:
                for b in adj[a]:
                    if b == a: continue
                    for c in adj.get(b, ()):
                        if c in adj[a] and c != a and c != b:
                            k = (nm, a, b, c)
                            if k in self.tri_done: continue
                            self.tri_done.add(k)
                            self.fact(m.F(term[a], term[c]) <= m.F(term[a], term[b]) + m.F(term[b], term[c]))

    def decide(self, c):
        """True/False when the path decides c, else None.  The outcome is recorded, so that a replayed
        path takes exactly the same steps; inside clause evaluation it is neither recorded nor cached."""
        if isinstance(c, bool): return c
        k = c.get_id()
        if k in self.known: return self.known[k][0]
        n = len(self.dec)
        if not self.inclause and n < len(self.prefix):
            r = self.prefix[n]
            if r == '?': r = None
        else:
            self.tri()
            r = None
            if self.check(z3.Not(c)) == z3.unsat: r = True
            elif self.check(c) == z3.unsat: r = False
            if self.inclause: return r
        self.dec.append('?' if r is None else r)
        if r is not None: self.known[k] = (r, c)
        return r

    def branch(self, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = c.get_id()
        if k in self.known: return self.known[k][0]
        if self.nomerge or self.inclause:
            r = self.decide(c)
            if r is None:
                if self.inclause: raise Missing('clause depends on a data-dependent choice')
                raise NoMerge()
            return r
        n = len(self.dec)
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            self.tri()
            t = self.check(c)
            f = self.check(z3.Not(c))
            if t == z3.unsat and f == z3.unsat: raise PathEnd()
            if self.nofork and t != z3.unsat and f != z3.unsat:
                raise Unsupported('element expression of a comprehension depends on a data-dependent choice')
            if t == z3.unsat: v = False
            elif f == z3.unsat: v = True
            else:
                v = True
                self.pending.append(self.dec + [False])
        self.dec.append(v)
        self.fact(c if v else z3.Not(c))
        self.known[k] = (v, c)
        return v

    truth_of = branch

    def choose(self, n):
        if self.nomerge: raise NoMerge()
        if self.inclause: raise Missing('choice in a clause')
        i = len(self.dec)
        if i < len(self.prefix): v = self.prefix[i]
        else:
            v = 0
            for k in range(n - 1, 0, -1): self.pending.append(self.dec + [k])
        self.dec.append(v)
        return v

    @property
    def replaying(self): return len(self.dec) < len(self.prefix)

    def oblige(self, name, c, detail=None):
        """one proof obligation"""
        if self.ghost: return
        if self.proof.skip(name): return
        if self.replaying:
            self.fact(c); return
        if c is True:
            self.proof.obls.append((name, 'proved', 'by evaluation')); return
        if c is False: c = z3.BoolVal(False)
        self.tri()
        r = self.check(z3.Not(c))
        if r == z3.unknown:
            r = self.second_opinion(c)
        if r == z3.unsat:
            self.proof.obls.append((name, 'proved', 'z3'))
        elif r == z3.sat:
            m = None
            try: m = self.proof.contract.model_info(self, c)
            except Exception as e: m = 'model extraction failed: %r' % (e,)
            self.proof.obls.append((name, 'failed', m))
        else:
            self.proof.obls.append((name, 'unknown', str(self.solver.reason_unknown())))
        self.fact(c)

    def model_for(self, c):
        s = z3.Solver(); s.set('timeout', self.TIMEOUT)
        s.add(self.solver.assertions()); s.add(z3.Not(c))
        return s.model() if s.check() == z3.sat else None

    def second_opinion(self, c):
        s = z3.Solver(); s.set('timeout', 4 * self.TIMEOUT); s.set('random_seed', 7)
        s.add(self.solver.assertions()); s.add(z3.Not(c))
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        return r

    def valid(self, c):
        if c is True: return True
        if c is False: c = z3.BoolVal(False)
        self.tri()
        return self.check(z3.Not(c)) == z3.unsat

    # ----- running
    def go(self):
        global FIXED
        c = self.proof.contract
        FIXED = c.fixed_lists
        self.interp = Interp(self)
        args = c.setup(self, self.proof.case)
        if not self.replaying and not self.dec:
            # vacuity: the precondition must be satisfiable
            r = self.check()
            self.proof.obls.append(('precondition-satisfiable', 'proved' if r != z3.unsat else 'failed', 'z3 %s' % r))
        frame = []
        if c.frame and self.proof.wants('C19'):
            for nm, v in (enumerate(args) if isinstance(args, list) else args.items()):
                if isinstance(v, HList) and nm not in c.mutates: frame.append((nm, v, Interp.content(v)))
                if isinstance(v, HObj): frame.extend(('%s.%s' % (nm, k), x, Interp.content(x)) for k, x in v.fields.items() if isinstance(x, HList))
        f = self.interp.lookup(c.target)
        res, exc = None, None
        try:
            res = self.interp.call(f, args if isinstance(args, list) else [], args if isinstance(args, dict) else {})
        except PyRaise as e:
            exc = e
        self.proof.reached.add('exit' if exc is None else 'raise ' + exc.name)
        if exc is not None and not c.allow_raise(self, self.proof.case, exc):
            self.oblige('no-exception[%s %s]' % (exc.name, exc.value or ''), False)
            return
        for nm, v, old in frame: self.oblige('C19:argument %s not modified' % nm, Interp.content_same(v, old))
        if exc is None:
            c.post(self, self.proof.case, res)

    # ----- fresh values
    def havoc(self, name, shape, top=False):
        k = shape[0]
        if k == 'const': return shape[1]
        if k == 'none': return None
        if k == 'unbound': return UNBOUND
        if k == 'int': return self.fresh(name, I)
        if k == 'real': return self.fresh(name, R)
        if k == 'bool': return self.fresh(name, B)
        if k == 'tuple': return tuple(self.havoc(name, s) for s in shape[1])
        if k == 'union':
            if ('unbound',) in shape[1] and all(x[0] in ('unbound', 'none', 'int', 'real', 'bool') for x in shape[1]):
                # decided when (and if) it is read
                T = self.fresh(name + '.kind', I)
                n = len(shape[1])
                return Phi([(T == i if i < n - 1 else True, self.havoc(name, x)) for i, x in enumerate(shape[1])])
            if top and self.proof.contract.lazy_optionals and self.interp.lazy(shape):
                T = self.fresh(name + '.none', B)
                return Phi([(T, None)] + [(True, self.havoc(name, x)) for x in shape[1] if x != ('none',)])
            return self.havoc(name, shape[1][self.choose(len(shape[1]))])
        if k == 'list': return HList(self.fresh_seq(name, shape[1]))
        if k == 'clist': return HList(self.fresh_elements(name, shape[1]))
        if k == 'obj': return HObj(shape[1], {f: self.havoc(name + '.' + f, s) for f, s in shape[2]})
        if k == 'sset':
            o = SSet(None)
            o.fn = self.fresh_set(name)
            return o
        if k == 'opaque': raise Unsupported('loop-modified %s of unsupported type %r' % (name, shape[1]))
        raise Unsupported('havoc ' + k)

    def fresh_set(self, name):
        self.nfresh += 1
        tag, F = '%s!%d' % (name, self.nfresh), {}

        def fn(v):
            # one predicate per length of the members (numbers and tuples of numbers are never equal)
            if isinstance(v, tuple) and not all(is_z(x) and z3.is_int(x) or isinstance(x, int) for x in v): raise Unsupported('membership of a nested tuple')
            k = len(v) if isinstance(v, tuple) else 0
            if k not in F: F[k] = z3.Function(tag if not k else '%s/%d' % (tag, k), *([I] * (k or 1) + [B]))
            return F[k](*[tz(x) for x in (v if isinstance(v, tuple) else (v,))])
        return fn

    def fresh_elements(self, name, shapes): return Seq.of([self.havoc('%s.%d' % (name, i), s) for i, s in enumerate(shapes)])

    def fresh_seq(self, name, eshape):
        if eshape is None: return Seq()
        n = self.fresh(name + '.len', I)
        self.fact(n >= 0)
        return Seq.base(self.fresh_base(name, eshape, n))

    def fresh_base(self, name, eshape, n):
        self.nfresh += 1
        tag = '%s!%d' % (name, self.nfresh)
        b = Base(self, tag, n, None, eshape)
        b.tag = tag
        b.alts = lambda t: self.alts(eshape, tag, (tz(t),), b)
        if eshape[0] in ('union', 'list', 'obj'):
            def get(t):
                al = b.alts(t)
                for c, v in al[:-1]:
                    if self.branch(c): return v
                return al[-1][1]
            b.getter = get
        else: b.getter = lambda t: b.alts(t)[0][1]
        return b

    def alts(self, s, tg, params, owner=None):
        """[(condition, value)] of an unknown value of shape s that depends on params; the last condition is implied"""
        key = (tg, s) + tuple(p.get_id() for p in params)
        hit = self.altcache.get(key)
        if hit is not None: return hit[0]
        out = self._alts(s, tg, params)
        self.altcache[key] = (out, params)
        return out

    def _alts(self, s, tg, params):
        if s[0] != 'union': return [(True, self.unknown(s, tg, params))]
        T = z3.Function(tg + '.tag', *([I] * len(params) + [I]))
        out = []
        for i, x in enumerate(s[1]):
            out.append((T(*params) == i if i < len(s[1]) - 1 else True, self.unknown(x, '%s.%d' % (tg, i), params)))
        return out

    def unknown(self, s, tg, params):
        k = s[0]
        if k in ('int', 'real', 'bool'):
            F = z3.Function(tg, *([I] * len(params) + [{'int': I, 'real': R, 'bool': B}[k]]))
            return F(*params)
        if k == 'const': return s[1]
        if k == 'none': return None
        if k == 'tuple': return tuple(self.unknown(x, '%s.%d' % (tg, i), params) for i, x in enumerate(s[1]))
        if k == 'list':
            o = HList(Seq() if s[1] is None else Seq.base(self.inner_base(s[1], tg, params)))
            o.borrowed = True
            return o
        if k == 'obj':
            o = HObj(s[1], {f: self.unknown(x, tg + '.' + f, params) for f, x in s[2]})
            o.classref = self.classrefs.get(s[1])
            o.borrowed = True
            return o
        if k == 'sset':
            F = z3.Function(tg + '.has', *([I] * len(params) + [I, B]))
            o = SSet(None)
            o.fn = lambda v: F(*(tuple(params) + (tz(v),)))
            return o
        raise Unsupported('unknown element of shape %s' % k)

    def inner_base(self, es, tg, params):
        """the list at `params` of a table: its elements and range sums are functions of params too"""
        key = (tg,) + tuple(z3.simplify(p).get_id() for p in params)
        if key not in self.inner:
            n = z3.Function(tg + '.len', *([I] * len(params) + [I]))(*params)
            self.fact(n >= 0)
            b = Base(self, tg, n, None, es)
            b.tag, b.params, b.keep = tg, params, [z3.simplify(p) for p in params]
            b.alts = lambda t: self.alts(es, tg + '.el', params + (tz(t),), b)
            if es[0] in ('union', 'list', 'obj'):
                def get(t):
                    al = b.alts(t)
                    for c, v in al[:-1]:
                        if self.branch(c): return v
                    return al[-1][1]
                b.getter = get
            else: b.getter = lambda t: b.alts(t)[0][1]
            self.inner[key] = b
        return self.inner[key]


from .interp import Interp  # noqa: E402  (cyclic on purpose)
