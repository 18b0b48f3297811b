"""Structured liveness over the Python AST (used only to keep havocked loop states small)."""
import ast


_L, _S = {}, {}


def _loads(node):
    r = _L.get(id(node))
    if r is None: r = _L[id(node)] = (node, frozenset(_loads0(node)))
    return set(r[1])


def _stores(node):
    r = _S.get(id(node))
    if r is None: r = _S[id(node)] = (node, frozenset(_stores0(node)))
    return set(r[1])


def _loads0(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def _stores0(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


def assigned(stmts):
    out = set()
    for s in stmts:
        out |= _stores(s)
    return out


class Live:
    """head[id(loop)] = names live at the loop head; after[id(loop)] = names live after it."""

    def __init__(self, fn):
        self.head, self.after = {}, {}
        # names captured by nested functions / lambdas are live everywhere
        self.always = set()
        for n in ast.walk(fn):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
                self.always |= _loads(n)
        body = fn.body if isinstance(fn.body, list) else [ast.Return(fn.body)]
        self.block(body, set(self.always), None, None)

    def block(self, stmts, live, brk, cont):
        live = set(live)
        for s in reversed(stmts):
            live = self.stmt(s, live, brk, cont)
        return live

    def stmt(self, s, live, brk, cont):
        A = self.always
        if isinstance(s, (ast.Return, ast.Raise)):
            return _loads(s) | A
        if isinstance(s, ast.Break): return set(brk or ()) | A
        if isinstance(s, ast.Continue): return set(cont or ()) | A
        if isinstance(s, ast.If):
            return _loads(s.test) | self.block(s.body, live, brk, cont) | self.block(s.orelse, live, brk, cont)
        if isinstance(s, (ast.For, ast.While)):
            after = self.block(s.orelse, live, brk, cont) if s.orelse else set(live)
            head = set(after)
            extra = _loads(s.test) if isinstance(s, ast.While) else set()
            tgt = _stores(s.target) if isinstance(s, ast.For) else set()
            tl = _loads(s.target) if isinstance(s, ast.For) else set()
            while True:
                b = self.block(s.body, head | extra, set(live), head | extra)
                n = head | extra | (b - tgt) | tl | after
                if n == head: break
                head = n
            self.head[id(s)], self.after[id(s)] = head, set(after)
            return head | (_loads(s.iter) if isinstance(s, ast.For) else set())
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, live, brk, cont)
            els = self.block(s.orelse, fin, brk, cont)
            hs = set()
            for h in s.handlers: hs |= self.block(h.body, fin, brk, cont)
            return self.block(s.body, els | hs, brk, cont) | hs
        if isinstance(s, ast.With):
            b = self.block(s.body, live, brk, cont)
            for it in s.items: b |= _loads(it.context_expr)
            return b
        if isinstance(s, ast.Assign):
            kill = set()
            use = _loads(s.value)
            for t in s.targets:
                if isinstance(t, ast.Name): kill.add(t.id)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for e in ast.walk(t):
                        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Store): kill.add(e.id)
                    use |= _loads(t)
                else: use |= _loads(t)
            return (live - kill) | use | A
        if isinstance(s, ast.AugAssign):
            return live | _loads(s.value) | {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return live | _loads(s)
        return live | _loads(s)
