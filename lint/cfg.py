"""Control-flow graphs with exception edges, finally, with, and inlined helpers."""
from __future__ import annotations
import ast
import builtins
from .project import ClassInfo, FuncInfo, deco_name

SAFE_CALLS = {'len', 'isinstance', 'id', 'type', 'time.time', 'callable', 'hasattr', 'time.monotonic', 'time.perf_counter'}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b and b + '.' + e.attr
    return None


def own_walk(e):
    """Nodes of e that are evaluated when e is, not those of nested functions."""
    todo = [e]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            todo.append(c)


def may_raise(e):
    for n in own_walk(e):
        if isinstance(n, ast.Call):
            if dotted(n.func) not in SAFE_CALLS:
                return True
        elif isinstance(n, (ast.Subscript, ast.BinOp, ast.Raise, ast.Assert, ast.Import, ast.ImportFrom, ast.Yield, ast.YieldFrom,
                            ast.Await, ast.Starred, ast.Delete, ast.AugAssign)):
            if isinstance(n, ast.BinOp) and all(isinstance(x, ast.Constant) for x in (n.left, n.right)):
                continue
            return True
        elif isinstance(n, ast.Assign) and any(isinstance(t, (ast.Tuple, ast.List)) for t in n.targets) \
                and not isinstance(n.value, (ast.Tuple, ast.List)):
            return True
    return False


class Frame:
    """One activation: a function body, with what its parameters stand for."""
    n = 0

    def __init__(self, info, binds=None, parent=None, cls=None, closure=None):
        Frame.n += 1
        Graph.built.add(info.qual)
        self.closure = closure          # the frame a nested function was defined in
        self.id = Frame.n
        self.info, self.binds, self.parent = info, binds or {}, parent
        self.cls = cls if cls is not None else info.cls
        self.depth = parent.depth + 1 if parent else 0
        count, val = {}, {}
        for n in ast.walk(info.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                count[n.id] = count.get(n.id, 0) + 1
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                t = n.targets if isinstance(n, ast.Assign) else [n.target]
                if len(t) == 1 and isinstance(t[0], ast.Name) and n.value is not None:
                    val[t[0].id] = n.value
            if isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name):
                val[n.optional_vars.id] = n.context_expr
        self.count = count
        self.defs = {}
        for b in info.node.body if isinstance(info.node.body, list) else []:
            for n in own_walk(b) if not isinstance(b, (ast.FunctionDef, ast.ClassDef)) else [b]:
                for d in [n] + [c for c in ast.iter_child_nodes(n) if isinstance(c, ast.FunctionDef)]:
                    if isinstance(d, ast.FunctionDef):
                        self.defs[d.name] = d
        self.single = {k: v for k, v in val.items() if count.get(k) == 1 and k not in info.params()}

    def is_local(self, name):
        a = self.info.node.args
        if any(isinstance(n, (ast.Nonlocal, ast.Global)) and name in n.names for n in ast.walk(self.info.node)):
            return False
        return name in self.count or any(x is not None and x.arg == name for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg])

    def local_def(self, name):
        """(definition, defining frame) of a nested function."""
        g = self
        while g is not None:
            if name in g.defs and name not in g.count:
                return g.defs[name], g
            if g.is_local(name):
                return None
            g = g.closure
        return None

    def canon(self, e, value=False):
        """A name for the location e denotes; locals are told apart by frame."""
        if isinstance(e, ast.Name):
            if self.closure is not None and not self.is_local(e.id):
                return self.closure.canon(e, value)
            if e.id in self.binds and self.count.get(e.id, 0) == 0:
                x, fr = self.binds[e.id]
                return fr.canon(x, value) if x is not None else f'{self.id}:{e.id}'
            if not value and e.id in self.single and dotted(self.single[e.id]):
                return self.canon(self.single[e.id])
            if e.id in self.count or e.id in self.info.params() or any(
                    a is not None and a.arg == e.id for a in self.info.node.args.kwonlyargs + [self.info.node.args.vararg, self.info.node.args.kwarg]):
                if self.parent is None and e.id in self.info.params():
                    return e.id
                return f'{self.id}:{e.id}'
            return e.id
        if isinstance(e, ast.Attribute):
            b = self.canon(e.value)
            return b and f'{b}.{e.attr}'
        if isinstance(e, ast.Subscript):
            b = self.canon(e.value)
            return b and b + '[]'
        return None


class Node:
    __slots__ = ('id', 'kind', 'ast', 'frame', 'succ', 'aux')

    def __init__(self, id_, kind, ast_, frame, aux=None):
        self.id, self.kind, self.ast, self.frame, self.aux = id_, kind, ast_, frame, aux
        self.succ = []           # (node, label)

    @property
    def where(self):
        return f'{self.frame.info.module.rel}:{getattr(self.ast, "lineno", self.frame.info.node.lineno)}' if self.frame else ''

    def __repr__(self):
        s = ast.unparse(self.ast)[:50] if isinstance(self.ast, ast.AST) and not isinstance(self.ast, (ast.excepthandler, ast.withitem)) else ''
        return f'<{self.id} {self.kind} {s}>'


class Ctx:
    __slots__ = ('brk', 'cont', 'ret', 'exc', 'on_yield')

    def __init__(self, brk, cont, ret, exc, on_yield=None):
        self.brk, self.cont, self.ret, self.exc, self.on_yield = brk, cont, ret, exc, on_yield


class Graph:
    """Built backwards: every statement list is built given where it continues."""
    MAXDEPTH = 4
    built = set()            # functions a graph was built or inlined for

    def __init__(self, proj, info, inline=None, cls=None):
        self.p, self.nodes = proj, []
        self.inline = inline or (lambda callee, frame: False)
        self.truncated = False
        fr = Frame(info, cls=cls)
        self.frame = fr
        self.exit = self.node('exit', None, fr)
        self.raised = self.node('raised', None, fr)
        self.entry = self.node('entry', None, fr)
        ctx = Ctx(None, None, self.exit, self.raised)
        self.link(self.entry, self.block(info.node.body, self.exit, ctx, fr))

    def node(self, kind, a, frame, aux=None):
        n = Node(len(self.nodes), kind, a, frame, aux)
        self.nodes.append(n)
        if len(self.nodes) > 20000:
            raise RecursionError('control flow graph too large')
        return n

    def link(self, a, b, label='n'):
        a.succ.append((b, label))

    # -- statements
    def block(self, body, nxt, ctx, fr):
        for s in reversed(body):
            nxt = self.stmt(s, nxt, ctx, fr)
        return nxt

    def simple(self, kind, a, nxt, ctx, fr, aux=None):
        """One node for expression or statement a, after the calls it inlines."""
        n = self.node(kind, a, fr, aux)
        if nxt is not None:
            self.link(n, nxt)
        if may_raise(a):
            self.link(n, ctx.exc, 'exc')
        return self.calls(a, n, ctx, fr)

    def calls(self, a, n, ctx, fr):
        """Inline the helpers called in a, in front of n."""
        todo = []
        for c in own_walk(a):
            if isinstance(c, ast.Call):
                r = self.callee(c, fr)
                if r is not None:
                    todo.append((c, r))
        todo.sort(key=lambda x: (x[0].end_lineno, x[0].end_col_offset), reverse=True)
        for c, (info, binds, cls, closure) in todo:
            if is_gen(info):
                continue
            f2 = Frame(info, binds, fr, cls, closure)
            back = self.node('return-from', c, f2)
            self.link(back, n)
            ent = self.node('call', c, f2)
            self.link(ent, self.block(info.node.body, back, Ctx(None, None, back, ctx.exc), f2))
            n = ent
        return n

    def typed(self, e, fr):
        """The class an attribute of self is annotated with."""
        if not (isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and fr.cls is not None and e.value.id in fr.info.params()[:1]):
            return None
        a = fr.cls.annotation(e.attr)
        r = self.p.resolve_expr(a[1], a[0].module) if a is not None else None
        return r if isinstance(r, ClassInfo) else None

    def callee(self, c, fr, force=False):
        """(FuncInfo, bindings, class) of a call that is to be inlined."""
        info, recv, cls, closure = None, None, None, None
        f = c.func
        if isinstance(f, ast.Name) and fr.local_def(f.id):
            d, closure = fr.local_def(f.id)
            info = FuncInfo(d, fr.info.module, None, fr.info)
            cls = fr.cls
        elif isinstance(f, ast.Name) and f.id in fr.binds and not fr.count.get(f.id) and isinstance(fr.binds[f.id][0], (ast.Name, ast.Attribute)):
            x, f2 = fr.binds[f.id]
            r = self.callee(ast.copy_location(ast.Call(x, c.args, c.keywords), c), f2, force)
            if r is None:
                return None
            info, b2, cls, closure = r
            g = fr
            while g is not None:
                if g.info.node is info.node:
                    return None
                g = g.parent
            b3 = {k: (v, f2 if v is getattr(x, 'value', None) else fr) for k, (v, _) in b2.items()}
            return info, b3, cls, closure
        elif isinstance(f, ast.Name):
            if f.id in fr.count or f.id in fr.info.params():
                return None
            r = self.p.resolve_name(f.id, fr.info.module)
            if isinstance(r, FuncInfo):
                info = r
        elif isinstance(f, ast.Attribute):
            g = fr
            if isinstance(f.value, ast.Name):
                while g.closure is not None and not g.is_local(f.value.id):
                    g = g.closure
            me = g.info.params()[:1] if g.info.cls is not None and not g.info.is_static else []
            kls = self.typed(f.value, fr)
            if isinstance(f.value, ast.Name) and me and f.value.id == me[0] and fr.cls is not None:
                info = fr.cls.find_method(f.attr)
                recv, cls = f.value, fr.cls
            elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and fr.info.cls is not None:
                info = (fr.cls or fr.info.cls).find_method(f.attr, after=fr.info.cls)
                recv, cls = ast.Name(me[0], ast.Load()) if me else None, fr.cls
            elif kls is not None:
                info = kls.find_method(f.attr)
                recv, cls = f.value, kls
            else:
                r = self.p.resolve_expr(f, fr.info.module)
                if isinstance(r, FuncInfo):
                    info = r
                    if r.cls is not None and not r.is_static and not r.is_classmethod:
                        info = None
        if info is None or fr.depth >= self.MAXDEPTH or not (force or closure is not None or self.inline(info, fr)):
            return None
        g = fr
        while g is not None:                # recursion is not inlined
            if g.info.node is info.node:
                return None
            g = g.parent
        if any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
            pass
        binds = {}
        ps = info.params()
        args = list(c.args)
        if info.cls is not None and not info.is_static:
            if ps:
                binds[ps[0]] = (recv, fr)
            ps = ps[1:]
        for p, a in zip(ps, args):
            if isinstance(a, ast.Starred):
                break
            binds[p] = (a, fr)
        for k in c.keywords:
            if k.arg:
                binds[k.arg] = (k.value, fr)
        return info, binds, cls, closure

    def stmt(self, s, nxt, ctx, fr):
        if isinstance(s, ast.If):
            n = self.node('test', s.test, fr)
            self.link(n, self.block(s.body, nxt, ctx, fr), 't')
            self.link(n, self.block(s.orelse, nxt, ctx, fr), 'f')
            if may_raise(s.test):
                self.link(n, ctx.exc, 'exc')
            return self.calls(s.test, n, ctx, fr)
        if isinstance(s, ast.While):
            head = self.node('test', s.test, fr, 'loop')
            first = self.calls(s.test, head, ctx, fr)
            c2 = Ctx(nxt, first, ctx.ret, ctx.exc, ctx.on_yield)
            self.link(head, self.block(s.body, first, c2, fr), 't')
            if not (isinstance(s.test, ast.Constant) and s.test.value):
                self.link(head, self.block(s.orelse, nxt, ctx, fr), 'f')
            if may_raise(s.test):
                self.link(head, ctx.exc, 'exc')
            return first
        if isinstance(s, (ast.For, ast.AsyncFor)):
            head = self.node('iter', s, fr, 'loop')
            c2 = Ctx(nxt, head, ctx.ret, ctx.exc, ctx.on_yield)
            self.link(head, self.block(s.body, head, c2, fr), 't')
            self.link(head, self.block(s.orelse, nxt, ctx, fr), 'f')
            if not isinstance(s.iter, (ast.Name, ast.Tuple, ast.List)):
                self.link(head, ctx.exc, 'exc')
            return self.simple('eval', s.iter, head, ctx, fr)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.with_(s.items, s.body, nxt, ctx, fr)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            return self.try_(s, nxt, ctx, fr)
        if isinstance(s, ast.Return):
            n = self.node('return', s, fr)
            self.link(n, ctx.ret)
            if s.value is not None and may_raise(s.value):
                self.link(n, ctx.exc, 'exc')
            return self.calls(s, n, ctx, fr)
        if isinstance(s, ast.Raise):
            n = self.node('raise', s, fr)
            self.link(n, ctx.exc, 'exc')
            return self.calls(s, n, ctx, fr)
        if isinstance(s, ast.Break):
            return ctx.brk
        if isinstance(s, ast.Continue):
            return ctx.cont
        if isinstance(s, ast.Pass):
            return nxt
        if isinstance(s, ast.Match):
            n = self.node('test', s.subject, fr)
            for c in s.cases:
                self.link(n, self.block(c.body, nxt, ctx, fr), 't')
            self.link(n, nxt, 'f')
            return n
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            n = self.node('def', s, fr)
            self.link(n, nxt)
            return n
        if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Yield, ast.YieldFrom)) and ctx.on_yield is not None:
            return ctx.on_yield(nxt, ctx.exc)
        return self.simple('stmt', s, nxt, ctx, fr)

    def try_(self, s, nxt, ctx, fr):
        if s.finalbody:
            memo = {}

            def fin(target):
                if target is None:
                    return None
                if target.id not in memo:
                    memo[target.id] = self.block(s.finalbody, target, ctx, fr)
                return memo[target.id]
            c0 = Ctx(fin(ctx.brk), fin(ctx.cont), fin(ctx.ret), fin(ctx.exc), ctx.on_yield)
            nxt0 = fin(nxt)
        else:
            c0, nxt0 = ctx, nxt
        if s.handlers:
            d = self.node('dispatch', s, fr)
            caught = False
            for h in s.handlers:
                hn = self.node('except', h, fr)
                self.link(hn, self.block(h.body, nxt0, c0, fr))
                self.link(d, hn, 'h')
                if h.type is None or dotted(h.type) == 'BaseException':
                    caught = True
                    break
            if not caught:
                self.link(d, c0.exc, 'exc')
            cb = Ctx(c0.brk, c0.cont, c0.ret, d, c0.on_yield)
        else:
            cb = c0
        after = self.block(s.orelse, nxt0, c0, fr)
        return self.block(s.body, after, cb, fr)

    def with_(self, items, body, nxt, ctx, fr):
        if not items:
            return self.block(body, nxt, ctx, fr)
        it, rest = items[0], items[1:]
        ce = it.context_expr
        helper = None
        if isinstance(ce, ast.Call):
            r = self.callee(ce, fr, force=True)
            if r is not None and is_manager(r[0]) and (r[3] is not None or self.inline(r[0], fr)):
                helper = r
        if helper is not None:
            info, binds, cls, closure = helper
            memo = {}

            def build(target, entry):
                """The manager's body continuing at target; its yield runs the with body if entry, else only marks the place."""
                f2 = Frame(info, binds, fr, cls, closure)
                got = []

                def on_yield(after, exc):
                    got.append((after, exc))
                    if not entry:
                        return after

                    def leave(t):
                        if t is None:
                            return None
                        if t.id not in memo:
                            memo[t.id] = build(t, False)
                        return memo[t.id]
                    c2 = Ctx(leave(ctx.brk), leave(ctx.cont), leave(ctx.ret), exc, ctx.on_yield)
                    b = self.with_(rest, body, after, c2, fr)
                    n = self.node('entered', ce, fr, it)
                    self.link(n, b)
                    return n
                end = self.node('return-from', ce, f2)
                self.link(end, target)
                e = self.block(info.node.body, end, Ctx(None, None, end, ctx.exc, on_yield), f2)
                if entry:
                    return e
                return got[0][0] if got else target
            e = build(nxt, True)
            n = self.node('call', ce, fr)
            self.link(n, e)
            return n
        memo = {}
        suppress = isinstance(ce, ast.Call) and (dotted(ce.func) or '').split('.')[-1] == 'suppress'

        def leave(target):
            if target is None:
                return None
            if target.id not in memo:
                x = self.node('exit-with', ce, fr, it)
                self.link(x, target)
                memo[target.id] = x
            return memo[target.id]
        xe = self.node('exit-with', ce, fr, it)
        self.link(xe, ctx.exc, 'exc')
        if suppress:
            self.link(xe, nxt)
        c2 = Ctx(leave(ctx.brk), leave(ctx.cont), leave(ctx.ret), xe, ctx.on_yield)
        b = self.with_(rest, body, leave(nxt), c2, fr)
        n = self.node('entered', ce, fr, it)
        self.link(n, b)
        return self.simple('enter', ce, n, ctx, fr, it)

    # -- queries
    def reachable(self):
        seen, todo = {self.entry.id}, [self.entry]
        while todo:
            n = todo.pop()
            for m, _ in n.succ:
                if m.id not in seen:
                    seen.add(m.id)
                    todo.append(m)
        return [n for n in self.nodes if n.id in seen]

    def path(self, src, dst, avoid=lambda n: False):
        """A shortest path from src to dst, as nodes; None if there is none."""
        prev, todo = {src.id: None}, [src]
        while todo:
            nt = []
            for n in todo:
                if n is dst:
                    out = []
                    while n is not None:
                        out.append(n)
                        n = prev[n.id]
                    return out[::-1]
                for m, _ in n.succ:
                    if m.id not in prev and not avoid(m):
                        prev[m.id] = n
                        nt.append(m)
            todo = nt
        return None

    def forward(self, init, transfer, join):
        """Worklist solution: {node id: state before the node}.  transfer(node, state, label) -> state along that edge."""
        inn = {self.entry.id: init}
        todo = [self.entry]
        while todo:
            n = todo.pop()
            s = inn[n.id]
            for m, label in n.succ:
                o = transfer(n, s, label)
                if o is None:
                    continue
                old = inn.get(m.id)
                new = o if old is None else join(old, o)
                if new != old:
                    inn[m.id] = new
                    if m not in todo:
                        todo.append(m)
        return inn


def is_manager(info):
    return any(x.split('.')[-1] == 'contextmanager' for x in info.decorators) and is_gen(info)


def is_gen(info):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for b in info.node.body for n in own_walk(b))


def lines(path):
    """Distinct source lines along a path."""
    out = []
    for n in path:
        if n.ast is not None and (not out or out[-1] != n.where):
            out.append(n.where)
    return out
