"""C11: what is switched temporarily is switched back on every exit."""
import ast
from ..cfg import Graph, dotted, is_gen, is_manager, lines, own_walk
from ..project import ClassInfo, FuncInfo

TITLE = 'Temporary state is restored on every exit'

COPIES = {'copy', 'deepcopy', 'array', 'list', 'dict', 'tuple', 'clone', 'detach', 'fast_deepcopy', 'asarray', 'set'}


def targets(s):
    """(target, value) pairs of an assignment; value None if unknown."""
    if isinstance(s, ast.Assign):
        for t in s.targets:
            yield from pair(t, s.value)
    elif isinstance(s, ast.AnnAssign) and s.value is not None:
        yield s.target, s.value
    elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and dotted(s.value.func) == 'setattr' and len(s.value.args) == 3 \
            and isinstance(s.value.args[1], ast.Constant):
        yield ast.Attribute(s.value.args[0], s.value.args[1].value, ast.Store()), s.value.args[2]


def pair(t, v):
    if isinstance(t, (ast.Tuple, ast.List)):
        if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
            for a, b in zip(t.elts, v.elts):
                yield from pair(a, b)
        else:
            for a in t.elts:
                yield from pair(a, None)
    else:
        yield t, v


def stripped(v):
    """(expression, was it copied) below copying calls."""
    copied = False
    while isinstance(v, ast.Call) and (len(v.args) == 1 or (v.args and (dotted(v.func) or '').startswith(('np.', 'numpy.')))) \
            and (dotted(v.func) or '').split('.')[-1] in COPIES:
        copied = copied or (dotted(v.func) or '').split('.')[-1] != 'asarray'
        v = v.args[0]
    while isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and not v.args and v.func.attr in ('copy', 'clone', 'detach'):
        v = v.func.value
        copied = True
    return v, copied


class Restore:
    """One location: does it hold at each exit what it held on entry?

    State: (where it was last changed or None, names that hold the entry value by reference, names that hold a copy of it).
    """

    def __init__(self, graph, loc, rest=None):
        self.g, self.loc, self.rest = graph, loc, rest
        self.changes = []
        self.restores = {}
        self.res = graph.forward((frozenset(), frozenset(), frozenset()), self.transfer, self.join)

    @staticmethod
    def join(a, b):
        return a[0] | b[0], a[1] & b[1], a[2] & b[2]

    def transfer(self, n, s, label):
        if n.kind not in ('stmt', 'iter', 'entered') or n.ast is None:
            return s
        if label == 'exc':
            return s
        mod, refs, copies = s
        st = n.ast
        fr = n.frame
        if n.kind == 'entered':
            if n.aux is not None and isinstance(n.aux.optional_vars, ast.Name):
                k = fr.canon(n.aux.optional_vars, value=True)
                refs, copies = refs - {k}, copies - {k}
            return mod, refs, copies
        if n.kind == 'iter':
            if label == 't':
                for t in ast.walk(st.target):
                    if isinstance(t, ast.Name):
                        k = fr.canon(t, value=True)
                        refs, copies = refs - {k}, copies - {k}
            return mod, refs, copies
        if isinstance(st, ast.AugAssign):
            mod, refs, copies = self.inplace(st.target, n, mod, refs, copies)
            return mod, refs, copies
        if isinstance(st, ast.Delete):
            for t in st.targets:
                mod, refs, copies = self.inplace(t, n, mod, refs, copies)
            return mod, refs, copies
        old = s
        for t, v in targets(st):
            mod, refs, copies = self.assign(t, v, n, old, mod, refs, copies)
        return mod, refs, copies

    def place(self, t, fr):
        """'loc', 'part' of the location, or the name it has."""
        c = fr.canon(t)
        if c == self.loc:
            return 'loc'
        if c is not None and (c.startswith(self.loc + '[]') or c.startswith(self.loc + '.')):
            return 'part'
        return None

    def holds(self, v, fr, mod, refs, copies):
        """Does expression v hold the entry value?  None / 'ref' / 'copy'."""
        if v is None:
            return None
        e, copied = stripped(v)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.upper is None and e.slice.step is None:
            e = e.value
        k = fr.canon(e, value=True)
        if k in copies:
            return 'copy'
        if k in refs:
            return 'copy' if copied else 'ref'
        if fr.canon(e, value=True) == self.loc or (not isinstance(e, ast.Name) and fr.canon(e) == self.loc):
            return None if mod else ('copy' if copied else 'ref')
        if isinstance(e, ast.Call) and dotted(e.func) == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            if fr.canon(ast.Attribute(e.args[0], e.args[1].value, ast.Load())) == self.loc:
                return None if mod else 'ref'
        if self.rest is not None and isinstance(e, ast.Constant) and e.value is self.rest[0]:
            return 'copy'
        return None

    def assign(self, t, v, n, old, mod, refs, copies):
        fr = n.frame
        key = fr.canon(t, value=True)
        whole = isinstance(t, ast.Subscript) and isinstance(t.slice, (ast.Slice, ast.Constant)) and (
            t.slice.value is Ellipsis if isinstance(t.slice, ast.Constant) else t.slice.lower is None and t.slice.upper is None)
        if isinstance(t, ast.Subscript):
            pl = self.place(t.value, fr)
            base = fr.canon(t.value, value=True)
            if pl == 'loc' or base in old[1]:
                if whole and self.holds(v, fr, *old):
                    return frozenset(), refs, copies
                return self.inplace(t, n, mod, refs, copies)
            if base in copies:
                copies = copies - {base}
            return mod, refs, copies
        pl = self.place(t, fr) if not isinstance(t, ast.Name) or key == self.loc else None
        if pl == 'loc':
            h = self.holds(v, fr, *old)
            if h:
                if old[0]:
                    self.restores[n.id] = n
                # what held the entry value by reference is now the location's value again
                return frozenset(), refs if not old[0] else refs, copies
            self.changes.append(n)
            return frozenset([n.id]), refs, copies
        if key is not None:
            h = self.holds(v, fr, *old)
            refs, copies = refs - {key}, copies - {key}
            if h == 'ref':
                refs = refs | {key}
            elif h == 'copy':
                copies = copies | {key}
        return mod, refs, copies

    def inplace(self, t, n, mod, refs, copies):
        """t (a name, attribute or element) is changed in place."""
        fr = n.frame
        base = t
        while isinstance(base, ast.Subscript):
            base = base.value
        pl = self.place(base, fr)
        key = fr.canon(base, value=True)
        if pl == 'loc' or key in refs:
            self.changes.append(n)
            # an arithmetic update of the attribute may or may not happen in place: references cannot be trusted afterwards
            return mod | {n.id}, frozenset(), copies
        return mod, refs, copies - {key}

    def bad(self, kinds=('exit', 'raised')):
        """(exit kind, changing node) pairs that are not undone."""
        out = []
        for k in kinds:
            x = self.g.exit if k == 'exit' else self.g.raised
            for i in sorted(self.res.get(x.id, (frozenset(),))[0]):
                out.append((k, self.g.nodes[i], x))
        return out

    def trace(self, src, dst):
        """A path from the change to the exit that does not undo it."""
        s0 = self.res
        p = self.g.path(src, dst, avoid=lambda m: m.id in s0 and src.id not in s0[m.id][0])
        return lines(p) if p else [src.where]


def vague(g, src, dst, r):
    """Does the leaking path pass a context manager whose exit is unknown?"""
    p = g.path(src, dst, avoid=lambda m: m.id in r.res and src.id not in r.res[m.id][0]) or []
    for n in p:
        if n.kind == 'exit-with':
            c = n.ast
            f = c.func if isinstance(c, ast.Call) else c
            t = g.p.resolve_expr(f, n.frame.info.module) if isinstance(f, (ast.Name, ast.Attribute)) else None
            if isinstance(t, (ClassInfo, FuncInfo)) and not (isinstance(t, FuncInfo) and t.name == 'backend'):
                return True
            if (dotted(f) or '').split('.')[-1] in ('ExitStack', 'closing'):
                return True
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self':
                return True
    return False


def small(callee, frame):
    return not callee.is_abstract and len(list(ast.walk(callee.node))) < 2500


def judge(p, ck, rule, key, g, loc, rest=None, kinds=('exit', 'raised'), text=''):
    r = Restore(g, loc, rest)
    bad = r.bad(kinds)
    real = [(k, n, x) for k, n, x in bad if not vague(g, n, x, r)]
    where = g.frame.info.where
    if real:
        k, n, x = real[-1]
        how = 'when an exception passes through' if k == 'raised' else 'on a normal return'
        ck.bad(rule, key, n.where, f'{text}: changed at {n.where} and not restored {how} of {g.frame.info.qual}', r.trace(n, x))
    elif bad:
        ck.unknown(rule, key, where, 'the restoring context manager is not analysed')
    else:
        ck.ok(rule, key, where, f'{len(g.nodes)} nodes, {len(r.changes)} changes')
    return r


def run(p, ck, tier):
    ck.rule('manager', 'A context manager undoes, on every exit of its with block, each change it made to a shared container or attribute.')
    ck.rule('flag', 'A mode flag that one object sets on another is back at its resting value on every exit.')
    ck.rule('trial', 'If an optimiser\'s backward raises, the model\'s weights are those before the call; also if it returns and step then updates them incrementally.')
    ck.rule('restored', 'A function that saves a location and later puts it back does so on every exit.')
    ck.rule('scoped', 'The numerical backends are switched only by a with statement.')
    ck.rule('temporary', 'A temporary path that does not remove itself is removed on every exit.')
    managers(p, ck)
    flags(p, ck)
    trials(p, ck)
    generic(p, ck)
    scoped(p, ck)
    temporary(p, ck)
    ck.floor('manager', 1)
    ck.floor('flag', 1)
    ck.floor('trial', 3)


# -- context managers

PUSH = {'append', 'appendleft', 'push', 'add', 'insert', 'extend', 'put'}
POP = {'pop', 'popleft', 'remove', 'discard', 'clear'}


def shared(info):
    """Names in a function that outlive its activation."""
    a = info.node.args
    out = set(info.params()) | {x.arg for x in a.kwonlyargs}
    return out


class Stack:
    """Net pushes on each shared container along every path."""

    def __init__(self, g, info):
        self.g, self.info = g, info
        self.names = shared(info)
        self.res = g.forward(frozenset(), self.transfer, self.join)

    @staticmethod
    def join(a, b):
        return a | b

    def transfer(self, n, s, label):
        if n.ast is None or n.kind not in ('stmt', 'test', 'eval', 'return', 'enter'):
            return s
        ops = []
        for c in own_walk(n.ast):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in PUSH | POP:
                loc = n.frame.canon(c.func.value)
                if loc is not None and self.persistent(c.func.value, n.frame):
                    ops.append((loc, c.func.attr, c))
        if isinstance(n.ast, ast.Delete):
            for t in n.ast.targets:
                if isinstance(t, ast.Subscript) and self.persistent(t.value, n.frame):
                    ops.append((n.frame.canon(t.value), 'pop', t))
        if isinstance(n.ast, ast.Assign) and isinstance(n.ast.targets[0], ast.Subscript) and isinstance(n.ast.targets[0].slice, ast.Slice):
            t = n.ast.targets[0]
            if self.persistent(t.value, n.frame):
                ops.append((n.frame.canon(t.value), 'pop', t))
        if isinstance(n.ast, ast.AugAssign) and isinstance(n.ast.op, ast.Add) and isinstance(n.ast.target, ast.Name) \
                and isinstance(n.ast.value, (ast.List, ast.Tuple)) and self.persistent(n.ast.target, n.frame):
            ops.append((n.frame.canon(n.ast.target), 'append', n.ast))
        for loc, op, _ in ops:
            if op in PUSH:
                if label != 'exc':
                    s = s | {(loc, n.id)}
            else:
                s = frozenset(x for x in s if x[0] != loc)
        return s

    def persistent(self, e, fr):
        root = e
        while isinstance(root, (ast.Attribute, ast.Subscript)):
            root = root.value
        if not isinstance(root, ast.Name):
            return False
        g = fr
        while g.closure is not None and not g.is_local(root.id):
            g = g.closure
        if isinstance(e, ast.Name) and g.count.get(root.id, 0):
            v = g.single.get(root.id)
            return v is not None and dotted(v) is not None and '.' in dotted(v) + '.' and isinstance(v, ast.Attribute)
        if g.count.get(root.id, 0):
            return False
        if root.id in g.binds and g.binds[root.id][0] is not None:
            return self.persistent(g.binds[root.id][0], g.binds[root.id][1])
        return True


def managers(p, ck):
    for f in p.functions():
        if not is_manager(f):
            continue
        g = Graph(p, f, small)
        st = Stack(g, f)
        worst = [(k, n) for k, n in (('raised', g.raised), ('exit', g.exit)) if st.res.get(n.id)]
        if worst:
            k, x = worst[0]
            loc, i = sorted(st.res[x.id])[0]
            how = 'when an exception passes through' if k == 'raised' else 'on a normal exit'
            ck.bad('manager', f'{f.qual}: pushes', f.where, f'{f.qual} pushes on {loc} at {g.nodes[i].where} and does not take it back {how}',
                   lines(g.path(g.nodes[i], x) or [g.nodes[i]]))
        else:
            ck.ok('manager', f'{f.qual}: pushes', f.where)
        for loc in sorted(assigned(g)):
            judge(p, ck, 'manager', f'{f.qual}: {loc}', g, loc, text=f'the context manager {f.qual} changes {loc}')


def assigned(g):
    """Attribute locations assigned in a graph."""
    out = set()
    for n in g.reachable():
        if n.kind == 'stmt':
            ts = [t for t, _ in targets(n.ast)] + ([n.ast.target] if isinstance(n.ast, ast.AugAssign) else [])
            for t in ts:
                if isinstance(t, ast.Attribute):
                    c = n.frame.canon(t)
                    if c and not c[0].isdigit():
                        out.add(c)
    return out


# -- mode flags

def flags(p, ck):
    rest = {}
    for c in p.classes():
        init = c.find_method('__init__')
        if init is None or init.cls is not c:
            continue
        for n in ast.walk(init.node):
            for t, v in targets(n) if isinstance(n, (ast.Assign, ast.AnnAssign)) else ():
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' \
                        and isinstance(v, ast.Constant) and isinstance(v.value, bool):
                    rest.setdefault(t.attr, (v.value, c))
    seen = set()
    for f in p.functions():
        if f.name == '__init__':
            continue
        names = set()
        for n in ast.walk(f.node):
            for t, v in targets(n) if isinstance(n, (ast.Assign, ast.AnnAssign, ast.Expr)) else ():
                if isinstance(t, ast.Attribute) and t.attr in rest and not (isinstance(t.value, ast.Name) and t.value.id == 'self'):
                    names.add(t.attr)
        if not names:
            continue
        if is_manager(f) or callers_inline(p, f):
            continue
        g = Graph(p, f, small)
        for loc in sorted(assigned(g)):
            attr = loc.split('.')[-1]
            if attr not in names or (f.qual, loc) in seen:
                continue
            seen.add((f.qual, loc))
            judge(p, ck, 'flag', f'{f.qual}: {loc}', g, loc, rest=(rest[attr][0],),
                  text=f'{loc} rests at {rest[attr][0]}')


def callers_inline(p, f):
    """A private helper that every caller's graph inlines is judged there."""
    return f.name.startswith('_') and not f.name.startswith('__') and f.cls is not None


# -- optimisers

def trials(p, ck):
    base = p.cls('training.optimizer.Optimizer')
    for c in sorted(base.all_subclasses(), key=lambda c: c.name):
        m = c.find_method('backward')
        if c is base or m is None or m.is_abstract or m.cls is not c:
            continue
        g = Graph(p, m, small, cls=c)
        loc = 'self.model.weights'
        step = c.find_method('step')
        kinds = ['raised']
        if step is not None and not step.is_abstract and reads_first(Graph(p, step, small, cls=c), loc):
            kinds.append('exit')
        judge(p, ck, 'trial', f'{c.name}.backward: {" and ".join(kinds)}', g, loc, kinds=kinds, text='the model is evaluated at trial weights')


def reads_first(g, loc):
    """Is the location read before it is first assigned on some path?"""
    def killed(n):
        return n.kind == 'stmt' and any(isinstance(t, ast.Attribute) and n.frame.canon(t) == loc for t, _ in targets(n.ast)) \
            and not reads(n)

    def reads(n):
        if n.ast is None or n.kind not in ('stmt', 'test', 'eval', 'return', 'enter'):
            return False
        if isinstance(n.ast, ast.AugAssign) and n.frame.canon(n.ast.target) == loc:
            return True
        return any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and n.frame.canon(x) == loc for x in own_walk(n.ast))
    for n in g.reachable():
        if reads(n) and g.path(g.entry, n, avoid=killed):
            return True
    return False


# -- saved and put back

def generic(p, ck):
    for f in p.functions():
        saved = set()
        stored = set()
        for n in ast.walk(f.node):
            for t, v in targets(n) if isinstance(n, (ast.Assign, ast.AnnAssign, ast.Expr)) else ():
                if isinstance(t, ast.Name) and v is not None:
                    e = stripped(v)[0]
                    if isinstance(e, ast.Attribute):
                        saved.add((t.id, e.attr))
                if isinstance(t, ast.Attribute) and v is not None:
                    e = stripped(v)[0]
                    if isinstance(e, ast.Name):
                        stored.add((e.id, t.attr))
        both = saved & stored
        if not both or is_manager(f):
            continue
        g = Graph(p, f, small)
        for loc in sorted(assigned(g)):
            if loc.split('.')[-1] in {a for _, a in both}:
                r = Restore(g, loc)
                if r.restores:
                    # a rollback in an exception handler says nothing about normal returns
                    normal = any(g.path(n, g.exit) for n in r.restores.values())
                    judge(p, ck, 'restored', f'{f.qual}: {loc}', g, loc, kinds=('exit', 'raised') if normal else ('raised',),
                          text=f'{loc} is saved and put back')


# -- switching backends

def scoped(p, ck):
    scopes = [f for f in p.functions() if is_manager(f) and f.module.name.endswith('numerical_backend')]
    names = {f.name for f in scopes}
    ext = {'DefaultBackend', 'no_grad', 'catch_warnings', 'set_grad_enabled', 'enable_grad', 'errstate'}
    n_ok = 0
    for m in p.modules.values():
        good = set()
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                good.update(id(i.context_expr) for i in n.items)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('enter_context', 'push'):
                good.update(id(a) for a in n.args)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                good.update(id(d) for d in n.decorator_list)
            if isinstance(n, ast.Return) and n.value is not None:
                good.add(id(n.value))
        named = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.targets[0], ast.Name):
                named[id(n.value)] = n.targets[0].id
        used = {i.context_expr.id for n in ast.walk(m.tree) if isinstance(n, ast.With) for i in n.items if isinstance(i.context_expr, ast.Name)}
        entered = {n.args[0].id for n in ast.walk(m.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                   and n.func.attr == 'enter_context' and n.args and isinstance(n.args[0], ast.Name)}
        local = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    local[a.asname or a.name.split('.')[0]] = (a.name if a.asname else a.name.split('.')[0], '')
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    local[a.asname or a.name] = (n.module or '', a.name)
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            d = dotted(n.func) or ''
            t = p.resolve_expr(n.func, m) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
            if t is None and d.split('.')[0] in local:            # imported inside a function
                mod, name = local[d.split('.')[0]]
                rest = d.split('.')[1:]
                full = '.'.join(([mod] if mod else []) + ([name] if name else []) + rest)
                t = ('ext', full)
                for f in scopes + [x for x in p.functions() if x.name == 'set_backend']:
                    if f.qual == full:
                        t = f
            if isinstance(t, FuncInfo) and t.name == 'set_backend' and t.module.name.endswith('numerical_backend'):
                ck.bad('scoped', f'{m.name}: {d}', f'{m.rel}:{n.lineno}', 'set_backend switches the backend for good')
                continue
            if d.split('.')[-1] in ('set_default_backend',) and not isinstance(t, FuncInfo):
                ck.bad('scoped', f'{m.name}: {d}', f'{m.rel}:{n.lineno}', 'the default backend is switched for good')
                continue
            mine = isinstance(t, FuncInfo) and t in scopes
            if not mine and not (isinstance(t, tuple) and t[0] == 'ext' and t[1].split('.')[-1] in ext):
                continue
            key = f'{m.name}: {d}'
            if id(n) in good or named.get(id(n)) in used | entered:
                n_ok += 1
                ck.ok('scoped', f'{key} {n_ok}', f'{m.rel}:{n.lineno}')
            else:
                ck.bad('scoped', key, f'{m.rel}:{n.lineno}', f'{d}(...) is not the context expression of a with statement')


# -- temporary paths

MAKERS = {'mkdtemp', 'mkstemp', 'NamedTemporaryFile', 'SpooledTemporaryFile', 'TemporaryDirectory', 'TemporaryFile'}
REMOVERS = {'rmtree', 'unlink', 'remove', 'rmdir', 'cleanup', 'close', 'replace', 'rename', 'move'}


def temporary(p, ck):
    for f in p.functions():
        for c in ast.walk(f.node):
            if not (isinstance(c, ast.Call) and (dotted(c.func) or '').split('.')[-1] in MAKERS):
                continue
            what = dotted(c.func).split('.')[-1]
            kept = any(k.arg == 'delete' and isinstance(k.value, ast.Constant) and k.value.value is False for k in c.keywords)
            key = f'{f.qual}: {what}'
            if what not in ('mkdtemp', 'mkstemp') and not kept:
                ck.ok('temporary', key, f.where, 'removes itself')
                continue
            g = Graph(p, f, small)
            starts = [n for n in g.reachable() if n.ast is not None and any(x is c for x in own_walk(n.ast)) and n.kind in ('stmt', 'enter', 'eval')]

            def removes(n):
                return n.ast is not None and n.kind in ('stmt', 'return', 'test', 'exit-with') and any(
                    isinstance(x, ast.Call) and (dotted(x.func) or getattr(x.func, 'attr', '')).split('.')[-1] in REMOVERS for x in own_walk(n.ast))
            leak = None
            for s in starts:
                for m, label in s.succ:
                    if label == 'exc' or removes(m):
                        continue
                    for x in (g.raised, g.exit):
                        path = [m] if m is x else g.path(m, x, avoid=removes)
                        if path:
                            leak = leak or (s, path)
            if leak:
                ck.bad('temporary', key, leak[0].where, f'{f.qual}: what {what} creates is not removed on every exit', lines(leak[1]))
            else:
                ck.ok('temporary', key, f.where)
