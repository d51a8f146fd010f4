"""Which objects a function may modify: an interprocedural effect analysis.

Abstract locations are access paths from the parameters (`x`, `x.layers[]`)
and allocation sites.  A flow-sensitive pass over every function body keeps,
per variable and per field, the locations it may hold; assignments update it,
copies make new locations.  Function summaries (modified paths, stored and
returned locations) are iterated to a fixed point over the call graph.
"""
import ast
from .project import ClassInfo, FuncInfo, Module

E_ = '[]'
def key_calls(e):
    """Functions that the key of a sort is made of."""
    for k in e.keywords:
        if k.arg == 'key':
            return {x.id for x in ast.walk(k.value) if isinstance(x, ast.Name)}
    return set()


def coarse_key(e):
    """A sort whose key leaves many elements tied."""
    for k in e.keywords:
        if k.arg == 'key':
            b = k.value.body if isinstance(k.value, ast.Lambda) else k.value
            if isinstance(b, ast.Call) and isinstance(k.value, ast.Lambda):
                b = b.func
            return isinstance(b, ast.Name) and b.id in ('len', 'type', 'bool', 'id', 'hash') or isinstance(b, ast.Constant)
    return False


MARK = '!'      # pseudo field: the order of this container comes from an unordered one
MAXPATH = 4
RESIZE = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'popitem', 'setdefault', 'add', 'discard', 'update',
          'appendleft', 'popleft', 'extendleft', 'difference_update', 'intersection_update', 'symmetric_difference_update'}
INPLACE = RESIZE | {'sort', 'reverse', 'fill', 'itemset',
                    'add_edge', 'add_edges_from', 'add_node', 'add_nodes_from', 'remove_edge', 'remove_node', 'remove_edges_from', 'remove_nodes_from',
                    'add_gate', 'add_bit', 'add_qubit', 'rename_units', 'flatten_registers', 'remove_blank_wires', 'post_select',
                    '__setitem__', '__delitem__', '__setattr__'}
KEEPS = {'list', 'tuple', 'enumerate', 'zip', 'iter', 'map', 'filter', 'reversed', 'array', 'asarray', 'tensor', 'stack', 'concatenate', 'chain', 'from_iterable', 'deque', 'islice', 'product', 'copy', 'deepcopy', 'as_tensor', 'OrderedDict', 'dict', 'fromkeys', 'permutations', 'combinations', 'repeat'}
DROPS = {'pop', 'popitem', 'get', 'setdefault', 'popleft', '__getitem__'}
WRAPS = {'values', 'items', 'keys'}
VIEWS = {'reshape', 'ravel', 'view', 'squeeze', 'unsqueeze', 'transpose', 'swapaxes', 'detach', 'numpy', 'expand', 'contiguous', '__enter__', 'requires_grad_', 'to', 'cpu', 'cuda', 'double', 'float', 'eval', 'train'}
EXTVIEWS = {'asarray', 'as_tensor', 'asanyarray', 'from_numpy', 'atleast_1d', 'atleast_2d', 'reshape', 'ravel', 'squeeze', 'transpose', 'moveaxis', 'swapaxes', 'cast', 'ascontiguousarray', 'tqdm', 'next', 'broadcast_to', 'no_grad'}
ITERS = {'reversed', 'enumerate', 'zip', 'iter', 'map', 'filter', 'chain', 'islice', 'product', 'pairwise', 'from_iterable', 'zip_longest'}
COPIES = {'list', 'tuple', 'set', 'frozenset', 'dict', 'sorted', 'copy', 'array', 'deque', 'OrderedDict', 'Counter', 'defaultdict'}
EXTMUT = {'shuffle': 0, 'heappush': 0, 'heappop': 0, 'heapify': 0, 'fill_diagonal': 0, 'copyto': 0, 'put': 0, 'insort': 0}
ATOMS = {'str', 'int', 'float', 'bool', 'None', 'complex', 'bytes', 'Any', 'Callable'}
CONTAINERS = {'list': 'list', 'List': 'list', 'dict': 'dict', 'Dict': 'dict', 'set': 'set', 'Set': 'set', 'tuple': 'tuple', 'Tuple': 'tuple', 'deque': 'list', 'defaultdict': 'dict',
              'Sequence': 'seq', 'Iterable': 'seq', 'Iterator': 'seq', 'Mapping': 'dict', 'MutableMapping': 'dict', 'MutableSequence': 'list', 'frozenset': 'tuple', 'Collection': 'seq', 'Generator': 'seq'}


class Val:
    __slots__ = ('locs', 'types')

    def __init__(self, locs=frozenset(), types=frozenset()):
        self.locs, self.types = frozenset(locs), frozenset(types)

    def __or__(self, o):
        if self is NONE or not (self.locs or self.types):
            return o
        if o is NONE or not (o.locs or o.types):
            return self
        return Val(self.locs | o.locs, self.types | o.types)

    def __eq__(self, o):
        return isinstance(o, Val) and self.locs == o.locs and self.types == o.types

    def __hash__(self):
        return hash((self.locs, self.types))

    def __repr__(self):
        return f'Val({sorted(map(showloc, self.locs))}, {sorted(map(str, self.types))})'


NONE = Val()


def showloc(l):
    if l[0] == 'arg':
        return l[1] + showpath(l[2])
    return f'{l[0]}:{l[1]}'


def showpath(path):
    out = ''
    for f in path:
        out += '[…]' if f == E_ else f'.{f}'
    return out


class State:
    def __init__(self, env=None, heap=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.dead = False

    def copy(self):
        s = State(dict(self.env), dict(self.heap))
        s.dead = self.dead
        return s


def default(loc, field):
    """What a field holds if nothing has been stored in it."""
    if loc[0] == 'arg' and field != MARK:
        p = loc[2]
        if len(p) >= MAXPATH:
            return Val([loc])
        return Val([('arg', loc[1], p + (field,))])
    return NONE


def join(a, b):
    if a is None or a.dead:
        return b
    if b is None or b.dead:
        return a
    env = dict(a.env)
    for k, v in b.env.items():
        env[k] = env[k] | v if k in env else v
    heap = {}
    for k in a.heap.keys() | b.heap.keys():
        x, y = a.heap.get(k), b.heap.get(k)
        if x is None:
            x = default(*k)
        if y is None:
            y = default(*k)
        heap[k] = x | y
    return State(env, heap)


class Summary:
    def __init__(self):
        self.effects = {}        # (param, path, root function) -> (node where, what, resized, root)
        self.ret = NONE          # locations in terms of parameters, ('ret',) for a new object
        self.fields = {}         # fields of the new object -> Val
        self.stores = {}         # (arg loc, field) -> Val

    def key(self):
        return (frozenset(self.effects), self.ret, frozenset(self.fields.items()), frozenset(self.stores.items()))


class Effects:
    def __init__(self, p, rounds=6):
        self.p = p
        self.summaries = {}
        self.funcs = {}
        self.byname = {}
        self.loops = {}
        self.orders = {}         # uses whose result depends on the order of an unordered collection
        self.calledfrom = {}
        self.tcache = {}
        self.types = {}          # types of every expression, by node id
        for f in p.functions():
            self.funcs[f.node] = f
            self.summaries[f.node] = Summary()
            if f.cls is not None:
                self.byname.setdefault(f.name, []).append(f)
        for m in p.modules.values():
            for c in m.classes.values():
                for f in c.setters.values():
                    self.funcs[f.node] = f
                    self.summaries[f.node] = Summary()
        self.attr_types = {}
        self.infer_attrs()
        todo = list(self.funcs.values())
        for r in range(rounds):
            changed = set()
            for f in todo:
                s = Run(self, f).go()
                if s.key() != self.summaries[f.node].key():
                    self.summaries[f.node] = s
                    changed.add(f.node)
                else:
                    self.summaries[f.node] = s
            if not changed:
                break
            again = {n for c in changed for n in self.calledfrom.get(c, ())} | changed
            todo = [self.funcs[n] for n in self.funcs if n in again]
        self.rounds = r + 1

    # ------------------------------------------------------------- types
    def ann(self, e, module):
        """Types of an annotation."""
        k = (id(e), module.name)
        if k not in self.tcache:
            self.tcache[k] = frozenset(self._ann(e, module))
        return self.tcache[k]

    def _ann(self, e, module, depth=0):
        if e is None or depth > 6:
            return set()
        if isinstance(e, ast.Constant):
            if e.value is None:
                return {('atom',)}
            if isinstance(e.value, str):
                try:
                    return self._ann(ast.parse(e.value, mode='eval').body, module, depth + 1)
                except SyntaxError:
                    return set()
            return set()
        if isinstance(e, ast.BinOp):
            return self._ann(e.left, module, depth + 1) | self._ann(e.right, module, depth + 1)
        name = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None
        if isinstance(e, ast.Subscript):
            base = e.value.attr if isinstance(e.value, ast.Attribute) else getattr(e.value, 'id', None)
            args = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if base in ('Optional', 'Union', 'Annotated', 'Final', 'ClassVar'):
                out = set()
                for a in args:
                    out |= self._ann(a, module, depth + 1)
                return out
            if base in CONTAINERS:
                kind = CONTAINERS[base]
                if kind == 'dict':
                    args = args[-1:]
                elem = set()
                for a in args:
                    if not (isinstance(a, ast.Constant) and a.value is Ellipsis):
                        elem |= self._ann(a, module, depth + 1)
                return {(kind, frozenset(elem))}
            if base in ('type', 'Type'):
                return set()
            return self._ann(e.value, module, depth + 1)
        if name is None:
            return set()
        if name in CONTAINERS:
            r = self.p.resolve_expr(e, module)
            if not isinstance(r, ClassInfo):
                return {(CONTAINERS[name], frozenset())}
        if name in ATOMS:
            return {('atom',)}
        r = self.p.resolve_expr(e, module)
        if isinstance(r, ClassInfo):
            return {('cls', r)}
        if isinstance(r, tuple) and r[0] == 'expr':
            return self._ann(r[1], r[2], depth + 1)
        if isinstance(r, tuple) and r[0] == 'ext':
            return {('ext', r[1])}
        return set()

    def infer_attrs(self):
        """Types of attributes: annotations in the class body or in methods."""
        for c in self.p.classes():
            d = self.attr_types.setdefault(c, {})
            for n, a in c.anns.items():
                d[n] = self.ann(a, c.module)
            for m in c.methods.values():
                ps = m.params()
                if not ps or m.is_static:
                    continue
                anns = {x.arg: x.annotation for x in m.node.args.posonlyargs + m.node.args.args + m.node.args.kwonlyargs}
                for n in ast.walk(m.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) and n.target.value.id == ps[0]:
                        d[n.target.attr] = d.get(n.target.attr, frozenset()) | self.ann(n.annotation, c.module)
                    elif isinstance(n, ast.Assign) and isinstance(n.value, (ast.Name, ast.Call, ast.List, ast.Dict, ast.ListComp, ast.DictComp, ast.Set, ast.SetComp)):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == ps[0]:
                                ty = frozenset()
                                if isinstance(n.value, ast.Name) and anns.get(n.value.id) is not None:
                                    ty = self.ann(anns[n.value.id], c.module)
                                elif isinstance(n.value, ast.Call):
                                    r = self.p.resolve_expr(n.value.func, c.module)
                                    if isinstance(r, ClassInfo):
                                        ty = frozenset([('cls', r)])
                                elif isinstance(n.value, (ast.List, ast.ListComp)):
                                    ty = frozenset([('list', frozenset())])
                                elif isinstance(n.value, (ast.Dict, ast.DictComp)):
                                    ty = frozenset([('dict', frozenset())])
                                elif isinstance(n.value, (ast.Set, ast.SetComp)):
                                    ty = frozenset([('set', frozenset())])
                                d[t.attr] = d.get(t.attr, frozenset()) | ty

    def attr_type(self, c, name):
        for k in c.mro():
            t = self.attr_types.get(k, {}).get(name)
            if t:
                return t
        return frozenset()

    def candidates(self, types, name):
        """Methods a call of that name may run."""
        out = []
        for t in types:
            if t[0] == 'cls':
                m = t[1].find_method(name)
                if m is not None and m not in out:
                    out.append(m)
                for s in t[1].all_subclasses():
                    if name in s.methods and s.methods[name] not in out:
                        out.append(s.methods[name])
        return out


class Run:
    """One pass over a function body."""

    def __init__(self, E, info):
        self.E, self.p, self.info = E, E.p, info
        self.sum = Summary()
        self.fns = {}
        self.depth = 0
        self.rets = []
        self.active = []
        self.unord = []
        self.hits = {}
        self.raising = 0

    def go(self):
        st = State()
        f = self.info
        a = f.node.args
        ps = a.posonlyargs + a.args + a.kwonlyargs
        for i, x in enumerate(ps):
            ty = self.E.ann(x.annotation, f.module) if x.annotation is not None else frozenset()
            if i == 0 and f.cls is not None and not f.is_static:
                ty = frozenset([('cls', f.cls)]) if not f.is_classmethod else frozenset([('type', f.cls)])
            st.env[x.arg] = Val([] if ty and ty <= {('atom',)} else [('arg', x.arg, ())], ty)
        if a.vararg:
            st.env[a.vararg.arg] = Val([('new', 'varargs', f.node.lineno)], [('tuple', self.E.ann(a.vararg.annotation, f.module) if a.vararg.annotation is not None else frozenset())])
            st.heap[(('new', 'varargs', f.node.lineno), E_)] = Val([('arg', a.vararg.arg, (E_,))])
        if a.kwarg:
            st.env[a.kwarg.arg] = Val([('new', 'kwargs', f.node.lineno)], [('dict', self.E.ann(a.kwarg.annotation, f.module) if a.kwarg.annotation is not None else frozenset())])
            st.heap[(('new', 'kwargs', f.node.lineno), E_)] = Val([('arg', a.kwarg.arg, (E_,))])
        final = None
        st = self.block(f.node.body, st)
        outs = list(self.rets)
        if not st.dead:
            outs.append((NONE, st))
        for v, s in outs:
            self.sum.ret |= Val([l for l in v.locs if l[0] == 'arg'], v.types)
            news = [l for l in v.locs if l[0] != 'arg']
            if news:
                self.sum.ret |= Val([('ret',)])
                for l in news:
                    for (k, fld), x in s.heap.items():
                        if k == l:
                            y = Val([z for z in x.locs if z[0] == 'arg'], x.types)
                            self.sum.fields[fld] = self.sum.fields.get(fld, NONE) | y
            final = join(final, s)
        if final is not None:
            for (l, fld), x in final.heap.items():
                if l[0] == 'arg':
                    y = Val([z for z in x.locs if z[0] == 'arg'], x.types)
                    self.sum.stores[(l, fld)] = y
        for node, (params, body, env) in list(self.fns.items()):
            if node not in self.called:
                s = State(dict(env), {})
                for q in params:
                    s.env[q] = NONE
                self.inline(node, s)
        if f.node.returns is not None and not self.sum.ret.types:
            self.sum.ret = Val(self.sum.ret.locs, self.E.ann(f.node.returns, f.module))
        self.E.orders[f.node] = list(self.hits.values())
        return self.sum

    called = property(lambda self: self.__dict__.setdefault('_called', set()))

    def where(self, node):
        return f'{self.info.module.rel}:{getattr(node, "lineno", self.info.node.lineno)}'

    # --------------------------------------------------------------- effects
    def effect(self, v, node, what, resized=False, root=None):
        for l in v.locs:
            if l[0] == 'arg':
                r = root or (self.where(node), self.info.qual, what, self.info.node, l[1])
                self.sum.effects.setdefault((l[1], l[2], r[1]), (self.where(node), what, resized, r))
            for loop in self.active:
                if resized and l in loop['locs']:
                    loop['hits'].append((l, node, what))

    # ---------------------------------------------------------------- heap
    def deref(self, v, field, st):
        out = NONE
        for l in v.locs:
            x = st.heap.get((l, field))
            if x is None:
                o = st.heap.get((l, '~'))
                if o is not None:
                    x = self.deref(o, field, st)
                else:
                    x = default(l, field)
            out |= x
        types = set(out.types)
        for t in v.types if field != MARK else ():
            if field == E_ and t[0] in ('list', 'dict', 'set', 'tuple', 'seq'):
                types |= t[1]
            elif field != E_ and t[0] == 'cls':
                types |= self.E.attr_type(t[1], field)
            elif field == E_ and t[0] == 'cls':
                for c in self.E.candidates([t], '__getitem__') or self.E.candidates([t], '__iter__'):
                    types |= {x for x in self.E.summaries[c.node].ret.types if x[0] == 'cls'}
        if types and types <= {('atom',)}:
            return Val([], types)
        return Val(out.locs, types)

    def store(self, v, field, x, st, node, what=None, resized=False):
        if field != E_:
            w = self.unordered(x, st)
            if w is not None and w[1]:
                self.order(node, f'kept in the attribute {field}', w)
        elif self.unord and any(t[0] == 'dict' for t in v.types):
            w = self.inside(v)
            if w is not None:
                self.mark(v, st, w)
        self.effect(v, node, what or (f'its attribute {field} is set' if field != E_ else 'an element is set'), resized)
        for l in v.locs:
            if len(v.locs) == 1 and field != E_:
                st.heap[(l, field)] = x
            else:
                old = st.heap.get((l, field))
                st.heap[(l, field)] = (old if old is not None else self.deref(Val([l]), field, st)) | x

    def new(self, node, tag='', types=(), elem=None, st=None):
        l = ('new', tag, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), self.depth)
        if st is not None:
            for k in [k for k in st.heap if k[0] == l]:
                del st.heap[k]
            if elem is not None:
                st.heap[(l, E_)] = elem
        return Val([l], types)

    # ------------------------------------------------- order of collections
    def by_address(self, e):
        if 'id' in key_calls(e) or 'hash' in key_calls(e):
            self.order(e, 'sorted by identity or hash', ('identity or hash', self.where(e)))

    def mark(self, v, st, why):
        for l in v.locs:
            if l[0] != 'fn':
                st.heap[(l, MARK)] = Val([], [('unord', why)])
        return v

    def unordered(self, v, st):
        """Where the order of a collection comes from, if from an unordered one."""
        kinds = {t[0] for t in v.types}
        if 'set' in kinds and not kinds & {'list', 'tuple', 'dict'}:
            return ('set', '')
        for l in v.locs:
            x = st.heap.get((l, MARK))
            if x is None and (l, '~') in st.heap:
                x = self.deref(Val([l]), MARK, st)
            if x is not None:
                for t in x.types:
                    if t[0] == 'unord':
                        return t[1]
        return None

    def carry(self, out, vs, st, node):
        """`out` has its elements in the order of `vs`."""
        for v in vs:
            w = self.unordered(v, st)
            if w is not None:
                why = w if w[1] else (w[0], self.where(node))
                self.mark(out, st, why)
        return out

    def inside(self, v):
        """A collection that lives longer than the innermost loop over an unordered one."""
        for node, why in self.unord:
            ls = [l for l in v.locs if l[0] != 'fn']
            if ls and all(l[0] == 'new' and isinstance(l[2], int) and node.lineno <= l[2] <= (node.end_lineno or node.lineno) and l[4] == self.depth for l in ls):
                continue
            return why
        return None

    def order(self, node, what, why):
        self.hits[(getattr(node, 'lineno', 0), what)] = (self.where(node), what, why)

    # ---------------------------------------------------------- statements
    def block(self, body, st):
        for s in body:
            if st.dead:
                break
            self.stmt_now = s
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Expr):
            self.ev(s.value, st)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, st)
            for t in s.targets:
                self.bind(t, v, st, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                v = self.ev(s.value, st)
                ty = self.E.ann(s.annotation, self.info.module)
                self.bind(s.target, Val(v.locs, ty or v.types), st, s.value)
        elif isinstance(s, ast.AugAssign):
            self.aug(s, st)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, st) if s.value is not None else NONE
            self.rets.append((v, st.copy()))
            st.dead = True
        elif isinstance(s, ast.If):
            self.ev(s.test, st)
            a, b = st.copy(), st.copy()
            self.narrow(s.test, a, True)
            self.narrow(s.test, b, False)
            a, b = self.block(s.body, a), self.block(s.orelse, b)
            st = join(a, b) if not (a.dead and b.dead) else a
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            st = self.loop(s, st)
        elif isinstance(s, ast.While):
            for _ in range(3):
                self.ev(s.test, st)
                b = self.block(s.body, st.copy())
                st2 = join(st, b)
                if st2.env == st.env and st2.heap == st.heap:
                    break
                st = st2
            st.dead = False
            st = self.block(s.orelse, st)
        elif isinstance(s, ast.Try):
            pre = st.copy()
            body = self.block(s.body, st)
            mid = join(pre, body)
            outs = []
            if not body.dead:
                outs.append(self.block(s.orelse, body))
            for h in s.handlers:
                c = mid.copy()
                if h.name:
                    c.env[h.name] = NONE
                outs.append(self.block(h.body, c))
            live = [o for o in outs if not o.dead]
            r = None
            for o in live:
                r = join(r, o)
            if r is None:
                r = mid.copy()
                r = self.block(s.finalbody, r)
                r.dead = True
                return r
            st = self.block(s.finalbody, r)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, st, i.context_expr)
            st = self.block(s.body, st)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.define(s, s.args, s.body, st)
            st.env[s.name] = Val([('fn', id(s))])
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.raising += 1
                self.ev(s.exc, st)
                self.raising -= 1
            st.dead = True
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.ev(t.slice, st)
                    v = self.ev(t.value, st)
                    for m in self.E.candidates(v.types, '__delitem__'):
                        self.apply(m, v, [(None, self.ev(t.slice, st))], {}, st, s)
                    self.effect(v, s, 'an element is deleted', True)
                elif isinstance(t, ast.Attribute):
                    self.effect(self.ev(t.value, st), s, f'its attribute {t.attr} is deleted')
                elif isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
        elif isinstance(s, (ast.Break, ast.Continue)):
            (self.brk if isinstance(s, ast.Break) else self.cnt)[-1].append(st.copy()) if self.brk else None
            st.dead = True
        elif isinstance(s, ast.Match):
            self.ev(s.subject, st)
            r = st.copy()
            for c in s.cases:
                r = join(r, self.block(c.body, st.copy()))
            st = r
        elif isinstance(s, ast.Assert):
            self.ev(s.test, st)
            self.narrow(s.test, st, True)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            pass
        return st

    brk = property(lambda self: self.__dict__.setdefault('_brk', []))
    cnt = property(lambda self: self.__dict__.setdefault('_cnt', []))

    def narrow(self, test, st, pos):
        """isinstance tests refine the types of a variable."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, st, not pos)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == pos:
                for v in test.values:
                    self.narrow(v, st, pos)
            return
        if pos and isinstance(test, ast.Call) and getattr(test.func, 'id', None) == 'isinstance' and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            n = test.args[0].id
            if n in st.env:
                ts = set()
                for t in (test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]):
                    x = self.E._ann(t, self.info.module)
                    if not x:
                        return
                    ts |= x
                v = st.env[n]
                st.env[n] = Val([] if ts <= {('atom',)} else v.locs, ts)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if isinstance(test.ops[0], ast.Is) == pos and isinstance(test.ops[0], (ast.Is, ast.IsNot)) and test.left.id in st.env:
                st.env[test.left.id] = Val([], [('atom',)])

    def loop(self, s, st):
        v = self.ev(s.iter, st)
        src = self.source(s.iter, st)
        elem = self.element(s.iter, v, st)
        rec = {'locs': src, 'hits': [], 'node': s}
        why = self.unordered(v, st)
        if why is not None:
            self.unord.append((s, why if why[1] else (why[0], self.where(s.iter))))
        out = None
        for _ in range(3):
            b = st.copy()
            self.bind(s.target, elem, b, None)
            self.brk.append([])
            self.cnt.append([])
            rec['hits'] = []
            self.active.append(rec)
            b = self.block(s.body, b)
            self.active.pop()
            br, ct = self.brk.pop(), self.cnt.pop()
            nxt = b if not b.dead else None
            for c in ct:
                nxt = join(nxt, c)
            out = None
            for c in br:
                out = join(out, c)
            st2 = join(st, nxt) if nxt is not None else st
            if st2.env == st.env and st2.heap == st.heap:
                break
            st = st2
            elem = self.element(s.iter, self.ev(s.iter, st.copy()), st)
        if why is not None:
            self.unord.pop()
        if src:
            self.E.loops.setdefault((self.info.qual, s.lineno), [self.info, s, []])[2] = [h for h in rec['hits'] if not leaves_after(s, h[1])]
        st = st.copy()
        st.dead = False
        st = self.block(s.orelse, st)
        r = join(out, st) if out is not None else st
        return r

    def source(self, e, st):
        """The containers a loop iterates over directly."""
        if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)):
            v = self.ev(e, st.copy())
            return frozenset(l for l in v.locs if l[0] != 'fn') if len(v.locs) <= 2 else frozenset()
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in WRAPS and not e.args:
                return self.source(e.func.value, st)
            n = e.func.id if isinstance(e.func, ast.Name) else None
            if n in ('enumerate', 'reversed', 'iter', 'tqdm', 'filter', 'map', 'zip') and e.args:
                out = frozenset()
                for a in e.args[1:] if n in ('filter', 'map') else e.args:
                    out |= self.source(a, st)
                return out if n != 'reversed' else frozenset()
        return frozenset()

    def element(self, e, v, st):
        if isinstance(e, ast.Call):
            n = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else None
            if n in ('enumerate', 'zip', 'items'):
                return v_elem(self, v, st)
        return self.deref(v, E_, st)

    def bind(self, t, v, st, src):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in src.elts + t.elts):
                vs = [self.ev(x, st) for x in src.elts]
                for x, y, z in zip(t.elts, vs, src.elts):
                    self.bind(x, y, st, z)
                return
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    d = self.deref(v, E_, st)
                    self.bind(x.value, self.new(x, 'star', [('list', d.types)], d, st), st, None)
                else:
                    w = NONE
                    for l in v.locs:
                        if (l, i) in st.heap:
                            w |= st.heap[(l, i)]
                        else:
                            w |= self.deref(Val([l], v.types), E_, st)
                    self.bind(x, w, st, None)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            setter = [s for ty in o.types if ty[0] == 'cls' for c in ty[1].mro() for n, s in c.setters.items() if n == t.attr][:1]
            if setter:
                self.apply(setter[0], o, [(None, v)], {}, st, t)
            else:
                self.store(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice, st)
            o = self.ev(t.value, st)
            ms = self.E.candidates(o.types, '__setitem__')
            for m in ms:
                self.apply(m, o, [(None, NONE), (None, v)], {}, st, t)
            if not ms:
                self.store(o, E_, v, st, t, resized='dict?' if any(x[0] == 'dict' for x in o.types) else False)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, st, None)

    def aug(self, s, st):
        v = self.ev(s.value, st)
        t = s.target
        if self.unord and isinstance(s.op, (ast.MatMult, ast.RShift, ast.LShift, ast.Add)):
            o = self.ev(t, st) if not isinstance(t, ast.Subscript) else NONE
            self.composed(o, v, s, st)
        if isinstance(t, ast.Name):
            o = st.env.get(t.id, NONE)
            mut = {x for x in o.types if x[0] in ('list', 'set', 'dict') or x[0] == 'ext' and x[1].split('.')[-1] in ('ndarray', 'Tensor', 'ArrayLike', 'NDArray')}
            if mut and not [x for x in o.types if x[0] not in ('list', 'set', 'dict', 'ext')]:
                self.effect(o, s, 'it is extended or changed in place', any(x[0] in ('list', 'set', 'dict') for x in mut))
                for l in o.locs:
                    st.heap[(l, E_)] = self.deref(Val([l], o.types), E_, st) | self.deref(v, E_, st)
            else:
                fresh = self.new(s, 'aug', o.types, self.deref(o, E_, st) | self.deref(v, E_, st), st)
                st.env[t.id] = Val([] if o.types and o.types <= {('atom',)} else fresh.locs, o.types)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            old = self.deref(o, t.attr, st)
            if {x for x in old.types if x[0] in ('list', 'set', 'dict')}:
                self.effect(old, s, 'it is extended in place', True)
            self.effect(o, s, f'its attribute {t.attr} is changed')
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice, st)
            self.effect(self.ev(t.value, st), s, 'an element is changed')

    # --------------------------------------------------------- expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            v = m(e, st)
            if v.types:
                ty = self.E.types.get(id(e))
                self.E.types[id(e)] = v.types if ty is None else ty | v.types
            return v
        out = NONE
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return out

    def e_Constant(self, e, st):
        return ATOM

    def e_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        r = self.p.resolve_name(e.id, self.info.module)
        if isinstance(r, ClassInfo):
            return Val([], [('type', r)])
        if isinstance(r, FuncInfo):
            return Val([], [('func', r.qual)])
        if isinstance(r, tuple) and r[0] in ('expr', 'item'):
            return Val([('glob', r[2].name, e.id)])
        return NONE

    def e_JoinedStr(self, e, st):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, st)
        return ATOM

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_IfExp(self, e, st):
        self.ev(e.test, st)
        a, b = st.copy(), st.copy()
        self.narrow(e.test, a, True)
        self.narrow(e.test, b, False)
        return self.ev(e.body, a) | self.ev(e.orelse, b)

    def e_BoolOp(self, e, st):
        out = NONE
        for v in e.values:
            out |= self.ev(v, st)
        return out

    def e_Compare(self, e, st):
        self.ev(e.left, st)
        for c in e.comparators:
            self.ev(c, st)
        return ATOM

    def e_UnaryOp(self, e, st):
        self.ev(e.operand, st)
        return NONE

    def composed(self, a, b, node, st):
        """Something is put together, piece by piece, in an unordered loop."""
        kinds = {t[0] for t in a.types}
        if isinstance(getattr(node, 'op', None), (ast.MatMult, ast.RShift, ast.LShift)) and not any(t[0] == 'ext' for t in a.types) or kinds & {'list', 'tuple'} and not kinds & {'set'}:
            w = self.inside(a)
            if w is not None:
                if kinds & {'list', 'tuple'}:
                    self.mark(a, st, w)
                else:
                    self.order(node, 'put together in that order', w)

    def e_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        if self.unord and isinstance(e.op, (ast.MatMult, ast.RShift, ast.LShift)) and any(t[0] == 'cls' for t in a.types) and self.accumulates(e):
            self.composed(a, b, e, st)
        t = a.types & b.types if isinstance(e.op, ast.Add) else frozenset()
        if not t and isinstance(e.op, (ast.Add, ast.Mult)):
            t = {x for x in a.types | b.types if x[0] in ('list', 'tuple')}
        if isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
            t = {x for x in a.types | b.types if x[0] == 'set'}
            if isinstance(e.op, ast.BitOr):
                t |= {x for x in a.types | b.types if x[0] == 'dict'}
            if not t and any(x == ('seq', frozenset(), 'keys') for x in a.types | b.types):
                t = {('set', frozenset())}
        name = {'MatMult': '__matmul__', 'RShift': '__rshift__', 'Add': '__add__', 'LShift': '__lshift__', 'Mult': '__mul__', 'Pow': '__pow__', 'Sub': '__sub__'}.get(type(e.op).__name__)
        ms = self.E.candidates(a.types, name) if name else []
        if ms:
            return self.applyall(ms, a, [(None, b)], {}, st, e)
        elem = self.deref(Val([x for x in a.locs], a.types), E_, st) | self.deref(b, E_, st)
        out = self.new(e, 'op', t, elem, st)
        return self.carry(out, [v for v in (a, b) if any(x[0] in ('list', 'tuple') for x in v.types)], st, e)

    def accumulates(self, e):
        """x = x op …"""
        s = self.stmt_now
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and any(
            isinstance(x, ast.Name) and x.id == s.targets[0].id for x in ast.walk(e))

    stmt_now = None

    def e_Lambda(self, e, st):
        self.define(e, e.args, [ast.copy_location(ast.Return(e.body), e)], st)
        return Val([('fn', id(e))])

    def e_List(self, e, st):
        return self.seq(e, 'list', st)

    def e_Set(self, e, st):
        return self.seq(e, 'set', st)

    def e_Tuple(self, e, st):
        return self.seq(e, 'tuple', st)

    def seq(self, e, kind, st):
        elem = NONE
        vs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.deref(self.ev(x.value, st), E_, st)
            else:
                v = self.ev(x, st)
            vs.append(v)
            elem |= v
        out = self.new(e, kind, [(kind, elem.types)], elem, st)
        if kind != 'set':
            self.carry(out, [self.ev(x.value, st) for x in e.elts if isinstance(x, ast.Starred)], st, e)
        if kind == 'tuple' and not any(isinstance(x, ast.Starred) for x in e.elts):
            for i, v in enumerate(vs):
                st.heap[(next(iter(out.locs)), i)] = v
        return out

    def e_Dict(self, e, st):
        elem = NONE
        for k, v in zip(e.keys, e.values):
            if k is None:
                elem |= self.deref(self.ev(v, st), E_, st)
            else:
                self.ev(k, st)
                elem |= self.ev(v, st)
        return self.new(e, 'dict', [('dict', elem.types)], elem, st)

    def comp(self, e, elts, kind, st):
        s = st.copy()
        s.heap = st.heap
        its = []
        for g in e.generators:
            v = self.ev(g.iter, s)
            its.append((v, self.unordered(v, s)))
            self.bind(g.target, self.element(g.iter, v, s), s, None)
            for c in g.ifs:
                self.ev(c, s)
                self.narrow(c, s, True)
        elem = NONE
        for x in elts:
            elem = self.ev(x, s)
        out = self.new(e, kind, [(kind, elem.types)], elem, st)
        if kind != 'set':
            for v, w in its:
                if w is not None:
                    self.mark(out, st, w if w[1] else (w[0], self.where(e)))
        return out

    def e_ListComp(self, e, st):
        return self.comp(e, [e.elt], 'list', st)

    def e_SetComp(self, e, st):
        return self.comp(e, [e.elt], 'set', st)

    def e_GeneratorExp(self, e, st):
        return self.comp(e, [e.elt], 'seq', st)

    def e_DictComp(self, e, st):
        return self.comp(e, [e.key, e.value], 'dict', st)

    def e_Attribute(self, e, st):
        r = None
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and root.id not in st.env:
            r = self.p.resolve_expr(e, self.info.module)
            if isinstance(r, ClassInfo):
                return Val([], [('type', r)])
            if isinstance(r, FuncInfo):
                return Val([], [('func', r.qual)])
            if isinstance(r, tuple) and r[0] == 'ext':
                return Val([], [('ext', r[1])])
        v = self.ev(e.value, st)
        props = [m for m in self.E.candidates(v.types, e.attr) if m.is_property]
        if props:
            return self.applyall(props, v, [], {}, st, e)
        return self.deref(v, e.attr, st)

    def e_Subscript(self, e, st):
        v = self.ev(e.value, st)
        i = self.ev(e.slice, st)
        ms = self.E.candidates(v.types, '__getitem__')
        if ms:
            return self.applyall(ms, v, [(None, i)], {}, st, e)
        if isinstance(e.slice, ast.Slice) or isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
            arrays = any(x[0] == 'ext' for x in v.types)
            if arrays:
                return v
            return self.carry(self.new(e, 'slice', v.types, self.deref(v, E_, st), st), [v], st, e)
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
            w = NONE
            for l in v.locs:
                if (l, e.slice.value) in st.heap:
                    w |= st.heap[(l, e.slice.value)]
                else:
                    w |= self.deref(Val([l], v.types), E_, st)
            return w
        return self.deref(v, E_, st)

    def e_Slice(self, e, st):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, st)
        return NONE

    def e_Starred(self, e, st):
        return self.deref(self.ev(e.value, st), E_, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        g = self.new(self.info.node, 'gen', [('seq', v.types)])
        l = next(iter(g.locs))
        st.heap[(l, E_)] = st.heap.get((l, E_), NONE) | v
        if self.unord:
            st.heap[(l, MARK)] = Val([], [('unord', self.unord[-1][1])])
        self.rets.append((g, st.copy()))
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.deref(self.ev(e.value, st), E_, st)
        g = self.new(self.info.node, 'gen', [('seq', v.types)])
        l = next(iter(g.locs))
        st.heap[(l, E_)] = st.heap.get((l, E_), NONE) | v
        self.rets.append((g, st.copy()))
        return NONE

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # -------------------------------------------------------------- calls
    def define(self, node, args, body, st):
        ps = [x.arg for x in args.posonlyargs + args.args + args.kwonlyargs] + [x.arg for x in (args.vararg, args.kwarg) if x]
        self.fns[node] = (ps, body, st.env)
        self.__dict__.setdefault('_ids', {})[id(node)] = node

    def inline(self, node, st, given=None):
        """Body of a local function in the current state."""
        params, body, env = self.fns[node]
        if node in self.__dict__.setdefault('_stack', []) or self.depth > 5:
            return NONE
        self.called.add(node)
        self._stack.append(node)
        self.depth += 1
        anns = {x.arg: x.annotation for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs}
        s = State({**env, **st.env}, st.heap)
        for q in params:
            v = (given or {}).get(q, NONE)
            if not v.types and anns.get(q) is not None:
                v = Val(v.locs, self.E.ann(anns[q], self.info.module))
            s.env[q] = v
        saved, self.rets = self.rets, []
        act, self.active = self.active, self.active
        saved_b, saved_c = list(self.brk), list(self.cnt)
        s = self.block(body, s)
        out = NONE
        for v, s2 in self.rets:
            out |= v
            s = join(s, s2) if not s.dead else s2
        self._brk, self._cnt = saved_b, saved_c
        self.rets = saved
        self.depth -= 1
        self._stack.pop()
        for k, v in s.heap.items():
            st.heap[k] = v
        return out

    def args_of(self, e, st):
        pos, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                pos.append(('*', self.deref(self.ev(a.value, st), E_, st)))
            else:
                pos.append((None, self.ev(a, st)))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                kw['**'] = self.deref(v, E_, st)
            else:
                kw[k.arg] = v
        return pos, kw

    def e_Call(self, e, st):
        f = e.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and getattr(f.value.func, 'id', None) == 'super' and self.info.cls is not None:
            pos, kw = self.args_of(e, st)
            m = self.info.cls.find_method(f.attr, after=self.info.cls)
            ps = self.info.params()
            me = st.env.get(ps[0], NONE) if ps else NONE
            if m is not None:
                return self.apply(m, me, pos, kw, st, e)
            if f.attr == '__init__':
                own = self.info.cls.mro()[1:]
                for c in own:
                    if c.dc is not None:
                        self.dataclass(c, me, pos, kw, st, e)
                        break
            return NONE
        if isinstance(f, ast.Attribute):
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            static = isinstance(root, ast.Name) and root.id not in st.env
            r = self.p.resolve_expr(f, self.info.module) if static else None
            if isinstance(r, ClassInfo):
                pos, kw = self.args_of(e, st)
                return self.construct(r, pos, kw, st, e)
            if isinstance(r, FuncInfo):
                pos, kw = self.args_of(e, st)
                if r.cls is not None and not r.is_static and not r.is_classmethod and pos:
                    return self.apply(r, pos[0][1], pos[1:], kw, st, e)
                return self.apply(r, NONE, pos, kw, st, e)
            if isinstance(r, tuple) and r[0] == 'ext' or static and r is None and self.p.resolve_name(root.id, self.info.module) is None:
                pos, kw = self.args_of(e, st)
                return self.ext(name, pos, kw, st, e)
            o = self.ev(f.value, st)
            pos, kw = self.args_of(e, st)
            return self.method(o, name, pos, kw, st, e)
        fv = self.ev(f, st)
        pos, kw = self.args_of(e, st)
        out, done = NONE, False
        for l in fv.locs:
            if l[0] == 'fn':
                node = self.__dict__.get('_ids', {}).get(l[1])
                if node is not None:
                    a = node.args
                    ps = [x.arg for x in a.posonlyargs + a.args]
                    given = {q: v for q, (_, v) in zip(ps, pos)}
                    given.update({k: v for k, v in kw.items() if k != '**'})
                    out |= self.inline(node, st, given)
                    done = True
        for t in fv.types:
            if t[0] == 'type':
                out |= self.construct(t[1], pos, kw, st, e)
                done = True
            elif t[0] == 'cls':
                for m in self.E.candidates([t], '__call__'):
                    out |= self.apply(m, fv, pos, kw, st, e)
                    done = True
        if isinstance(f, ast.Name) and f.id not in st.env:
            r = self.p.resolve_name(f.id, self.info.module)
            if isinstance(r, FuncInfo):
                return self.apply(r, NONE, pos, kw, st, e)
            if not done and not isinstance(r, ClassInfo):
                return self.ext(name, pos, kw, st, e)
        if isinstance(f, ast.Call) and getattr(f.func, 'id', None) == 'type':
            a = self.ev(f.args[0], st) if f.args else NONE
            for t in a.types:
                if t[0] == 'cls':
                    return self.construct(t[1], pos, kw, st, e)
        return out

    def ext(self, name, pos, kw, st, e):
        out = self.ext0(name, pos, kw, st, e)
        if name in KEEPS or name == 'sorted' and coarse_key(e):
            self.carry(out, [v for _, v in pos], st, e)
        if name == 'sorted':
            self.by_address(e)
        elif name == 'next' and pos and not self.raising:
            w = self.unordered(pos[0][1], st)
            if w is not None:
                self.order(e, 'the first one is taken', w if w[1] else (w[0], self.where(e)))
        if name in ('enumerate', 'zip') and len(pos) > (name == 'zip'):
            ws = [self.unordered(v, st) for _, v in pos]
            if any(w is not None for w in ws) and (name == 'enumerate' or any(w is None for w in ws)):
                w = next(w for w in ws if w is not None)
                self.order(e, 'its elements are numbered' if name == 'enumerate' else 'its elements are paired with those of an ordered one', w if w[1] else (w[0], self.where(e)))
        return out

    def ext0(self, name, pos, kw, st, e):
        """A call outside the project."""
        vs = [v for _, v in pos]
        a = vs[0] if vs else NONE
        if name in EXTMUT and len(vs) > EXTMUT[name]:
            self.effect(vs[EXTMUT[name]], e, f'{name} changes it in place', name in ('heappush', 'heappop', 'insort'))
            return NONE
        if 'out' in kw:
            self.effect(kw['out'], e, 'it is the out argument of an external call')
        if name in ('setattr', 'delattr') and vs:
            n = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else '?'
            self.store(a, n, vs[2] if len(vs) > 2 else NONE, st, e)
            return NONE
        if name == '__setattr__' and len(vs) == 3:
            n = e.args[1].value if isinstance(e.args[1], ast.Constant) else '?'
            self.store(a, n, vs[2], st, e)
            return NONE
        if name == 'getattr' and vs:
            n = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else '?'
            return self.deref(a, n, st)
        if name == 'next':
            return self.deref(a, E_, st)
        if name in ('cast',) and len(vs) == 2:
            ty = self.E.ann(e.args[0], self.info.module)
            return Val(vs[1].locs, ty or vs[1].types)
        if name in ('tqdm',):
            return a
        if name in EXTVIEWS:
            return Val(a.locs, [t for t in a.types if t[0] != 'cls'] or [('ext', 'numpy.ndarray')])
        if name in ('union', 'difference', 'intersection', 'symmetric_difference'):
            el = self.deref(a, E_, st)
            return self.new(e, name, [('set', el.types)], el, st)
        if name in ('deepcopy',):
            return self.new(e, 'deepcopy', a.types, None, st)
        if name == 'copy':
            out = self.new(e, 'copy', a.types, None, st)
            st.heap[(next(iter(out.locs)), '~')] = Val(a.locs)
            return out
        if name in ('zip', 'enumerate'):
            els = [self.deref(v, E_, st) for v in vs]
            if name == 'enumerate':
                els = [ATOM] + els[:1]
            t = self.new(e, 'pair', [('tuple', frozenset().union(*[x.types for x in els]) if els else frozenset())], None, st)
            l = next(iter(t.locs))
            star = any(k == '*' for k, _ in pos)
            al = NONE
            for i, x in enumerate(els):
                if not star:
                    st.heap[(l, i)] = x
                al |= x
            st.heap[(l, E_)] = al
            return self.new(e, name, [('seq', t.types)], t, st)
        if name in ('map', 'filter') and len(vs) > 1:
            el = NONE
            for v in vs[1:]:
                el |= self.deref(v, E_, st)
            if name == 'map':
                el = self.callval(e.args[0], vs[0], [self.deref(v, E_, st) for v in vs[1:]], st, e)
            return self.new(e, name, [('seq', el.types)], el, st)
        if name in ITERS or name in COPIES:
            el = NONE
            for v in vs:
                el |= self.deref(v, E_, st)
            for k, v in kw.items():
                if k not in ('key', 'reverse', 'dtype', 'start'):
                    el |= v
            kind = {'list': 'list', 'sorted': 'list', 'tuple': 'tuple', 'set': 'set', 'dict': 'dict', 'OrderedDict': 'dict', 'defaultdict': 'dict', 'Counter': 'dict'}.get(name)
            if name == 'array':
                return self.new(e, name, [('ext', 'numpy.ndarray')], None, st)
            if name == 'defaultdict':
                el = NONE
            if name in ('from_iterable', 'chain') and False:
                el = self.deref(el, E_, st)
            return self.new(e, name, [(kind, el.types)] if kind else [('seq', el.types)], el, st)
        for v in vs + list(kw.values()):
            for l in v.locs:
                if l[0] == 'fn':
                    node = self.__dict__.get('_ids', {}).get(l[1])
                    if node is not None and node not in self.called:
                        self.inline(node, st, {})
        if name in ('max', 'min', 'reduce'):
            el = NONE
            for v in vs:
                el |= v if len(vs) > 1 and name != 'reduce' else self.deref(v, E_, st)
            return el
        return self.new(e, 'ext', [('ext', name or '?')] if name else [], None, st) if name in ('zeros', 'ones', 'empty', 'tensor', 'stack', 'concatenate') else NONE

    def callval(self, fe, fv, args, st, e):
        out = NONE
        for l in fv.locs:
            if l[0] == 'fn':
                node = self.__dict__.get('_ids', {}).get(l[1])
                if node is not None:
                    ps = [x.arg for x in node.args.posonlyargs + node.args.args]
                    out |= self.inline(node, st, dict(zip(ps, args)))
        for t in fv.types:
            if t[0] == 'type':
                out |= self.construct(t[1], [(None, a) for a in args], {}, st, e)
        r = self.p.resolve_expr(fe, self.info.module) if isinstance(fe, (ast.Name, ast.Attribute)) else None
        if isinstance(r, FuncInfo):
            if r.cls is not None and not r.is_static and not r.is_classmethod:
                out |= self.apply(r, args[0], [(None, a) for a in args[1:]], {}, st, e)
            else:
                out |= self.apply(r, NONE, [(None, a) for a in args], {}, st, e)
        elif isinstance(fe, ast.Attribute):
            o = self.ev(fe.value, st)
            ms = self.E.candidates(o.types, fe.attr)
            if ms:
                out |= self.applyall(ms, o, [(None, a) for a in args], {}, st, e)
        return out

    def method(self, o, name, pos, kw, st, e):
        for v in [v for _, v in pos] + list(kw.values()):
            for l in v.locs:
                if l[0] == 'fn':
                    node = self.__dict__.get('_ids', {}).get(l[1])
                    if node is not None and node not in self.called:
                        self.inline(node, st, {})
        types = o.types
        ms = [m for m in self.E.candidates(types, name)]
        tys = [t[1] for t in types if t[0] == 'type']
        for c in tys:
            m = c.find_method(name)
            if m is not None:
                ms.append(m)
            n2 = c.nested.get(name)
        if ms:
            return self.applyall(ms, o, pos, kw, st, e)
        # an attribute that holds a class or a function
        known = [t for t in types if t[0] in ('list', 'dict', 'set', 'tuple', 'seq', 'atom', 'ext')]
        if not known and name not in INPLACE and not any(t[0] == 'cls' for t in types):
            cands = self.E.byname.get(name, [])
            roots = {(m.cls.mro()[-1] if m.cls.mro() else m.cls) for m in cands}
            if cands and len(roots) == 1 and not name.startswith('__') and name not in WRAPS | DROPS | VIEWS and o.locs:
                return self.applyall(cands, o, pos, kw, st, e)
        args = NONE
        for _, v in pos:
            args |= v
        if name == 'sort':
            self.by_address(e)
        if name == 'join' and len(pos) == 1 and not self.raising:
            w = self.unordered(pos[0][1], st)
            if w is not None:
                self.order(e, 'joined into a string', w if w[1] else (w[0], self.where(e)))
        if name in INPLACE or name.endswith('_') and not name.startswith('_') and name not in ('requires_grad_',):
            if any(t[0] in ('atom', 'tuple') for t in types) and not any(t[0] in ('list', 'dict', 'set', 'ext') for t in types):
                return NONE
            if name == 'update' and not o.locs:
                return NONE
            out = self.deref(o, E_, st) if name in DROPS else NONE
            self.effect(o, e, f'{name}() changes it', name in RESIZE)
            el = args
            if name in ('extend', 'update', 'extendleft'):
                el = self.deref(args, E_, st)
                for k, v in kw.items():
                    el |= v
            elif name == 'insert' and len(pos) > 1:
                el = pos[1][1]
            elif name == 'setdefault' and len(pos) > 1:
                el = pos[1][1]
                out |= el
            elif name in ('sort', 'reverse', 'remove', 'pop', 'clear', 'popitem', 'discard'):
                el = NONE
            for l in o.locs:
                st.heap[(l, E_)] = self.deref(Val([l], o.types), E_, st) | el
            if name in ('append', 'insert', 'appendleft', 'setdefault') and self.unord and not any(t[0] == 'set' for t in o.types):
                w = self.inside(o)
                if w is not None:
                    self.mark(o, st, w)
            if name in ('extend', 'extendleft'):
                self.carry(o, [v for _, v in pos], st, e)
                w = self.inside(o) if self.unord else None
                if w is not None:
                    self.mark(o, st, w)
            if name == 'sort':
                for l in o.locs:
                    st.heap[(l, MARK)] = NONE
            return out
        if name in DROPS:
            return self.deref(o, E_, st) | (pos[1][1] if len(pos) > 1 else NONE)
        if name in WRAPS:
            el = self.deref(o, E_, st)
            if name == 'keys':
                el = NONE
            if name == 'items':
                t = self.new(e, 'item', [('tuple', el.types)], el, st)
                st.heap[(next(iter(t.locs)), 0)] = NONE
                st.heap[(next(iter(t.locs)), 1)] = el
                el = t
            return self.new(e, name, [('seq', el.types)] + ([('seq', frozenset(), 'keys')] if name == 'keys' else []), el, st)
        if name in VIEWS:
            return o
        if name in ('copy', 'union', 'difference', 'intersection', '__copy__'):
            out = self.new(e, 'copy', o.types, self.deref(o, E_, st), st)
            st.heap[(next(iter(out.locs)), '~')] = Val(o.locs)
            return out
        return NONE

    def applyall(self, ms, o, pos, kw, st, e):
        out = NONE
        for m in ms:
            out |= self.apply(m, o, pos, kw, st, e)
        return out

    def construct(self, c, pos, kw, st, e):
        obj = self.new(e, c.name, [('cls', c)], None, st)
        m = c.find_method('__init__')
        owner = next((k for k in c.mro() if k.dc is not None and k.dc.get('init', True)), None)
        if m is not None and (owner is None or c.mro().index(m.cls) <= c.mro().index(owner)):
            self.apply(m, obj, pos, kw, st, e)
        elif owner is not None:
            self.dataclass(c, obj, pos, kw, st, e)
        else:
            nw = c.find_method('__new__')
            if nw is not None:
                self.apply(nw, NONE, pos, kw, st, e)
        return obj

    def dataclass(self, c, obj, pos, kw, st, e):
        try:
            fs = [f for f in c.dc_fields() if f.init]
        except Exception:
            fs = []
        names = [f.name for f in fs]
        for n, (_, v) in zip(names, pos):
            for l in obj.locs:
                st.heap[(l, n)] = v
        for k, v in kw.items():
            if k in names:
                for l in obj.locs:
                    st.heap[(l, k)] = v
        post = c.find_method('__post_init__')
        if post is not None:
            self.apply(post, obj, [], kw, st, e)

    def apply(self, m, recv, pos, kw, st, e):
        """The summary of a project function at a call."""
        E = self.E
        s = E.summaries.get(m.node)
        if s is None:
            return NONE
        E.calledfrom.setdefault(m.node, set()).add(self.info.node)
        a = m.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        val = {}
        if m.cls is not None and not m.is_static:
            if ps:
                val[ps[0]] = recv if not m.is_classmethod else Val([], recv.types)
            ps = ps[1:]
        i = 0
        rest = NONE
        for k, v in pos:
            if k == '*':
                for q in ps[i:]:
                    val[q] = val.get(q, NONE) | v
                rest |= v
            elif i < len(ps):
                val[ps[i]] = val.get(ps[i], NONE) | v
                i += 1
            else:
                rest |= v
        kwrest = NONE
        names = set(ps) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                val[k] = v
            elif k == '**':
                kwrest |= v
                for q in ps[i:] + [x.arg for x in a.kwonlyargs]:
                    if q not in val:
                        val[q] = v
            else:
                kwrest |= v

        def at(l):
            """Values of a callee location here."""
            if l[0] != 'arg':
                return NONE
            _, n, path = l
            if a.vararg and n == a.vararg.arg:
                v, path = rest, path[1:]
            elif a.kwarg and n == a.kwarg.arg:
                v, path = kwrest, path[1:]
            else:
                v = val.get(n, NONE)
            for fld in path:
                v = self.deref(v, fld, st)
            return v

        def conv(x):
            out = NONE
            for l in x.locs:
                if l[0] == 'arg':
                    out |= Val(at(l).locs)
            return Val(out.locs, x.types)
        for v in [v for _, v in pos] + list(kw.values()):
            w = self.unordered(v, st) if v.locs else None
            if w is not None and w[1]:
                self.order(e, f'passed on to {m.name}', w)
        for (n, path, _), (w, what, resized, root) in list(s.effects.items()):
            v = at(('arg', n, path))
            if v.locs:
                self.effect(v, e, what, resized, root)
        news = {}
        ret = conv(s.ret)
        if ('ret',) in s.ret.locs:
            r = self.new(e, 'r', [], None, st)
            l = next(iter(r.locs))
            for fld, x in s.fields.items():
                st.heap[(l, fld)] = conv(x)
            ret = Val(ret.locs | r.locs, ret.types)
        ups = []
        for (l, fld), x in s.stores.items():
            t = at(l)
            y = conv(x)
            ups.append((t, fld, y))
        for t, fld, y in ups:
            w = self.unordered(y, st) if fld not in (E_, MARK) else None
            if w is not None and w[1]:
                self.order(e, f'kept in the attribute {fld}', w)
            for l in t.locs:
                if len(t.locs) == 1 and fld != E_:
                    st.heap[(l, fld)] = y
                else:
                    old = st.heap.get((l, fld))
                    st.heap[(l, fld)] = (old if old is not None else self.deref(Val([l]), fld, st)) | y
        if ret.types and ret.types <= {('atom',)}:
            return Val([], ret.types)
        return ret


ATOM = Val([], [('atom',)])


def v_elem(run, v, st):
    return run.deref(v, E_, st)


def leaves_after(loop, node):
    """Is the statement with this node followed by leaving the loop at once?"""
    def find(body):
        for i, s in enumerate(body):
            if any(x is node for x in ast.walk(s)) or s is node:
                for fld in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, fld, None)
                    if isinstance(b, list) and any(any(x is node for x in ast.walk(y)) for y in b):
                        r = find(b)
                        if r:
                            return True
                        if isinstance(s, (ast.For, ast.While)):
                            pass
                for h in getattr(s, 'handlers', []):
                    if any(x is node for y in h.body for x in ast.walk(y)) and find(h.body):
                        return True
                return any(isinstance(t, (ast.Break, ast.Return, ast.Raise)) for t in body[i:])
        return False
    return find(loop.body)
