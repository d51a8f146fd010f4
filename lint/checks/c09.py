"""C09: a resumed training run continues from the saved state."""
import ast
from ..cfg import Frame, Graph, dotted, lines, own_walk
from ..project import FuncInfo
from .c10 import calls, name_of
from .c11 import small, stripped, targets

TITLE = 'Resuming training continues from exactly the saved state'

MUTATE = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'popitem', 'remove', 'discard', 'clear', 'setdefault', 'sort', 'reverse', 'appendleft'}
RNG = {'random': ('getstate', 'setstate', ('random',)),
       'numpy': ('get_state', 'set_state', ('np.random', 'numpy.random')),
       'torch': ('get_rng_state', 'set_rng_state', ('torch', 'torch.random'))}
RNG_USE = {'random': {'shuffle', 'random', 'choice', 'choices', 'sample', 'randint', 'uniform', 'gauss', 'randrange', 'normalvariate'},
           'numpy': {'rand', 'randn', 'choice', 'shuffle', 'permutation', 'randint', 'random', 'uniform', 'normal', 'integers', 'random_sample'},
           'torch': {'rand', 'randn', 'randint', 'randperm', 'bernoulli', 'normal', 'multinomial', 'rand_like', 'randn_like'}}
SEEDERS = {'seed', 'manual_seed'}


# ---------------------------------------------------------------- helpers

def rng_of(c):
    """(generator, function) of a call on a random module."""
    d = dotted(c.func) or ''
    mod, _, f = d.rpartition('.')
    for r, (_, _, mods) in RNG.items():
        if mod in mods:
            return r, f
    return None


def key_read(e):
    """The key of a checkpoint lookup, if e is one."""
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
        return e.slice.value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'pop') and e.args \
            and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
        return e.args[0].value
    return None


def unwrap(e):
    """Below copies and int()."""
    while True:
        x = stripped(e)[0]
        if isinstance(x, ast.Call) and dotted(x.func) in ('int', 'list', 'dict', 'float') and len(x.args) == 1:
            x = x.args[0]
        if isinstance(x, ast.IfExp):            # value if the checkpoint has it
            for a, b in ((x.body, x.orelse), (x.orelse, x.body)):
                if any(key_read(y) for y in ast.walk(a)):
                    x = a
                    break
        if x is e:
            return x
        e = x


def affine(e, fr, depth=0):
    """(location or ('key', k) or None, offset) of e."""
    e = unwrap(e)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        for a, b, sgn in ((e.left, e.right, 1), (e.right, e.left, -1)):
            if isinstance(b, ast.Constant) and isinstance(b.value, int) and not isinstance(b.value, bool):
                if sgn < 0 and isinstance(e.op, ast.Sub):
                    continue
                l, o = affine(a, fr, depth)
                return l, o + (b.value if isinstance(e.op, ast.Add) else -b.value)
        return None, 0
    k = key_read(e)
    if k is not None:
        return ('key', k), 0
    if isinstance(e, ast.Name):
        f = fr
        while f.closure is not None and not f.is_local(e.id):
            f = f.closure
        if e.id in f.binds and not f.count.get(e.id):
            x, f2 = f.binds[e.id]
            return affine(x, f2, depth + 1) if depth < 8 else (None, 0)
        if e.id in f.single and depth < 8:
            l, o = affine(f.single[e.id], f, depth + 1)
            if l is not None:
                return l, o
    return fr.canon(e), 0


def entries(g, e, fr, depth=0):
    """{key: (expression, frame)} of a dictionary expression; None if unknown."""
    if depth > 6:
        return None
    if isinstance(e, ast.Dict):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                sub = entries(g, v, fr, depth + 1)
                if sub is None:
                    return None
                out.update(sub)
            elif isinstance(k, ast.Constant):
                out[k.value] = (v, fr)
            else:
                return None
        return out
    if isinstance(e, ast.Call) and dotted(e.func) == 'dict':
        out = {}
        for a in e.args:
            sub = entries(g, a, fr, depth + 1)
            if sub is None:
                return None
            out.update(sub)
        for k in e.keywords:
            if k.arg is None:
                sub = entries(g, k.value, fr, depth + 1)
                if sub is None:
                    return None
                out.update(sub)
            else:
                out[k.arg] = (k.value, fr)
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        a, b = entries(g, e.left, fr, depth + 1), entries(g, e.right, fr, depth + 1)
        return None if a is None or b is None else {**a, **b}
    if isinstance(e, ast.DictComp) and len(e.generators) == 1:
        # {name: getattr(self, name) for name in NAMES}
        it = e.generators[0].iter
        names = it.elts if isinstance(it, (ast.Tuple, ast.List, ast.Set)) else None
        if names is None and isinstance(it, (ast.Name, ast.Attribute)):
            v = constant(g, it, fr)
            names = v.elts if isinstance(v, (ast.Tuple, ast.List, ast.Set)) else None
        if names and isinstance(e.key, ast.Name) and isinstance(e.value, ast.Call) and dotted(e.value.func) == 'getattr' \
                and all(isinstance(n, ast.Constant) for n in names):
            return {n.value: (ast.Attribute(e.value.args[0], n.value, ast.Load()), fr) for n in names}
        return None
    if isinstance(e, ast.Call):
        r = g.callee(e, fr, force=True)
        if r is not None:
            info, binds, cls, closure = r
            f2 = Frame(info, binds, fr, cls, closure)
            rets = [n.value for n in ast.walk(info.node) if isinstance(n, ast.Return) and n.value is not None]
            if len(rets) == 1:
                return entries(g, rets[0], f2, depth + 1)
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'copy':
            return entries(g, e.func.value, fr, depth + 1)
        return None
    if isinstance(e, ast.Name):
        f = fr
        while f.closure is not None and not f.is_local(e.id):
            f = f.closure
        if e.id in f.binds and not f.count.get(e.id):
            x, f2 = f.binds[e.id]
            return entries(g, x, f2, depth + 1)
        out, seen = {}, False
        for s in ast.walk(f.info.node):
            for t, v in targets(s) if isinstance(s, (ast.Assign, ast.AnnAssign)) else ():
                if isinstance(t, ast.Name) and t.id == e.id:
                    if isinstance(v, ast.Call) and name_of(v) == 'Checkpoint' and not v.args:
                        seen = True
                        continue
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and any(isinstance(a, ast.Name) and a.id == e.id for a in v.args):
                        continue            # checkpoint = x.store(checkpoint)
                    sub = entries(g, v, f, depth + 1)
                    if sub is None:
                        return None
                    out.update(sub)
                    seen = True
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id and isinstance(t.slice, ast.Constant):
                    out[t.slice.value] = (v, f)
                    seen = True
            if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ('update', 'add_many') \
                    and isinstance(s.func.value, ast.Name) and s.func.value.id == e.id and s.args:
                sub = entries(g, s.args[0], f, depth + 1)
                if sub is None:
                    return None
                out.update(sub)
                seen = True
        return out if seen else None
    return None


def constant(g, e, fr):
    """The expression a module or class constant is defined as."""
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and fr.cls is not None:
        for c in fr.cls.mro():
            for s in c.node.body:
                for t, v in targets(s) if isinstance(s, (ast.Assign, ast.AnnAssign)) else ():
                    if isinstance(t, ast.Name) and t.id == e.attr:
                        return v
    if isinstance(e, ast.Name):
        for s in fr.info.module.tree.body:
            for t, v in targets(s) if isinstance(s, (ast.Assign, ast.AnnAssign)) else ():
                if isinstance(t, ast.Name) and t.id == e.id:
                    return v
    return None


def mutated(n):
    """(location expression, whole?) pairs changed at a node."""
    if n.ast is None or n.kind not in ('stmt', 'eval', 'test', 'return', 'enter', 'iter'):
        return
    if n.kind == 'iter':
        for t in ast.walk(n.ast.target):
            if isinstance(t, (ast.Name, ast.Attribute)):
                yield t, True
        return
    if n.kind == 'stmt':
        if isinstance(n.ast, ast.AugAssign):
            t = n.ast.target
            while isinstance(t, ast.Subscript):
                t = t.value
            yield t, False
        elif isinstance(n.ast, ast.Delete):
            for t in n.ast.targets:
                while isinstance(t, ast.Subscript):
                    t = t.value
                yield t, False
        else:
            for t, v in targets(n.ast):
                if isinstance(t, ast.Subscript):
                    while isinstance(t, ast.Subscript):
                        t = t.value
                    yield t, False
                else:
                    yield t, True
    for c in own_walk(n.ast):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in MUTATE:
            t = c.func.value
            while isinstance(t, ast.Subscript):
                t = t.value
            if isinstance(t, (ast.Name, ast.Attribute)):
                yield t, False
        if isinstance(c, ast.NamedExpr):
            yield c.target, True


def top(loc):
    """self.x.y -> self.x ; locals unchanged."""
    if loc is None:
        return None
    parts = loc.split('.')
    if parts[0] == 'self' and len(parts) > 1:
        return '.'.join(parts[:2]).split('[')[0]
    return parts[0].split('[')[0]


def reads(n):
    """Expressions read at a node."""
    if n.ast is None or n.kind not in ('stmt', 'eval', 'test', 'return', 'enter', 'raise', 'iter', 'except', 'def'):
        return
    if n.kind in ('iter', 'except'):
        return
    if n.kind == 'def':
        # a nested function reads when it is called; be generous
        for x in ast.walk(n.ast):
            if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load):
                yield x
        return
    if isinstance(n.ast, ast.AugAssign):
        yield n.ast.target
    for x in own_walk(n.ast):
        if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load):
            yield x


class Loop:
    """What a loop carries from one iteration to the next."""

    def __init__(self, g, head, track):
        self.g, self.head = g, head
        self.body = self.scc()
        self.track = track
        self.mods, self.kills, self.uses = {}, {}, {}
        for n in g.nodes:
            for t, whole in mutated(n):
                l = self.loc(t, n.frame)
                if l is not None:
                    exact = n.frame.canon(t) == l or n.frame.canon(t, value=True) == l
                    self.mods.setdefault(l, []).append(n)
                    if whole and exact:
                        self.kills.setdefault(l, set()).add(n.id)
            for x in reads(n):
                l = self.loc(x, n.frame)
                if l is not None:
                    self.uses.setdefault(l, set()).add(n.id)

    def loc(self, e, fr):
        if isinstance(e, ast.Name):
            # an alias of an attribute stands for the attribute; a local variable for itself
            c = fr.canon(e)
            return top(c)
        return top(fr.canon(e))

    def scc(self):
        fwd = {self.head.id}
        todo = [self.head]
        while todo:
            n = todo.pop()
            for m, lab in n.succ:
                if lab != 'exc' and m.id not in fwd:
                    fwd.add(m.id)
                    todo.append(m)
        pred = {}
        for n in self.g.nodes:
            for m, lab in n.succ:
                if lab != 'exc':
                    pred.setdefault(m.id, []).append(n)
        back, todo = {self.head.id}, [self.head]
        while todo:
            n = todo.pop()
            for m in pred.get(n.id, ()):
                if m.id in fwd and m.id not in back:
                    back.add(m.id)
                    todo.append(m)
        return back

    def modified(self):
        return {l for l, ns in self.mods.items() if any(n.id in self.body for n in ns)}

    def live(self, l, sources=None):
        """Is l's value at the head read before it is overwritten?"""
        seen, todo = set(), [self.head]
        while todo:
            n = todo.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if n is not self.head or n.kind != 'iter':
                if n.id in self.uses.get(l, ()):
                    return n
                if n.id in self.kills.get(l, ()):
                    continue
            for m, lab in n.succ:
                if n is self.head and n.kind == 'iter' and lab == 't' and n.id in self.kills.get(l, ()):
                    continue
                todo.append(m)
        return None

    def constants(self):
        """Locals whose value at the head is one constant on every entry."""
        TOPV = '?'

        def transfer(n, s, label):
            s = dict(s)
            if label != 'exc':
                for t, _ in mutated(n):
                    if isinstance(t, ast.Name):
                        s.pop(n.frame.canon(t, value=True), None)
                if n.kind == 'stmt':
                    for t, v in targets(n.ast):
                        if isinstance(t, ast.Name) and isinstance(v, ast.Constant):
                            s[n.frame.canon(t, value=True)] = bool(v.value) if isinstance(v.value, bool) or v.value is None else v.value
            if n.kind == 'test' and label in ('t', 'f'):
                e, val = n.ast, label == 't'
                while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                    e, val = e.operand, not val
                if isinstance(e, ast.Name):
                    k = n.frame.canon(e, value=True)
                    if k in s and isinstance(s[k], bool) and s[k] != val:
                        return None
                    s[k] = val
            return frozenset(s.items())
        res = self.g.forward(frozenset(), transfer, lambda a, b: a & b)
        return dict(res.get(self.head.id, ()))


# ---------------------------------------------------------------- the check

def run(p, ck, tier):
    ck.rule('saved', 'Everything the epoch loop changes and later reads, or reports, is stored in every checkpoint it writes.')
    ck.rule('restored', 'Every stored value is put back where it came from, shifted by what the next epoch would have added.')
    ck.rule('kept', 'What was restored is not overwritten before training continues.')
    ck.rule('late', 'Nothing that is stored changes between writing the end-of-epoch checkpoint and the next epoch.')
    ck.rule('keys', 'Every key that is read back is written, by every checkpoint of the trainer.')
    ck.rule('generators', 'The state of every random generator used in training is stored and put back.')
    ck.rule('optimiser', 'An optimiser stores and restores every attribute that its step changes and that later steps read.')
    ck.rule('model', 'A model stores and restores its symbols and weights, each under its own key.')
    ck.rule('derived', 'Loading a checkpoint discards or rebuilds what the model derived from earlier symbols and weights.')
    Tr = p.cls('training.trainer.Trainer')
    for c in sorted(Tr.all_subclasses(), key=lambda c: c.name):
        if c is not Tr and c.find_method('training_step') is not None and not c.find_method('training_step').is_abstract:
            trainer(p, ck, c)
    Op = p.cls('training.optimizer.Optimizer')
    for c in sorted(Op.all_subclasses(), key=lambda c: c.name):
        if c is not Op:
            optimiser(p, ck, c)
    Mo = p.cls('training.model.Model')
    for c in sorted(Mo.all_subclasses(), key=lambda c: c.name):
        if c is not Mo:
            model(p, ck, c)
    ck.floor('saved', 10)
    ck.floor('restored', 10)
    ck.floor('optimiser', 5)
    ck.floor('model', 4)


def inline_trainer(callee, fr):
    return small(callee, fr) or callee.name in ('fit', '__init__')


def show_loc(l):
    return l.split(':', 1)[1] if l and ':' in l else l


def trainer(p, ck, C):
    fit = C.find_method('fit')
    init = C.find_method('__init__')
    g = Graph(p, fit, inline_trainer, cls=C)
    where = fit.where
    sites = []
    for n in g.reachable():
        for c in calls(n):
            if isinstance(c.func, ast.Attribute) and c.func.attr == 'save_checkpoint':
                args = c.args[0] if c.args else next((k.value for k in c.keywords if k.arg == 'save_dict'), None)
                sites.append((n, c, entries(g, args, n.frame)))
    if not sites:
        ck.unknown('saved', f'{C.name}: save points', where, 'no call of save_checkpoint was found in the training loop')
        return
    head = epoch_head(g, [s[0] for s in sites])
    if head is None:
        ck.unknown('saved', f'{C.name}: epoch loop', where, 'the epoch loop was not recognised')
        return
    L = Loop(g, head, None)
    extra = extra_entries(p, ck, C)
    if extra is None:
        ck.unknown('saved', f'{C.name}: extra information', where, '_add_extra_checkpoint_info was not understood')
        extra = {}
    periodic = [s for s in sites if not cycles(g, s[0], head)]
    names = {}
    for i, s in enumerate(sites):
        names[id(s)] = 'end of epoch' if s in periodic else 'best model'
    if not periodic:
        ck.bad('saved', f'{C.name}: end of epoch', where, 'no checkpoint is written once per epoch')
    R = Restores(p, C, g, head, init)
    consts = L.constants()
    spanning, fr = set(), head.frame
    while fr is not None:
        spanning.add(fr.id)
        if fr.closure is not None:
            spanning.add(fr.closure.id)
        fr = fr.parent
    carried = {}
    for l in sorted(L.modified()):
        if l.startswith('self.'):
            a = l.split('.')[1]
            if a in ('model', 'optimizer', 'writer'):
                continue
            if a.startswith('_') and L.live(l) is None or always_fresh(L, l):
                continue
            carried[l] = True
        else:
            fid = l.split(':')[0] if ':' in l else None
            if l in consts or fid is None or int(fid) not in spanning:
                continue
            n = L.live(l)
            if n is None or n.id not in L.body and not g.path(head, n):
                continue
            if not any(L.g.path(x, head) for x in L.mods[l] if x.id in L.body):
                continue
            carried[l] = True
    for s in sites:
        n, c, ent = s
        what = names[id(s)]
        if ent is None:
            ck.unknown('saved', f'{C.name}: {what}', n.where, 'the stored dictionary was not understood')
            continue
        ent = {**ent}
        locs = {}
        for k, (e, fr) in ent.items():
            a, o = affine(e, fr)
            if isinstance(a, str):
                locs.setdefault(top(a), []).append((k, o))
        for l in carried if s in periodic else ():
            key = f'{C.name}: {what}: {show_loc(l)}'
            if l in locs:
                ck.ok('saved', key, n.where)
            else:
                ck.bad('saved', key, n.where, f'{show_loc(l)} is changed by the epoch loop (at {L.mods[l][0].where}) and used later, but not stored in the {what} checkpoint')
        # keys read back
        have = set(ent) | set(extra)
        for k in sorted(R.keys):
            if k in R.soft:
                continue
            key = f'{C.name}: {what}: {k}'
            if k in have:
                ck.ok('keys', key, n.where)
            else:
                ck.bad('keys', key, R.keys[k], f'key {k!r} is read from a checkpoint but the {what} checkpoint does not contain it')
    # restored at the right place
    for s in periodic:
        n, c, ent = s
        if ent is None:
            continue
        done = set()
        for k, (e, fr) in {**ent, **extra}.items():
            done |= restored(ck, C, L, R, n, k, e, fr, carried, head)
        for l in carried:
            late = [m for m in L.mods[l] if m.id in L.body and m is not head and reach(g, n, m, head)]
            key = f'{C.name}: {show_loc(l)}'
            if late:
                ck.bad('late', key, late[0].where, f'{show_loc(l)} changes at {late[0].where} after the checkpoint of the epoch was written')
            else:
                ck.ok('late', key, n.where)
    generators(p, ck, C, L, R, periodic or sites, extra)


def reach(g, a, b, stop):
    """Can control go from a to b without passing stop?"""
    seen, todo = set(), [m for m, lab in a.succ if lab != 'exc']
    while todo:
        n = todo.pop()
        if n.id in seen or n is stop:
            continue
        seen.add(n.id)
        if n is b:
            return True
        todo += [m for m, lab in n.succ if lab != 'exc']
    return False


def cycles(g, n, head):
    return reach(g, n, n, head)


def epoch_head(g, saves):
    """The outermost loop that contains a save."""
    best = None
    for n in g.reachable():
        if n.aux == 'loop' and n.kind in ('iter', 'test'):
            for s in saves:
                if g.path(n, s) and g.path(s, n):
                    p = g.path(g.entry, n)
                    if p and (best is None or len(p) < best[0]):
                        best = (len(p), n)
    return best and best[1]


def extra_entries(p, ck, C):
    m = C.find_method('_add_extra_checkpoint_info')
    if m is None:
        return {}
    g = Graph(p, m, small, cls=C)
    ps = m.params()
    out = entries(g, ast.Name(ps[1], ast.Load()), g.frame) if len(ps) > 1 else None
    return out


class Restores:
    """Where checkpoint keys are put back, in __init__ and before the loop."""

    def __init__(self, p, C, g, head, init):
        self.p, self.C, self.g, self.head = p, C, g, head
        self.gi = Graph(p, init, inline_trainer, cls=C)
        self.puts = []           # (graph, node, target location or ('call', dotted), key, offset)
        self.keys, self.soft = {}, set()
        for gr in (self.gi, g):
            for n in gr.reachable():
                if gr is g and not gr.path(n, head):
                    continue
                if n.frame.cls is not None and n.frame.cls not in C.mro():
                    continue            # a model or an optimiser loading its own state
                if n.kind == 'stmt':
                    for t, v in targets(n.ast):
                        if v is None:
                            continue
                        a, o = affine(v, n.frame)
                        if isinstance(a, tuple):
                            self.puts.append((gr, n, n.frame.canon(t), a[1], o))
                        elif isinstance(t, (ast.Name, ast.Attribute)):
                            # a value built from a key in an unknown way
                            for x in ast.walk(v):
                                if key_read(x) and self.is_ckpt(x, n.frame):
                                    self.puts.append((gr, n, n.frame.canon(t), key_read(x), None))
                for c in calls(n):
                    for a in c.args:
                        k = key_read(a)
                        if k is None:
                            a2 = affine(a, n.frame)[0]
                            k = a2[1] if isinstance(a2, tuple) else None
                        if k is not None:
                            self.puts.append((gr, n, ('call', dotted(c.func) or name_of(c), n.frame.canon(c.func.value) if isinstance(c.func, ast.Attribute) else None), k, 0))
                    if isinstance(c.func, ast.Name) and c.func.id == 'setattr' and len(c.args) == 3 and isinstance(c.args[1], ast.Name):
                        self.loop_setattr(gr, n, c)
                if n.ast is not None and n.kind in ('stmt', 'test', 'eval', 'return', 'enter'):
                    for x in own_walk(n.ast):
                        k = key_read(x)
                        if k and self.is_ckpt(x, n.frame):
                            (self.soft.add(k) if isinstance(x, ast.Call) else self.keys.setdefault(k, n.where))

    def loop_setattr(self, gr, n, c):
        """for name in NAMES: setattr(self, name, checkpoint[name])"""
        for s in ast.walk(n.frame.info.node):
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and s.target.id == c.args[1].id:
                it = s.iter
                v = it if isinstance(it, (ast.Tuple, ast.List)) else constant(gr, it, n.frame)
                if isinstance(v, (ast.Tuple, ast.List)):
                    for x in v.elts:
                        if isinstance(x, ast.Constant):
                            loc = n.frame.canon(ast.Attribute(c.args[0], x.value, ast.Load()))
                            self.puts.append((gr, n, loc, x.value, 0))
                            self.keys.setdefault(x.value, n.where)

    def is_ckpt(self, x, fr):
        b = x.value if isinstance(x, ast.Subscript) else x.func.value
        c = (fr.canon(b, value=True) or '') + ' ' + (fr.canon(b) or '')
        return 'checkpoint' in c.lower() or 'ckp' in c.lower()


def restored(ck, C, L, R, site, k, e, fr, carried, head):
    """Obligations for one stored key."""
    rule, key = 'restored', f'{C.name}: {k}'
    src = unwrap(e)
    puts = [x for x in R.puts if x[3] == k]
    where = site.where
    # a call result: random state or an object's state
    if isinstance(src, ast.Call):
        r = rng_of(src)
        if r and r[1] == RNG[r[0]][0]:
            good = [x for x in puts if isinstance(x[2], tuple) and any(x[2][1] == m + '.' + RNG[r[0]][1] for m in RNG[r[0]][2])]
            if good:
                ck.ok(rule, key, good[0][1].where)
                after(ck, C, R, good, k, lambda n: any(rng_of(c) and rng_of(c)[0] == r[0] and rng_of(c)[1] in SEEDERS | RNG_USE[r[0]] for c in calls(n)),
                      f'the {r[0]} generator')
            elif puts:
                ck.bad(rule, key, puts[0][1].where, f'the state of the {r[0]} generator stored under {k!r} is not handed back to it')
            else:
                ck.bad(rule, key, where, f'{k!r} is stored but never restored')
            return set()
        if isinstance(src.func, ast.Attribute) and src.func.attr == 'state_dict':
            obj = fr.canon(src.func.value)
            good = [x for x in puts if isinstance(x[2], tuple) and x[2][1].endswith('load_state_dict') and x[2][2] == obj]
            if good:
                ck.ok(rule, key, good[0][1].where)
            elif puts:
                ck.bad(rule, key, puts[0][1].where, f'the state of {obj} stored under {k!r} is loaded into something else')
            else:
                ck.bad(rule, key, where, f'{k!r} is stored but never restored')
            return set()
    a, so = affine(e, fr)
    if not isinstance(a, str):
        if puts:
            ck.unknown(rule, key, where, f'the stored value {ast.unparse(e)[:60]} is not a plain location')
        else:
            ck.bad(rule, key, where, f'{k!r} is stored but never restored')
        return set()
    l = top(a)
    if not puts:
        ck.bad(rule, key, where, f'{k!r} is stored but never restored')
        return set()
    if l.startswith('self.'):
        good = [x for x in puts if x[2] == a]
        if not good:
            t = puts[0][2]
            ck.bad(rule, key, puts[0][1].where, f'{k!r} holds {show_loc(a)} but is restored to {show_loc(t) if isinstance(t, str) else t[1]}')
        elif any(x[4] is None for x in good):
            ck.unknown(rule, key, good[0][1].where, 'restored through a computation that is not analysed')
        elif any(x[4] + so != 0 for x in good):
            ck.bad(rule, key, good[0][1].where, f'{show_loc(a)} is restored shifted by {good[0][4] + so}')
        else:
            ck.ok(rule, key, good[0][1].where)
            after(ck, C, R, good, k, lambda n: any(n.frame.canon(t) == a for t, w in mutated(n) if w), show_loc(a), skip=[x[1] for x in good])
        return set()
    # a local of the loop: how it starts is computed from the key
    it = head.ast.iter if head.kind == 'iter' else None
    if it is not None and any(isinstance(t, ast.Name) and head.frame.canon(t, value=True) == l for t in ast.walk(head.ast.target)):
        start = loop_start(it, head.frame)
        if start is None:
            ck.unknown(rule, key, where, 'the start of the epoch loop is not recognised')
            return set()
        off = through(R, start, k)
        if off is None:
            ck.bad(rule, key, head.where, f'the epoch loop does not start from the stored {k!r}')
        elif off == 'unknown':
            ck.unknown(rule, key, head.where, 'the start of the loop is computed in a way that is not analysed')
        elif off + so != 1:
            # stored = last epoch + so; start = stored + off
            ck.bad(rule, key, head.where, f'after the last stored epoch e the resumed run starts with epoch e{off + so:+d}, not e+1')
        else:
            ck.ok(rule, key, head.where)
        return set()
    inits = [n for n in L.mods.get(l, ()) if n.id not in L.body and n.kind == 'stmt' and R.g.path(n, head)]
    got = []
    for n in inits:
        for t, v in targets(n.ast):
            if v is not None and n.frame.canon(t, value=True) == l:
                got.append(through(R, v, k, n.frame))
    if not got or all(x is None for x in got):
        ck.bad(rule, key, where, f'{show_loc(l)} does not start from the stored {k!r}')
    elif 'unknown' in got:
        ck.unknown(rule, key, where, f'the start value of {show_loc(l)} is computed in a way that is not analysed')
    elif any(x is not None and x + so != 0 for x in got):
        ck.bad(rule, key, where, f'{show_loc(l)} starts at the stored value shifted by {[x + so for x in got if x is not None][0]}')
    else:
        ck.ok(rule, key, where)
    return set()


def loop_start(it, fr):
    """First value of trange(a, b) / range(a, b) / tqdm(range(a, b))."""
    while isinstance(it, ast.Call):
        nm = name_of(it)
        if nm in ('range', 'trange'):
            return (it.args[0], fr) if len(it.args) >= 2 else None
        if it.args:
            it = it.args[0]
        else:
            return None
        if isinstance(it, ast.Name) and it.id in fr.single:
            it = fr.single[it.id]
    return None


def through(R, v, k, fr=None):
    """Offset of expression v from the value stored under k, following what was restored; None if unrelated."""
    if isinstance(v, tuple):
        v, fr = v
    a, o = affine(v, fr)
    if isinstance(a, tuple):
        return o if a[1] == k else None
    got = [x for x in R.puts if x[2] == a and x[3] == k]
    if got:
        if any(x[4] is None for x in got):
            return 'unknown'
        return o + got[0][4]
    if any(key_read(x) == k for x in ast.walk(v)):
        return 'unknown'
    return None


def after(ck, C, R, good, k, hit, what, skip=()):
    """Nothing may overwrite a restored value before the loop; and every resumed run restores it."""
    key = f'{C.name}: {k}'
    for gr, n, *_ in good:
        end = gr.exit if gr is R.gi else R.head
        for m in gr.reachable():
            if m is n or m in skip or (gr is R.g and m is R.head):
                continue
            if hit(m) and reach(gr, n, m, end) and gr.path(m, end):
                ck.bad('kept', key, m.where, f'{what} is overwritten at {m.where} after it was restored')
                return
    # a path that resumes but does not restore
    gr = good[0][0]
    nodes = {x[1].id for x in good if x[0] is gr}
    end = gr.exit if gr is R.gi else R.head
    seen, todo = set(), [gr.entry]
    while todo:
        n = todo.pop()
        if n.id in seen or n.id in nodes:
            continue
        seen.add(n.id)
        if n is end:
            ck.bad('kept', key, good[0][1].where, f'a resumed run can continue without restoring {what}')
            return
        for m, lab in n.succ:
            if lab == 'exc':
                continue
            if n.kind == 'test' and n.ast is not None:
                txt = {x.attr if isinstance(x, ast.Attribute) else x.id for x in ast.walk(n.ast) if isinstance(x, (ast.Attribute, ast.Name))}
                pol = polarity(n.ast, txt)
                if pol is not None and (lab == 't') != pol:
                    continue
            todo.append(m)
    ck.ok('kept', key, good[0][1].where)


def polarity(e, txt):
    """The branch a resumed, seeded run takes, if the test is about that."""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        r = polarity(e.operand, txt)
        return None if r is None else not r
    if isinstance(e, ast.Attribute) and e.attr == 'from_checkpoint' or isinstance(e, ast.Name) and e.id == 'from_checkpoint':
        return True
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
        x = e.left
        nm = x.attr if isinstance(x, ast.Attribute) else getattr(x, 'id', None)
        if nm in ('seed', 'checkpoint'):
            return isinstance(e.ops[0], (ast.IsNot, ast.NotEq))
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ast.In) and isinstance(e.left, ast.Constant):
        return True                 # 'key' in checkpoint
    return None


# ---------------------------------------------------------------- generators

def generators(p, ck, C, L, R, sites, extra):
    ann = C.annotation('model')
    M = p.resolve_expr(ann[1], ann[0].module) if ann else p.cls('training.model.Model')
    classes = [C] + list(C.mro()) + [m for m in M.all_subclasses()]
    for m in M.all_subclasses():
        classes += m.mro()
    oa = {n.id for n in ast.walk(C.find_method('__init__').node) if isinstance(n, ast.Name)} | {
        n.id for a in [C.find_method('__init__').node.args] for x in a.args + a.kwonlyargs if x.annotation is not None for n in ast.walk(x.annotation) if isinstance(n, ast.Name)}
    for n in list(oa):
        r = p.resolve_name(n, C.module)
        if hasattr(r, 'all_subclasses') and r.find_method('backward') is not None:
            classes += r.all_subclasses()
    classes.append(p.cls('training.dataset.Dataset'))
    used, own = {}, {}
    for c in dict.fromkeys(classes):
        if not hasattr(c, 'methods'):
            continue
        for name, f in c.methods.items():
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Call):
                    continue
                r = rng_of(n)
                if r and r[1] in RNG_USE[r[0]] and name not in ('__init__', 'initialise_weights', '_reinitialise_modules'):
                    used.setdefault(r[0], f'{f.where} {c.name}.{name}')
                if r and r[1] in ('default_rng', 'RandomState', 'Generator', 'Random'):
                    own[f'{c.name}.{name}'] = f'{f.module.rel}:{n.lineno}'
    ent = {}
    for s in sites:
        ent.update(s[2] or {})
    ent.update(extra)
    for r in sorted(used):
        get, put, mods = RNG[r]
        ks = [k for k, (e, fr) in ent.items() if any(isinstance(x, ast.Call) and rng_of(x) == (r, get) for x in ast.walk(e))]
        back = [x for x in R.puts if isinstance(x[2], tuple) and any(x[2][1] == m + '.' + put for m in mods) and x[3] in ks]
        key = f'{C.name}: {r}'
        if not ks:
            ck.bad('generators', key, used[r].split()[0], f'training draws from the {r} generator ({used[r]}) but its state is not stored')
        elif not back:
            ck.bad('generators', key, used[r].split()[0], f'the state of the {r} generator is stored but not put back')
        else:
            ck.ok('generators', key, used[r].split()[0])
    for o in sorted(own):
        ck.bad('generators', f'{C.name}: own generator of {o}', own[o], f'{o} makes a random generator of its own, whose state no checkpoint stores')


# ---------------------------------------------------------------- optimisers

def optimiser(p, ck, C):
    names = [n for n in ('backward', 'step', 'zero_grad') if C.find_method(n) is not None]
    if any(C.find_method(n).is_abstract for n in names):
        return
    src = 'def _cycle(self, batch):\n    while True:\n' + ''.join(
        f'        self.{n}({"batch" if n == "backward" else ""})\n' for n in names)
    node = ast.parse(src).body[0]
    info = FuncInfo(node, C.module, C)
    g = Graph(p, info, lambda callee, fr: not callee.is_abstract and len(list(ast.walk(callee.node))) < 6000, cls=C)
    head = next(n for n in g.nodes if n.aux == 'loop' and n.frame is g.frame)
    L = Loop(g, head, None)
    m = C.find_method('state_dict')
    gs = Graph(p, m, small, cls=C)
    rets = [n.value for n in ast.walk(m.node) if isinstance(n, ast.Return) and n.value is not None]
    ent = {}
    for r in rets:
        e = entries(gs, r, gs.frame)
        ent = None if e is None or ent is None else {**ent, **e}
    lm = C.find_method('load_state_dict')
    puts = load_puts(p, lm, C)
    where = m.where
    if ent is None:
        ck.unknown('optimiser', f'{C.name}: state_dict', where, 'the state dictionary was not understood')
        return
    locs = {}
    for k, (e, fr) in ent.items():
        a, o = affine(e, fr)
        if isinstance(a, str):
            locs.setdefault(a, []).append((k, o))
    for l in sorted(L.modified()):
        if not l.startswith('self.') or l == 'self.model':
            continue
        if L.live(l) is None:
            continue
        if always_fresh(L, l):
            continue
        key = f'{C.name}: {l[5:]}'
        if l not in locs:
            ck.bad('optimiser', key, L.mods[l][0].where, f'{l} is changed by every step (at {L.mods[l][0].where}) and read by later ones, but not part of the saved state')
        else:
            pair(ck, 'optimiser', key, l, locs[l], puts, where)
    for k, (e, fr) in sorted(ent.items()):
        a, o = affine(e, fr)
        key = f'{C.name}: key {k}'
        got = [x for x in puts if x[1] == k]
        if not isinstance(a, str):
            ck.unknown('optimiser', key, where, 'not a plain attribute')
        elif not got:
            ck.bad('optimiser', key, lm.where, f'{k!r} is saved but not loaded')
        elif all(x[0] != a or (x[2] is not None and x[2] + o != 0) for x in got):
            ck.bad('optimiser', key, got[0][3].where, f'{k!r} holds {a} but is loaded into {got[0][0]}' + (f' shifted by {got[0][2]}' if got[0][2] else ''))
        else:
            ck.ok('optimiser', key, where)
    for t, k, o, n in puts:
        if k not in ent and not soft(n, k):
            ck.bad('optimiser', f'{C.name}: key {k}', n.where, f'{k!r} is loaded but never saved')


def soft(n, k):
    return any(isinstance(x, ast.Call) and key_read(x) == k for x in own_walk(n.ast))


def pair(ck, rule, key, l, ks, puts, where):
    good = [x for x in puts if x[0] == l and any(x[1] == k and (x[2] is None or x[2] + o == 0) for k, o in ks)]
    if good:
        ck.ok(rule, key, where)
    else:
        ck.bad(rule, key, where, f'{l} is saved but not loaded back')


def load_puts(p, m, C):
    """(location, key, offset, node) assignments of a loading method."""
    g = Graph(p, m, small, cls=C)
    out = []
    for n in g.reachable():
        if n.kind == 'stmt':
            for t, v in targets(n.ast):
                if v is None:
                    continue
                a, o = affine(v, n.frame)
                if isinstance(a, tuple):
                    out.append((n.frame.canon(t), a[1], o, n))
                else:
                    for x in ast.walk(v):
                        if key_read(x):
                            out.append((n.frame.canon(t), key_read(x), None, n))
        for c in calls(n):
            if isinstance(c.func, ast.Name) and c.func.id == 'setattr' and len(c.args) == 3 and isinstance(c.args[1], ast.Name):
                for s in ast.walk(n.frame.info.node):
                    if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and s.target.id == c.args[1].id:
                        v = s.iter if isinstance(s.iter, (ast.Tuple, ast.List)) else constant(g, s.iter, n.frame)
                        for x in v.elts if isinstance(v, (ast.Tuple, ast.List)) else ():
                            if isinstance(x, ast.Constant):
                                out.append((n.frame.canon(ast.Attribute(c.args[0], x.value, ast.Load())), x.value, 0, n))
    return out


def always_fresh(L, l):
    """At the head the value was last set without looking at what is carried."""
    g = L.g
    for n in L.mods[l]:
        if n.id not in L.body or not clean_path(L, n, l):
            continue
        ok = False
        if n.kind == 'stmt':
            if isinstance(n.ast, ast.AugAssign) and isinstance(n.ast.op, ast.Mult) and isinstance(n.ast.value, ast.Constant) and n.ast.value.value == 0:
                ok = True
            for t, v in targets(n.ast):
                if v is None or n.frame.canon(t) != l:
                    continue
                if isinstance(v, ast.Constant) or isinstance(v, ast.Call) and name_of(v) in ('zeros', 'zeros_like', 'ones', 'full') \
                        or isinstance(v, (ast.List, ast.Dict)) and not ast.dump(v).count('Name'):
                    ok = True
        if not ok:
            return False
    return True


def clean_path(L, n, l):
    """Does n's change of l reach the head without another whole change?"""
    emptied = {m.id for m in L.g.nodes if empties(m, l)}

    def step(m):
        return [x for x, lab in m.succ if lab != 'exc' and not (m.id in emptied and lab == 'f')]
    seen, todo = set(), step(n)
    while todo:
        m = todo.pop()
        if m.id in seen:
            continue
        seen.add(m.id)
        if m is L.head:
            return True
        if any(x.id == m.id for x in L.mods[l]):
            continue
        todo += step(m)
    return False


def empties(m, l):
    """A loop over all keys of l that gives each an empty value."""
    if m.kind != 'iter':
        return False
    it = m.ast.iter
    while isinstance(it, ast.Call) and (name_of(it) in ('keys', 'list', 'tuple', 'sorted')):
        it = it.func.value if isinstance(it.func, ast.Attribute) else it.args[0] if it.args else ast.Constant(None)
    if m.frame.canon(it) != l or not isinstance(m.ast.target, ast.Name):
        return False
    for s in m.ast.body:
        for t, v in targets(s) if isinstance(s, (ast.Assign, ast.AnnAssign)) else ():
            if isinstance(t, ast.Subscript) and m.frame.canon(t.value) == l and isinstance(t.slice, ast.Name) and t.slice.id == m.ast.target.id \
                    and isinstance(v, (ast.List, ast.Dict)) and not ast.dump(v).count('Name'):
                return True
    return False


# ---------------------------------------------------------------- models

def attr_reads(p, C, f, seen):
    """Attributes of self that a function reads, through methods it calls."""
    if id(f.node) in seen:
        return set()
    seen.add(id(f.node))
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load):
            m = C.find_method(n.attr)
            if m is not None:
                out |= attr_reads(p, C, m, seen)
            else:
                out.add(n.attr)
    return out


def expr_reads(p, C, f, e, depth=0):
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load):
            m = C.find_method(n.attr)
            out |= attr_reads(p, C, m, set()) if m is not None else {n.attr}
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and depth < 4:
            for d in ast.walk(f.node):
                if isinstance(d, ast.FunctionDef) and d is not f.node and d.name == n.id:
                    out |= attr_reads(p, C, FuncInfo(d, f.module, None), set())
                for t, v in targets(d) if isinstance(d, (ast.Assign, ast.AnnAssign)) else ():
                    if isinstance(t, ast.Name) and t.id == n.id and v is not None and v is not e:
                        out |= expr_reads(p, C, f, v, depth + 1)
    return out


def model(p, ck, C):
    mk, ld = C.find_method('_make_checkpoint'), C.find_method('_load_checkpoint')
    if mk is None or ld is None or mk.is_abstract or ld.is_abstract:
        return
    g = Graph(p, mk, lambda c, f: small(c, f) and c.cls in C.mro(), cls=C)
    rets = [n.value for n in ast.walk(mk.node) if isinstance(n, ast.Return) and n.value is not None]
    ent = {}
    for r in rets:
        e = entries(g, r, g.frame)
        ent = None if e is None or ent is None else {**ent, **e}
    if ent is None:
        ck.unknown('model', f'{C.name}: _make_checkpoint', mk.where, 'the stored dictionary was not understood')
        return
    puts = load_puts(p, ld, C)
    by = {}
    for k, (e, fr) in ent.items():
        a, o = affine(e, fr)
        if isinstance(a, str):
            by[k] = a
            continue
        r = {x for x in expr_reads(p, C, fr.info, e)}
    for want in ('self.symbols', 'self.weights'):
        ks = [(k, 0) for k, a in by.items() if a == want]
        key = f'{C.name}: {want[5:]}'
        if not ks:
            ck.bad('model', key, mk.where, f'{want} is not stored in the checkpoint of a {C.name}')
        elif not [x for x in puts if x[0] == want and x[1] in [k for k, _ in ks]]:
            ck.bad('model', key, ld.where, f'{want} is stored in the checkpoint of a {C.name} but not restored from it')
        else:
            ck.ok('model', key, mk.where)
    for k in sorted(ent):
        got = [x for x in puts if x[1] == k]
        key = f'{C.name}: key {k}'
        src = unwrap(ent[k][0])
        if isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr == 'state_dict':
            gl = Graph(p, ld, small, cls=C)
            used = any(key_read(a) == k and name_of(c) == 'load_state_dict' for n in gl.reachable() for c in calls(n) for a in c.args)
            ck.add('model', key, used, ld.where, '' if used else f'the state stored under {k!r} is not loaded')
        elif not got:
            ck.bad('model', key, ld.where, f'{k!r} is stored but not restored')
        elif k in by and by[k].startswith('self.') and all(x[0] != by[k] for x in got):
            ck.bad('model', key, got[0][3].where, f'{k!r} holds {by[k]} but is restored to {got[0][0]}')
        elif k in by and not by[k].startswith('self.'):
            # a local: it must be made from the attribute it is restored to
            r = expr_reads(p, C, ent[k][1].info, ent[k][0])
            if got[0][0] and got[0][0].split('.')[-1] in r:
                ck.ok('model', key, mk.where)
            else:
                ck.unknown('model', key, mk.where, 'made in a way that is not analysed')
        else:
            ck.ok('model', key, mk.where)
    for t, k, o, n in puts:
        if k not in ent and not soft(n, k):
            ck.bad('model', f'{C.name}: key {k}', n.where, f'{k!r} is restored but not stored')
    derived(p, ck, C, ld, puts)


def derived(p, ck, C, ld, puts):
    base = {x[0][5:] for x in puts if x[0] and x[0].startswith('self.')}
    gl = Graph(p, ld, small, cls=C)
    found = {}
    for c in C.mro():
        if not hasattr(c, 'methods'):
            continue
        for name, f in c.methods.items():
            if name in ('__init__', '_load_checkpoint') or C.find_method(name) is not f:
                continue
            for n in ast.walk(f.node):
                for t, v in targets(n) if isinstance(n, (ast.Assign, ast.AnnAssign)) else ():
                    x = t
                    while isinstance(x, ast.Subscript):
                        x = x.value
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and v is not None and x.attr not in base:
                        r = expr_reads(p, C, f, v) & {'symbols', 'weights'}
                        if r:
                            found.setdefault(x.attr, (f, n, r))
    for a, (f, n, r) in sorted(found.items()):
        key = f'{C.name}: {a}'
        resets = [m for m in gl.reachable() if any(m.frame.canon(t) == f'self.{a}' and (w or clears(m, a)) for t, w in mutated(m))]
        if not resets:
            ck.bad('derived', key, f'{f.module.rel}:{n.lineno}', f'{C.name}.{a} is computed from {" and ".join(sorted(r))} in {f.name} but survives loading a checkpoint with other ones')
            continue
        # a rebuild must come after what it is built from
        bad = None
        for m in resets:
            rd = set()
            if m.kind == 'stmt':
                for t, v in targets(m.ast):
                    if v is not None and m.frame.canon(t) == f'self.{a}':
                        rd = expr_reads(p, C, ld, v)
            for t, k, o, x in puts:
                if t and t[5:] in rd and reach(gl, m, x, gl.exit):
                    bad = (m, t)
        if bad:
            ck.bad('derived', key, bad[0].where, f'{C.name}.{a} is rebuilt before {bad[1]} is restored')
        else:
            ck.ok('derived', key, ld.where)


def clears(m, a):
    return any(isinstance(c.func, ast.Attribute) and c.func.attr == 'clear' for c in calls(m))
