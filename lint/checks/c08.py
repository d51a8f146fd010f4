"""C08: calls leave the objects they are given as they were."""
import ast
from ..effects import Effects, E_, leaves_after, showpath
from ..project import ClassInfo

TITLE = 'Library calls never modify the objects they are given'

# classes whose objects exist to be changed: their state is what a call is for
STATEFUL = ('lambeq.training.model.Model', 'lambeq.training.optimizer.Optimizer', 'lambeq.training.trainer.Trainer',
            'lambeq.training.checkpoint.Checkpoint', 'lambeq.training.tn_path_optimizer.TnPathOptimizer', 'lambeq.training.dataset.Dataset',
            'lambeq.backend.drawing.drawing_backend.DrawingBackend', 'lambeq.backend.drawing.drawable.DrawableDiagram',
            'lambeq.backend.drawing.drawable.WireEndpoint', 'lambeq.backend.drawing.drawable.BoxNode',
            'lambeq.bobcat.parser.Chart', 'lambeq.bobcat.parser.Cell', 'lambeq.core.utils.Progress',
            'lambeq.text2diagram.base.Reader', 'lambeq.text2diagram.model_based_reader.base.ModelBasedReader', 'lambeq.text2diagram.model_downloader.ModelDownloader',
            'lambeq.tokeniser.base.Tokeniser')
EXTSTATE = ('argparse.', 'torch.optim', 'tqdm', 'matplotlib', 'random.Random', 'numpy.random', 'torch.Generator')
# calls whose documented purpose is the change: (function, parameter)
PURPOSE = {
    ('lambeq.backend.grammar.Category.set', 'entity'),
    ('lambeq.backend.numerical_backend.backend', '_stack'),
    ('lambeq.backend.numerical_backend.backend', '_cache'),
    ('lambeq.bobcat.parser.ChartParser.calc_score_unary', 'tree'),
    ('lambeq.bobcat.parser.ChartParser.calc_score_binary', 'tree'),
    ('lambeq.bobcat.tree.Unify.add_vars', 'trans'),
}
# methods whose documented purpose is to change the object they are called on
CHANGERS = {
    'merge', 'remove_self_cycles',            # PregroupTreeNode, "in place"
    'add_rules', '__setattr__', '__setstate__', '__init__', '__post_init__', '__new__', '__init_subclass__', 'register_special_box', 'set', '__setitem__',
}
# value classes: after construction nothing observable changes
VALUES = ('lambeq.backend.grammar.Entity', 'lambeq.backend.grammar.Functor', 'lambeq.backend.symbol.Symbol', 'lambeq.backend.grammar.Category',
          'lambeq.text2diagram.ccg_tree.CCGTree', 'lambeq.text2diagram.ccg_type.CCGType', 'lambeq.text2diagram.ccg_rule.CCGRule',
          'lambeq.text2diagram.pregroup_tree.PregroupTreeNode', 'lambeq.rewrite.base.Rewriter', 'lambeq.rewrite.base.RewriteRule',
          'lambeq.rewrite.base.DiagramRewriter', 'lambeq.ansatz.base.BaseAnsatz', 'lambeq.backend.grammar.Diagram', 'lambeq.backend.grammar.Box', 'lambeq.backend.grammar.Ty')
INTERNAL = ('lambeq.backend.drawing.drawable', 'lambeq.backend.drawing.tikz_backend', 'lambeq.backend.drawing.mat_backend', 'lambeq.backend.drawing.drawing_backend')
SHRINK = {'remove', 'pop', 'clear', 'popitem', 'discard', 'insert', 'popleft', 'appendleft', 'difference_update', 'intersection_update', 'symmetric_difference_update'}
GROW = {'add', 'update', 'setdefault'}


def lookup(p, names):
    out = set()
    for q in names:
        try:
            out.add(p.cls(q))
        except Exception:
            continue
    return out


def sub(c, roots):
    return any(k in roots for k in c.mro())


def run(p, ck, tier):
    E = Effects(p, rounds=6 if tier == 'quick' else 12)
    stateful, values = lookup(p, STATEFUL), lookup(p, VALUES)
    ck.notes += ['the effect analysis resolves calls through annotations, constructors and method names unique to one class family; effects of calls it cannot resolve (user callbacks, untyped third-party objects) are assumed away',
                 'private caches (attributes with a leading underscore set by methods of their own class, and names containing "cache" or "memo") are not observable state',
                 'objects of the model, optimiser, trainer, checkpoint, path optimiser and drawing backend classes exist to be changed']
    ck.rule('argument', 'no public function or method, and no callback, modifies an object reachable from one of its parameters (other than self), except where that is its documented purpose')
    ck.rule('receiver', 'public methods of types, boxes, diagrams, trees, functors, symbols, rules and ansätze leave the object they are called on as it was')
    ck.rule('kept', 'a container that a constructor was given and stores uncopied is not modified later by the methods of the class')
    ck.rule('resized', 'no loop removes elements from, or inserts into, the container it runs over (or changes the size of a dictionary or set it runs over) and then goes on')
    infos = {f.qual: f for f in E.funcs.values()}

    def objtypes(node, name):
        f = E.funcs[node]
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            if x.arg == name:
                return E.ann(x.annotation, f.module) if x.annotation is not None else frozenset()
        return frozenset()

    def atpath(f, a, path):
        """Classes of the object at a path, and of those passed on the way."""
        me = f.params()[0] if f.cls is not None and not f.is_static and f.params() else None
        ty = frozenset([('cls', f.cls)]) if a == me else objtypes(f.node, a)
        out = [ty]
        for fld in path:
            n = set()
            for t in ty:
                if fld == E_ and t[0] in ('list', 'dict', 'set', 'tuple', 'seq'):
                    n |= t[1]
                elif fld != E_ and t[0] == 'cls':
                    n |= E.attr_type(t[1], fld)
            ty = frozenset(n)
            out.append(ty)
        return out

    def isstate(tys):
        return any(t[0] == 'cls' and sub(t[1], stateful) or t[0] == 'ext' and t[1].startswith(EXTSTATE) for t in tys)

    def excused(f, a, path, x):
        """Is the change of the object at `path` from parameter `a` the purpose, or not observable?"""
        where, what, resized, root = x
        if any(isinstance(fld, str) and ('cache' in fld or 'memo' in fld) for fld in path) or 'cache' in a or 'memo' in a:
            return True
        if any(isstate(t) for t in atpath(f, a, path)):
            return True
        rf = E.funcs.get(root[3])
        for g in (f, rf):
            if g is None:
                continue
            if (g.qual, a) in PURPOSE or g is rf and any(q == g.qual for q, _ in PURPOSE):
                return True
            if purpose_doc(g):
                return True
        if rf is not None and rf.cls is not None and rf.params() and not rf.is_static and root[4] == rf.params()[0]:
            # the object's own class keeps private state
            if root[2].startswith('its attribute _'):
                return True
            if sub(rf.cls, stateful):
                return True
            if rf.name in ('__setattr__', '__setstate__', '__setitem__', '__init_subclass__', 'register_special_box'):
                return True
        if rf is not None and rf.module.name in INTERNAL:
            return True
        return False

    def purpose_doc(f):
        d = ast.get_docstring(f.node) or ''
        d = ' '.join(d.lower().split())
        return 'in place' in d or 'in-place' in d or 'inplace' in d

    def entry(f):
        n = f.name
        if n.startswith('__') and n.endswith('__'):
            return n not in ('__setattr__', '__setstate__', '__init_subclass__', '__delattr__')
        return not n.startswith('_') or not E.calledfrom.get(f.node)

    for f in E.funcs.values():
        s = E.summaries[f.node]
        if f.module.name in INTERNAL or not entry(f):
            continue
        short = f.qual.replace('lambeq.', '', 1)
        ck.functions.add(f.qual)
        me = f.params()[0] if f.cls is not None and not f.is_static and f.params() else None
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]
        bad = {}
        for (q, path, _), x in sorted(s.effects.items(), key=lambda t: (t[0][0], tuple(map(str, t[0][1])), t[0][2])):
            if q == me or excused(f, q, path, x):
                continue
            bad.setdefault(q, []).append((path, x))
        for q in params:
            if q == me:
                continue
            if q not in bad:
                ck.ok('argument', f'{short}({q})', f.where)
                continue
            path, x = bad[q][0]
            ck.bad('argument', f'{short}({q})', x[0], f'{q}{showpath(path)}: {x[3][2]}, in {x[3][1]} at {x[3][0]}', [x[0], x[3][0]])
        if me is not None and f.cls is not None and sub(f.cls, values) and f.name not in CHANGERS and not f.is_classmethod:
            mine = [(path, x) for (q, path, _), x in s.effects.items() if q == me and not excused(f, q, path, x)
                    and not any(isinstance(fld, str) and fld.startswith('_') for fld in path)]
            if not mine:
                ck.ok('receiver', short, f.where)
            else:
                path, x = mine[0]
                ck.bad('receiver', short, x[0], f'{me}{showpath(path)}: {x[3][2]}, in {x[3][1]} at {x[3][0]}', [x[0], x[3][0]])
    # ------------------------------------------------------------ kept
    for c in p.classes():
        if c.module.name in INTERNAL or sub(c, lookup(p, STATEFUL[7:12])):
            continue
        ini = c.find_method('__init__')
        kept = {}
        if ini is not None and ini.node in E.summaries:
            s = E.summaries[ini.node]
            for (l, fld), v in s.stores.items():
                if l == ('arg', ini.params()[0], ()):
                    for z in v.locs:
                        if z[0] == 'arg' and z[1] != ini.params()[0]:
                            kept.setdefault(fld, set()).add((z[1], z[2]))
        if c.dc:
            try:
                for fd in c.dc_fields():
                    if fd.init:
                        kept.setdefault(fd.name, set()).add((fd.name, ()))
            except Exception:
                pass
        for fld, froms in sorted(kept.items()):
            hits = []
            for m in c.methods.values():
                if not m.params() or m.is_static or m.is_classmethod or m.name in ('__init__', '__setattr__', '__setstate__', 'merge', 'remove_self_cycles'):
                    continue
                for (q, path, _), x in E.summaries[m.node].effects.items():
                    if q != m.params()[0] or not path or path[0] != fld:
                        continue
                    if excused2(E, p, c, m, path, x, ini, froms, isstate, objtypes, purpose_doc):
                        continue
                    if m.name == '__post_init__' and x[3][2] == 'its attribute parent is set':
                        continue
                    hits.append((m, path, x))
            key = f'{c.qual.replace("lambeq.", "", 1)}.{fld}'
            if not hits:
                ck.ok('kept', key, c.where)
            else:
                m, path, x = hits[0]
                ck.bad('kept', key, x[0], f'{m.name} changes self{showpath(path)}, which is the object that the constructor was given: {x[3][2]} at {x[3][0]}', [x[0], x[3][0]])
    # --------------------------------------------------------- resized
    loops(p, E, ck)
    ck.floor('argument', 300)
    ck.floor('receiver', 100)
    ck.floor('kept', 20)
    ck.floor('resized', 100)


def excused2(E, p, c, m, path, x, ini, froms, isstate, objtypes, purpose_doc):
    if any(isinstance(fld, str) and ('cache' in fld or 'memo' in fld) for fld in path):
        return True
    if purpose_doc(m):
        return True
    tys = set(E.attr_type(c, path[0]))
    if ini is not None:
        for q, _ in froms:
            if q in ini.params():
                tys |= objtypes(ini.node, q)
    if isstate(tys):
        return True
    rf = E.funcs.get(x[3][3])
    if rf is not None and rf.cls is not None and rf.cls is not c and (x[3][2].startswith('its attribute _') or rf.name == '__setattr__'):
        return True
    return False


def dotted(e):
    while isinstance(e, ast.Call) and (isinstance(e.func, ast.Name) and e.func.id in ('enumerate', 'reversed', 'iter', 'zip') and e.args
                                       or isinstance(e.func, ast.Attribute) and e.func.attr in ('items', 'keys', 'values') and not e.args):
        e = e.args[0] if isinstance(e.func, ast.Name) else e.func.value
    if isinstance(e, (ast.Name, ast.Attribute)):
        x = e
        while isinstance(x, ast.Attribute):
            x = x.value
        if isinstance(x, ast.Name):
            return ast.unparse(e)
    return None


def loops(p, E, ck):
    owner = {}
    for f in E.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.For):
                owner.setdefault(id(n), (f, n))
    hits = {}
    for (qual, line), (info, node, hs) in E.loops.items():
        for loc, where, what in hs:
            hits.setdefault(id(node), []).append((loc, where, what))
    for k, (f, n) in owner.items():
        it = dotted(n.iter)
        key = f'{f.qual.replace("lambeq.", "", 1)}: for … in {ast.unparse(n.iter)[:60]}'
        found = None
        targets = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        isdict = isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr in ('items', 'keys', 'values')
        if it is not None:
            base = it.split('.')[0]
            rebound = any(isinstance(x, ast.Name) and x.id == base and isinstance(x.ctx, ast.Store) for b in n.body for x in ast.walk(b))
            if not rebound:
                for b in n.body:
                    for x in ast.walk(b):
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and dotted(x.func.value) == it and isinstance(x.func.value, (ast.Name, ast.Attribute)):
                            if x.func.attr in SHRINK or x.func.attr in GROW:
                                if x.func.attr in ('setdefault', 'update') and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id in targets:
                                    continue
                                found = found or (x, f'{x.func.attr}() on it')
                        elif isinstance(x, ast.Delete):
                            for t in x.targets:
                                if isinstance(t, ast.Subscript) and dotted(t.value) == it and isinstance(t.value, (ast.Name, ast.Attribute)):
                                    found = found or (x, 'an element is deleted')
                        elif isdict and isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, (ast.Name, ast.Attribute)) and dotted(x.value) == it:
                            if not (isinstance(x.slice, ast.Name) and x.slice.id in targets):
                                found = found or (x, 'a key may be added')
        for loc, where, what in hits.get(k, ()):
            if found or loc[0] != 'arg' or E_ in loc[2]:
                continue
            op = what.split('(')[0]
            if op in SHRINK or 'deleted' in what:
                found = (where, what)
        if found and leaves_after(n, found[0]):
            found = None
        if found:
            ck.bad('resized', key, f'{f.module.rel}:{found[0].lineno}', f'{found[1]} inside the loop that runs over it', [f'{f.module.rel}:{n.lineno}', f'{f.module.rel}:{found[0].lineno}'])
        else:
            ck.ok('resized', key, f'{f.module.rel}:{n.lineno}')
