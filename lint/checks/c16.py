"""C16: the same seed gives the same run."""
import ast
from ..cfg import Graph, lines, own_walk
from ..effects import Effects
from ..project import ClassInfo

TITLE = 'The same seed gives the same run'

T = 'lambeq.training.'
PY = {'random', 'shuffle', 'choice', 'choices', 'sample', 'randint', 'randrange', 'uniform', 'gauss', 'normalvariate', 'getrandbits', 'betavariate', 'expovariate',
      'triangular', 'lognormvariate', 'vonmisesvariate', 'gammavariate', 'randbytes', 'binomialvariate'}
NP = {'rand', 'randn', 'randint', 'random_integers', 'random_sample', 'random', 'ranf', 'sample', 'choice', 'shuffle', 'permutation', 'uniform', 'normal', 'standard_normal',
      'beta', 'binomial', 'poisson', 'exponential', 'gamma', 'geometric', 'laplace', 'multinomial', 'multivariate_normal', 'bytes', 'dirichlet'}
TORCH = {'rand', 'randn', 'randint', 'randperm', 'bernoulli', 'multinomial', 'normal', 'rand_like', 'randn_like', 'randint_like', 'poisson'}
SEEDS = {'random.seed': 'random', 'numpy.random.seed': 'numpy', 'torch.manual_seed': 'torch', 'torch.random.manual_seed': 'torch'}
NAMES = {'random': "Python's random", 'numpy': 'numpy.random', 'torch': 'torch'}
# generators and sources that no seed controls
FRESH = {'numpy.random.default_rng', 'numpy.random.RandomState', 'numpy.random.Generator', 'numpy.random.SeedSequence', 'random.Random', 'torch.Generator'}
NEVER = {'random.SystemRandom', 'os.urandom', 'uuid.uuid1', 'uuid.uuid4', 'torch.seed', 'torch.random.seed', 'torch.initial_seed', 'jax.random.PRNGKey', 'jax.random.key'}


def family(q):
    """The generator a library function draws from."""
    mod, _, n = q.rpartition('.')
    if mod == 'random' and n in PY:
        return 'random'
    if mod in ('numpy.random', 'numpy.random.mtrand') and n in NP:
        return 'numpy'
    if mod in ('torch', 'torch.random') and n in TORCH or mod == 'torch.nn.init' and n not in ('zeros_', 'ones_', 'constant_', 'eye_', 'dirac_', 'calculate_gain'):
        return 'torch'
    if q == 'torch.utils.data.random_split':
        return 'torch'
    return None


def extname(p, e, module):
    r = p.resolve_expr(e, module) if isinstance(e, (ast.Name, ast.Attribute)) else None
    if isinstance(r, tuple) and r[0] == 'ext':
        q = r[1]
        return {'np': 'numpy'}.get(q.split('.')[0], q.split('.')[0]) + q[len(q.split('.')[0]):]
    return None


def run(p, ck, tier):
    E = Effects(p, rounds=6 if tier == 'quick' else 12)
    ck.notes += ['only choices that lambeq itself draws: generators inside third-party simulators and optimisers are not looked at, except for the seed that lambeq hands to a pytket backend',
                 'floating-point sums over sets and the first element popped from a set are not tracked']
    ck.rule('source', 'every random draw uses one of the generators (random, numpy.random, torch) that a trainer seeds, or one made from a seed that is passed in; nothing draws from the system, the clock or an unseeded generator')
    ck.rule('seeded', 'on every path of a trainer\'s construction with a seed, each generator that the trainer, its models, optimisers and datasets draw from is seeded with that seed before the first draw')
    ck.rule('shots', 'an evaluation on a sampling backend is given a seed drawn from the seeded generator, and hands it to the backend')
    ck.rule('order', 'no list, string, diagram or numbering takes its order from a set, unless it is sorted before it is kept, returned or passed on')
    draws, seeds = {}, {}
    for f in E.funcs.values():
        ck.functions.add(f.qual)
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            q = extname(p, n.func, f.module)
            short = f.qual.replace('lambeq.', '', 1)
            where = f'{f.module.rel}:{n.lineno}'
            if q is None:
                # in-place draws of tensors
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('uniform_', 'normal_', 'random_', 'bernoulli_', 'exponential_', 'geometric_', 'log_normal_', 'cauchy_'):
                    draws.setdefault(f.node, []).append(('torch', n))
                    ck.ok('source', f'{short}: {n.func.attr}', where)
                continue
            fam = family(q)
            gen = [k for k in n.keywords if k.arg == 'generator']
            if fam is not None:
                if not gen:
                    draws.setdefault(f.node, []).append((fam, n))
                ck.ok('source', f'{short}: {q}', where, f'draws from {NAMES[fam]}')
            elif q in FRESH:
                args = list(n.args) + [k.value for k in n.keywords]
                if q == 'torch.Generator' or not args or all(isinstance(a, ast.Constant) for a in args):
                    ok = q == 'torch.Generator' and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'manual_seed' and c.args
                                                        and not isinstance(c.args[0], ast.Constant) for c in ast.walk(f.node))
                    ck.add('source', f'{short}: {q}', ok, where, '' if ok else 'a generator of its own, which the seed of the user does not control')
                else:
                    ck.ok('source', f'{short}: {q}', where, 'made from a seed')
            elif q in NEVER or q.startswith('secrets.'):
                ck.bad('source', f'{short}: {q}', where, 'no seed controls this')
            elif q in SEEDS:
                seeds.setdefault(f.node, []).append((SEEDS[q], n))
                a = n.args[0] if n.args else n.keywords[0].value if n.keywords else None
                bad = a is None or isinstance(a, ast.Constant) and a.value is None or any(
                    isinstance(x, ast.Call) and (extname(p, x.func, f.module) or '').split('.')[0] in ('time', 'os', 'uuid', 'secrets', 'datetime') for x in ast.walk(a))
                ck.add('source', f'{short}: {q}', not bad, where, 'seeded from the system' if bad else '')
    ck.floor('source', 2)
    seeded(p, E, ck, draws)
    shots(p, E, ck, draws)
    order(p, E, ck)


# ----------------------------------------------------------------- seeded

def callees(E):
    out = {}
    for callee, callers in E.calledfrom.items():
        for c in callers:
            out.setdefault(c, set()).add(callee)
    return out


def externals(c):
    out = set()
    for k in c.mro():
        for b in k.node.bases:
            r = k.module.project.resolve_expr(b, k.module) if hasattr(k.module, 'project') else None
            if isinstance(r, tuple) and r[0] == 'ext':
                out.add(r[1])
    return out


def seeded(p, E, ck, draws):
    Trainer, Model, Opt = p.cls(T + 'trainer.Trainer'), p.cls(T + 'model.Model'), p.cls(T + 'optimizer.Optimizer')
    down = callees(E)
    bases = set()
    for C in Trainer.all_subclasses():
        ini = C.find_method('__init__')
        a = next((x.annotation for x in ini.node.args.args if x.arg == 'model'), None) if ini else None
        bases |= {t[1] for t in E.ann(a, ini.module) if t[0] == 'cls'} if a is not None else set()
    for C in Trainer.all_subclasses():
        ini = C.find_method('__init__')
        if ini is None or any(C is not D and C in D.mro() and D.module.name.startswith('lambeq.') for D in Trainer.all_subclasses()):
            continue
        anns = {x.arg: x.annotation for x in ini.node.args.args + ini.node.args.kwonlyargs}
        mt = [t[1] for t in E.ann(anns.get('model'), ini.module) if t[0] == 'cls'] if anns.get('model') is not None else []
        base = mt[0] if mt else Model
        # a model belongs to the trainer whose model class comes first among its bases
        models = [m for m in [base] + Model.all_subclasses() if base is next((k for k in m.mro() if k in bases), base) and base in m.mro()
                  or base not in m.mro() and set(externals(m)) & set(externals(base)) - {'abc.ABC'}]
        ownopt = anns.get('optimizer') is not None and any(
            isinstance(p.resolve_expr(x, ini.module), ClassInfo) and Opt in p.resolve_expr(x, ini.module).mro()
            for x in ast.walk(anns['optimizer']) if isinstance(x, (ast.Name, ast.Attribute)))

        def used(n):
            f = E.funcs[n]
            if f.cls is None:
                return True
            if Trainer in f.cls.mro():
                return f.cls in C.mro() and (C.find_method(f.name) is f or supered(E, C, f))
            if Model in f.cls.mro() or any(f.cls in m.mro() for m in models):
                return any(m.find_method(f.name) is f or f.cls in m.mro() and supered(E, m, f) for m in models)
            if Opt in f.cls.mro():
                return ownopt
            return True
        reach, todo, pre = set(), [], {}
        for m in ('__init__', 'fit'):
            g = C.find_method(m)
            if g is not None:
                todo.append(g.node)
                reach.add(g.node)
        while todo:
            n = todo.pop()
            # iterating over, indexing and calling objects
            implicit = {k.methods[m].node for x in ast.walk(n) if isinstance(x, ast.Name) for t in E.types.get(id(x), ()) if t[0] == 'cls' and isinstance(t[1], ClassInfo)
                        for k in t[1].mro() for m in ('__iter__', '__next__', '__getitem__', '__call__') if m in k.methods}
            for d in list(down.get(n, ())) + [i for i in implicit if i in E.funcs]:
                if d not in reach and used(d):
                    reach.add(d)
                    pre[d] = n
                    todo.append(d)
        need = {}
        for n in reach:
            for fam, call in draws.get(n, ()):
                need.setdefault(fam, (n, call))
        g = Graph(p, ini, lambda c, fr: not c.is_abstract and c.cls is not None and Trainer in c.cls.mro() or c.cls is None and len(list(ast.walk(c.node))) < 400, cls=C)
        # what stands for the seed
        alias = {g.frame.canon(ast.Name('seed', ast.Load()))}
        nodes = g.reachable()
        for _ in range(3):
            for nd in nodes:
                if isinstance(nd.ast, (ast.Assign, ast.AnnAssign)) and nd.kind not in ('test',):
                    v = nd.ast.value
                    if v is not None and nd.frame.canon(v) in alias:
                        for t in (nd.ast.targets if isinstance(nd.ast, ast.Assign) else [nd.ast.target]):
                            c = nd.frame.canon(t, True)
                            if c:
                                alias.add(c)

        def isseed(e, fr):
            return fr.canon(e) in alias

        def mentions(e, fr):
            return any(isinstance(x, (ast.Name, ast.Attribute)) and fr.canon(x) in alias for x in ast.walk(e))

        def cut(nd, label):
            """Edges that a run with a seed does not take."""
            if nd.kind != 'test':
                return False
            t, neg = nd.ast, False
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, neg = t.operand, not neg
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and isseed(t.left, nd.frame):
                isn = isinstance(t.ops[0], ast.Is) or isinstance(t.ops[0], ast.Eq)
                if neg:
                    isn = not isn
                return label == ('t' if isn else 'f')
            return False
        drawing = {}
        for fam in need:
            hot = {n for n in reach if any(fm == fam for fm, _ in draws.get(n, ()))}
            up, todo = set(hot), list(hot)
            while todo:
                n = todo.pop()
                for c in E.calledfrom.get(n, ()):
                    if c not in up and c in reach:
                        up.add(c)
                        todo.append(c)
            drawing[fam] = {E.funcs[n].name for n in up} - {'__init__', 'fit', '__call__'}
        for fam, (n, call) in sorted(need.items()):
            key = f'{C.name}: {NAMES[fam]}'
            chain = [E.funcs[n].qual]
            x = n
            while x in pre:
                x = pre[x]
                chain.append(E.funcs[x].qual)

            def seeds(nd):
                if nd.ast is None or nd.kind in ('call', 'return-from', 'test', 'iter'):
                    return False
                for c in own_walk(nd.ast):
                    if isinstance(c, ast.Call):
                        q = extname(p, c.func, nd.frame.info.module)
                        if q in SEEDS and SEEDS[q] == fam and (c.args or c.keywords) and mentions(c.args[0] if c.args else c.keywords[0].value, nd.frame):
                            return True
                return False

            def target(nd):
                if nd is g.exit:
                    return True
                if nd.ast is None or nd.kind in ('call', 'return-from'):
                    return False
                return any(isinstance(c, ast.Call) and (isinstance(c.func, ast.Attribute) and c.func.attr in drawing[fam] or family(extname(p, c.func, nd.frame.info.module) or '') == fam)
                           for c in own_walk(nd.ast) if not (nd.kind == 'iter'))
            seen, todo, bad = {g.entry.id: None}, [g.entry], None
            while todo and bad is None:
                nd = todo.pop(0)
                if nd is not g.entry and target(nd):
                    bad = nd
                    break
                for m, label in nd.succ:
                    if m.id in seen or label == 'exc' or cut(nd, label) or seeds(m):
                        continue
                    seen[m.id] = nd
                    todo.append(m)
            if g.truncated:
                ck.unknown('seeded', key, C.where, 'the construction is too large to follow')
            elif bad is None:
                ck.ok('seeded', key, C.where, f'drawn from in {chain[0]}')
            else:
                path = []
                nd = bad
                while nd is not None:
                    if nd.ast is not None:
                        path.append(nd.where)
                    nd = seen[nd.id]
                ck.bad('seeded', key, bad.where if bad.ast is not None else C.where,
                       f'{chain[0]} draws from {NAMES[fam]} (called from {" < ".join(chain[1:4])}), but with a seed given ' + ('construction can end' if bad is g.exit else 'this is reached') + ' without seeding that generator with it', path[::-1][-12:])
    ck.floor('seeded', 1)


def supered(E, m, f):
    """Is f, overridden in m, still reached through super()?"""
    for k in m.mro():
        g = k.methods.get(f.name)
        if g is f:
            return True
        if g is not None and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == f.name and (
                isinstance(x.func.value, ast.Call) and getattr(x.func.value.func, 'id', None) == 'super') for x in ast.walk(g.node)):
            return False
    return False


# ------------------------------------------------------------------ shots

def shots(p, E, ck, draws):
    """The seed of a sampling backend."""
    down = callees(E)

    def draws_fam(n, seen=()):
        if draws.get(n):
            return True
        return any(draws_fam(d, seen + (n,)) for d in down.get(n, ()) if d not in seen)
    for f in E.funcs.values():
        short = f.qual.replace('lambeq.', '', 1)
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
                continue
            if n.func.attr in ('process_circuits', 'process_circuit'):
                kw = [k for k in n.keywords if k.arg == 'seed']
                if not kw:
                    ck.add('shots', f'{short}: {n.func.attr}', None if any(k.arg is None for k in n.keywords) else False, f'{f.module.rel}:{n.lineno}', 'the backend is given no seed')
                    continue
                fr = Graph(p, f, lambda c, x: False).frame
                v, i = kw[0].value, 0
                while isinstance(v, ast.Name) and v.id in fr.single and i < 5:
                    v, i = fr.single[v.id], i + 1
                fromcaller = any(isinstance(x, ast.Constant) and x.value == 'seed' for x in ast.walk(v)) or any(
                    isinstance(x, ast.Name) and x.id in f.params() + [y.arg for y in f.node.args.kwonlyargs] for x in ast.walk(v))
                const = isinstance(v, ast.Constant)
                ck.add('shots', f'{short}: {n.func.attr}', fromcaller or (False if const else None), f'{f.module.rel}:{n.lineno}', '' if fromcaller else 'the seed is not the one that the caller gave')
            elif f.module.name.startswith('lambeq.training') and n.func.attr in ('eval', 'get_counts') and any(
                    k.arg is None and isinstance(k.value, ast.Attribute) and 'config' in k.value.attr or k.arg == 'backend' for k in n.keywords):
                where = f'{f.module.rel}:{n.lineno}'
                fr = Graph(p, f, lambda c, x: False).frame
                alts = given(fr, n)
                key = f'{short}: {n.func.attr}'
                if any(v == 'none' for v in alts):
                    ck.bad('shots', key, where, 'the evaluation on the backend is given no seed')
                    continue
                good = bool(alts)
                for v in alts:
                    if v == 'unknown':
                        good = False
                        continue
                    if isinstance(v, ast.Constant):
                        ck.bad('shots', key, where, 'the seed is the same for every evaluation, whatever the seed of the run')
                        break
                    drawn = False
                    for c in ast.walk(v):
                        if isinstance(c, ast.Call):
                            if family(extname(p, c.func, f.module) or ''):
                                drawn = True
                            nm = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, 'id', None)
                            if any(E.funcs[d].name == nm and draws_fam(d) for d in down.get(f.node, ())):
                                drawn = True
                    good = good and drawn
                else:
                    ck.add('shots', key, good or None, where, '' if good else 'the origin of the seed is not followed')
    ck.floor('shots', 1)


def given(fr, call):
    """What a call may be given as its seed: expressions, 'none' or 'unknown'."""
    def value(v, i=0):
        while isinstance(v, ast.Name) and v.id in fr.single and i < 5:
            v, i = fr.single[v.id], i + 1
        if isinstance(v, ast.IfExp):
            return value(v.body) + value(v.orelse)
        if isinstance(v, ast.Constant) and v.value is None:
            return ['none']
        return [v]

    def mapping(v, i=0):
        while isinstance(v, ast.Name) and v.id in fr.single and i < 5:
            v, i = fr.single[v.id], i + 1
        if isinstance(v, ast.IfExp):
            return mapping(v.body) + mapping(v.orelse)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict' and not v.args:
            return [x for k in v.keywords if k.arg == 'seed' for x in value(k.value)] or (['unknown'] if any(k.arg is None for k in v.keywords) else [None])
        if isinstance(v, ast.Dict):
            out = None
            for k, x in zip(v.keys, v.values):
                if k is None:
                    m = mapping(x)
                    out = m if m != [None] else out
                elif isinstance(k, ast.Constant):
                    if k.value == 'seed':
                        out = value(x)
                else:
                    out = ['unknown']
            return out if out is not None else [None]
        if isinstance(v, ast.Attribute) and 'config' in v.attr:
            return [None]          # the user's own configuration
        return ['unknown']
    out = None
    for k in call.keywords:
        if k.arg == 'seed':
            return value(k.value)
        if k.arg is None:
            m = mapping(k.value)
            if m != [None]:
                out = (out or []) + [x for x in m if x is not None]
    return out if out is not None else ['none']


# ------------------------------------------------------------------ order

def ends_in_raise(f, line):
    """Is the line in a block that ends in raise?"""
    for n in ast.walk(f.node):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[-1], ast.Raise) and b[0].lineno <= line <= (b[-1].end_lineno or b[-1].lineno):
                return True
    return False


def order(p, E, ck):
    for f in E.funcs.values():
        short = f.qual.replace('lambeq.', '', 1)
        hits = []
        for where, what, why in E.orders.get(f.node, ()):
            if what == 'joined into a string' and ends_in_raise(f, int(where.rsplit(':', 1)[1])):
                continue
            hits.append((where, what, why))
        s = E.summaries[f.node]
        m = s.fields.get('!')
        if m is not None and m.types and (not f.name.startswith('_') or f.name.startswith('__')):
            why = next(t[1] for t in m.types if t[0] == 'unord')
            hits.append((why[1] or f.where, 'returned', why))
        uses = sum(1 for n in ast.walk(f.node) if isinstance(n, ast.expr) and any(t[0] == 'set' for t in E.types.get(id(n), ())))
        if hits:
            where, what, why = hits[0]
            ck.bad('order', short, where, f'the order comes from a set ({why[1]}): {what}', [why[1], where])
        elif uses:
            ck.ok('order', short, f.where, f'{uses} expressions are sets')
    ck.floor('order', 10)
