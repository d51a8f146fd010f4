"""C06: putting values for symbols changes nothing but the parameters."""
from ..absint import Raised, Unsupported
from ..harness import *
from ..instances import class_of_ref, same, T, Recipe, recipes

TITLE = 'Substituting parameter values changes only the parameters'
STR = ('str',)


def run(p, ck, tier):
    b = Bench(p, ck)
    ck.rule('lambdify', 'x.lambdify(symbols)(values), evaluated on a generic instance x whose parameter is a symbol, '
            'has the class of x and equals in every field what the constructor builds from the value.')
    ck.rule('keeps', 'lambdify on a symbol the box does not use, and on boxes without symbols, gives back the box.')
    ck.rule('symbol', 'lambdify(symbols, k*s)(values) is k times the value given for s, whatever the position of s; '
            'scaling, negating and unscaling a symbol keep its name and dimensions.')
    ck.rule('diagram', 'Diagram.lambdify maps every layer, in order, to the same layer around the lambdified box.')
    ck.rule('models', 'The diagrams a model evaluates are those it was given with the weight at position i put for '
            'the symbol at position i.')
    symbols(p, b)
    for cat in ('tensor', 'quantum'):
        boxes(p, b, cat, tier)
        diagrams(p, b, cat)
    models(p, b, tier)
    ck.floor('lambdify', 15)
    ck.floor('symbol', 4)
    ck.floor('diagram', 2)


def sym(p, e, st, name, scale=None):
    c = p.cls('backend.symbol.Symbol')
    nm = name if isinstance(name, K) else Sym(name, STR)
    name = name.v if isinstance(name, K) else name
    kw = {'name': nm, 'directed_dom': Lin(0, [(Sym(name + '.d', ('nat',)), 1)]),
          'directed_cod': Lin(0, [(Sym(name + '.c', ('nat',)), 1)])}
    if scale is not None:
        kw['scale'] = scale
    return e.instantiate(ClsV(c), [], kw, st, None)


def distinct_names(e, st, names):
    for i, a in enumerate(names):
        for c in names[i + 1:]:
            x, y = sorted((Sym(a, STR), Sym(c, STR)), key=repr)
            e.assume(st, App('==', x, y), False)


def symbols(p, b):
    SC = p.cls('backend.symbol.Symbol')
    lam = p.func('backend.symbol.lambdify')
    names = ['s', 't', 'u']
    for pos in range(3):
        for sc, lab in ((None, 'unscaled'), (K(0.5), 'scaled 0.5'), (I(-1), 'negated'), (Sym('k', ('real',)), 'scaled k')):
            e = b.engine('tensor')

            def go(e, st, pos=pos, sc=sc):
                distinct_names(e, st, names)
                ss = [sym(p, e, st, n) for n in names]
                ex = sym(p, e, st, names[pos], sc) if sc is not None else ss[pos]
                f = e.call(FnV(lam), [e.new(st, ListO(ss)), ex], {}, st, None)
                return e.call(f, [Sym('v0', ('real',)), Sym('v1', ('real',)), Sym('v2', ('real',))], {}, st, None)

            def chk(e, v, st, path, pos=pos, sc=sc):
                x = Sym(f'v{pos}', ('real',))
                w = [x] if sc is None else [e.binop('Mult', sc, x, st, None), e.binop('Mult', x, sc, st, None)]
                if any(e.reify(v, st) == e.reify(y, st) for y in w):
                    return True, show(v)
                if isinstance(sc, Sym) and v == x and any(mentions(c, sc) and isinstance(c, App) and
                                                          {c.op: t} in ({'==': True}, {'!=': False}) for c, t in path):
                    return True, show(v)
                ins = [f'v{i}' for i in range(3) if mentions(v, Sym(f'v{i}'))]
                if sc is not None and not isinstance(sc, Sym) and v == x or isinstance(sc, Sym) and v == x and not path:
                    return False, f'the scale is lost: {show(v)}'
                if ins and f'v{pos}' not in ins:
                    return False, f'symbol {pos} gets {show(v)}'
                if sc is None and isinstance(v, (K, Lin)):
                    return False, show(v)
                return None, show(v)
            b.run('symbol', f'{lab} symbol at position {pos}', lam.where, e, go, chk)
    for what, f in (('product', lambda e, st, s: e.binop('Mult', s, Sym('m', ('real',)), st, None)),
                    ('product from the left', lambda e, st, s: e.binop('Mult', Sym('m', ('real',)), s, st, None)),
                    ('negation', lambda e, st, s: meth(e, s, '__neg__', [], {}, st)),
                    ('unscaled', lambda e, st, s: e.getattr(s, 'unscaled', st))):
        e = b.engine('tensor')

        def go(e, st, f=f):
            s = sym(p, e, st, 's', Sym('k', ('real',)))
            return Tup([f(e, st, s), s])

        def chk(e, v, st, path, what=what):
            x, s = v.items
            if not isinstance(e.res(x, st), Ref):
                return None, show(x)
            unk = None
            for a in ('name', 'directed_dom', 'directed_cod'):
                r = same(e, e.getattr(x, a, st), e.getattr(s, a, st), st, a)
                if r[0] is False:
                    return False, f'{a} changes: {r[1]}'
                if r[0] is None:
                    unk = r
            sc = e.reify(e.getattr(x, 'scale', st), st)
            if what == 'unscaled':
                if sc not in (K(1.0), I(1)):
                    return (False if isinstance(sc, (K, Lin)) or sc == Sym('k') else None), f'scale {show(sc)}'
            elif what == 'negation':
                if not mentions(sc, Sym('k')):
                    return False, f'scale {show(sc)}'
                if sc == Sym('k'):
                    return False, 'scale is not negated'
            elif not (mentions(sc, Sym('k')) and mentions(sc, Sym('m'))):
                return False, f'scale {show(sc)}'
            return unk or (True, show(sc))
        m = SC.find_method({'product': '__mul__', 'product from the left': '__rmul__', 'negation': '__neg__', 'unscaled': 'unscaled'}[what])
        b.run('symbol', what, m.where if m else SC.where, e, go, chk)


def mentions(v, s):
    if v == s:
        return True
    if isinstance(v, App):
        return any(mentions(x, s) for x in v.args if isinstance(x, V))
    if isinstance(v, Tup):
        return any(mentions(x, s) for x in v.items)
    if isinstance(v, Lin):
        return any(mentions(x, s) for x, _ in v.t)
    if isinstance(v, Ite):
        return mentions(v.c, s) or mentions(v.a, s) or mentions(v.b, s)
    return False


def param_recipes(p, cat, tier):
    """(label, class, where, make(e, st, data))"""
    m = {'tensor': 'backend.tensor', 'quantum': 'backend.quantum'}[cat]
    C = lambda n: p.cls(f'{m}.{n}')
    out = []

    def add(label, n, mk):
        out.append((label, C(n), mk))
    inst = lambda e, st, n, a, k={}: e.instantiate(ClsV(C(n)), a, dict(k), st, None)
    nm = Sym('name', STR)
    zs = (0, 1)
    if cat == 'tensor':
        for z in zs:
            bx = lambda e, st, d, z=z: inst(e, st, 'Box', [nm, T(e, st, 'D'), T(e, st, 'C')], dict(data=d, z=I(z)))
            add(f'Box z={z}', 'Box', bx)
            add(f'Daggered(Box z={z})', 'Daggered', lambda e, st, d, bx=bx: inst(e, st, 'Daggered', [bx(e, st, d)]))
            add(f'rotation by 1 of Box z={z}', 'Box', lambda e, st, d, bx=bx: meth(e, bx(e, st, d), 'rotate', [I(1)], {}, st))
    else:
        for z in zs:
            for mixed in (False, True):
                for sa in (False, True):
                    lab = f'Box z={z}' + ' mixed' * mixed + ' self-adjoint' * sa
                    bx = lambda e, st, d, z=z, mixed=mixed, sa=sa: inst(
                        e, st, 'Box', [nm, T(e, st, 'D'), T(e, st, 'D' if sa else 'C')],
                        dict(data=d, z=I(z), is_mixed=K(mixed), self_adjoint=K(sa)))
                    add(lab, 'Box', bx)
                    if not sa:
                        add(f'Daggered({lab})', 'Daggered', lambda e, st, d, bx=bx: inst(e, st, 'Daggered', [bx(e, st, d)]))
        rots = ['Rx', 'Ry', 'Rz']
        for r in rots:
            f = lambda e, st, d, r=r: inst(e, st, r, [d])
            add(r, r, f)
            for dist in ((1, -1, 2, -3) if tier == 'quick' else (1, -1, 2, -2, 3, -3, 5)):
                g = lambda e, st, d, f=f, dist=dist: inst(e, st, 'Controlled', [f(e, st, d), I(dist)])
                add(f'Controlled({r}, {dist})', 'Controlled', g)
                if dist in (1, -2, 2):
                    for d2 in (1, -2):
                        add(f'Controlled(Controlled({r}, {dist}), {d2})', 'Controlled',
                            lambda e, st, d, g=g, d2=d2: inst(e, st, 'Controlled', [g(e, st, d), I(d2)]))
        bx = lambda e, st, d: inst(e, st, 'Box', [nm, e.module_value('qubit', C('Box').module, st), e.module_value('qubit', C('Box').module, st)],
                                   dict(data=d))
        add('Controlled(Box, -2)', 'Controlled', lambda e, st, d: inst(e, st, 'Controlled', [bx(e, st, d), I(-2)]))
        add('Controlled(dagger of Box, 2)', 'Controlled',
            lambda e, st, d: inst(e, st, 'Controlled', [meth(e, bx(e, st, d), 'dagger', [], {}, st), I(2)]))
        add('Sqrt', 'Sqrt', lambda e, st, d: inst(e, st, 'Sqrt', [d]))
    return out


SCALES = ((None, ''), (I(-1), ' negated'), (K(0.5), ' halved'))


def boxes(p, b, cat, tier):
    for label, cls, mk in param_recipes(p, cat, tier):
        lm = cls.find_method('lambdify')
        where = lm.where if lm else cls.where
        for sc, sl in SCALES:
            for pos in (0, 1):
                def go(e, st, mk=mk, sc=sc, pos=pos):
                    distinct_names(e, st, ['s', 'other'])
                    s, o = sym(p, e, st, 's'), sym(p, e, st, 'other')
                    d = sym(p, e, st, 's', sc) if sc is not None else s
                    x = mk(e, st, d)
                    args = [s, o] if pos == 0 else [o, s]
                    vals = [Sym('v', ('real',)), Sym('w', ('real',))]
                    if pos:
                        vals.reverse()
                    f = meth(e, x, 'lambdify', args, {}, st)
                    y = e.call(f, vals, {}, st, None)
                    v = Sym('v', ('real',))
                    w = v if sc is None else e.binop('Mult', sc, v, st, None)
                    return Tup([y, mk(e, st, w), x, mk(e, st, d)])

                def chk(e, v, st, path):
                    y, want, x, x0 = v.items
                    r = same(e, y, want, st, 'result')
                    if r[0] is not True:
                        return r
                    r = same(e, x, x0, st, 'the box itself')
                    return r
                e = b.engine(cat, dg=False)
                b.run('lambdify', f'{cat} {label}{sl}, symbol {pos}', where, e, go, chk)
        if label.startswith('Controlled') or cls.name == 'Sqrt' or cls.find_method('phase'):
            continue        # a symbol that is not listed is an error for rotations
        e = b.engine(cat, dg=False)

        def go2(e, st, mk=mk):
            distinct_names(e, st, ['s', 'other'])
            x = mk(e, st, sym(p, e, st, 's'))
            y = e.call(meth(e, x, 'lambdify', [sym(p, e, st, 'other')], {}, st), [Sym('w', ('real',))], {}, st, None)
            return Tup([y, x])
        b.run('keeps', f'{cat} {label}: symbol not used', where, e, go2,
              lambda e, v, st, path: same(e, v.items[0], v.items[1], st))
    for r in recipes(p, cat, tier):
        if not r.cls.find_method('lambdify'):
            continue
        e = b.engine(cat, dg=False)

        def go3(e, st, r=r):
            x = r.fn(e, st)
            y = e.call(meth(e, x, 'lambdify', [sym(p, e, st, 'other')], {}, st), [Sym('w', ('real',))], {}, st, None)
            return Tup([y, x])
        b.run('keeps', f'{cat} {r.key}: no symbols', r.cls.find_method('lambdify').where, e, go3,
              lambda e, v, st, path: same(e, v.items[0], v.items[1], st), strict=False)


def diagrams(p, b, cat):
    DC = p.categories[cat]['Diagram']
    LC = p.categories[cat]['Layer']
    m = {'tensor': 'backend.tensor', 'quantum': 'backend.quantum'}[cat]
    C = lambda n: p.cls(f'{m}.{n}')
    lm = DC.find_method('lambdify')

    def mk(e, st, ds):
        ls = []
        for i, d in enumerate(ds):
            if i == 1 and cat == 'quantum':
                bx = e.instantiate(ClsV(C('Rz')), [d], {}, st, None)
            else:
                bx = e.instantiate(ClsV(C('Box')), [Sym(f'b{i}', STR), T(e, st, f'D{i}'), T(e, st, f'C{i}')],
                                   {'data': d}, st, None)
            ls.append(e.instantiate(ClsV(LC), [], {'left': T(e, st, f'L{i}'), 'box': bx, 'right': T(e, st, f'R{i}')}, st, None))
        return e.instantiate(ClsV(DC), [], {'dom': e.getattr(ls[0], 'dom', st), 'cod': e.getattr(ls[-1], 'cod', st),
                                           'layers': e.new(st, ListO(ls))}, st, None)
    for order in ((0, 1, 2), (2, 0, 1), (1, 0, 2)):
        def go(e, st, order=order):
            names = ['s0', 's1', 's2']
            distinct_names(e, st, names)
            ss = [sym(p, e, st, n) for n in names]
            vs = [Sym(f'v{i}', ('real',)) for i in range(3)]
            x = mk(e, st, ss)
            f = meth(e, x, 'lambdify', [ss[i] for i in order], {}, st)
            y = e.call(f, [vs[i] for i in order], {}, st, None)
            return Tup([y, mk(e, st, vs), x, mk(e, st, ss)])

        def chk(e, v, st, path):
            y, want, x, x0 = v.items
            r = same(e, y, want, st, 'result')
            return r if r[0] is not True else same(e, x, x0, st, 'the diagram itself')
        e = b.engine(cat, dg=False)
        b.run('diagram', f'{cat} order {order}', lm.where, e, go, chk)


def inst_of(p, e, st, cls, fields):
    return e.new(st, InstO(cls, dict(fields)))


def param_diagram(p, e, st, cat, ds):
    """Layers around boxes of different kinds, one parameter each."""
    m = {'tensor': 'backend.tensor', 'quantum': 'backend.quantum'}[cat]
    C = lambda n: ClsV(p.cls(f'{m}.{n}'))
    new = lambda n, a, k={}: e.instantiate(C(n), a, dict(k), st, None)
    if cat == 'quantum':
        bs = [new('Rx', [ds[0]]), new('Controlled', [new('Rz', [ds[1]]), I(-2)]),
              new('Controlled', [new('Controlled', [new('Ry', [ds[2]])]), I(1)])]
    else:
        bs = [new('Box', [Sym(f'b{i}', STR), T(e, st, f'D{i}'), T(e, st, f'C{i}')], {'data': d}) for i, d in enumerate(ds)]
        bs[1] = new('Daggered', [bs[1]])
    LC, DC = p.categories[cat]['Layer'], p.categories[cat]['Diagram']
    ls = [e.instantiate(ClsV(LC), [], {'left': T(e, st, f'L{i}'), 'box': bx, 'right': T(e, st, f'R{i}')}, st, None)
          for i, bx in enumerate(bs)]
    return e.instantiate(ClsV(DC), [], {'dom': e.getattr(ls[0], 'dom', st), 'cod': e.getattr(ls[-1], 'cod', st),
                                       'layers': e.new(st, ListO(ls))}, st, None)


def same_params(e, x, y, st, path):
    """Boxes alike in everything but cached names: class, boundary, flags, parameter."""
    cx, cy = class_of_ref(e, x, st), class_of_ref(e, y, st)
    if cx is None or cy is None:
        return None, f'{path}: class not known'
    if cx is not cy:
        return False, f'{path}: {cx.name} instead of {cy.name}'
    unk = None
    o = e.obj(st, e.res(y, st))
    for a in o.fields:
        if a in ('name', 'data', 'free_symbols') or a.startswith('__'):
            continue
        if a in ('controlled', 'box'):
            r = same_params(e, e.getattr(x, a, st), e.getattr(y, a, st), st, f'{path}.{a}')
        else:
            r = same(e, e.getattr(x, a, st), e.getattr(y, a, st), st, f'{path}.{a}')
        if r[0] is False:
            return r
        unk = unk or (r if r[0] is None else None)
    if not ({'controlled', 'box'} & set(o.fields)):
        r = same(e, e.getattr(x, 'data', st), e.getattr(y, 'data', st), st, f'{path}.data')
        if r[0] is False:
            return r
        unk = unk or (r if r[0] is None else None)
    return unk or (True, '')


def same_diagrams(p, e, got, want, st):
    unk = None
    if len(got) != len(want):
        return False, f'{len(got)} diagrams instead of {len(want)}'
    for k, (g, w) in enumerate(zip(got, want)):
        lg, lw = (e.items(e.getattr(d, 'layers', st), st, None) for d in (g, w))
        if len(lg) != len(lw):
            return False, f'diagram {k}: {len(lg)} layers'
        for i, (a, c) in enumerate(zip(lg, lw)):
            r = same_params(e, e.getattr(a, 'box', st), e.getattr(c, 'box', st), st, f'diagram {k} box {i}')
            if r[0] is False:
                return r
            unk = unk or (r if r[0] is None else None)
    return unk or (True, '')


def models(p, b, tier):
    orders = ((0, 1, 2), (2, 0, 1), (1, 2, 0))
    cases = []
    for cls in p.classes():
        if cls.module.name.startswith('lambeq.training') and '_fast_subs' in cls.methods:
            cases.append(('quantum', cls, '_fast_subs'))
        if cls.name == 'PytorchModel' and cls.find_method('get_diagram_output'):
            cases.append(('tensor', cls, 'get_diagram_output'))
    for cat, cls, mname in cases:
        f = cls.find_method(mname)
        for order in orders:
            for scales in ((None,) * 3, (None, K(0.5), I(-1))):
                if cat == 'tensor' and scales[1] is not None:
                    continue
                e = b.engine(cat, dg=False)
                seen = []

                def to_tn(e, st, args, kw, node, seen=seen):
                    seen.append((args[0], st))
                    return Tup([Sym('nodes'), Sym('edges')])

                def go(e, st, order=order, scales=scales, seen=seen):
                    names = [K('s0'), K('s1'), K('s2')]
                    ss = [sym(p, e, st, n) for n in names]
                    ds = [sym(p, e, st, n, sc) if sc is not None else s for n, s, sc in zip(names, ss, scales)]
                    vs = [Sym(f'v{i}', ('real',)) for i in range(3)]
                    ws = [v if sc is None else e.binop('Mult', sc, v, st, None) for v, sc in zip(vs, scales)]
                    two = lambda q: [param_diagram(p, e, st, cat, q), param_diagram(p, e, st, cat, [q[2], q[0], q[1]])]
                    given, before, want = two(ds), two(ds), two(ws)
                    me = inst_of(p, e, st, cls, {'symbols': e.new(st, ListO([ss[i] for i in order])),
                                                 'weights': e.new(st, ListO([vs[i] for i in order]))})
                    args = [e.new(st, ListO(given))]
                    if mname == '_fast_subs':
                        out = meth(e, me, mname, args + [e.getattr(me, 'weights', st)], {}, st)
                        got = list(e.items(out, st, None))
                    else:
                        meth(e, me, mname, args, {}, st)
                        got = [g for g, _ in seen]
                    return Tup([Tup(got), Tup(want), Tup(given), Tup(before)])

                def chk(e, v, st, path):
                    got, want, given, before = (x.items for x in v.items)
                    r = same_diagrams(p, e, got, want, st)
                    if r[0] is False:
                        return r
                    r2 = same_diagrams(p, e, given, before, st)
                    if r2[0] is False:
                        return False, 'the diagrams given to the model change: ' + r2[1]
                    return r if r[0] is None else r2
                if mname != '_fast_subs':
                    for fn in p.functions():
                        if fn.name in ('_tn_contract', 'ordered_nodes_contractor'):
                            e.intrinsics[fn.qual] = lambda *a: Sym('node')
                    e.intrinsics[p.categories[cat]['Diagram'].find_method('to_tn').qual] = to_tn
                b.run('models', f'{cls.name}.{mname} order {order}' + (' scaled' if scales[1] is not None else ''),
                      f.where, e, go, chk)
