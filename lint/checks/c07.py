"""C07: functors give well-typed, unshared results on every call."""
from ..absint import Raised, Unsupported
from ..harness import *
from ..instances import class_of_ref, same, definite

TITLE = 'Functor application is well-typed on every call'
STR = ('str',)


def run(p, ck, tier):
    b = Bench(p, ck)
    ck.rule('boundary', 'F(x).dom = F(x.dom) and F(x).cod = F(x.cod) on the first, second and third application of a '
            'functor F to x, for x of every arrow class and F into every category.')
    ck.rule('reject', 'When the arrow map gives a box an image with another boundary, no application of the functor to '
            'that box, or to a diagram containing it, returns - neither the first nor a later one.')
    ck.rule('agree', 'Later applications to the same or an equal object give an object equal to the first one.')
    ck.rule('unshared', 'No mutable object is reachable both from what an application returned and from what a later '
            'application returns.')
    ck.rule('stored', 'What the functor keeps for later calls is not reachable from what an application returns.')
    ck.rule('structure', 'F commutes with tensor, composition, identity, rotation and dagger, on types, boxes and diagrams, and '
            'maps cups, caps, swaps and spiders to those of the target category on the images of their types.')
    ck.rule('separate', 'Applying one functor does not change what another functor returns.')
    F = p.cls('backend.grammar.Functor')
    for cat in ('grammar', 'tensor', 'quantum'):
        calls(p, b, F, cat, tier)
    bad(p, b, F, tier)
    two(p, b, F)
    structure(p, b, F, tier)
    stored(p, b, F)
    ck.floor('boundary', 30)
    ck.floor('reject', 6)
    ck.floor('unshared', 6)


# -- a functor with an arbitrary object and arrow map ----------------------
def C(p, cat, n):
    return ClsV(p.categories[cat][n])


def ty(p, e, st, cat, *names, z=0):
    """A type of the category as source-level object."""
    if cat == 'tensor':
        return e.instantiate(C(p, cat, 'Ty'), [I(n) for n in names], {}, st, None)
    T = C(p, cat, 'Ty')
    one = lambda n: e.instantiate(T, [K(n)], {'z': I(z)} if z else {}, st, None)
    if len(names) == 1:
        return one(names[0])
    return e.instantiate(T, [], {'objects': e.new(st, ListO([one(n) for n in names]))} if names else {}, st, None)


#: images of the atomic types, per target category
OB = {'grammar': {'n': ('x', 'y'), 's': ('u',), 'p': ()},
      'tensor': {'n': (2, 3), 's': (5,), 'p': ()},
      'quantum': {'n': ('qubit', 'qubit'), 's': ('bit',), 'p': ()}}


def functor(p, e, st, F, cat, wrong=(), ob=None):
    """Functor into `cat` with the maps as opaque host functions."""
    ob = ob or OB[cat]

    def obmap(e, st, args, kw, node):
        nm = e.res(e.getattr(args[-1], 'name', st), st)
        if not isinstance(nm, K) or nm.v not in ob:
            raise Unsupported(f'object map on {show(nm)}')
        return ty(p, e, st, cat, *ob[nm.v])

    def armap(e, st, args, kw, node):
        fun, box = args[-2], args[-1]
        nm = e.res(e.getattr(box, 'name', st), st)
        if not isinstance(nm, K):
            raise Unsupported('arrow map on unknown name')
        d, c = (e.call(fun, [e.getattr(box, a, st)], {}, st, None) for a in ('dom', 'cod'))
        if nm.v in wrong:
            extra = ty(p, e, st, cat, *ob['s'])
            kind = nm.v[3:4]
            if kind == 'd':             # domain too long
                d = e.binop('MatMult', d, extra, st, None)
            elif kind == 's':           # domain and codomain exchanged
                d, c = c, d
            elif kind == 'm':           # a wire moved from the codomain to the domain
                d = e.binop('MatMult', extra, d, st, None)
                c = ty(p, e, st, cat, *ob['n'])
            elif kind == 'e':           # everything missing
                d, c = ty(p, e, st, cat), ty(p, e, st, cat)
            else:                       # codomain too long
                c = e.binop('MatMult', c, extra, st, None)
        bx = e.instantiate(C(p, cat, 'Box'), [K('F' + nm.v), d, c], {}, st, None)
        if nm.v.endswith('2'):      # an image that is a diagram
            return e.call(e.getattr(bx, 'to_diagram', st), [], {}, st, None)
        return bx
    e.intrinsics['host:ob'] = obmap
    e.intrinsics['host:ar'] = armap
    return e.instantiate(ClsV(F), [e.getattr(C(p, cat, 'Box'), 'category', st), ExtV('host:ob'), ExtV('host:ar')], {}, st, None)


def arrows(p, e, st):
    """(label, class name, make)"""
    g = lambda n: ClsV(p.cls('backend.grammar.' + n))
    T = lambda *n, z=0: ty(p, e, st, 'grammar', *n, z=z)
    new = lambda n, *a, **k: e.instantiate(g(n), list(a), dict(k), st, None)
    box = lambda n='f': new('Box', K(n), T('n', 's'), T('s'))
    m = lambda x, n, *a: meth(e, x, n, list(a), {}, st)
    n, s = T('n'), T('s')
    yield 'Box', lambda: box()
    yield 'Box with a diagram as image', lambda: box('f2')
    yield 'Box with empty image types', lambda: new('Box', K('h'), T('p'), T('n'))
    yield 'rotated Box', lambda: m(box(), 'rotate', I(1))
    yield 'Box rotated to the left twice', lambda: m(box(), 'rotate', I(-2))
    yield 'Daggered', lambda: m(box(), 'dagger')
    yield 'rotated Daggered', lambda: m(m(box(), 'dagger'), 'rotate', I(-1))
    yield 'Word', lambda: new('Word', K('w'), T('n', 's'))
    yield 'rotated Word', lambda: m(new('Word', K('w'), T('n', 's')), 'rotate', I(1))
    yield 'Cup', lambda: new('Cup', n, T('n', z=1))
    yield 'Cup (left)', lambda: new('Cup', T('n', z=-1), n)
    yield 'Cap', lambda: new('Cap', T('n', z=1), n)
    yield 'Cap (left)', lambda: new('Cap', n, T('n', z=-1))
    yield 'reversed Cap', lambda: m(new('Cup', n, T('n', z=1)), 'dagger')
    yield 'Swap', lambda: new('Swap', n, s)
    yield 'Spider', lambda: new('Spider', n, I(1), I(2))
    yield 'Spider of three legs in', lambda: new('Spider', s, I(3), I(0))
    D = ClsV(p.categories['grammar']['Diagram'])
    idn = lambda *t: e.call(e.getattr(D, 'id', st), [T(*t)], {}, st, None)
    yield 'identity', lambda: idn('n', 's')
    yield 'empty identity', lambda: idn()

    def diagram():
        w = m(new('Word', K('a'), T('n')), '__matmul__', new('Word', K('b'), e.binop('MatMult', T('n', z=1), T('s'), st, None)))
        c = m(new('Cup', n, T('n', z=1)), '__matmul__', s)
        return m(w, '__rshift__', c)
    yield 'Diagram', diagram
    yield 'Diagram of boxes', lambda: m(m(idn('s'), '__matmul__', new('Box', K('g2'), n, s)), '__rshift__', new('Box', K('k'), T('s', 's'), n))


LABELS = None


def apply(e, F, x, st):
    return e.call(F, [x], {}, st, None)


def bound(e, x, st):
    return [e.getattr(x, a, st) for a in ('dom', 'cod')]


def reachable(e, v, st, seen=None):
    """Addresses of mutable objects (lists, dicts, instances) below v."""
    seen = set() if seen is None else seen
    v = e.res(v, st)
    if isinstance(v, Ref):
        if v in seen:
            return seen
        o = e.obj(st, v)
        if isinstance(o, InstO) and o.cls.name == 'Category':
            return seen
        seen.add(v)
        kids = o.fields.values() if isinstance(o, InstO) else o.items if isinstance(o, ListO) else o.d.values()
        for x in kids:
            if not isinstance(x, Spread):
                reachable(e, x, st, seen)
    elif isinstance(v, Tup):
        for x in v.items:
            if not isinstance(x, Spread):
                reachable(e, x, st, seen)
    return seen


def eng(b, cat):
    return b.engine('grammar', tyv=False, dg=False)


def calls(p, b, F, cat, tier):
    fn = F.find_method('__call__')
    e0, st0 = eng(b, cat), Store()
    labels = [l for l, _ in arrows(p, e0, st0)]
    for i, lab in enumerate(labels):
        if cat == 'quantum' and lab.startswith('Spider'):
            continue                # documented: no spiders on several qubits

        def setup(e, st, i=i):
            fun = functor(p, e, st, F, cat)
            mk = list(arrows(p, e, st))[i][1]
            x, x2 = mk(), mk()
            rs = [apply(e, fun, x, st), apply(e, fun, x, st), apply(e, fun, x2, st)]
            d, c = (apply(e, fun, t, st) for t in bound(e, x, st))
            return Tup([Tup(rs), d, c, x, x2, fun])

        def chk_b(e, v, st, path):
            rs, d, c = v.items[:3]
            for k, r in enumerate(rs.items):
                rd, rc = bound(e, r, st)
                for a, got, want in (('dom', rd, d), ('cod', rc, c)):
                    ok, w = same(e, got, want, st, a)
                    if ok is not True:
                        return ok, f'application {k + 1}: {w}'
            return True, ''

        def chk_a(e, v, st, path):
            rs, _, _, x, x2, _ = v.items
            for k in (1, 2):
                ok, w = same(e, rs.items[k], rs.items[0], st, f'application {k + 1}')
                if ok is not True:
                    return ok, w
            return same(e, x, x2, st, 'argument')

        def chk_u(e, v, st, path, pairs):
            rs = v.items[0].items
            # a target object that the maps keep for themselves is not ours
            for i, j in pairs:
                both = reachable(e, rs[i], st) & reachable(e, rs[j], st)
                mut = [r for r in both if e.is_mutable(e.obj(st, r))]
                if mut:
                    o = e.obj(st, mut[0])
                    return False, f'applications {i + 1} and {j + 1} share a {o.cls.name if isinstance(o, InstO) else o.kind if isinstance(o, ListO) else "dict"}'
            return True, ''
        rule_checks = [('boundary', lab, chk_b), ('agree', lab, chk_a),
                       ('unshared', f'{lab}, later applications', lambda e, v, st, path: chk_u(e, v, st, path, ((1, 2),))),
                       ('unshared', f'{lab}, first application',
                        lambda e, v, st, path: chk_u(e, v, st, path, ((0, 1), (0, 2))))]
        done = []

        def once(e, st):
            if not done:
                done.append((setup(e, st), st.fork()))
            v, s = done[0]
            st.become(s.fork())
            return v
        e = eng(b, cat)
        for rule, key, chk in rule_checks:
            b.run(rule, f'{cat}: {key}', fn.where, e, once, chk)


def stored(p, b, F):
    fn = F.find_method('__call__')
    for lab, n in (('type, first result', 1), ('type, later results', 2), ('arrow, first result', 1),
                   ('arrow, later results', 2)):
        def go(e, st, lab=lab, n=n):
            fun = functor(p, e, st, F, 'grammar')
            T = lambda *n: ty(p, e, st, 'grammar', *n)
            x = T('n', 's') if lab.startswith('type') else e.instantiate(
                ClsV(p.cls('backend.grammar.Box')), [K('f'), T('n'), T('s')], {}, st, None)
            rs = [apply(e, fun, x, st) for _ in range(n)]
            return Tup([rs[-1], fun])

        def chk(e, v, st, path):
            both = reachable(e, v.items[0], st) & reachable(e, v.items[1], st)
            mut = [r for r in both if e.is_mutable(e.obj(st, r))]
            return not mut, 'the functor keeps the object it returned' if mut else ''
        b.run('stored', lab, fn.where, eng(b, 'grammar'), go, chk)


def structure(p, b, F, tier):
    fn = F.find_method('__call__')
    zs = (-2, -1, 1, 2) if tier == 'quick' else (-4, -3, -2, -1, 1, 2, 3, 4)
    for cat in ('grammar', 'tensor', 'quantum'):
        G = lambda n: ClsV(p.cls('backend.grammar.' + n))

        def setting(e, st, cat=cat):
            fun = functor(p, e, st, F, cat)
            T = lambda *n, z=0: ty(p, e, st, 'grammar', *n, z=z)
            new = lambda c, *a: e.instantiate(G(c), list(a), {}, st, None)
            f = lambda x: apply(e, fun, x, st)
            m = lambda x, n, *a: meth(e, x, n, list(a), {}, st)
            dg = lambda x: m(x, 'to_diagram')
            return T, new, f, m, dg

        def tgt(e, st, name, cat=cat):
            D = ClsV(p.categories[cat]['Diagram'])
            return lambda *a: e.call(e.getattr(D, name, st), list(a), {}, st, None)
        cases = {}
        for z in zs:
            cases[f'rotation of a type by {z}'] = lambda e, st, T, new, f, m, dg, z=z: (
                f(m(T('n', 's'), 'rotate', I(z))), m(f(T('n', 's')), 'rotate', I(z)))
            cases[f'rotation of a box by {z}'] = lambda e, st, T, new, f, m, dg, z=z: (
                f(m(new('Box', K('f'), T('n'), T('s', 'n')), 'rotate', I(z))),
                m(f(new('Box', K('f'), T('n'), T('s', 'n'))), 'rotate', I(z)))
            cases[f'rotation of a daggered box by {z}'] = lambda e, st, T, new, f, m, dg, z=z: (
                f(m(m(new('Box', K('f'), T('n'), T('s', 'n')), 'dagger'), 'rotate', I(z))),
                m(m(f(new('Box', K('f'), T('n'), T('s', 'n'))), 'dagger'), 'rotate', I(z)))
        cases['dagger of a box'] = lambda e, st, T, new, f, m, dg: (
            f(m(new('Box', K('f'), T('n'), T('s')), 'dagger')), m(f(new('Box', K('f'), T('n'), T('s'))), 'dagger'))
        cases['dagger of a rotated box'] = lambda e, st, T, new, f, m, dg: (
            f(m(m(new('Box', K('f'), T('n'), T('s')), 'rotate', I(1)), 'dagger')),
            m(m(f(new('Box', K('f'), T('n'), T('s'))), 'rotate', I(1)), 'dagger'))
        cases['tensor of types'] = lambda e, st, T, new, f, m, dg: (
            f(T('n', 's')), e.binop('MatMult', f(T('n')), f(T('s')), st, None))
        cases['tensor of types with adjoints'] = lambda e, st, T, new, f, m, dg: (
            f(e.binop('MatMult', T('n', z=1), T('s', z=-1), st, None)),
            e.binop('MatMult', m(f(T('n')), 'rotate', I(1)), m(f(T('s')), 'rotate', I(-1)), st, None))
        cases['empty type'] = lambda e, st, T, new, f, m, dg: (f(T()), ty(p, e, st, cat))
        cases['type with empty image'] = lambda e, st, T, new, f, m, dg: (
            f(T('n', 'p', 's')), f(T('n', 's')))
        cases['composition of boxes'] = lambda e, st, T, new, f, m, dg: (
            f(m(new('Box', K('f'), T('n'), T('s')), '__rshift__', new('Box', K('g'), T('s'), T('n', 'n')))),
            m(dg(f(new('Box', K('f'), T('n'), T('s')))), '__rshift__', dg(f(new('Box', K('g'), T('s'), T('n', 'n'))))))
        cases['tensor of boxes'] = lambda e, st, T, new, f, m, dg: (
            f(m(new('Box', K('f'), T('n'), T('s')), '__matmul__', new('Box', K('g'), T('s'), T('n', 'n')))),
            m(dg(f(new('Box', K('f'), T('n'), T('s')))), '__matmul__', dg(f(new('Box', K('g'), T('s'), T('n', 'n'))))))
        cases['box between identities'] = lambda e, st, T, new, f, m, dg: (
            f(m(m(e.call(e.getattr(G('Diagram'), 'id', st), [T('s')], {}, st, None), '__matmul__',
                  new('Box', K('f2'), T('n'), T('s'))), '__matmul__', T('n', 'p'))),
            m(m(tgt(e, st, 'id')(f(T('s'))), '__matmul__', f(new('Box', K('f2'), T('n'), T('s')))), '__matmul__', f(T('n'))))
        cases['identity'] = lambda e, st, T, new, f, m, dg: (
            f(e.call(e.getattr(G('Diagram'), 'id', st), [T('n', 's')], {}, st, None)), tgt(e, st, 'id')(f(T('n', 's'))))
        for nm, z1, z2, rev in (('Cup', 0, 1, 0), ('Cup', -1, 0, 0), ('Cup', 2, 3, 0), ('Cap', 1, 0, 0), ('Cap', 0, -1, 0),
                                ('Cup', 1, 0, 1), ('Cap', 0, 1, 1)):
            cases[f'{nm} on n.{z1} and n.{z2}'] = lambda e, st, T, new, f, m, dg, nm=nm, z1=z1, z2=z2, rev=rev: (
                f(new(nm, T('n', z=z1), T('n', z=z2), *([K(True)] if rev else []))),
                tgt(e, st, nm.lower() + 's')(f(T('n', z=z1)), f(T('n', z=z2)), *([K(True)] if rev else [])))
        cases['Swap'] = lambda e, st, T, new, f, m, dg: (
            f(new('Swap', T('n'), T('s'))), tgt(e, st, 'swap')(f(T('n')), f(T('s'))))
        if cat != 'quantum':
            for i, o in ((1, 2), (2, 0), (0, 3), (2, 2)):
                cases[f'Spider with {i} and {o} legs'] = lambda e, st, T, new, f, m, dg, i=i, o=o: (
                    f(new('Spider', T('n'), I(i), I(o))), e.call(e.getitem(e.getattr(ClsV(p.categories[cat]['Diagram']), 'special_boxes', st), K('spider'), st, None),
                           [f(T('n')), I(i), I(o)], {}, st, None))
        for lab, mk in cases.items():
            e = eng(b, cat)

            def go(e, st, mk=mk, setting=setting):
                x, y = mk(e, st, *setting(e, st))
                return Tup([x, y])

            def chk(e, v, st, path):
                x, y = v.items
                dgm = lambda t: isinstance(t, Ref) and isinstance(e.obj(st, t), InstO) and e.obj(st, t).cls.is_sub(e.DiagC)
                if dgm(x) != dgm(y):
                    x, y = (meth(e, t, 'to_diagram', [], {}, st) for t in (x, y))
                return same(e, x, y, st)
            b.run('structure', f'{cat}: {lab}', fn.where, e, go, chk)


def bad(p, b, F, tier):
    fn = F.find_method('ar_with_cache') or F.find_method('__call__')
    for cat in ('grammar', 'tensor', 'quantum'):
        for lab in ('box', 'box (domain)', 'box (exchanged)', 'box (moved wire)', 'box (empty)',
                    'box with a diagram as image', 'rotated box', 'daggered box', 'diagram around the box'):
            for after in (1, 2, 3):
                e = eng(b, cat)

                def go(e, st, lab=lab, after=after):
                    fun = functor(p, e, st, F, cat, wrong=('bad', 'bad2', 'badd', 'bads', 'badm', 'bade'))
                    T = lambda *n: ty(p, e, st, 'grammar', *n)
                    nm = 'bad2' if 'image' in lab else 'bad' + (lab[5] if lab.startswith('box (') else '')
                    nm = {'badd': 'badd', 'bade': 'bads' if 'exch' in lab else 'bade'}.get(nm, nm)
                    mk = lambda: e.instantiate(ClsV(p.cls('backend.grammar.Box')), [K(nm), T('n'), T('n', 's')], {}, st, None)
                    x = mk()
                    if lab == 'rotated box':
                        x = meth(e, x, 'rotate', [I(1)], {}, st)
                    elif lab == 'daggered box':
                        x = meth(e, x, 'dagger', [], {}, st)
                    elif lab.startswith('diagram'):
                        x = meth(e, x, '__matmul__', [T('s')], {}, st)
                    for k in range(after):
                        ok, r = attempt(e, st, lambda: apply(e, fun, x, st))
                        if not ok:
                            continue
                        d, c = (apply(e, fun, t, st) for t in bound(e, x, st))
                        return Tup([r, d, c, I(k + 1)])
                    return K('raises')

                def chk(e, v, st, path):
                    if v == K('raises'):
                        return True, 'raises'
                    r, d, c, k = v.items
                    rd, rc = bound(e, r, st)
                    for got, want in ((rd, d), (rc, c)):
                        ok, w = same(e, got, want, st)
                        if ok is not True:
                            return ok, f'application {show(k)} returns an arrow with another boundary: {w}'
                    return True, ''
                b.run('reject', f'{cat}: {lab}, application {after}', fn.where, e, go, chk)


def two(p, b, F):
    fn = F.find_method('__call__')
    for lab in ('type', 'box'):
        e = eng(b, 'grammar')

        def go(e, st, lab=lab):
            def x():
                if lab == 'type':
                    return ty(p, e, st, 'grammar', 'n')
                T = lambda *n: ty(p, e, st, 'grammar', *n)
                return e.instantiate(ClsV(p.cls('backend.grammar.Box')), [K('f'), T('n'), T('s')], {}, st, None)
            f1 = functor(p, e, st, F, 'grammar')
            apply(e, f1, x(), st)
            f2 = functor(p, e, st, F, 'grammar', ob={'n': ('k',), 's': ('l', 'm')})
            r = apply(e, f2, x(), st)
            f3 = functor(p, e, st, F, 'grammar', ob={'n': ('k',), 's': ('l', 'm')})
            return Tup([r, ty(p, e, st, 'grammar', 'k')])

        def chk(e, v, st, path):
            r, w = v.items
            return same(e, r if lab == 'type' else e.getattr(r, 'dom', st), w, st)
        b.run('separate', lab, fn.where, e, go, chk)
