"""Generic instances of every box class, built through the constructors.

An instance is made with unknown names, data and boundary types (one
generator per argument), so what is shown for it is shown for every object
the constructor can build with those discrete choices (adjoint order,
mixedness, control distance ...), which are enumerated.
"""
from __future__ import annotations
from .values import *
from .absint import Raised, Unsupported

STR = ('str',)


class Recipe:
    def __init__(self, cls, label, fn):
        self.cls, self.label, self.fn = cls, label, fn

    @property
    def key(self):
        return f'{self.cls.name}{self.label}'


def T(e, st, name, atomic=False):
    """A generic type: a generator of unknown length, or, when the engine
    works on the heap representation, one or two wires of unknown names."""
    if e.tyv:
        return e.ty_gen(name, atomic=True) if atomic else e.ty_gen(name)
    c = e.p.categories[e.cat]['Ty']
    at = lambda n, z: e.instantiate(ClsV(c), [], {'name': Sym(n, STR), 'z': I(z)}, st, None)
    if atomic:
        return at(name, 0)
    return e.instantiate(ClsV(c), [], {'objects': e.new(st, ListO([at(name + '0', 0), at(name + '1', -1)]))}, st, None)


def rotated(e, st, t, z):
    if isinstance(t, TyV):
        return t.rotate(I(z))
    return e.call(e.getattr(t, 'rotate', st, None), [I(z)], {}, st, None)


def recipes(p, cat, tier='quick', small=False):
    """(class, label, constructor) for one category."""
    mods = {'grammar': 'backend.grammar', 'tensor': 'backend.tensor', 'quantum': 'backend.quantum'}
    m = mods[cat]
    out = []

    def C(n):
        try:
            return p.cls(f'{m}.{n}')
        except Exception:
            return None

    def add(n, label, args, kw=None):
        c = C(n) if isinstance(n, str) else n
        if c is None:
            return
        a = args if callable(args) else (lambda e, st: list(args))
        k = kw if callable(kw) else (lambda e, st: dict(kw or {}))
        out.append(Recipe(c, label, lambda e, st: e.instantiate(ClsV(c), a(e, st), k(e, st), st, None)))
        return out[-1].fn
    zs = (0, 1) if (small or cat != 'grammar') else (0, 1, -1, 2) if tier == 'quick' else (0, 1, -1, 2, -2, 3, -3)
    nm = lambda n='name': Sym(n, STR)

    if cat == 'grammar':
        for z in zs:
            add('Box', f' z={z}', lambda e, st: [nm(), T(e, st, 'D'), T(e, st, 'C'), I(z)]
                if False else [nm(), T(e, st, 'D'), T(e, st, 'C')], dict(z=I(z)))
            add('Word', f' z={z}', lambda e, st: [nm(), T(e, st, 'C')], dict(z=I(z)))
        for inner, iz in (('Box', 0), ('Box', 1), ('Word', 0), ('Word', -1)):
            def dag(e, st, inner=inner, iz=iz):
                c = C(inner)
                a = [nm(), T(e, st, 'D'), T(e, st, 'C')] if inner == 'Box' else [nm(), T(e, st, 'C')]
                return [e.instantiate(ClsV(c), a, {'z': I(iz)}, st, None)]
            add('Daggered', f'({inner} z={iz})', dag)
        for kind, s in (("Cap", -1), ("Cup", 1)):
            for rev in (False, True):
                def args(e, st, s=s, rev=rev):
                    t = T(e, st, 't', True)
                    return [t, rotated(e, st, t, -s if rev else s)]
                add(kind, ' reversed' if rev else '', args, dict(is_reversed=K(rev)))
        add('Swap', '', lambda e, st: [T(e, st, 's', True), T(e, st, 't', True)])
        for i, o in ((2, 1), (0, 3), (1, 1)):
            add('Spider', f' {i}->{o}', lambda e, st, i=i, o=o: [T(e, st, 't', True), I(i), I(o)])

        def comps(e, st, n):
            B = C('Box')
            its = [e.instantiate(ClsV(B), [nm(f'b{i}'), T(e, st, f'D{i}'), T(e, st, f'C{i}')], {}, st, None)
                   for i in range(n)]
            return e.new(st, ListO(its))
        for n in (0, 1, 2, 3):
            for z in ((0, 1) if n == 2 else (0,)):
                add('Frame', f' with {n} components z={z}',
                    lambda e, st: [nm(), T(e, st, 'D'), T(e, st, 'C')],
                    lambda e, st, n=n, z=z: dict(components=comps(e, st, n), z=I(z)))

        def nested(e, st):
            inner = e.instantiate(ClsV(C('Frame')), [nm('inner'), T(e, st, 'DI'), T(e, st, 'CI')],
                                  {'components': comps(e, st, 2)}, st, None)
            w = e.instantiate(ClsV(C('Word')), [nm('w'), T(e, st, 'W')], {}, st, None)
            return dict(components=e.new(st, ListO([inner, w])))
        add('Frame', ' nested', lambda e, st: [nm(), T(e, st, 'D'), T(e, st, 'C')], nested)

        def df(e, st):
            return [e.instantiate(ClsV(C('Frame')), [nm(), T(e, st, 'D'), T(e, st, 'C')],
                                  {'components': comps(e, st, 2)}, st, None)]
        if C('DaggeredFrame') is not None:
            add('DaggeredFrame', '', df)
    elif cat == 'tensor':
        for z in zs:
            add('Box', f' z={z}', lambda e, st: [nm(), T(e, st, 'D'), T(e, st, 'C')], dict(data=Sym('data', ('real',)), z=I(z)))
            add('Daggered', f'(Box z={z})', lambda e, st, z=z: [e.instantiate(
                ClsV(C('Box')), [nm(), T(e, st, 'D'), T(e, st, 'C')], dict(data=Sym('data', ('real',)), z=I(z)), st, None)])
        for kind in ('Cap', 'Cup'):
            add(kind, '', lambda e, st: [T(e, st, 't', True)] * 2)
        add('Swap', '', lambda e, st: [T(e, st, 's', True), T(e, st, 't', True)])
        for i, o in ((2, 1), (0, 3), (1, 1)):
            add('Spider', f' {i}->{o}', lambda e, st, i=i, o=o: [T(e, st, 't', True), I(i), I(o)])
    else:
        mod = p.categories['quantum']['Diagram'].module
        q = lambda e, st: e.module_value('qubit', mod, st)

        def qbox(e, st, mixed=False, sa=False, z=0):
            return e.instantiate(ClsV(C('Box')), [nm(), T(e, st, 'D'), T(e, st, 'C')],
                                 dict(data=Sym('data', ('real',)), z=I(z), is_mixed=K(mixed), self_adjoint=K(sa)), st, None)
        for z in zs:
            for mixed in (False, True):
                for sa in (False, True):
                    lab = f' z={z}' + (' mixed' if mixed else '') + (' self-adjoint' if sa else '')
                    if sa:
                        add('Box', lab, lambda e, st: [nm(), T(e, st, 'D'), T(e, st, 'D')],
                            dict(data=Sym('data', ('real',)), z=I(z), is_mixed=K(mixed), self_adjoint=K(sa)))
                    else:
                        add('Box', lab, lambda e, st: [nm(), T(e, st, 'D'), T(e, st, 'C')],
                            dict(data=Sym('data', ('real',)), z=I(z), is_mixed=K(mixed), self_adjoint=K(sa)))
                        add('Daggered', f'(Box{lab})', lambda e, st, m=mixed, z=z: [qbox(e, st, m, False, z)])
        for n in ('Ket', 'Bra', 'Bit'):
            for b in (0, 1):
                add(n, f'({b})', lambda e, st, b=b: [I(b)])
        for n in ('Rx', 'Ry', 'Rz', 'Scalar', 'Sqrt'):
            add(n, '', lambda e, st: [Sym('phase', ('real',))])
        for n in ('MixedState', 'Discard', 'Measure', 'Encode'):
            add(n, '', [])
        add('Swap', '', lambda e, st: [q(e, st), q(e, st)])
        Cn = C('Controlled')
        if Cn is not None:
            inner = {'X': lambda e, st: e.module_value('X', mod, st),
                     'S': lambda e, st: e.module_value('S', mod, st),
                     'Y': lambda e, st: e.module_value('Y', mod, st),
                     'CX': lambda e, st: e.instantiate(ClsV(Cn), [e.module_value('X', mod, st)], {'distance': I(-2)}, st, None)}
            for r in ('Rx', 'Ry', 'Rz'):
                inner[r] = lambda e, st, r=r: e.instantiate(ClsV(C(r)), [Sym('phase', ('real',))], {}, st, None)
            inner['CRz'] = lambda e, st: e.instantiate(ClsV(Cn), [inner['Rz'](e, st)], {'distance': I(-2)}, st, None)
            for d in (1, -1, 2, -3):
                for n, f in inner.items():
                    add('Controlled', f'({n}, {d})', lambda e, st, f=f, d=d: [f(e, st), I(d)])
        for n in ('H', 'S', 'T', 'X', 'Y', 'Z', 'SWAP'):
            try:
                r = Recipe(C('Box'), f':{n}', lambda e, st, n=n: e.module_value(n, mod, st))
            except Exception:
                continue
            out.append(r)
    return out


def class_of_ref(e, v, st):
    v = e.res(v, st)
    o = e.obj(st, v) if isinstance(v, Ref) else None
    return o.cls if isinstance(o, InstO) else None


IGNORE = {'<open>'}


def negation(v):
    """v is -x or conj(x) of a plain input x: gives x."""
    if isinstance(v, App) and v.op in ('neg', 'conj') and len(v.args) == 1:
        return v.args[0]
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == -1:
        return v.t[0][0]
    return None


def same(e, a, b, st, path='', attrs=None, depth=0):
    """(True / False / None, where they differ)."""
    a, b = e.res(a, st), e.res(b, st)
    if a == b:
        return True, ''
    if depth > 12:
        return None, path
    oa = e.obj(st, a) if isinstance(a, Ref) else None
    ob = e.obj(st, b) if isinstance(b, Ref) else None
    if oa is not None and ob is not None:
        if isinstance(oa, InstO) and isinstance(ob, InstO):
            if oa.cls is not ob.cls:
                return False, f'{path or "result"} is a {oa.cls.name}, was a {ob.cls.name}'
            unk = None
            for k in list(dict.fromkeys(list(oa.fields) + list(ob.fields))):
                if k in IGNORE or k.startswith('__'):
                    continue
                x, y = oa.fields.get(k), ob.fields.get(k)
                if x is None or y is None:
                    z = x if x is not None else y
                    try:
                        x = x if x is not None else e.getattr(a, k, st)
                        y = y if y is not None else e.getattr(b, k, st)
                    except Raised:
                        return False, f'{path}.{k} is missing on one side'
                    except Unsupported:
                        unk = f'{path}.{k}'
                        continue
                ok, w = same(e, x, y, st, f'{path}.{k}', attrs, depth + 1)
                if ok is False:
                    return False, w
                if ok is None:
                    unk = w
            return (True, '') if unk is None else (None, unk)
        if isinstance(oa, ListO) and isinstance(ob, ListO):
            if any(isinstance(x, Spread) for x in oa.items + ob.items):
                return (True, '') if oa.items == ob.items else (None, path)
            if len(oa.items) != len(ob.items):
                return False, f'{path} has {len(oa.items)} items, had {len(ob.items)}'
            unk = None
            for i, (x, y) in enumerate(zip(oa.items, ob.items)):
                ok, w = same(e, x, y, st, f'{path}[{i}]', attrs, depth + 1)
                if ok is False:
                    return False, w
                if ok is None:
                    unk = w
            return (True, '') if unk is None else (None, unk)
        if isinstance(oa, DictO) and isinstance(ob, DictO):
            if oa.rest or ob.rest:
                return None, path
            if set(oa.d) != set(ob.d):
                return False, f'{path}: different keys'
            for k in oa.d:
                ok, w = same(e, oa.d[k], ob.d[k], st, f'{path}[{show(k)}]', attrs, depth + 1)
                if ok is not True:
                    return ok, w
            return True, ''
        return False, f'{path}: different kinds of container'
    if isinstance(a, Tup) and isinstance(b, Tup) and not any(isinstance(x, Spread) for x in a.items + b.items):
        if len(a.items) != len(b.items):
            return False, f'{path} has {len(a.items)} items, had {len(b.items)}'
        unk = None
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            ok, w = same(e, x, y, st, f'{path}[{i}]', attrs, depth + 1)
            if ok is False:
                return False, w
            if ok is None:
                unk = w
        return (True, '') if unk is None else (None, unk)
    if isinstance(a, DgV) and isinstance(b, DgV):
        return None, path
    ra, rb = e.reify(a, st), e.reify(b, st)
    if ra == rb:
        return True, ''
    r = e.eq(a, b, st)
    if r is True:
        return True, ''
    if r is False or definite(ra, rb) or ty_differ(ra, rb, st):
        return False, f'{path or "value"} is {show(ra)}, was {show(rb)}'
    return None, f'{path}: {show(ra)} vs {show(rb)}'


def ty_differ(a, b, st):
    """Different terms over free generators that no branch condition is
    about: they differ for some choice of the types."""
    if not (isinstance(a, TyV) and isinstance(b, TyV)) or has_opaque_ty(a) or has_opaque_ty(b):
        return False
    names = {str(x.name if isinstance(x, Gen) else x) for x in a.f + b.f}
    return not any(n in show(c) for c, _ in st.guards for n in names)


def definite(a, b):
    """One side is a plain unknown input and the other does not mention it,
    or both are different plain inputs: they differ for some input."""
    def inputs(v):
        s = set()

        def walk(x):
            if isinstance(x, Sym):
                s.add(x)
            elif isinstance(x, App):
                for y in x.args:
                    if isinstance(y, V):
                        walk(y)
            elif isinstance(x, Tup):
                for y in x.items:
                    walk(y)
            elif isinstance(x, Lin):
                for y, _ in x.t:
                    walk(y)
        walk(v)
        return s
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sym) and (isinstance(y, (K, Lin, Sym)) or isinstance(y, App) and y.op == 'str+') and x not in inputs(y):
            return True
        if isinstance(x, Sym) and negation(y) == x:
            return True
    return False
