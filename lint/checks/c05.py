"""C05: dagger and rotation are invertible and lose nothing."""
from ..absint import Raised, Unsupported
from ..harness import *
from ..instances import recipes, same, class_of_ref

TITLE = 'Dagger and rotation of every box class are invertible and keep every attribute'


def run(p, ck, tier):
    b = Bench(p, ck)
    ck.rule('dagger', 'Evaluating x.dagger().dagger() on a generic instance of the class gives back an object of '
            'the same class with the same value in every field.')
    ck.rule('rotate', 'x.rotate(z).rotate(-z) gives back every field; x.rotate(1).rotate(1) agrees with '
            'x.rotate(2); x.rotate(0) changes nothing.')
    ck.rule('boundary', 'x.dagger() has the codomain of x as domain and vice versa; x.rotate(z) has the rotated '
            'domain and codomain.')
    ck.rule('keep', 'rotate(z) and dagger() keep the attributes that do not depend on orientation (name of the '
            'rotated box, leg counts, mixedness, number of components, size of the control distance).')
    for cat in ('grammar', 'tensor', 'quantum'):
        if cat not in p.categories:
            continue
        for r in recipes(p, cat, tier):
            one(b, cat, r, tier)
    containers(p, b, tier)
    ck.floor('dagger', 12)
    ck.floor('rotate', 40)
    ck.floor('boundary', 30)


def one(b, cat, r, tier):
    key = f'{cat}.{r.key}'
    where = r.cls.where
    fdag, frot = r.cls.find_method('dagger'), r.cls.find_method('rotate')
    wd = fdag.where if fdag else where
    wr = frot.where if frot else where

    def compare(rule, label, where, f):
        e = b.engine(cat)

        def go(e, st):
            x = r.fn(e, st)
            y, w = f(e, st, x)
            return Tup([y, w])

        def chk(e, v, st, path):
            y, x = v.items
            return same(e, y, x, st)
        b.run(rule, f'{key}: {label}', where, e, go, chk)
    dag = lambda e, st, x: meth(e, x, 'dagger', [], {}, st)
    rot = lambda e, st, x, z: meth(e, x, 'rotate', [I(z)], {}, st)
    compare('dagger', 'dagger twice', wd, lambda e, st, x: (dag(e, st, dag(e, st, x)), x))
    for z in (1, -1, 2, 3) if tier == 'quick' else (1, -1, 2, -2, 3, -3, 4):
        compare('rotate', f'rotate({z}).rotate({-z})', wr, lambda e, st, x, z=z: (rot(e, st, rot(e, st, x, z), -z), x))
    compare('rotate', 'rotate(0)', wr, lambda e, st, x: (rot(e, st, x, 0), x))
    compare('rotate', 'rotate(1) twice = rotate(2)', wr,
            lambda e, st, x: (rot(e, st, rot(e, st, x, 1), 1), rot(e, st, x, 2)))
    for z, w in ((1, 2), (2, 1), (-1, -2), (1, 4)):
        compare('rotate', f'rotate({z}).rotate({w}) = rotate({z + w})', wr,
                lambda e, st, x, z=z, w=w: (rot(e, st, rot(e, st, x, z), w), rot(e, st, x, z + w)))
    compare('rotate', '.l.r', wr, lambda e, st, x: (e.getattr(e.getattr(x, 'l', st), 'r', st), x))
    compare('rotate', '.l = rotate(-1)', wr, lambda e, st, x: (e.getattr(x, 'l', st), rot(e, st, x, -1)))

    def bounds(label, where, f, want):
        e = b.engine(cat)

        def go(e, st):
            x = r.fn(e, st)
            d, c = (e.res(e.getattr(x, n, st), st) for n in ('dom', 'cod'))
            if not (isinstance(d, TyV) and isinstance(c, TyV)):
                raise Unsupported(f'boundary of the instance is {show(d)} -> {show(c)}')
            y = f(e, st, x)
            return Tup([e.getattr(y, 'dom', st), e.getattr(y, 'cod', st), *want(d, c)])

        def chk(e, v, st, path):
            yd, yc, wd, wc = (e.res(x, st) for x in v.items)
            if not all(isinstance(x, TyV) for x in (yd, yc, wd, wc)):
                return None, show(v)
            if (yd, yc) == (wd, wc):
                return True, f'{show(yd)} -> {show(yc)}'
            if any(has_opaque_ty(x) for x in (yd, yc, wd, wc)):
                return None, show(v)
            return False, f'gives {show(yd)} -> {show(yc)}, expected {show(wd)} -> {show(wc)}'
        b.run('boundary', f'{key}: {label}', where, e, go, chk)
    bounds('dagger', wd, dag, lambda d, c: (c, d))
    for z in (1, -1, 2, 3):
        bounds(f'rotate({z})', wr, lambda e, st, x, z=z: rot(e, st, x, z),
               lambda d, c, z=z: (d.rotate(I(z)), c.rotate(I(z))))
    # attributes that orientation does not touch
    for lab, f, where2 in (('dagger', dag, wd), ('rotate(1)', lambda e, st, x: rot(e, st, x, 1), wr),
                           ('rotate(2)', lambda e, st, x: rot(e, st, x, 2), wr)):
        def chk(e, v, st, path):
            y, x = v.items
            bad, unk, n = [], [], 0
            for a in ('is_mixed', 'bit'):
                try:
                    vx = e.res(e.getattr(x, a, st), st)
                except Exception:
                    continue
                if not isinstance(vx, (K, Lin)):
                    continue
                try:
                    vy = e.res(e.getattr(y, a, st), st)
                except Raised:
                    bad.append(f'{a} is lost')
                    continue
                n += 1
                if vy != vx:
                    if isinstance(vy, (K, Lin)):
                        bad.append(f'{a}: {show(vx)} became {show(vy)}')
                    elif class_of_ref(e, y, st) is class_of_ref(e, x, st):
                        unk.append(f'{a}: {show(vx)} became {show(vy)}')
            d1, d2 = dist(e, x, st), dist(e, y, st)
            if d1 is not None and d2 is not None:
                n += 1
                if d1 != d2:
                    bad.append(f'control distances {d1} became {d2}')
            cx, cy = ncomp(e, x, st), ncomp(e, y, st)
            if cx is not None and cx != cy:
                bad.append(f'{cx} components became {cy}')
            if bad:
                return False, '; '.join(bad)
            return (None, unk[0]) if unk else (True, f'{n} attributes')
        e = b.engine(cat)
        b.run('keep', f'{key}: {lab}', where2, e,
              lambda e, st, f=f: (lambda x: Tup([f(e, st, x), x]))(r.fn(e, st)), chk)


def dist(e, x, st):
    out = []
    for _ in range(4):
        try:
            d = e.res(e.getattr(x, 'distance', st), st)
            x = e.getattr(x, 'controlled', st)
        except Exception:
            break
        if not isinstance(d, Lin) or d.const is None:
            return None
        out.append(abs(d.const))
    return out or None


def ncomp(e, x, st):
    c = class_of_ref(e, x, st)
    if c is None or not any(k.name == 'Frame' for k in c.mro()):
        return None
    try:
        return len(e.items(e.getattr(x, 'components', st), st))
    except Exception:
        return None


def containers(p, b, tier):
    """Layers and diagrams made of two concrete layers."""
    LC = p.categories['grammar']['Layer']
    BC = p.categories['grammar']['Box']
    DC = p.categories['grammar']['Diagram']

    def box(e, st, n, d, c):
        return e.instantiate(ClsV(BC), [Sym(n, ('str',)), d, c], {}, st, None)

    def layer(e, st):
        return e.instantiate(ClsV(LC), [], {'left': e.ty_gen('L'), 'right': e.ty_gen('R'),
                                           'box': box(e, st, 'f', e.ty_gen('D'), e.ty_gen('C'))}, st, None)

    def diagram(e, st):
        f = box(e, st, 'f', e.ty_gen('D'), e.ty_gen('C') @ e.ty_gen('E'))
        g = box(e, st, 'g', e.ty_gen('E') @ e.ty_gen('R'), e.ty_gen('F'))
        h = box(e, st, 'h', e.ty_gen('L') @ e.ty_gen('C'), e.ty_gen('H'))
        mk = lambda l, x, r: e.instantiate(ClsV(LC), [], {'left': l, 'box': x, 'right': r}, st, None)
        T = e.ty_gen
        ls = [mk(T('L'), f, T('R')), mk(T('L') @ T('C'), g, TyV()), mk(TyV(), h, T('F'))]
        return e.instantiate(ClsV(DC), [], {'dom': T('L') @ T('D') @ T('R'), 'cod': T('H') @ T('F'),
                                           'layers': e.new(st, ListO(ls))}, st, None)
    for nm, cls, mk in (('Layer', LC, layer), ('Diagram', DC, diagram)):
        def compare(rule, label, f):
            m = cls.find_method('rotate' if rule == 'rotate' else 'dagger')
            e = b.engine('grammar', dg=nm != 'Diagram')
            b.run(rule, f'grammar.{nm}: {label}', m.where if m else cls.where, e,
                  lambda e, st: (lambda x: Tup(f(e, st, x)))(mk(e, st)),
                  lambda e, v, st, path: same(e, v.items[0], v.items[1], st))
        dag = lambda e, st, x: meth(e, x, 'dagger', [], {}, st)
        rot = lambda e, st, x, z: meth(e, x, 'rotate', [I(z)], {}, st)
        compare('dagger', 'dagger twice', lambda e, st, x: (dag(e, st, dag(e, st, x)), x))
        for z in (1, -1, 2, -2, 3, -3):
            compare('rotate', f'rotate({z}).rotate({-z})', lambda e, st, x, z=z: (rot(e, st, rot(e, st, x, z), -z), x))
        compare('rotate', 'rotate(0)', lambda e, st, x: (rot(e, st, x, 0), x))
        for z, w in ((1, 2), (2, 1), (-1, -2), (2, 3), (-2, -3), (3, 3), (4, -1)):
            compare('rotate', f'rotate({z}).rotate({w}) = rotate({z + w})',
                    lambda e, st, x, z=z, w=w: (rot(e, st, rot(e, st, x, z), w), rot(e, st, x, z + w)))
        for z in (1, -1, 2, 3, -3, 4):
            def bnd(e, st, x, z=z):
                y = rot(e, st, x, z)
                one = lambda a: Tup([e.getattr(a, 'dom', st), e.getattr(a, 'cod', st)])
                return one(y), Tup([e.res(t, st).rotate(I(z)) for t in one(x).items])
            compare('rotate', f'boundary of rotate({z})', bnd)
        compare('rotate', 'rotate(1) twice', lambda e, st, x: (rot(e, st, rot(e, st, x, 1), 1), rot(e, st, x, 2)))
