"""C15: equal objects are interchangeable, different objects are told apart."""
import itertools
from ..absint import Raised, Unsupported
from ..harness import *
from ..instances import recipes, same

TITLE = 'Equal objects are interchangeable, different objects are told apart'
STR = ('str',)


class Mk:
    """Concrete objects of one category."""

    def __init__(self, p, cat, e, st):
        self.p, self.cat, self.e, self.st = p, cat, e, st

    def cls(self, n):
        return self.p.cls(f'backend.{self.cat}.{n}')

    def new(self, n, *a, **k):
        w = lambda x: x if isinstance(x, V) else I(x) if isinstance(x, int) and not isinstance(x, bool) else K(x)
        return self.e.instantiate(ClsV(self.cls(n)), [w(x) for x in a], {i: w(x) for i, x in k.items()}, self.st, None)

    def lst(self, xs):
        return self.e.new(self.st, ListO(list(xs)))

    def ty(self, s):
        """'a b.l' -> Ty"""
        e, st = self.e, self.st
        at = []
        for w in s.split():
            z = w.count('.r') - w.count('.l')
            n = w.split('.')[0]
            if self.cat == 'grammar':
                at.append(self.new('Ty', n, z=z))
            elif self.cat == 'tensor':
                at.append(self.new('Dim', int(n)))
            else:
                at.append(self.new('Ty', n))
        T = 'Dim' if self.cat == 'tensor' else 'Ty'
        if len(at) == 1:
            return at[0]
        return self.new(T, objects=self.lst(at)) if at else self.new(T)

    def const(self, n):
        return self.e.module_value(n, self.p.categories[self.cat]['Diagram'].module, self.st)

    def layer(self, l, b, r):
        return self.new('Layer', left=self.ty(l), box=b, right=self.ty(r))

    def diagram(self, d, c, layers):
        return self.new('Diagram', dom=self.ty(d), cod=self.ty(c), layers=self.lst(layers))


def specs():
    """(category, label, [(what differs, constructor)]): the first constructor
    is the base; every other one makes a different object."""
    out = []

    def add(cat, label, base, **vs):
        out.append((cat, label, [('', base)] + list(vs.items())))

    def box(cat, cls, base, var, **kw0):
        mk = lambda a, k: (lambda m: m.new(cls, *[m.ty(x[1:]) if isinstance(x, str) and x[:1] == ':' else x for x in a], **k))
        vs = {}
        for what, (i, v) in var.items():
            a, k = list(base), dict(kw0)
            if isinstance(i, int):
                a[i] = v
            else:
                k[i] = v
            vs[what] = mk(a, k)
        out.append((cat, cls + (' ' + ' '.join(f'{k}={v}' for k, v in kw0.items()) if kw0 else ''), [('', mk(list(base), dict(kw0)))] + list(vs.items())))
    # types
    g = lambda s: (lambda m: m.ty(s))
    for cat, b, vs in (('grammar', 'n', ('m', 'n.l', 'n.r', 'n.l.l', '', 'n n')), ('grammar', 'n s', ('s n', 'n', 'n n', 'n.l s', 'n s n', 's', '')),
                       ('grammar', '', ('n',)), ('grammar', 'n.l s.r', ('n.r s.l', 's.r n.l', 'n s')),
                       ('tensor', '2', ('3', '', '2 2', '22')), ('tensor', '2 3', ('3 2', '6', '2', '23', '2 3 2')),
                       ('quantum', 'qubit', ('bit', '', 'qubit qubit')), ('quantum', 'qubit bit', ('bit qubit', 'qubit qubit', 'bit bit', 'qubit'))):
        out.append((cat, f'type {b or "empty"}', [('', g(b))] + [(f'type {v or "empty"}', g(v)) for v in vs]))
    # grammar boxes
    gb = {'name': (0, 'g'), 'domain': (1, ':s'), 'codomain': (2, ':m'), 'domain length': (1, ':n n'), 'empty codomain': (2, ':'),
          'domain adjoint': (1, ':n.l'), 'codomain adjoint': (2, ':s.r'), 'z': ('z', 1), 'negative z': ('z', -1)}
    box('grammar', 'Box', ('f', ':n', ':s'), gb)
    box('grammar', 'Box', ('f', ':n', ':s'), {**gb, 'z': ('z', 2)}, z=1)
    box('grammar', 'Word', ('f', ':s'), {'name': (0, 'g'), 'codomain': (1, ':n'), 'codomain adjoint': (1, ':s.l'), 'z': ('z', 1)})
    add('grammar', 'Cup n', lambda m: m.new('Cup', m.ty('n'), m.ty('n.r')), wire=lambda m: m.new('Cup', m.ty('s'), m.ty('s.r')),
        adjoint=lambda m: m.new('Cup', m.ty('n.l'), m.ty('n')), reversed=lambda m: m.new('Cup', m.ty('n'), m.ty('n.l'), is_reversed=True),
        cap=lambda m: m.new('Cap', m.ty('n.r'), m.ty('n')))
    add('grammar', 'Cap n', lambda m: m.new('Cap', m.ty('n'), m.ty('n.l')), wire=lambda m: m.new('Cap', m.ty('s'), m.ty('s.l')),
        adjoint=lambda m: m.new('Cap', m.ty('n.r'), m.ty('n')), reversed=lambda m: m.new('Cap', m.ty('n'), m.ty('n.r'), is_reversed=True))
    add('grammar', 'Swap n s', lambda m: m.new('Swap', m.ty('n'), m.ty('s')), order=lambda m: m.new('Swap', m.ty('s'), m.ty('n')),
        left=lambda m: m.new('Swap', m.ty('s'), m.ty('s')), right=lambda m: m.new('Swap', m.ty('n'), m.ty('n')),
        adjoint=lambda m: m.new('Swap', m.ty('n.l'), m.ty('s')))
    add('grammar', 'Spider n', lambda m: m.new('Spider', m.ty('n'), 2, 1), type=lambda m: m.new('Spider', m.ty('s'), 2, 1),
        legs_in=lambda m: m.new('Spider', m.ty('n'), 3, 1), legs_out=lambda m: m.new('Spider', m.ty('n'), 2, 2),
        both_legs=lambda m: m.new('Spider', m.ty('n'), 1, 2))
    gbx = lambda m, n='f', d='n', c='s', z=0: m.new('Box', n, m.ty(d), m.ty(c), z=z)
    add('grammar', 'Daggered box', lambda m: m.new('Daggered', gbx(m)), plain=gbx, name=lambda m: m.new('Daggered', gbx(m, 'g')),
        domain=lambda m: m.new('Daggered', gbx(m, d='m')), codomain=lambda m: m.new('Daggered', gbx(m, c='m')),
        z=lambda m: m.new('Daggered', gbx(m, z=1)), word=lambda m: m.new('Daggered', m.new('Word', 'f', m.ty('s'))))
    add('grammar', 'Word against Box', lambda m: m.new('Word', 'f', m.ty('s')), box=lambda m: m.new('Box', 'f', m.ty(''), m.ty('s')),
        daggered=lambda m: m.new('Daggered', m.new('Word', 'f', m.ty('s'))))

    def frame(m, name='f', d='n', c='s', z=0, comps=(('a', 'n', 's'), ('b', 's', 'n'))):
        return m.new('Frame', name, m.ty(d), m.ty(c), components=m.lst([gbx(m, *x) for x in comps]), z=z)
    A, B = ('a', 'n', 's'), ('b', 's', 'n')
    fv = dict(name=dict(name='g'), domain=dict(d='m'), codomain=dict(c='m'), z=dict(z=1), component=dict(comps=(('c', 'n', 's'), B)),
              component_type=dict(comps=(('a', 'n', 'm'), B)), component_order=dict(comps=(B, A)), fewer=dict(comps=(A,)), more=dict(comps=(A, B, B)),
              none=dict(comps=()))
    add('grammar', 'Frame', frame, **{k: (lambda m, v=v: frame(m, **v)) for k, v in fv.items()}, box=gbx,
        daggered=lambda m: m.new('DaggeredFrame', frame(m)))
    add('grammar', 'DaggeredFrame', lambda m: m.new('DaggeredFrame', frame(m)),
        **{k: (lambda m, v=v: m.new('DaggeredFrame', frame(m, **v))) for k, v in fv.items()})
    # tensor and quantum boxes
    for cat, D, C, D2 in (('tensor', ':2', ':3', ':2 3'), ('quantum', ':qubit', ':qubit', ':qubit qubit')):
        var = {'name': (0, 'g'), 'domain': (1, D2), 'codomain': (2, D2), 'empty domain': (1, ':'), 'data': ('data', 2), 'no data': ('data', None),
               'z': ('z', 1)}
        if cat == 'quantum':
            var.update(mixed=('is_mixed', True), classical=(2, ':bit'))
        box(cat, 'Box', ('f', D, C), var, data=1)
        box(cat, 'Box', ('f', D, C), {**var, 'z': ('z', 0)}, data=1, z=1)
        bx = lambda m, D=D, C=C, **k: m.new('Box', k.pop('name', 'f'), m.ty(k.pop('d', D[1:])), m.ty(k.pop('c', C[1:])), **{'data': 1, **k})
        add(cat, 'Daggered box', lambda m, bx=bx: m.new('Daggered', bx(m)), plain=lambda m, bx=bx, C=C, D=D: m.new('Box', 'f', m.ty(C[1:]), m.ty(D[1:]), data=1),
            name=lambda m, bx=bx: m.new('Daggered', bx(m, name='g')), data=lambda m, bx=bx: m.new('Daggered', bx(m, data=2)),
            domain=lambda m, bx=bx, D2=D2: m.new('Daggered', bx(m, d=D2[1:])), z=lambda m, bx=bx: m.new('Daggered', bx(m, z=1)))
        sw = {'tensor': ('2', '3'), 'quantum': ('qubit', 'bit')}[cat]
        add(cat, 'Swap', lambda m, sw=sw: m.new('Swap', m.ty(sw[0]), m.ty(sw[1])), order=lambda m, sw=sw: m.new('Swap', m.ty(sw[1]), m.ty(sw[0])),
            left=lambda m, sw=sw: m.new('Swap', m.ty(sw[1]), m.ty(sw[1])))
        sym = lambda m, **k: m.e.instantiate(ClsV(m.p.cls('backend.symbol.Symbol')), [], {i: x if isinstance(x, V) else I(x) if isinstance(x, int) else K(x)
                                                                                      for i, x in k.items()}, m.st, None)
        sb = lambda m, bx=bx, **k: bx(m, data=sym(m, **k))
        add(cat, 'Box with a symbol', lambda m, sb=sb: sb(m, name='a'), symbol=lambda m, sb=sb: sb(m, name='b'),
            scale=lambda m, sb=sb: sb(m, name='a', scale=2), number=lambda m, bx=bx: bx(m), none=lambda m, bx=bx: bx(m, data=None))
        add(cat, 'Symbol', lambda m, sym=sym: sym(m, name='a'), name=lambda m, sym=sym: sym(m, name='b'), scale=lambda m, sym=sym: sym(m, name='a', scale=-1),
            domain=lambda m, sym=sym: sym(m, name='a', directed_dom=2), codomain=lambda m, sym=sym: sym(m, name='a', directed_cod=2))
    t = 'tensor'
    add(t, 'Spider', lambda m: m.new('Spider', m.ty('2'), 2, 1), type=lambda m: m.new('Spider', m.ty('3'), 2, 1),
        legs_in=lambda m: m.new('Spider', m.ty('2'), 3, 1), legs_out=lambda m: m.new('Spider', m.ty('2'), 2, 2))
    add(t, 'Cup', lambda m: m.new('Cup', m.ty('2'), m.ty('2')), wire=lambda m: m.new('Cup', m.ty('3'), m.ty('3')),
        box=lambda m: m.new('Box', 'CUP', m.ty('2 2'), m.ty('')))
    add(t, 'Cap', lambda m: m.new('Cap', m.ty('2'), m.ty('2')), wire=lambda m: m.new('Cap', m.ty('3'), m.ty('3')),
        box=lambda m: m.new('Box', 'CAP', m.ty(''), m.ty('2 2')))
    q = 'quantum'
    for r, o in (('Rx', 'Ry'), ('Ry', 'Rz'), ('Rz', 'Rx')):
        add(q, r, lambda m, r=r: m.new(r, K(0.5)), phase=lambda m, r=r: m.new(r, K(0.25)), close_phase=lambda m, r=r: m.new(r, K(0.5000001)), sign=lambda m, r=r: m.new(r, K(-0.5)), axis=lambda m, o=o: m.new(o, K(0.5)),
            symbol=lambda m, r=r: m.new(r, m.e.instantiate(ClsV(m.p.cls('backend.symbol.Symbol')), [K('a')], {}, m.st, None)))
    qsym = lambda m, n='a', **k: m.e.instantiate(ClsV(m.p.cls('backend.symbol.Symbol')), [K(n)], {i: I(x) for i, x in k.items()}, m.st, None)
    wraps = {'': lambda m, g: g, 'Controlled ': lambda m, g: m.new('Controlled', g), 'doubly controlled ': lambda m, g: m.new('Controlled', m.new('Controlled', g))}
    for wl, w in wraps.items():
        for r, o, o2 in (('Rx', 'Ry', 'Rz'), ('Ry', 'Rz', 'Rx'), ('Rz', 'Rx', 'Ry')):
            add(q, f'{wl}{r} of a symbol', lambda m, w=w, r=r: w(m, m.new(r, qsym(m))), symbol=lambda m, w=w, r=r: w(m, m.new(r, qsym(m, 'b'))),
                scale=lambda m, w=w, r=r: w(m, m.new(r, qsym(m, scale=2))), negated=lambda m, w=w, r=r: w(m, m.new(r, qsym(m, scale=-1))),
                axis=lambda m, w=w, o=o: w(m, m.new(o, qsym(m))), other_axis=lambda m, w=w, o=o2: w(m, m.new(o, qsym(m))),
                number=lambda m, w=w, r=r: w(m, m.new(r, K(0.5))), controlled=lambda m, w=w, r=r: m.new('Controlled', w(m, m.new(r, qsym(m)))))
    for k in ('Ket', 'Bra', 'Bit'):
        add(q, k, lambda m, k=k: m.new(k, 0), bit=lambda m, k=k: m.new(k, 1), more=lambda m, k=k: m.new(k, 0, 0) if k != 'Bit' else m.new('Ket', 0))
    gates = ('H', 'S', 'T', 'X', 'Y', 'Z')
    for n in gates:
        add(q, f'gate {n}', lambda m, n=n: m.const(n), **{o: (lambda m, o=o: m.const(o)) for o in gates if o != n},
            Rx=lambda m: m.new('Rx', K(0.5)), controlled=lambda m, n=n: m.new('Controlled', m.const(n)))
    for n in ('S', 'T'):
        add(q, f'gate {n} against its dagger and conjugate', lambda m, n=n: m.const(n), dagger=lambda m, n=n: meth(m.e, m.const(n), 'dagger', [], {}, m.st),
            conjugate=lambda m, n=n: meth(m.e, m.const(n), 'rotate', [I(1)], {}, m.st))
    for n in ('X', 'S', 'Rz'):
        b = (lambda m: m.new('Rz', K(0.5))) if n == 'Rz' else (lambda m, n=n: m.const(n))
        for d in (1, 2, -2):
            vs = {f'distance {x}': (lambda m, b=b, x=x: m.new('Controlled', b(m), x)) for x in (1, -1, 2, -2, 3) if x != d}
            vs['gate'] = lambda m, d=d: m.new('Controlled', m.const('Z'), d)
            vs['target'] = b
            if n == 'S':
                vs['dagger'] = lambda m, d=d: m.new('Controlled', meth(m.e, m.const('S'), 'dagger', [], {}, m.st), d)
                vs['conjugate'] = lambda m, d=d: m.new('Controlled', meth(m.e, m.const('S'), 'rotate', [I(1)], {}, m.st), d)
            if n == 'Rz':
                vs['phase'] = lambda m, d=d: m.new('Controlled', m.new('Rz', K(0.25)), d)
                vs['axis'] = lambda m, d=d: m.new('Controlled', m.new('Rx', K(0.5)), d)
            out.append((q, f'Controlled {n} distance {d}', [('', lambda m, b=b, d=d: m.new('Controlled', b(m), d))] + list(vs.items())))
    cc = lambda m, i, o, n='X': m.new('Controlled', m.new('Controlled', m.const(n), i), o)
    add(q, 'doubly controlled', lambda m: cc(m, 1, -2), inner=lambda m: cc(m, -1, -2), outer=lambda m: cc(m, 1, 2), swapped=lambda m: cc(m, 2, -1),
        gate=lambda m: cc(m, 1, -2, 'Z'))
    add(q, 'Scalar', lambda m: m.new('Scalar', K(0.5)), value=lambda m: m.new('Scalar', K(0.25)), close_value=lambda m: m.new('Scalar', K(0.5000001)), sqrt=lambda m: m.new('Sqrt', K(0.5)))
    add(q, 'Sqrt', lambda m: m.new('Sqrt', K(0.5)), value=lambda m: m.new('Sqrt', K(0.25)), close_value=lambda m: m.new('Sqrt', K(0.5000001)))
    ps = ('MixedState', 'Discard', 'Measure', 'Encode')
    for n in ps:
        add(q, n, lambda m, n=n: m.new(n), **{o: (lambda m, o=o: m.new(o)) for o in ps if o != n})
    # one name, several classes
    add(q, 'rotation against a box of its name', lambda m: m.new('Rz', K(0.5)),
        box=lambda m: m.new('Box', m.e.getattr(m.new('Rz', K(0.5)), 'name', m.st), m.ty('qubit'), m.ty('qubit'), data=K(0.5)))
    add(q, 'controlled against a box of its name', lambda m: m.new('Controlled', m.const('X')),
        box=lambda m: (lambda c: m.new('Box', m.e.getattr(c, 'name', m.st), m.ty('qubit qubit'), m.ty('qubit qubit'),
                                       data=m.e.getattr(c, 'data', m.st)))(m.new('Controlled', m.const('X'))))
    # diagrams
    for cat, x, y, mk in (('grammar', 'n', 's', lambda m, n='f', z=0: m.new('Box', n, m.ty('n'), m.ty('n'), z=z)),
                          ('tensor', '2', '3', lambda m, n='f', z=0: m.new('Box', n, m.ty('2'), m.ty('2'), data=1, z=z)),
                          ('quantum', 'qubit', 'bit', lambda m, n='f', z=0: m.new('Box', n, m.ty('qubit'), m.ty('qubit'), data=1, z=z))):
        d2 = lambda m, a, b, x=x: m.diagram(f'{x} {x}', f'{x} {x}', [m.layer('', a, x), m.layer(x, b, '')])
        add(cat, 'diagram', lambda m, d2=d2, mk=mk: d2(m, mk(m), mk(m, 'g')), box=lambda m, d2=d2, mk=mk: d2(m, mk(m, 'h'), mk(m, 'g')),
            boxes_exchanged=lambda m, d2=d2, mk=mk: d2(m, mk(m, 'g'), mk(m)), last_box=lambda m, d2=d2, mk=mk: d2(m, mk(m), mk(m)),
            box_z=lambda m, d2=d2, mk=mk: d2(m, mk(m, z=1), mk(m, 'g')),
            offset=lambda m, mk=mk, x=x: m.diagram(f'{x} {x}', f'{x} {x}', [m.layer(x, mk(m), ''), m.layer('', mk(m, 'g'), x)]),
            same_wire=lambda m, mk=mk, x=x: m.diagram(f'{x} {x}', f'{x} {x}', [m.layer('', mk(m), x), m.layer('', mk(m, 'g'), x)]),
            fewer_layers=lambda m, mk=mk, x=x: m.diagram(f'{x} {x}', f'{x} {x}', [m.layer('', mk(m), x)]),
            more_layers=lambda m, mk=mk, x=x: m.diagram(f'{x} {x}', f'{x} {x}', [m.layer('', mk(m), x), m.layer(x, mk(m, 'g'), ''), m.layer('', mk(m), x)]),
            identity=lambda m, x=x: m.diagram(f'{x} {x}', f'{x} {x}', []),
            other_wire=lambda m, mk=mk, x=x, y=y: m.diagram(f'{x} {y}', f'{x} {y}', [m.layer('', mk(m), y)]))
        add(cat, 'identity', lambda m, x=x: m.diagram(x, x, []), wire=lambda m, y=y: m.diagram(y, y, []), wires=lambda m, x=x: m.diagram(f'{x} {x}', f'{x} {x}', []),
            empty=lambda m: m.diagram('', '', []))
        add(cat, 'layer', lambda m, mk=mk, x=x, y=y: m.layer(x, mk(m), y), left=lambda m, mk=mk, y=y: m.layer(y, mk(m), y),
            right=lambda m, mk=mk, x=x: m.layer(x, mk(m), x), box=lambda m, mk=mk, x=x, y=y: m.layer(x, mk(m, 'g'), y),
            empty_left=lambda m, mk=mk, y=y: m.layer('', mk(m), y))
        add(cat, 'one-box diagram', lambda m, mk=mk: meth(m.e, mk(m), 'to_diagram', [], {}, m.st), box=mk)
    Q = lambda m, d: m.diagram('qubit qubit qubit', 'qubit qubit qubit', [m.layer('', m.new('Controlled', m.const('X'), d), '')])
    add(q, 'circuit with a controlled gate', lambda m: Q(m, 2), distance=lambda m: Q(m, -2))
    add('grammar', 'derivation', lambda m: tree(m, 'a', 'FA'), text=lambda m: tree(m, 'b', 'FA'), rule=lambda m: tree(m, 'a', 'BX'),
        type=lambda m: tree(m, 'a', 'FA', 'n'), child=lambda m: tree(m, 'a', 'FA', kids=('x', 'z')), order=lambda m: tree(m, 'a', 'FA', kids=('y', 'x')),
        leaf=lambda m: tree(m, 'a', 'FA', kids=()))
    return out


def tree(m, text, rule, typ='s', kids=('x', 'y')):
    e, st = m.e, m.st
    T, R = m.p.cls('text2diagram.ccg_tree.CCGTree'), m.p.cls('text2diagram.ccg_rule.CCGRule')
    C = m.p.cls('text2diagram.ccg_type.CCGType')
    ct = lambda n: e.instantiate(ClsV(C), [K(n)], {}, st, None)
    name = {'FA': 'FORWARD_APPLICATION', 'BX': 'BACKWARD_CROSSED_COMPOSITION'}[rule]
    lf = lambda t: e.instantiate(ClsV(T), [], dict(text=K(t), biclosed_type=ct('n')), st, None)
    kw = dict(text=K(text), rule=e.getattr(ClsV(R), name if kids else 'LEXICAL', st), biclosed_type=ct(typ))
    if kids:
        kw['children'] = m.lst([lf(k) for k in kids])
    return e.instantiate(ClsV(T), [], kw, st, None)


def eng(b, cat):
    e = b.engine(cat, tyv=False, dg=False)
    e.repr_on = True
    return e


def pair_eq(e, st, x, y):
    r = e.user_eq(x, y, st, None)
    r2 = e.user_eq(y, x, st, None)
    f = lambda r: K(r) if isinstance(r, bool) else r
    return f(r), f(r2)


def hash_of(e, st, v):
    return e.x_hash([v], {}, st, None)


def has_id(v):
    return 'id()' in show(v)


def run(p, ck, tier):
    b = Bench(p, ck)
    ck.rule('differ', 'Objects that differ in one attribute compare unequal, in either order.')
    ck.rule('table', 'A table keyed by one of them never returns its entry for the other: they are unequal or hash differently.')
    ck.rule('same', 'Objects built alike compare equal, in either order, and have equal hashes.')
    ck.rule('other', 'Comparing with an object of another kind gives False.')
    ck.rule('built', 'The same type or diagram built in another way compares equal and has the same hash.')
    for cat, label, vs in specs():
        base = vs[0][1]
        key = f'{cat} {label}'
        where = p.cls(f'backend.{cat}.Diagram').where

        def twice(e, st, cat=cat, base=base):
            m = Mk(p, cat, e, st)
            x, y = base(m), base(m)
            hx = hy = K(0)
            hashable = hash_defined(e, st, x)
            if hashable:
                hx, hy = hash_of(e, st, x), hash_of(e, st, y)
            return Tup([Tup(pair_eq(e, st, x, y)), Tup([hx, hy])])

        def chk(e, v, st, path):
            (r1, r2), (h1, h2) = v.items[0].items, v.items[1].items
            if any(isinstance(r, K) and r.v is False for r in (r1, r2)):
                return False, 'two objects built alike compare unequal'
            if has_id(h1):
                return False, 'the hash is the identity of the object, but equality is not'
            if h1 != h2:
                if hash_differ(h1, h2):
                    return False, f'equal objects hash {show(h1)} and {show(h2)}'
                return None, 'hash'
            return (True, '') if r1 == r2 == K(True) else (None, f'{show(r1)} {show(r2)}')
        b.run('same', key, where, eng(b, cat), twice, chk)
        for what, mk in vs[1:]:
            def both(e, st, cat=cat, base=base, mk=mk):
                m = Mk(p, cat, e, st)
                x, y = base(m), mk(m)
                return Tup(pair_eq(e, st, x, y))

            def dif(e, v, st, path, what=what):
                if any(isinstance(r, K) and r.v is True for r in v.items):
                    return False, f'compares equal although the {what} differs'
                return (True, '') if all(isinstance(r, K) and r.v is False for r in v.items) else (None, f'{show(v)}')
            b.run('differ', f'{key}: {what}', where, eng(b, cat), both, dif)

            def table(e, st, cat=cat, base=base, mk=mk):
                m = Mk(p, cat, e, st)
                x, y = base(m), mk(m)
                if not (hash_defined(e, st, x) and hash_defined(e, st, y)):
                    return K('unhashable')
                return Tup([*pair_eq(e, st, x, y), hash_of(e, st, x), hash_of(e, st, y)])

            def tab(e, v, st, path, what=what):
                if v == K('unhashable'):
                    return True, 'cannot be a key'
                r1, r2, h1, h2 = v.items
                if K(False) in (r1, r2) or hash_differ(h1, h2):
                    return True, ''
                if K(True) in (r1, r2) and h1 == h2:
                    return False, f'as a key it finds the entry of an object whose {what} differs'
                return None, f'{show(h1)} {show(h2)}'
            b.run('table', f'{key}: {what}', where, eng(b, cat), table, tab)
        others(p, b, cat, key, where, base)
    rebuilt(p, b)
    ck.floor('differ', 100)
    ck.floor('same', 30)


def hash_differ(a, b):
    """The hashes of two different constants."""
    if isinstance(a, App) and isinstance(b, App) and a.op == b.op == 'hash':
        return hash_differ(a.args[0], b.args[0])
    if isinstance(a, (K, Lin)) and isinstance(b, (K, Lin)):
        return a != b
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) != len(b.items) or any(hash_differ(x, y) for x, y in zip(a.items, b.items))
    return False


def hash_defined(e, st, v):
    c = e.class_of(v, st)
    if c is None:
        return True
    own = c.dc_owner('hash')
    return own is None or own[1] != 'none'


def others(p, b, cat, key, where, base):
    for lab, o in (('None', lambda m: K(None)), ('a string', lambda m: K('f')), ('a number', lambda m: I(1)),
                   ('a diagram', lambda m: m.diagram('', '', [])), ('a type', lambda m: m.ty('')),
                   ('a foreign box', lambda m: Mk(p, 'grammar', m.e, m.st).new('Box', 'f', Mk(p, 'grammar', m.e, m.st).ty('n'),
                                                                              Mk(p, 'grammar', m.e, m.st).ty('n')))):
        if (key.split(' ', 1)[1] in ('identity', 'type empty', 'type ') and lab in ('a diagram', 'a type')) or (cat == 'grammar' and lab == 'a foreign box'):
            continue

        def go(e, st, base=base, o=o):
            m = Mk(p, cat, e, st)
            x, y = base(m), o(m)
            return Tup(pair_eq(e, st, x, y))

        def chk(e, v, st, path, lab=lab):
            if any(isinstance(r, K) and r.v is True for r in v.items):
                return False, f'compares equal to {lab}'
            return (True, '') if all(isinstance(r, K) and r.v is False for r in v.items) else (None, show(v))
        b.run('other', f'{key}: {lab}', where, eng(b, cat), go, chk)


def rebuilt(p, b):
    at = lambda m, x, y: meth(m.e, x, '__matmul__', [y], {}, m.st)
    for cat, x, y, z in (('grammar', 'n', 's.l', 'm.r'), ('tensor', '2', '3', '2'), ('quantum', 'qubit', 'bit', 'qubit')):
        full = f'{x} {y} {z}'
        ways = {
            'left associated': lambda m: at(m, at(m, m.ty(x), m.ty(y)), m.ty(z)),
            'right associated': lambda m: at(m, m.ty(x), at(m, m.ty(y), m.ty(z))),
            'with the empty type': lambda m: at(m, at(m, m.ty(''), m.ty(f'{x} {y}')), at(m, m.ty(z), m.ty(''))),
            'slice': lambda m: m.e.getitem(m.ty(f'{full} {x}'), SliceV(0, 3), m.st, None) if False else at(m, m.ty(full), m.ty('')),
            'rotated there and back': lambda m: meth(m.e, meth(m.e, m.ty(full), 'rotate', [I(1)], {}, m.st), 'rotate', [I(-1)], {}, m.st),
            'tensor method': lambda m: meth(m.e, m.ty(x), 'tensor', [m.ty(y), m.ty(z)], {}, m.st),
        }
        for lab, w in ways.items():
            def go(e, st, w=w, full=full, cat=cat):
                m = Mk(p, cat, e, st)
                a, c = m.ty(full), w(m)
                return Tup([Tup(pair_eq(e, st, a, c)), Tup([hash_of(e, st, a), hash_of(e, st, c)])])

            def chk(e, v, st, path):
                rs, hs = v.items[0].items, v.items[1].items
                if any(isinstance(r, K) and r.v is False for r in rs):
                    return False, 'compares unequal to the type built directly'
                if hs[0] != hs[1]:
                    return (False if hash_differ(*hs) else None), f'hashes {show(hs[0])} and {show(hs[1])}'
                return (True, '') if all(r == K(True) for r in rs) else (None, show(v))
            b.run('built', f'{cat} type {lab}', p.cls(f'backend.{cat}.Diagram').where, eng(b, cat), go, chk)
    box = {'grammar': lambda m, n, d, c: m.new('Box', n, m.ty(d), m.ty(c)),
           'tensor': lambda m, n, d, c: m.new('Box', n, m.ty(d), m.ty(c), data=1),
           'quantum': lambda m, n, d, c: m.new('Box', n, m.ty(d), m.ty(c), data=1)}
    for cat, x in (('grammar', 'n'), ('tensor', '2'), ('quantum', 'qubit')):
        bx = box[cat]
        ref = lambda m, bx=bx, x=x: m.diagram(f'{x} {x}', f'{x} {x}', [m.layer('', bx(m, 'f', x, x), x), m.layer(x, bx(m, 'g', x, x), '')])
        D = lambda m, v: meth(m.e, v, 'to_diagram', [], {}, m.st)
        ways = {
            'tensor': lambda m, bx=bx, x=x: at(m, D(m, bx(m, 'f', x, x)), D(m, bx(m, 'g', x, x))),
            'then': lambda m, bx=bx, x=x: meth(m.e, at(m, D(m, bx(m, 'f', x, x)), D(m, m.ty(x))), 'then', [at(m, D(m, m.ty(x)), D(m, bx(m, 'g', x, x)))], {}, m.st),
            'twice daggered': lambda m, ref=ref: meth(m.e, meth(m.e, ref(m), 'dagger', [], {}, m.st), 'dagger', [], {}, m.st),
        }
        for lab, w in ways.items():
            def go(e, st, w=w, ref=ref, cat=cat):
                m = Mk(p, cat, e, st)
                a, c = ref(m), w(m)
                return Tup([Tup(pair_eq(e, st, a, c)), Tup([hash_of(e, st, a), hash_of(e, st, c)])])
            b.run('built', f'{cat} diagram {lab}', p.cls(f'backend.{cat}.Diagram').where, eng(b, cat), go, chk)
