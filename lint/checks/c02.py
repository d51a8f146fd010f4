"""C02: every diagram combinator yields the boundary it is defined to have."""
import itertools
from ..harness import *

TITLE = 'Every diagram combinator returns a well-formed diagram with the promised domain and codomain'
L = lambda t: t.rotate(I(-1))
R = lambda t: t.rotate(I(1))


def run(p, ck, tier):
    b = Bench(p, ck)
    ck.rule('combinator', 'The derived combinators of Diagram evaluate, on free generator types, to '
            'diagrams whose boundary in the free pregroup is the one they are specified to have, and every '
            'cap/cup/composition inside them is well typed.')
    ck.rule('special', 'Constructing Cap/Cup/Swap/Spider on types of 0-3 distinct wires gives the specified '
            'boundary, from well-typed single-wire boxes placed at the right offsets.')
    ck.rule('layers', 'then/tensor/rotate/dagger/then_at/permutation/id build a layer list that composes, layer by '
            'layer, from the domain to the codomain they declare (proved on a generic layer), and `then` '
            'returns only when the codomain met the domain.')
    ck.rule('layer', 'Layer.dom/cod/extend/rotate/dagger and Box.to_diagram agree with left @ box @ right.')
    ck.rule('type', 'Ty.rotate distributes over the objects, reversing them for odd winding; tensor concatenates; '
            '.l/.r are rotations by -1/+1; unwind undoes z.')
    cats = [c for c in ('grammar', 'tensor', 'quantum') if c in p.categories]
    G = p.cls('backend.grammar.Diagram')
    for cat in cats:
        D = p.categories[cat].get('Diagram')
        if D is not None:
            combinators(p, ck, b, cat, D, G)
    specials(p, ck, b, tier)
    quantum_specials(p, ck, b, tier)
    layers(p, ck, b, tier)
    layer_ops(p, ck, b)
    types(p, ck, b)
    ck.floor('combinator', 6)
    ck.floor('special', 5)
    ck.floor('layers', 4)


def combinators(p, ck, b, cat, D, G):
    def one(n, label, call, dom, cod):
        f = D.find_method(n)
        if f is None:
            if cat == 'grammar':
                raise AnalysisBroken(f'Diagram.{n} not found')
            return
        if cat != 'grammar' and f.cls is G:
            return          # inherited: same code, checked once
        e = b.engine(cat)
        b.boundary('combinator', f'{cat}.Diagram.{label}', f.where, e,
                   lambda e, st: call(e, st), dom(e), cod(e), strict=cat == 'grammar')

    T = lambda e, n: e.ty_gen(n)
    cm = lambda n, *ns: (lambda e, st: meth(e, ClsV(D), n, [T(e, x) for x in ns], {}, st))

    def spec2(n, dom, cod):
        one(n, n, cm(n, 'left', 'right'), lambda e: dom(T(e, 'left'), T(e, 'right')),
            lambda e: cod(T(e, 'left'), T(e, 'right')))

    def spec3(n, dom, cod):
        ts = lambda e: [T(e, x) for x in ('left', 'middle', 'right')]
        one(n, n, cm(n, 'left', 'middle', 'right'), lambda e: dom(*ts(e)), lambda e: cod(*ts(e)))
    spec2('fa', lambda l, r: l @ L(r) @ r, lambda l, r: l)
    spec2('ba', lambda l, r: l @ R(l) @ r, lambda l, r: r)
    spec3('fc', lambda l, m, r: l @ L(m) @ m @ L(r), lambda l, m, r: l @ L(r))
    spec3('bc', lambda l, m, r: R(l) @ m @ R(m) @ r, lambda l, m, r: R(l) @ r)
    spec3('fx', lambda l, m, r: l @ L(m) @ R(r) @ m, lambda l, m, r: R(r) @ l)
    spec3('bx', lambda l, m, r: m @ L(l) @ R(m) @ r, lambda l, m, r: r @ L(l))
    A = lambda e: T(e, 'A')
    B = lambda e: T(e, 'B')
    dg = lambda e: DgV(A(e), B(e), Sym('f'))
    for left in (True, False):
        s = L if left else R
        one('transpose', f'transpose(left={left})',
            lambda e, st, left=left: meth(e, dg(e), 'transpose', [K(left)], {}, st),
            lambda e, s=s: s(B(e)), lambda e, s=s: s(A(e)))

    def curry(left):
        def base(e):
            n = Sym('n', ('nat',))
            e.pos_syms[n] = 1
            ln = Lin(0, [(n, 1)])
            X = TyV((Gen('X', ln),))
            return X, ln

        def call(e, st):
            X, n = base(e)
            d = DgV(A(e) @ X if left else X @ A(e), B(e), Sym('f'))
            return meth(e, d, 'curry', [n, K(left)], {}, st)
        one('curry', f'curry(n, left={left})', call, lambda e: A(e),
            lambda e: B(e) @ L(base(e)[0]) if left else R(base(e)[0]) @ B(e))
    curry(True)
    curry(False)
    # single-wire default
    one('curry', 'curry()', lambda e, st: meth(e, DgV(A(e) @ e.ty_gen('x', atomic=True), B(e), Sym('f')),
                                               'curry', [], {}, st),
        lambda e: A(e), lambda e: B(e) @ L(e.ty_gen('x', atomic=True)))


def atoms(names, zs):
    return TyV(tuple(Gen(n, I(1), z) for n, z in zip(names, zs)))


def specials(p, ck, b, tier):
    """The constructors themselves, on types of known length."""
    D = p.categories['grammar']['Diagram']
    reg = p.special.get(D, {})
    zs = [I(0), I(1), I(-1)]

    def ctor(kind, label, args, kw, dom, cod):
        c = reg.get(kind)
        if c is None:
            raise AnalysisBroken(f'no special box {kind!r} registered on grammar.Diagram')
        e = b.engine('grammar', raw=('special',))
        f = c.find_method('__new__') if isinstance(c, ClassInfo) else c
        b.boundary('special', f'grammar.{kind}({label})', (f or c).where, e,
                   lambda e, st: e.call(e.resolved(c, st), list(args), kw, st, None), dom, cod)
    for kind in ('cap', 'cup'):
        c = reg[kind]
        for nm in ('to_left', 'to_right'):
            f = c.find_method(nm) if isinstance(c, ClassInfo) else None
            if f is None:
                continue
            for rev in (False, True):
                e = b.engine('grammar')
                t = e.ty_gen('t')
                # Cap: left == right.r; Cup: left == right.l; reversed: the other one
                s = (1 if kind == 'cap' else -1) * (-1 if rev else 1)
                w = (t.rotate(I(s)) @ t) if nm == 'to_left' else (t @ t.rotate(I(-s)))
                b.boundary('special', f'{kind}.{nm}(is_reversed={rev})', f.where, e,
                           lambda e, st: e.call(FnV(f), [ClsV(c), t], {'is_reversed': K(rev)}, st, None),
                           TyV() if kind == 'cap' else w, w if kind == 'cap' else TyV())
    ns = (1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4, 5)
    for n in ns:
        t = atoms('abcde'[:n], (zs * 2)[:n])
        u = atoms('vwxyz'[:n], [I(0)] * n)
        ctor('cap', f'{n} wires', [t, L(t)], {}, TyV(), t @ L(t))
        ctor('cup', f'{n} wires', [t, R(t)], {}, t @ R(t), TyV())
        ctor('cap', f'{n} wires, reversed', [t, R(t)], {'is_reversed': K(True)}, TyV(), t @ R(t))
        ctor('cup', f'{n} wires, reversed', [t, L(t)], {'is_reversed': K(True)}, t @ L(t), TyV())
        for m in ns:
            v = atoms('vwxyz'[:m], [I(0)] * m)
            ctor('swap', f'{n}, {m} wires', [t, v], {}, t @ v, v @ t)
        for i, o in ((1, 2), (2, 1), (2, 2), (0, 1), (3, 2)):
            pw = lambda k: TyV(t.f * k)
            ctor('spider', f'{n} wires, {i}->{o}', [t, I(i), I(o)], {}, pw(i), pw(o))


def dgen(e, n):
    return DgV(e.ty_gen(n + '_dom'), e.ty_gen(n + '_cod'), Sym(n))


def layers(p, ck, b, tier):
    D = p.categories['grammar']['Diagram']

    def one(name, label, args, dom, cod, kw={}, raw=None):
        f = D.find_method(name)
        if f is None:
            raise AnalysisBroken(f'Diagram.{name} not found')
        e = b.engine('grammar', raw=(raw or name,))
        a = args(e)

        def go(e, st):
            v = e.call(FnV(f), list(a), dict(kw), st, None)
            if any(x is None for x in e.layer_log):
                raise Unsupported('layers not summarised')
            if name != 'then_at' and not e.layer_log:
                raise Unsupported('no layers seen')
            return v
        b.boundary('layers', f'Diagram.{name}{label}', f.where, e, go, dom(a), cod(a))
    D0, C0 = (lambda a: a[0].dom), (lambda a: a[0].cod)
    one('then', '(g)', lambda e: [dgen(e, 'f'), dgen(e, 'g')], D0, lambda a: a[1].cod)
    one('then', '(g, h)', lambda e: [dgen(e, 'f'), dgen(e, 'g'), dgen(e, 'h')], D0, lambda a: a[2].cod)
    one('then', '()', lambda e: [dgen(e, 'f')], D0, C0)
    one('tensor', '(g)', lambda e: [dgen(e, 'f'), dgen(e, 'g')],
        lambda a: a[0].dom @ a[1].dom, lambda a: a[0].cod @ a[1].cod)
    one('tensor', '(g, h)', lambda e: [dgen(e, x) for x in 'fgh'],
        lambda a: a[0].dom @ a[1].dom @ a[2].dom, lambda a: a[0].cod @ a[1].cod @ a[2].cod)
    one('tensor', '(type)', lambda e: [dgen(e, 'f'), e.ty_gen('t')],
        lambda a: a[0].dom @ a[1], lambda a: a[0].cod @ a[1])
    for z in (1, -1, 2, -2, 3):
        one('rotate', f'({z})', lambda e, z=z: [dgen(e, 'f'), I(z)],
            lambda a, z=z: a[0].dom.rotate(I(z)), lambda a, z=z: a[0].cod.rotate(I(z)))
    one('dagger', '()', lambda e: [dgen(e, 'f')], C0, D0)

    def at(e):
        A, C, g = e.ty_gen('A'), e.ty_gen('C'), dgen(e, 'g')
        return [DgV(e.ty_gen('f_dom'), A @ g.dom @ C, Sym('f')), g, A.length]
    one('then_at', '(g, i)', at, D0, lambda a: TyV(a[0].cod.f[:1]) @ a[1].cod @ TyV(a[0].cod.f[-1:]))
    for n in (0, 1, 2, 3, 4, 5):
        for perm in itertools.permutations(range(n)):
            t = atoms('abcde'[:n], [I(0)] * n)
            want = TyV(tuple(t_ for i in perm for t_ in atoms('abcde'[i], [I(0)]).f))
            f = D.find_method('permutation')
            e = b.engine('grammar', raw=('permutation',))
            b.boundary('layers', f'Diagram.permutation({list(perm)})', f.where, e,
                       lambda e, st: e.call(FnV(f), [ClsV(D), t, e.new(st, ListO([I(i) for i in perm]))], {}, st, None),
                       t, want)
    f = D.find_method('id')
    e = b.engine('grammar')
    # operators
    for nm, cls in (('__matmul__', D), ('__rshift__', D), ('__rmatmul__', D)):
        f = cls.find_method(nm)
        if f is None:
            ck.bad('layers', f'Diagram.{nm}', D.where, 'operator removed')
            continue
        e = b.engine('grammar')
        x, y = dgen(e, 'f'), dgen(e, 'g')
        if nm == '__rshift__':
            y = DgV(x.cod, y.cod, Sym('g'))
        b.boundary('layers', f'Diagram.{nm}', f.where, e,
                   lambda e, st: e.call(FnV(f), [x, y], {}, st, None),
                   {'__matmul__': x.dom @ y.dom, '__rmatmul__': y.dom @ x.dom, '__rshift__': x.dom}[nm],
                   {'__matmul__': x.cod @ y.cod, '__rmatmul__': y.cod @ x.cod, '__rshift__': y.cod}[nm])


def layer_ops(p, ck, b):
    LC = p.categories['grammar']['Layer']
    BC = p.categories['grammar']['Box']

    def mk(e, st):
        l, r = e.ty_gen('l'), e.ty_gen('r')
        box = Sym('box', ('cls', BC, False))
        ref = e.instantiate(ClsV(LC), [], {'left': l, 'box': box, 'right': r}, st, None)
        d, c = e.getattr(box, 'dom', st), e.getattr(box, 'cod', st)
        return ref, l, d, c, r

    def bounds(name, go, want):
        e = b.engine('grammar')
        f = LC.find_method(name)
        if f is None:
            raise AnalysisBroken(f'Layer.{name} not found')

        def run(e, st):
            t = mk(e, st)
            return Tup([go(e, st, *t), *want(e, st, *t)])

        def chk(e, v, st, path):
            ok = True
            got, wd, wc = v.items
            q = e.layer_bounds(got, st, None) if not isinstance(got, TyV) else (got, got)
            if q is None:
                return None, f'{show(got)}'
            for a, w in zip(q, (wd, wc)):
                if w != K(None) and a != w:
                    return (None if has_opaque_ty(a) else False), f'gives {show(a)}, expected {show(w)}'
            return True, f'{show(q[0])} -> {show(q[1])}'
        b.run('layer', f'Layer.{name}', f.where, e, run, chk)
    bounds('dom', lambda e, st, x, *_: e.getattr(x, 'dom', st), lambda e, st, x, l, d, c, r: (l @ d @ r, K(None)))
    bounds('cod', lambda e, st, x, *_: e.getattr(x, 'cod', st), lambda e, st, x, l, d, c, r: (K(None), l @ c @ r))
    bounds('extend', lambda e, st, x, *_: meth(e, x, 'extend', [e.ty_gen('p'), e.ty_gen('q')], {}, st),
           lambda e, st, x, l, d, c, r: (e.ty_gen('p') @ l @ d @ r @ e.ty_gen('q'),
                                         e.ty_gen('p') @ l @ c @ r @ e.ty_gen('q')))
    bounds('dagger', lambda e, st, x, *_: meth(e, x, 'dagger', [], {}, st),
           lambda e, st, x, l, d, c, r: (l @ c @ r, l @ d @ r))
    for z in (1, -1, 2):
        bounds('rotate', lambda e, st, x, *_: meth(e, x, 'rotate', [I(z)], {}, st),
               lambda e, st, x, l, d, c, r: ((l @ d @ r).rotate(I(z)), (l @ c @ r).rotate(I(z))))

    def unp(e, st):
        ref, l, d, c, r = mk(e, st)
        return Tup([meth(e, ref, 'unpack', [], {}, st), l, r])

    def chk(e, v, st, path):
        got, l, r = v.items
        got = e.items(got, st)
        if len(got) != 3:
            return False, 'unpack does not give three parts'
        return (got[0] == l and got[2] == r and got[1] == Sym('box')), show(Tup(got))
    f = LC.find_method('unpack')
    if f is not None:
        b.run('layer', 'Layer.unpack', f.where, b.engine('grammar'), unp, chk)
    f = BC.find_method('to_diagram')
    e = b.engine('grammar')

    def todg(e, st):
        box = e.instantiate(ClsV(BC), [K('f'), e.ty_gen('d'), e.ty_gen('c')], {}, st, None)
        v = meth(e, box, 'to_diagram', [], {}, st)
        if e.layer_log != [True]:
            raise Unsupported('layers of Box.to_diagram not summarised')
        return v
    b.boundary('layer', 'Box.to_diagram', f.where, e, todg, e.ty_gen('d'), e.ty_gen('c'))
    for nm in ('__matmul__', '__rmatmul__', '__rshift__'):
        f = BC.find_method(nm)
        if f is None:
            continue
        e = b.engine('grammar')
        y = dgen(e, 'g')
        d, c = e.ty_gen('d'), e.ty_gen('c')
        if nm == '__rshift__':
            y = DgV(c, y.cod, Sym('g'))
        b.boundary('layer', f'Box.{nm}', f.where, e,
                   lambda e, st: e.call(FnV(f), [e.instantiate(ClsV(BC), [K('f'), d, c], {}, st, None), y], {}, st, None),
                   {'__matmul__': d @ y.dom, '__rmatmul__': y.dom @ d, '__rshift__': d}[nm],
                   {'__matmul__': c @ y.cod, '__rmatmul__': y.cod @ c, '__rshift__': y.cod}[nm])


def types(p, ck, b):
    """Ty's own methods, on the heap representation (no type algebra)."""
    TC = p.categories['grammar']['Ty']

    def eng():
        return b.engine('grammar', tyv=False, dg=False)

    def atom(e, st, n, z=0):
        return e.instantiate(ClsV(TC), [], {'name': K(n), 'z': I(z)}, st, None)

    def cx(e, st, zs):
        return e.instantiate(ClsV(TC), [], {'objects': e.new(st, ListO([atom(e, st, n, z) for n, z in zip('abcd', zs)]))},
                             st, None)

    def read(e, v, st):
        """A heap Ty as a list of (name, z); None when not known."""
        v = e.res(v, st)
        o = e.obj(st, v) if isinstance(v, Ref) else None
        if not isinstance(o, InstO):
            return None
        nm, ob, z = (e.res(o.fields.get(k), st) for k in ('name', 'objects', 'z'))
        its = e.items(ob, st)
        if its:
            out = []
            for x in its:
                r = read(e, x, st)
                if r is None or len(r) != 1:
                    return None
                out += r
            return out
        if isinstance(nm, K) and nm.v is None:
            return []
        if isinstance(nm, K) and isinstance(z, Lin) and z.const is not None:
            return [(nm.v, z.const)]
        return None

    def one(name, label, go, want):
        f = TC.find_method(name)
        if f is None:
            ck.unknown('type', f'Ty.{name}{label}', TC.where, 'method not found')
            return

        def chk(e, v, st, path):
            got = read(e, v, st)
            if got is None:
                return None, f'result {show(v)} not known'
            return got == want, f'gives {got}, expected {want}'
        b.run('type', f'Ty.{name}{label}', f.where, eng(), go, chk)
    for zs in ([], [0], [0, 0], [1, -1, 2]):
        names = 'abcd'[:len(zs)]
        mk = (lambda e, st: e.instantiate(ClsV(TC), [], {}, st, None)) if not zs else \
             (lambda e, st: atom(e, st, 'a', 0)) if len(zs) == 1 else (lambda e, st: cx(e, st, zs))
        base = list(zip(names, zs))
        for z in (0, 1, -1, 2, -2, 3):
            w = [(n, k + z) for n, k in base]
            if z % 2:
                w.reverse()
            one('rotate', f'({z}) on {len(zs)} wires', lambda e, st: meth(e, mk(e, st), 'rotate', [I(z)], {}, st), w)
        one('l', f' on {len(zs)} wires', lambda e, st: e.getattr(mk(e, st), 'l', st), [(n, k - 1) for n, k in base][::-1])
        one('r', f' on {len(zs)} wires', lambda e, st: e.getattr(mk(e, st), 'r', st), [(n, k + 1) for n, k in base][::-1])
        for ws in ([], [0], [0, 1]):
            mk2 = (lambda e, st: e.instantiate(ClsV(TC), [], {}, st, None)) if not ws else \
                 (lambda e, st: atom(e, st, 'x', 0)) if len(ws) == 1 else \
                 (lambda e, st: e.instantiate(ClsV(TC), [], {'objects': e.new(st, ListO([atom(e, st, n, z) for n, z in zip('xy', ws)]))}, st, None))
            w2 = list(zip('xy', ws))
            one('tensor', f'({len(zs)} @ {len(ws)} wires)',
                lambda e, st: meth(e, mk(e, st), 'tensor', [mk2(e, st)], {}, st), base + w2)
            one('__lshift__', f'({len(zs)} << {len(ws)} wires)',
                lambda e, st: meth(e, mk(e, st), '__lshift__', [mk2(e, st)], {}, st),
                base + [(n, z - 1) for n, z in w2][::-1])
            one('__rshift__', f'({len(zs)} >> {len(ws)} wires)',
                lambda e, st: meth(e, mk(e, st), '__rshift__', [mk2(e, st)], {}, st),
                [(n, z + 1) for n, z in base][::-1] + w2)
            for i in range(-len(base), len(base) + 1):
                one('insert', f'({len(ws)} wires at {i} of {len(zs)})',
                    lambda e, st: meth(e, mk(e, st), 'insert', [mk2(e, st), I(i)], {}, st),
                    base[:i] + w2 + base[i:])
                if 0 <= i < len(base):
                    one('replace', f'({len(ws)} wires at {i} of {len(zs)})',
                        lambda e, st: meth(e, mk(e, st), 'replace', [mk2(e, st), I(i)], {}, st),
                        base[:i] + w2 + base[i + 1:])
        for i in range(-len(base), len(base)):
            one('__getitem__', f'({i}) of {len(zs)} wires', lambda e, st: e.getitem(mk(e, st), I(i), st, None), [base[i]])
        for i in range(len(base) + 1):
            for j in range(i, len(base) + 1):
                one('__getitem__', f'({i}:{j}) of {len(zs)} wires', lambda e, st: e.slice(mk(e, st), I(i), I(j), None, st, None), base[i:j])
        for k in (0, 1, 2):
            one('repeat', f'({k}) of {len(zs)} wires', lambda e, st: meth(e, mk(e, st), 'repeat', [I(k)], {}, st), base * k)
    for z in (0, 1, -2):
        one('unwind', f' of z={z}', lambda e, st: meth(e, atom(e, st, 'a', z), 'unwind', [], {}, st), [('a', 0)])


def quantum_specials(p, ck, b, tier):
    """quantum: cap/cup/spider are circuits; swap is a box."""
    D = p.categories.get('quantum', {}).get('Diagram')
    if D is None:
        return
    reg = p.special.get(D, {})
    mod = D.module
    for kind, cases in (('cap', [(n,) for n in (1, 2, 3)]), ('cup', [(n,) for n in (1, 2, 3)]),
                        ('swap', [(1,)]),
                        ('spider', [(i, o) for i in range(4) for o in range(4)])):
        c = reg.get(kind)
        if c is None:
            ck.unknown('special', f'quantum.{kind}', D.where, 'not registered')
            continue
        f = c.find_method('__new__') if isinstance(c, ClassInfo) else c
        for case in cases:
            e = b.engine('quantum', raw=('special',))
            if isinstance(c, FuncInfo):
                assume_recursion(e, kind, c)
            st0 = Store()
            try:
                q = e.module_value('qubit', mod, st0)
            except Unsupported:
                q = None
            if not isinstance(q, TyV):
                ck.unknown('special', f'quantum.{kind}{case}', c.where, 'qubit type not known')
                continue
            pw = lambda n: TyV(q.f * n)
            if kind == 'spider':
                args, dom, cod = [q, I(case[0]), I(case[1])], pw(case[0]), pw(case[1])
            elif kind == 'swap':
                args, dom, cod = [q, q], pw(2), pw(2)
            else:
                args = [pw(case[0])] * 2
                dom, cod = (TyV(), pw(2 * case[0])) if kind == 'cap' else (pw(2 * case[0]), TyV())
            b.boundary('special', f'quantum.{kind}{case}', (f or c).where, e,
                       lambda e, st: e.call(e.resolved(c, st), list(args), {}, st, None), dom, cod)


def assume_recursion(e, kind, f):
    """The outermost call is analysed; recursive calls have the specified
    boundary (induction on the call depth)."""
    seen = []

    def h(e, st, args, kw, node):
        if not seen:
            seen.append(1)
            return NotImplemented
        return e.special(kind, args, kw, st, node)
    e.intrinsics[f.qual] = h
