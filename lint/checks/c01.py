"""C01: decoding what was encoded gives the same object back."""
from ..absint import Raised, Unsupported
from ..harness import *
from ..instances import recipes, same, class_of_ref, T

TITLE = 'Encoding to JSON and decoding gives back an equal object, for every class and nesting'


def run(p, ck, tier):
    b = Bench(p, ck)
    ck.rule('roundtrip', 'Evaluating Cls.from_json(x.to_json()) and Category.from_json(x.to_json()) on a generic '
            'instance x gives an object of the same class with the same value in every field; also from JSON text '
            'and for the nested (not top-level) encoding.')
    ck.rule('nested', 'The same, for every box class nested in a layer, a diagram, a frame or a dagger.')
    ck.rule('again', 'Decoding the same dictionary a second time gives the same object: decoding leaves its '
            'argument unchanged.')
    ck.rule('plain', 'The encoding consists of dictionaries with string keys, lists, strings, numbers, booleans and '
            'None only.')
    ck.rule('category', 'CCGType.parse(str(t)) equals t for categories t of every shape up to a nesting bound.')
    ck.rule('tree', 'A CCG tree of every rule survives the round trip: text, rule, type and children.')
    boxes(p, b, tier)
    trees(p, b, tier)
    categories(p, b, tier)
    ck.floor('roundtrip', 30)
    ck.floor('nested', 20)
    ck.floor('again', 15)


def eng(b):
    return b.engine('grammar', tyv=False, dg=False)


def plain(e, v, st):
    v = e.res(v, st)
    if isinstance(v, Ref):
        o = e.obj(st, v)
        if isinstance(o, DictO):
            for k, x in o.d.items():
                if not (isinstance(k, K) and isinstance(k.v, str)) and not isinstance(k, Sym):
                    return False, f'key {show(k)}'
                r = plain(e, x, st)
                if r[0] is not True:
                    return r
            return True, ''
        if isinstance(o, ListO):
            for x in o.items:
                r = plain(e, x, st)
                if r[0] is not True:
                    return r
            return (True, '') if o.kind in ('list', 'tuple') else (False, f'a {o.kind}')
        return False, f'a {o.cls.name} object' if isinstance(o, InstO) else '?'
    if isinstance(v, (K, Lin)):
        return True, ''
    if isinstance(v, Tup):
        return False, 'a tuple becomes a list'
    if isinstance(v, (ClsV, FnV, TyV, DgV)):
        return False, show(v)
    if isinstance(v, (Sym, App)) and v.typ[0] in ('str', 'int', 'nat', 'bool'):
        return True, ''
    return None, show(v)


def check_one(p, b, rules, key, cls, mk, cat=True):
    """mk(e, st) -> instance of cls."""
    r1, r2 = rules
    fj = cls.find_method('from_json')
    tj = cls.find_method('to_json')
    if fj is None or tj is None:
        b.ck.bad(r1, f'{key}: has to_json and from_json', cls.where, 'method missing')
        return
    CatC = p.cls('backend.grammar.Category')

    def enc(e, st, x, top=True):
        return meth(e, x, 'to_json', [] if top else [K(False)], {}, st)

    def own(e, st, x):
        c = class_of_ref(e, x, st) or cls
        return e.getattr(ClsV(c), 'from_json', st)

    def catdec(e, st, j):
        return e.call(FnV(CatC.find_method('from_json')), [CatV('grammar'), j], {}, st, None)

    def go(rule, label, f, where):
        e = eng(b)

        def run(e, st):
            x = mk(e, st)
            return Tup([f(e, st, x), x])
        b.run(rule, f'{key}: {label}', where, e, run,
              lambda e, v, st, path: same(e, v.items[0], v.items[1], st))

    go(r1, 'class decoder', lambda e, st, x: e.call(own(e, st, x), [enc(e, st, x)], {}, st, None), fj.where)
    go(r1, 'nested encoding', lambda e, st, x: e.call(own(e, st, x), [enc(e, st, x, False)], {}, st, None), fj.where)
    if cat:
        go(r1, 'category decoder', lambda e, st, x: catdec(e, st, enc(e, st, x)), CatC.find_method('from_json').where)

        def text(e, st, x):
            j = enc(e, st, x)
            t = App('jsontext', j, typ=('str',))
            e.intrinsics['json.loads'] = lambda e, st, args, kw, node: e.copy_value(j, st, True)
            return catdec(e, st, t)
        go(r1, 'from text', text, CatC.find_method('from_json').where)

    def twice(e, st, x):
        j = enc(e, st, x)
        e.call(own(e, st, x), [j], {}, st, None)
        return e.call(own(e, st, x), [j], {}, st, None)
    go(r2, 'decode twice', twice, fj.where)
    e = eng(b)
    b.run('plain', key, tj.where, e, lambda e, st: enc(e, st, mk(e, st)), lambda e, v, st, path: plain(e, v, st))


def boxes(p, b, tier):
    G = p.categories['grammar']
    TC, BC, LC, DC = G['Ty'], G['Box'], G['Layer'], G['Diagram']
    R = ('roundtrip', 'again')
    N = ('nested', 'again')

    def ty(n):
        def mk(e, st):
            at = lambda nm, z: e.instantiate(ClsV(TC), [], {'name': Sym(nm, ('str',)), 'z': I(z)}, st, None)
            if n == 0:
                return e.instantiate(ClsV(TC), [], {}, st, None)
            if n == 1:
                return at('a', -1)
            return e.instantiate(ClsV(TC), [], {'objects': e.new(st, ListO([at('abc'[i], i - 1) for i in range(n)]))}, st, None)
        return mk
    for n in range(4):
        check_one(p, b, R, f'Ty of {n} wires', TC, ty(n))
    rs = recipes(p, 'grammar', tier)
    for r in rs:
        check_one(p, b, R, r.key, r.cls, r.fn)
    # one representative of every class inside every container
    reps = {}
    for r in rs:
        reps.setdefault(r.key if r.cls.name in ('Daggered', 'Cap', 'Cup') else r.cls.name, r)
    FC = p.cls('backend.grammar.Frame')

    def dagger(r):
        return lambda e, st: meth(e, r.fn(e, st), 'dagger', [], {}, st)
    reps = [(r.key, r.cls, r.fn) for r in reps.values()]
    reps += [(f'dagger of {r.key}', r.cls, dagger(r)) for r in rs if r.cls.name in ('Box', 'Word', 'Frame')]

    def mklayer(e, st, box):
        return e.instantiate(ClsV(LC), [], {'left': T(e, st, 'L'), 'box': box, 'right': T(e, st, 'R', True)}, st, None)

    def mkdiag(e, st, box):
        l = mklayer(e, st, box)
        return e.instantiate(ClsV(DC), [], {'dom': e.getattr(l, 'dom', st), 'cod': e.getattr(l, 'cod', st),
                                           'layers': e.new(st, ListO([l]))}, st, None)

    def mkframe(e, st, comp):
        return e.instantiate(ClsV(FC), [Sym('frame', ('str',)), T(e, st, 'FD'), T(e, st, 'FC')],
                             {'components': e.new(st, ListO([comp]))}, st, None)
    for key, cls, fn in reps:
        if key.startswith('dagger of'):
            check_one(p, b, R, key, cls, fn)
        check_one(p, b, N, f'Layer of {key}', LC, lambda e, st, fn=fn: mklayer(e, st, fn(e, st)))
        check_one(p, b, N, f'Diagram of {key}', DC, lambda e, st, fn=fn: mkdiag(e, st, fn(e, st)))
        check_one(p, b, N, f'Frame of {key}', FC, lambda e, st, fn=fn: mkframe(e, st, fn(e, st)))
    check_one(p, b, N, 'Frame of Diagram', FC, lambda e, st: mkframe(e, st, mkdiag(e, st, rs[0].fn(e, st))))
    check_one(p, b, N, 'Diagram of Frame of Diagram', DC,
              lambda e, st: mkdiag(e, st, mkframe(e, st, mkdiag(e, st, rs[0].fn(e, st)))))
    check_one(p, b, N, 'identity Diagram', DC, lambda e, st: e.instantiate(
        ClsV(DC), [], {'dom': T(e, st, 'D'), 'cod': T(e, st, 'D'), 'layers': e.new(st, ListO([]))}, st, None))


def trees(p, b, tier):
    TC = p.cls('text2diagram.ccg_tree.CCGTree')
    RC = p.cls('text2diagram.ccg_rule.CCGRule')
    YC = p.cls('text2diagram.ccg_type.CCGType')
    fj = TC.find_method('from_json')

    def typ(n):
        return Sym(n, ('cls', YC, True))

    def setup(e):
        # contract: CCGType.parse is the inverse of str (not analysed here)
        pf = YC.find_method('parse')
        if pf is None:
            return
        def parse(e, st, args, kw, node):
            v = e.res(args[-1], st)
            if isinstance(v, App) and v.op in ('tostr', 'str') and isinstance(v.args[0], Sym):
                return v.args[0]
            return NotImplemented
        e.intrinsics[pf.qual] = parse

    def node(e, st, rule, kids, text=None):
        return e.instantiate(ClsV(TC), [] if text is None else [text],
                             {'rule': rule, 'biclosed_type': typ('t_' + str(len(kids)) + (show(text) if text else '')),
                              'children': e.new(st, ListO(kids))}, st, None)
    rules = [n for n, x in RC.attrs.items() if x is not None and not n.startswith('_')]
    for n in rules:
        def mk(e, st, n=n, own=False):
            r = e.enum_member(RC, n)
            leaf = lambda t, s: node(e, s, e.enum_member(RC, 'LEXICAL'), [], Sym(t, ('str', 'ne')))
            for k in (2, 1, 0):
                s = st.fork()
                try:
                    if k == 0:
                        x = node(e, s, r, [], Sym('word', ('str', 'ne')))
                    else:
                        x = node(e, s, r, [leaf(f'w{i}', s) for i in range(k)],
                                 Sym('own', ('str', 'ne')) if own else None)
                except Raised:
                    continue
                st.become(s)
                return x
            raise Unsupported('no number of children accepted')
        for lab in ('from dict', 'twice', 'from text', 'text of its own'):
            e = b.engine('grammar')
            setup(e)

            def go(e, st, mk=mk, lab=lab):
                x = mk(e, st, own=lab == 'text of its own')
                j = meth(e, x, 'to_json', [], {}, st)
                dec = lambda j: e.call(e.getattr(ClsV(TC), 'from_json', st), [j], {}, st, None)
                if lab == 'twice':
                    dec(j)
                elif lab == 'from text':
                    e.intrinsics['json.loads'] = lambda e, st, args, kw, nd: e.copy_value(j, st, True)
                    return Tup([dec(App('jsontext', j, typ=('str',))), x])
                return Tup([dec(j), x])

            def chk(e, v, st, path):
                # what trees are compared by: the public attributes
                def view(x):
                    kids = e.items(e.getattr(x, 'children', st), st)
                    return Tup([e.getattr(x, 'rule', st), e.getattr(x, 'biclosed_type', st),
                                text(e.getattr(x, 'text', st)), Tup([view(k) for k in kids])])

                def text(t):
                    t = e.res(t, st)
                    if isinstance(t, Ite) and isinstance(t.c, App) and t.c.op == '==' and set(t.c.args) == {e.reify(t.a, st), e.reify(t.b, st)}:
                        return t.b      # the branches agree where the condition holds
                    return t
                return same(e, view(v.items[0]), view(v.items[1]), st)
            b.run('tree', f'CCGTree {n}: {lab}', fj.where, e, go, chk)


def categories(p, b, tier):
    """CCGType.parse and str are inverse.  Atom names are runs of characters
    that mean nothing to the parser (private-use code points)."""
    YC = p.cls('text2diagram.ccg_type.CCGType')
    pf = YC.find_method('parse')
    n = [0]

    def atom():
        n[0] += 1
        return K(''.join(chr(0xE000 + 3 * n[0] + i) for i in range(n[0] % 3 + 1)))
    shapes = [None]
    deep = [None]
    for _ in range(2 if tier == 'quick' else 3):
        prev = list(deep)
        deep = [None] + [(d, x, y) for d in '/\\' for x in prev for y in prev]
        if len(deep) > 900:
            break

    def build(e, st, s):
        if s is None:
            return e.instantiate(ClsV(YC), [atom()], {}, st, None)
        x, y = build(e, st, s[1]), build(e, st, s[2])
        return e.instantiate(ClsV(YC), [], {'result': x, 'direction': K(s[0]), 'argument': y}, st, None)

    def name(s):
        return 'a' if s is None else f'({name(s[1])}{s[0]}{name(s[2])})'
    for s in deep:
        n[0] = 0
        e = b.engine('grammar')

        def go(e, st, s=s):
            x = build(e, st, s)
            t = meth(e, x, '__str__', [], {}, st)
            return Tup([e.call(e.getattr(ClsV(YC), 'parse', st), [t], {}, st, None), x, t])

        def chk(e, v, st, path):
            y, x, t = v.items
            if not isinstance(t, K):
                return None, show(t)
            return same(e, y, x, st)
        b.run('category', name(s), pf.where, e, go, chk, strict=True)
