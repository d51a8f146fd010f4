"""C18: ansatz parameters are named apart and shared only by equal boxes."""
import ast
import itertools
from ..absint import Raised, Unsupported
from ..harness import *
from ..instances import same
from .c04 import Mk

TITLE = 'Ansatz parameters are named apart and shared only by equal boxes'


def A(s):
    """'nr s' -> [('n', 1), ('s', 0)]"""
    return [(x.rstrip('rl'), x.count('r') - x.count('l')) for x in s.split()]


def eng(b):
    e = b.engine('quantum', tyv=False, dg=False)
    e.np_lists = e.repr_on = True
    e.MAXSTEPS = 600000
    return e


def concrete(p, base):
    """Subclasses of `base` that define or inherit every abstract method, with no abstract one left."""
    out = []
    for c in [base] + base.all_subclasses():
        names = {n for k in c.mro() for n in k.methods}
        if not any((c.find_method(n) is not None and c.find_method(n).is_abstract) for n in names):
            out.append(c)
    return out


def symbols(e, v, st, seen=None, out=None):
    """Names of the Symbol objects reachable from v, through the layers, boxes and data."""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    v = e.res(v, st)
    if isinstance(v, Ref):
        if v in seen:
            return out
        seen.add(v)
        o = e.obj(st, v)
        if isinstance(o, InstO):
            if o.cls.name == 'Symbol':
                out.append(v)
            for x in o.fields.values():
                symbols(e, x, st, seen, out)
        elif isinstance(o, ListO):
            for x in o.items:
                symbols(e, x, st, seen, out)
        elif isinstance(o, DictO):
            for x in o.d.values():
                symbols(e, x, st, seen, out)
    elif isinstance(v, Tup):
        for x in v.items:
            symbols(e, x, st, seen, out)
    elif isinstance(v, (App, Lin)):
        for x in (v.args if isinstance(v, App) else [a for a, _ in v.t]):
            if isinstance(x, V):
                symbols(e, x, st, seen, out)
    return out


def names(e, v, st):
    out = []
    for s in symbols(e, e.getattr(v, 'boxes', st), st):
        n = e.res(e.getattr(s, 'name', st), st)
        if not isinstance(n, K):
            raise Unsupported(f'symbol name {show(n)}')
        out.append(n.v)
    return out


BOXES = [  # name, dom, cod
    ('w', '', 'n'), ('w', '', 's'), ('w', '', 'n s'), ('w', '', 'nr s nl'), ('w', 'n', 's'), ('w', 's', 'n n'), ('w', 'n n', 's'),
    ('w', 'n', 'n'), ('v', '', 'n'), ('w', '', 's n'), ('w', '', 'nr s'), ('w', 'nr', 's'), ('w', '', ''), ('w', '', 'nll s'),
    ('w', 'n n n', 's'),
]
LONG = [('w', '', 'nr s nl n'), ('w', '', 'n n s n n'), ('w', 'n s', 'n n n'), ('w', '', 'nr s'), ('v', '', 'nr s nl n'), ('w', '', 'nr s nl s'),
        ('w', 'nr', 's nl'), ('w', 'n', 's n'), ('w', '', 'n nr s nl')]


class Setup:
    """One ansatz with one choice of settings."""

    def __init__(self, p, cls, label, make, kind):
        self.p, self.cls, self.label, self.make, self.kind = p, cls, label, make, kind


def obmap(m, sizes, kind):
    d = {}
    for n, k in sizes.items():
        v = I(k)
        if kind == 'tensor':
            v = m.e.instantiate(ClsV(m.p.cls('backend.tensor.Dim')), [I(x) for x in k], {}, m.st, None)
        d[m.ty([(n, 0)])] = v
    return m.e.new(m.st, DictO(d))


def setups(p, tier):
    C = p.cls('ansatz.circuit.CircuitAnsatz')
    for c in concrete(p, C):
        own = [a.arg for a in c.find_method('__init__').node.args.args]
        for lab, sizes, kw in (('', dict(n=1, s=1), dict(n_layers=1)), ('2 qubits', dict(n=1, s=2), dict(n_layers=2)),
                               ('0 qubits', dict(n=1, s=0), dict(n_layers=1)), ('discard', dict(n=1, s=1), dict(n_layers=1, discard=True)),
                               ('1 parameter', dict(n=1, s=1), dict(n_layers=1, n_single_qubit_params=1)),
                               ('4 parameters', dict(n=1, s=1), dict(n_layers=1, n_single_qubit_params=4)),
                               ('no parameter', dict(n=1, s=1), dict(n_layers=0, n_single_qubit_params=0)),
                               ('ancilla', dict(n=1, s=1), dict(n_layers=1, n_ancillas=1)),
                               ('discard and 2 ancillas', dict(n=1, s=1), dict(n_layers=1, discard=True, n_ancillas=2)),
                               ('2 ancillas', dict(n=1, s=1), dict(n_layers=1, n_ancillas=2)),
                               ('ancillas by box', dict(n=1, s=1), dict(n_layers=1, n_ancillas='map')),
                               ('3 layers', dict(n=1, s=1), dict(n_layers=3))):
            if tier == 'quick' and lab in ('4 parameters', '3 layers') and c.name not in ('IQPAnsatz', 'Sim14Ansatz'):
                continue
            if tier == 'quick' and ('2 ancillas' in lab or 'by box' in lab) and c.name != 'IQPAnsatz':
                continue
            if not all(k in own for k in kw):
                continue

            def make(m, c=c, sizes=sizes, kw=kw):
                k = {i: K(x) if isinstance(x, bool) else I(x) for i, x in kw.items() if x != 'map'}
                if 'map' in kw.values():
                    k['n_ancillas'] = m.e.new(m.st, DictO({mkbox(m, BOXES[0]): I(1), mkbox(m, BOXES[5]): I(2), mkbox(m, BOXES[6]): I(1)}))
                return m.e.instantiate(ClsV(c), [obmap(m, sizes, 'circuit')], k, m.st, None)
            yield Setup(p, c, lab, make, 'circuit')
    T = p.cls('ansatz.tensor.TensorAnsatz')
    for c in concrete(p, T):
        own = [a.arg for a in c.find_method('__init__').node.args.args]
        opts = [{}]
        if 'bond_dim' in own:
            opts = [dict(bond_dim=4), dict(bond_dim=4, max_order=4)]
        elif 'max_order' in own:
            opts = [{}, dict(max_order=3)]
        for kw in opts:
            for left in ((True, False) if 'uncurry_left' in own else (None,)):
                for sizes in (dict(n=(2,), s=(3,)), dict(n=(2, 3), s=(2,))):
                    if (len(sizes['n']) > 1) and kw.get('max_order'):
                        continue

                    def make(m, c=c, sizes=sizes, kw=kw, left=left):
                        k = {i: I(x) for i, x in kw.items()}
                        if left is not None:
                            k['uncurry_left'] = K(left)
                        return m.e.instantiate(ClsV(c), [obmap(m, sizes, 'tensor')], k, m.st, None)
                    yield Setup(p, c, ' '.join([f'{a}={b}' for a, b in kw.items()] + (['uncurry right'] if left is False else [])
                                               + (['complex dimensions'] if len(sizes['n']) > 1 else [])), make, 'tensor')


def mkbox(m, spec):
    n, d, c = spec
    if not d:
        return m.word(n, A(c))
    return m.box(n, A(d), A(c))


def gmk(p, e, st):
    return Mk(p, e, st)


def lab(spec):
    n, d, c = spec
    return f'{n}: {d or "1"} -> {c or "1"}'


def run(p, ck, tier):
    b = Bench(p, ck)
    ck.rule('boundary', 'The image of a box has the domain and codomain that the type map gives the types of the box.')
    ck.rule('index', 'Within one box, every parameter is used, and parameters with different indices have different names.')
    ck.rule('share', 'Two occurrences of one box, in one diagram or in two calls or ansatz objects, have the same parameters, also when one occurrence is rotated.')
    ck.rule('apart', 'Boxes that differ in name, domain or codomain have no parameter in common.')
    ck.rule('size', 'The declared size of each tensor parameter is the size of the box it fills.')
    def job(s):
        boxes = BOXES if s.kind == 'circuit' else BOXES[:9] + LONG
        if tier == 'quick' and s.label not in ('', 'bond_dim=4'):
            boxes = [x for i, x in enumerate(boxes) if i % 3 == 0 or x[2] == '' or i == 5 or x[1] == 'n n n' and 'ancilla' in s.label
                     or x[2] == 'nr s nl' and not any(s.label.startswith(y) for y in ('2 q', '3 l', '4 p'))]
        where = (s.cls.find_method('_ar') or s.cls.find_method('__init__')).where
        got = {}
        for spec in boxes:
            one(p, b, ck, s, spec, where, got)
        apart(p, b, ck, s, boxes, where, got)
        if tier != 'quick' or s.label not in ('2 qubits', '3 layers', '4 parameters', 'no parameter', '2 ancillas', 'discard and 2 ancillas'):
            session(p, b, s, where, boxes, got)
        if tier != 'quick' or s.label in ('', 'ancilla', 'bond_dim=4', 'discard'):
            share(p, b, s, where, boxes)
    fork_map(ck, [(f'{s.cls.name} {s.label}', lambda s=s: job(s)) for s in setups(p, tier)])
    label(p, b, ck)
    ck.floor('boundary', 50)
    ck.floor('apart', 10)


def one(p, b, ck, s, spec, where, got):
    key = f'{s.cls.name} {s.label}: {lab(spec)}'.replace('  ', ' ').replace(' :', ':')
    done = []

    def go(e, st):
        if not done:
            m = gmk(p, e, st)
            a = s.make(m)
            bx = mkbox(m, spec)
            d = meth(e, bx, 'to_diagram', [], {}, st)
            r = e.call(a, [d], {}, st, None)
            f = e.getattr(a, 'functor', st)
            v = Tup([r, e.call(f, [m.ty(A(spec[1]))], {}, st, None), e.call(f, [m.ty(A(spec[2]))], {}, st, None), a])
            done.append((v, st.fork()))
        st.become(done[0][1].fork())
        return done[0][0]

    def bound(e, v, st, path):
        r, d, c, a = v.items
        for at, want in (('dom', d), ('cod', c)):
            ok, w = same(e, e.getattr(r, at, st), want, st, at)
            if ok is not True:
                return ok, w
        # against the type map itself
        om = e.obj(st, e.res(e.getattr(a, 'ob_map', st), st))
        sizes = {}
        for k, x in om.d.items():
            n = e.res(e.getattr(k, 'name', st), st).v
            x = e.res(x, st)
            sizes[n] = len(e.items(x, st, None)) if not isinstance(x, Lin) else x.const
        for at, t in (('dom', spec[1]), ('cod', spec[2])):
            n = len(e.items(e.getattr(r, at, st), st, None))
            w = sum(sizes[f] for f, _ in A(t))
            if n != w:
                return False, f'{at} has {n} wires, the type map gives {w}'
        return True, ''
    e = eng(b)
    b.run('boundary', key, where, e, go, bound)

    def idx(e, v, st, path):
        refs = symbols(e, e.getattr(v.items[0], 'boxes', st), st)
        ns = [e.res(e.getattr(r, 'name', st), st).v for r in refs]
        dup = {n for n in ns if ns.count(n) > 1}
        if dup:
            return False, f'two parameters are called {sorted(dup)[0]}'
        got[spec] = set(ns)
        if s.kind == 'circuit':
            m = len({x for x in ns})
            om = e.obj(st, e.res(e.getattr(v.items[3], 'ob_map', st), st))
            q = lambda t: len(e.items(e.getattr(v.items[0], t, st), st, None))
            anc = e.call(e.getattr(v.items[3], '_get_n_ancillas', st), [mkbox(gmk(p, e, st), spec)], {}, st, None)
            n = max(q('dom'), q('cod')) + e.res(anc, st).const
            if n == 0:
                want = 0
            elif n == 1:
                want = e.res(e.getattr(v.items[3], 'n_single_qubit_params', st), st).const
            else:
                sh = e.items(e.call(e.getattr(v.items[3], 'params_shape', st), [I(n)], {}, st, None), st, None)
                want = 1
                for x in sh:
                    want *= e.res(x, st).const
            if m != want:
                return False, f'{m} parameters occur in the circuit, {want} are declared'
        return True, ''
    b.run('index', key, where, e, go, idx)
    if s.kind == 'tensor':
        def size(e, v, st, path):
            for bx in e.items(e.getattr(v.items[0], 'boxes', st), st, None):
                sy = symbols(e, e.getattr(bx, 'data', st), st) if 'data' in e.obj(st, e.res(bx, st)).fields else []
                for x in sy:
                    n = 1
                    for at in ('dom', 'cod'):
                        n *= e.res(e.getattr(e.getattr(bx, at, st), 'product', st), st).const
                    k = e.res(e.getattr(x, 'size', st), st)
                    if k != I(n):
                        return False, f'parameter {show(e.getattr(x, "name", st))} has size {show(k)}, its box has {n} entries'
            return True, ''
        b.run('size', key, where, e, go, size)


def apart(p, b, ck, s, boxes, where, got):
    for x, y in itertools.combinations(boxes, 2):
        key = f'{s.cls.name} {s.label}: {lab(x)} / {lab(y)}'.replace('  ', ' ').replace(' :', ':')
        if x not in got or y not in got:
            ck.unknown('apart', key, where, 'parameters not known')
            continue
        both = sorted(got[x] & got[y])
        if both:
            # the pair and the parameter identify the violation, under whatever settings it occurs
            ck.add('apart', f'{s.cls.name}: {lab(x)} / {lab(y)}: {", ".join(both)}', False, where,
                   f'both boxes use the parameter {both[0]} ({s.label or "default settings"})')
        else:
            ck.ok('apart', key, where, f'{len(got[x])} and {len(got[y])} parameters')


def share(p, b, s, where, boxes):
    for spec in ([boxes[3], boxes[4]] if len(boxes) > 4 else boxes[:2]):
        n, d, c = spec
        key = f'{s.cls.name} {s.label}: {lab(spec)}'.replace('  ', ' ').replace(' :', ':')

        def go(e, st, spec=spec):
            m = gmk(p, e, st)
            a, a2 = s.make(m), s.make(m)
            f = lambda an, bx: e.call(an, [meth(e, bx, 'to_diagram', [], {}, st)], {}, st, None)
            at = meth(e, mkbox(m, spec), '__matmul__', [mkbox(m, spec)], {}, st)
            rot = meth(e, mkbox(m, spec), 'rotate', [I(2)], {}, st)
            rs = [f(a, mkbox(m, spec)), f(a, mkbox(m, spec)), f(a2, mkbox(m, spec)), e.call(a, [at], {}, st, None), f(a, rot),
                  f(a, meth(e, mkbox(m, spec), 'rotate', [I(1)], {}, st)), f(a, meth(e, mkbox(m, spec), 'rotate', [I(-1)], {}, st))]
            rs.append(f(a, meth(e, mkbox(m, spec), 'dagger', [], {}, st)))
            return Tup(rs)

        def chk(e, v, st, path):
            ns = [set(names(e, x, st)) for x in v.items]
            for i, lab_ in ((1, 'a second call'), (2, 'another ansatz object'), (3, 'a diagram with the box twice'), (4, 'an occurrence rotated twice'), (5, 'a rotated occurrence'),
                            (6, 'an occurrence rotated the other way'), (7, 'a dagger')):
                if ns[i] != ns[0]:
                    return False, f'{lab_} uses {sorted(ns[i] ^ ns[0])[:2]} differently'
            return True, ''
        b.run('share', key, where, eng(b), go, chk)


def session(p, b, s, where, boxes, got):
    """One ansatz object that has seen other boxes names the parameters of a box as a new one does."""
    pick = [x for x in boxes if x in got and got[x]][:4]
    if len(pick) < 2:
        return
    seq = pick + pick[:1]
    key = f'{s.cls.name} {s.label}: {len(pick)} boxes in a row'.replace('  ', ' ').replace(' :', ':')

    def go(e, st):
        m = gmk(p, e, st)
        a = s.make(m)
        return Tup([e.call(a, [meth(e, mkbox(m, x), 'to_diagram', [], {}, st)], {}, st, None) for x in seq])

    def chk(e, v, st, path):
        for x, r in zip(seq, v.items):
            n = set(names(e, r, st))
            if n != got[x]:
                return False, f'{lab(x)}: after other boxes it has the parameters {sorted(n)[:2]}, alone {sorted(got[x])[:2]}'
        return True, ''
    b.run('share', key, where, eng(b), go, chk)


def label(p, b, ck):
    """The label of a box, on its own: injective on name, domain and codomain."""
    B = p.cls('ansatz.base.BaseAnsatz')
    fn = B.find_method('_summarise_box')
    if fn is None:
        ck.unknown('apart', 'label', B.where, 'no _summarise_box')
        return
    specs = [(n, d, c) for n in ('w', 'v', 'w v', 'w,v', 'w_0') for d in ('', 'n', 'nl', 'n s') for c in ('', 's', 'sr', 'n s', 's n', 'srr')]
    seen = {}
    for sp in specs:
        e = eng(b)
        st = Store()
        try:
            m = gmk(p, e, st)
            r = e.res(e.call(FnV(fn), [mkbox(m, sp)] if sp[1] or True else [], {}, st, None), st)
        except (Unsupported, Raised) as x:
            ck.unknown('apart', f'label {lab(sp)}', fn.where, str(x))
            continue
        ck.functions |= e.analysed
        if not isinstance(r, K):
            ck.unknown('apart', f'label {lab(sp)}', fn.where, show(r))
            continue
        if r.v in seen:
            ck.add('apart', f'label {lab(sp)}', False, fn.where, f'the box has the label {r.v} of {lab(seen[r.v])}')
        else:
            seen[r.v] = sp
            ck.ok('apart', f'label {lab(sp)}', fn.where, r.v)
