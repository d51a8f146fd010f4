"""C22: diagram operations keep what is connected to what."""
import itertools
import os
import re
from ..absint import Raised, Unsupported
from ..harness import *
from ..project import Project
from .. import wiring
from ..wiring import Wiring
from . import c03
from .c14 import HERE, const, items, length
from .c15 import Mk as Mk15

TITLE = 'Diagram operations keep what is connected to what'

ONLY = os.environ.get('LINT_ONLY', '')


class Read:
    """Reads grammar diagrams out of the heap."""

    def __init__(self, e, st):
        self.e, self.st = e, st

    def at(self, v, name):
        return self.e.getattr(v, name, self.st)

    def items(self, v):
        return items(self.e, v, self.st)

    def const(self, v):
        return const(self.e, v, self.st)

    def names(self, v):
        return [c.name for c in self.e.class_of(v, self.st).mro()]

    def kinds(self, t):
        """[(adjoint order, atom)] of a type."""
        n = length(self.e, t, self.st)
        obs = [t] if n == 1 else self.items(self.at(t, 'objects')) if n else []
        return [(self.const(self.at(o, 'z')), self.const(self.at(o, 'name'))) for o in obs]

    def base(self, box):
        """(name, class, conjugate, reversed dom and cod exchanged, reversed order) of a box as it is drawn."""
        adj = False
        n = self.names(box)
        while 'Daggered' in n or 'DaggeredFrame' in n:
            adj, box = not adj, self.at(box, 'box' if 'Daggered' in n else 'frame')
            n = self.names(box)
        z = self.const(self.at(box, 'z')) % 2
        return self.const(self.at(box, 'name')), adj, z

    def apply(self, w, box, ins):
        n = self.names(box)
        cod = self.kinds(self.at(box, 'cod'))
        if 'Swap' in n:
            return wiring.swap(w, ins, 1)
        if 'Cup' in n:
            return wiring.cup(w, ins)
        if 'Cap' in n:
            return wiring.cap(w, cod[:1])
        if 'Spider' in n:
            return wiring.spider(w, ins, self.kinds(self.at(box, 'type')), len(cod))
        outs = [w.end(k[1]) for k in cod]
        name, adj, z = self.base(box)
        place(w, (name, adj != bool(z)), ins, outs, adj, z)
        return outs

    def diagram(self, d):
        """The wiring that the layers of `d` depict."""
        w = Wiring()
        if 'Diagram' not in self.names(d):
            d = meth(self.e, d, 'to_diagram', [], {}, self.st)
        now = self.kinds(self.at(d, 'dom'))
        ends = [w.end(k[1]) for k in now]
        w.inputs = list(ends)
        for i, layer in enumerate(self.items(self.at(d, 'layers'))):
            box = self.at(layer, 'box')
            l, b, c, r = (self.kinds(x) for x in (self.at(layer, 'left'), self.at(box, 'dom'), self.at(box, 'cod'), self.at(layer, 'right')))
            if now != l + b + r:
                w.problem = f'layer {i} takes {tell(l + b + r)}, but is given {tell(now)}'
                return w
            ends[len(l):len(l) + len(b)] = self.apply(w, box, ends[len(l):len(l) + len(b)])
            now = l + c + r
        if now != self.kinds(self.at(d, 'cod')):
            w.problem = f'its layers give {tell(now)}, its codomain is {tell(self.kinds(self.at(d, "cod")))}'
        w.outputs = list(ends)
        w.types = (self.kinds(self.at(d, 'dom')), now)
        return w


def tell(kinds):
    return ' '.join(f'{n}{".l" * -z}{".r" * z}' for z, n in kinds) or 'nothing'


def place(w, label, ins, outs, adj, z):
    """Adds a box; the legs of the box that it is the adjoint or conjugate of are in a fixed order."""
    if z:
        ins, outs = ins[::-1], outs[::-1]
    if adj:
        ins, outs = outs, ins
    dims = [w.dim[w.find(x)] for x in ins + outs]
    for a, b in zip(ins + outs, w.box(label + (len(ins),), dims)):
        w.join(a, b)


# -- reference operations on wirings ----------------------------------------
def both(*ws):
    """Side by side, without inputs and outputs; the maps of their ends."""
    out, maps = Wiring(), []
    for w in ws:
        off = len(out.parent)
        out.parent += [p + off for p in w.parent]
        out.dim += w.dim
        out.boxes += [(lab, [x + off for x in es]) for lab, es in w.boxes]
        out.problem = out.problem or w.problem
        maps.append(lambda xs, off=off: [x + off for x in xs])
    return out, maps


def tensor(*ws):
    out, ms = both(*ws)
    for w, m in zip(ws, ms):
        out.inputs += m(w.inputs)
        out.outputs += m(w.outputs)
    return out


def then(a, b):
    out, (f, g) = both(a, b)
    assert len(a.outputs) == len(b.inputs)
    out.inputs, out.outputs = f(a.inputs), g(b.outputs)
    for x, y in zip(f(a.outputs), g(b.inputs)):
        out.join(x, y)
    return out


def flip(lab):
    return (lab[0], not lab[1], *lab[2:])


def dagger(a):
    out, (f,) = both(a)
    out.inputs, out.outputs = f(a.outputs), f(a.inputs)
    out.boxes = [(flip(lab), es) for lab, es in out.boxes]
    return out


def rotate(a, z):
    out, (f,) = both(a)
    out.inputs, out.outputs = f(a.inputs), f(a.outputs)
    if z % 2:
        out.inputs, out.outputs = out.inputs[::-1], out.outputs[::-1]
        out.boxes = [(flip(lab), es) for lab, es in out.boxes]
    return out


def bend(a, ins, outs):
    """Other inputs and outputs; pairs (0, i) an input, (1, i) an output of `a`."""
    out, (f,) = both(a)
    get = lambda x: f((a.inputs, a.outputs)[x[0]])[x[1]]
    out.inputs, out.outputs = [get(x) for x in ins], [get(x) for x in outs]
    return out


def wires(names, ins, outs):
    """Plain wires: which of them each input and output is."""
    w = Wiring()
    es = [w.end(n) for n in names]
    w.inputs, w.outputs = [es[i] for i in ins], [es[i] for i in outs]
    return w


# -- building ----------------------------------------------------------------
class Mk(Mk15):
    def T(self, s):
        return self.ty(s.replace(',', ' '))

    def box(self, s):
        """'f:n,s>p', "f:n>s'" dagger, 'f:n>s~' right adjoint, 'f:n>s_' left adjoint, '!w:n,s' a word, 'cup:n,s>s.r,n.r',
        'cap:n>n.l', 'swap:n>s', 'sp:n:2:1', '#f:n>s' a frame."""
        for c, (m, a) in {"'": ('dagger', []), '~': ('rotate', [I(1)]), '_': ('rotate', [I(-1)])}.items():
            if s.endswith(c):
                return meth(self.e, self.box(s[:-1]), m, a, {}, self.st)
        k = s.split(':')
        if k[0][0] == '!':
            return self.new('Word', k[0][1:], self.T(k[1]))
        if k[0] == 'sp':
            return self.new('Spider', self.T(k[1]), int(k[2]), int(k[3]))
        d, c = k[1].split('>')
        if k[0] == 'swap':
            return self.new('Swap', self.T(d), self.T(c))
        if k[0] in ('cup', 'cap'):
            z = lambda x: x.count('.r') - x.count('.l')
            l, r = z(d.split(',')[0]), z(c.split(',')[-1])
            return self.new(k[0].title(), self.T(d), self.T(c), is_reversed=K((l != r - 1) if k[0] == 'cup' else (l != r + 1)))
        if k[0][0] == '#':
            return self.new('Frame', k[0][1:], self.T(d), self.T(c), components=self.lst([]))
        return self.new('Box', k[0], self.T(d), self.T(c))

    def drawn(self, text):
        """'n s | f:n>s@0 g:s>n@1', the domain before the bar."""
        dom, boxes = text.split('|')
        m = Read(self.e, self.st)
        ty = lambda ks: tell(ks) if ks else ''
        now, layers = m.kinds(self.T(dom)), []
        first = now
        for w in boxes.split():
            s, o = w.rsplit('@', 1)
            b, o = self.box(s), int(o)
            d, c = m.kinds(self.e.getattr(b, 'dom', self.st)), m.kinds(self.e.getattr(b, 'cod', self.st))
            assert now[o:o + len(d)] == d, (text, w, now, d)
            layers.append(self.layer(ty(now[:o]), b, ty(now[o + len(d):])))
            now = now[:o] + c + now[o + len(d):]
        return self.diagram(ty(first), ty(now), layers)


class Ops:
    def __init__(self, p, ck):
        self.p, self.ck = p, ck
        self.b = Bench(p, ck)

    def check(self, rule, key, where, go, ref=None, loops=True):
        """go(mk) -> diagram (and what ref needs); ref(read, values) -> wiring or (ok, message)."""
        e = self.b.engine('grammar', tyv=False, dg=False)
        e.repr_on = True
        e.MAXSTEPS *= 6

        def run(e, st):
            v = go(Mk(self.p, 'grammar', e, st))
            return Tup(list(v)) if isinstance(v, tuple) else Tup([v])

        def chk(e, v, st, path):
            m = Read(e, st)
            d, *rest = v.items
            w = m.diagram(d)
            if w.problem:
                return False, w.problem
            r = ref(m, w, *rest)
            if isinstance(r, tuple):
                return r
            if r.problem:
                raise Unsupported(r.problem)
            return (True, '') if w.same(r, loops) else (False, w.differs(r, loops))
        self.b.run(rule, key.replace('|', ':'), where, e, run, chk)

    def where(self, q):
        return self.p.func(q).where

    def cls(self, q, m):
        f = self.p.cls(q).find_method(m)
        return f.where if f else self.p.cls(q).where


G = 'backend.grammar.'


# -- composite boxes ----------------------------------------------------------
def special(o):
    tys = ['n', 'n s', 'n s p', 'n n', 'n.l s.r', 'n s n', 'n.r n n.l s']
    adj = lambda t, z: ' '.join(tell([(k.count('.r') - k.count('.l') + z, k.split('.')[0])]) for k in t.split()[::-1])
    names = lambda t: [k.split('.')[0] for k in t.split()]
    flat = lambda t: t.replace(' ', ',')
    for t in tys:
        n = len(t.split())
        nest = list(range(n)) + list(range(n))[::-1]
        for z in (1, -1):
            cup = lambda m, w, t=t, nest=nest: wires(names(t), nest, [])
            cap = lambda m, w, t=t, nest=nest: wires(names(t), [], nest)
            o.check('special', f'Cup {t}, {adj(t, z)}', o.cls(G + 'Cup', '__new__'), lambda mk, t=t, z=z: mk.box(f'cup:{flat(t)}>{flat(adj(t, z))}'), cup)
            o.check('special', f'Cap {t}, {adj(t, z)}', o.cls(G + 'Cap', '__new__'), lambda mk, t=t, z=z: mk.box(f'cap:{flat(t)}>{flat(adj(t, z))}'), cap)
            rev = K(z < 0)
            o.check('special', f'cups {t}, {adj(t, z)}', o.cls(G + 'Diagram', 'cups'), lambda mk, t=t, z=z, rev=rev:
                    mk.e.call(mk.e.getattr(ClsV(mk.cls('Diagram')), 'cups', mk.st), [mk.T(t), mk.T(adj(t, z)), rev], {}, mk.st, None), cup)
            o.check('special', f'caps {t}, {adj(t, z)}', o.cls(G + 'Diagram', 'caps'), lambda mk, t=t, z=z, rev=rev:
                    mk.e.call(mk.e.getattr(ClsV(mk.cls('Diagram')), 'caps', mk.st), [mk.T(t), mk.T(adj(t, z)), K(z > 0)], {}, mk.st, None), cap)
        for c, what in (('Cup', cup), ('Cap', cap)):
            for side in ('to_right', 'to_left'):
                for rev in (False, True):
                    def ref(m, w, t=t, nest=nest, side=side, c=c):
                        ns = names(t) if side == 'to_right' else names(t)[::-1]
                        return wires(ns, nest, []) if c == 'Cup' else wires(ns, [], nest)
                    o.check('special', f'{c}.{side} {t}{" reversed" if rev else ""}', o.cls(G + c, side), lambda mk, t=t, c=c, side=side, rev=rev:
                            mk.e.call(mk.e.getattr(ClsV(mk.cls(c)), side, mk.st), [mk.T(t)], {'is_reversed': K(rev)}, mk.st, None), ref)
        for i in (0, 1, 2, 3):
            for j in (0, 1, 2, 3):
                if n > 2 and i + j > 4:
                    continue
                o.check('special', f'Spider {t} {i} {j}', o.cls(G + 'Spider', '__new__'), lambda mk, t=t, i=i, j=j: mk.box(f'sp:{flat(t)}:{i}:{j}'),
                        lambda m, w, t=t, n=n, i=i, j=j: wires(names(t), list(range(n)) * i, list(range(n)) * j), loops=bool(i + j))
        for u in tys[:4]:
            k = len(u.split())
            ref = lambda m, w, t=t, u=u, n=n, k=k: wires(names(t) + names(u), list(range(n + k)), list(range(n, n + k)) + list(range(n)))
            o.check('special', f'Swap {t}, {u}', o.cls(G + 'Swap', '__new__'), lambda mk, t=t, u=u: mk.box(f'swap:{flat(t)}>{flat(u)}'), ref)
            o.check('special', f'swap {t}, {u}', o.cls(G + 'Diagram', 'swap'), lambda mk, t=t, u=u:
                    mk.e.call(mk.e.getattr(ClsV(mk.cls('Diagram')), 'swap', mk.st), [mk.T(t), mk.T(u)], {}, mk.st, None), ref)


# -- combinators --------------------------------------------------------------
DIAGRAMS = ['n |', 'n s | f:n>s,p@0', 'n s | f:n>s@0 g:s,s>n@0', "n | f:s>n'@0 g:p,q>s'@0", 'n.r s.r | f:s,n>p~@0', 'n s.r | f:s,n.l>p.l~@0 g:p>q,r@0', 'n s p | swap:n>s@0 f:n,p>q@1',
            'n s | cap:n>n.l@1 f:n,n>s,p@0', 'n n.r s | cup:n>n.r@0 f:s>s,n@0', 'n | sp:n:1:3@0 f:n,n>s@0', 'n s | !w:p,q@1 f:n,p>s@0 swap:s>q@0', "n s | !w:n,s'@0 !v:p,q@0",
            '| !w:n,s@0 !v:s.r,p@2 cup:s>s.r@1 f:n,p>q@0', 'n.l s | f:n>p,q_@0 g:q.l,p.l>r.l@0', 'n s p q | f:s>@1 g:>r@1 swap:r>p@1 swap:r>q@2',
            'n s | #f:n,s>p,q@0']


def combinators(o, deep):
    D = G + 'Diagram'
    wh = lambda m: o.cls(D, m)
    for t in DIAGRAMS + [one_type(x) for x in DIAGRAMS[1::3]]:
        for z in (-2, -1, 1, 2):
            o.check('combinator', f'rotate {z} of {t}', wh('rotate'), lambda mk, t=t, z=z: (meth(mk.e, x := mk.drawn(t), 'rotate', [I(z)], {}, mk.st), x),
                    lambda m, w, x, z=z: rotate(m.diagram(x), z))
        for a, z in (('l', -1), ('r', 1)):
            o.check('combinator', f'.{a} of {t}', wh(a), lambda mk, t=t, a=a: (mk.e.getattr(x := mk.drawn(t), a, mk.st), x),
                    lambda m, w, x, z=z: rotate(m.diagram(x), z))
        o.check('combinator', f'dagger of {t}', wh('dagger'), lambda mk, t=t: (meth(mk.e, x := mk.drawn(t), 'dagger', [], {}, mk.st), x), lambda m, w, x: dagger(m.diagram(x)))
        for left in (False, True):
            def ref(m, w, x):
                a = m.diagram(x)
                i, j = len(a.inputs), len(a.outputs)
                return bend(a, [(1, k) for k in reversed(range(j))], [(0, k) for k in reversed(range(i))])
            o.check('combinator', f'transpose{" left" if left else ""} of {t}', wh('transpose'), lambda mk, t=t, left=left: (meth(mk.e, x := mk.drawn(t), 'transpose', [K(left)], {}, mk.st), x), ref)
            for n in (1, 2):
                if n > len(t.split('|')[0].split()):
                    continue

                def ref(m, w, x, left=left, n=n):
                    a = m.diagram(x)
                    i, outs = len(a.inputs), [(1, k) for k in range(len(a.outputs))]
                    if left:
                        return bend(a, [(0, k) for k in range(i - n)], outs + [(0, k) for k in reversed(range(i - n, i))])
                    return bend(a, [(0, k) for k in range(n, i)], [(0, k) for k in reversed(range(n))] + outs)
                o.check('combinator', f'curry {n}{" left" if left else " right"} of {t}', wh('curry'), lambda mk, t=t, left=left, n=n: (meth(mk.e, x := mk.drawn(t), 'curry', [I(n)], {'left': K(left)}, mk.st), x), ref)
    pairs = [(a, b) for i, a in enumerate(DIAGRAMS) for j, b in enumerate(DIAGRAMS) if (i + 3 * j) % 8 == 0]
    for a, b in pairs:
        for how in ('tensor', '__matmul__'):
            o.check('combinator', f'{how} of {a} and {b}', wh('tensor'), lambda mk, a=a, b=b, how=how: (meth(mk.e, x := mk.drawn(a), how, [y := mk.drawn(b)], {}, mk.st), x, y),
                    lambda m, w, x, y: tensor(m.diagram(x), m.diagram(y)))
    for a, b, c in itertools.islice(zip(DIAGRAMS, DIAGRAMS[3:], DIAGRAMS[5:]), 8):
        o.check('combinator', f'tensor of {a} and {b} and {c}', wh('tensor'), lambda mk, a=a, b=b, c=c: (meth(mk.e, x := mk.drawn(a), 'tensor', [y := mk.drawn(b), z := mk.drawn(c)], {}, mk.st), x, y, z),
                lambda m, w, x, y, z: tensor(m.diagram(x), m.diagram(y), m.diagram(z)))
        o.check('combinator', f'then of {a}', wh('then'), lambda mk, a=a: (meth(mk.e, x := mk.drawn(a), 'then', [y := meth(mk.e, x, 'dagger', [], {}, mk.st), x], {}, mk.st), x, y),
                lambda m, w, x, y: then(then(m.diagram(x), m.diagram(y)), m.diagram(x)))
        for how, one in (('box', 'f:n>s,p'), ('word', '!w:n,s'), ('type', None)):
            o.check('combinator', f'tensor of {a} and a {how}', wh('tensor'), lambda mk, a=a, one=one: (meth(mk.e, x := mk.drawn(a), '__matmul__', [y := mk.box(one) if one else mk.T('n s')], {}, mk.st), x, meth(mk.e, y, 'to_diagram', [], {}, mk.st)),
                    lambda m, w, x, y: tensor(m.diagram(x), m.diagram(y)))
            if one:
                o.check('combinator', f'tensor of a {how} and {a}', o.cls(G + 'Box', '__matmul__'), lambda mk, a=a, one=one: (meth(mk.e, y := mk.box(one), '__matmul__', [x := mk.drawn(a)], {}, mk.st), x, y),
                        lambda m, w, x, y: tensor(m.diagram(y), m.diagram(x)))
    # permutations
    for n, atoms in [(n, x.split()) for n in range(5) for x in ('n s p q', 'n n n n', 'n s n s')]:
        for perm in itertools.permutations(range(n)):
            o.check('permutation', f'{" ".join(atoms[:n])} {list(perm)}', wh('permutation'), lambda mk, n=n, perm=perm, atoms=atoms:
                    mk.e.call(mk.e.getattr(ClsV(mk.cls('Diagram')), 'permutation', mk.st), [mk.ty(' '.join(atoms[:n])), mk.lst([I(i) for i in perm])], {}, mk.st, None),
                    lambda m, w, n=n, perm=perm, atoms=atoms: wires(atoms[:n], list(range(n)), list(perm)))
    for t in DIAGRAMS[:8]:
        for perm in ((2, 0, 1), (1, 2, 0), (1, 0), (0, 2, 1), (3, 1, 0, 2)):
            def ref(m, w, x, perm=perm):
                a = m.diagram(x)
                return bend(a, [(0, k) for k in range(len(a.inputs))], [(1, k) for k in perm])

            def go(mk, t=t, perm=perm):
                x = mk.drawn(t)
                k = len(Read(mk.e, mk.st).kinds(mk.e.getattr(x, 'cod', mk.st)))
                while k < len(perm):
                    x = meth(mk.e, x, '__matmul__', [mk.T('r')], {}, mk.st)
                    k += 1
                p = [i for i in perm if i < k] + list(range(len(perm), k))
                return meth(mk.e, x, 'permuted', [mk.lst([I(i) for i in p])], {}, mk.st), x
            o.check('permutation', f'{t} permuted by {list(perm)}', wh('permuted'), go, lambda m, w, x, perm=perm: ref(m, w, x, list(perm) + list(range(len(perm), len(m.diagram(x).outputs)))))
    # composition steps
    for a, one, i in (('n s p |', 'f:s>q,n', 1), ('n s p |', 'f:n>', 0), ('n s p |', 'g:>q', 3), ('n s | f:n>s,p@0', 'swap:p>s', 1), ('n s p q |', 'f:s,p>n', 1), ('n s p |', '!w:q,q', 0), ('n s p |', '!w:q,q', 2)):
        o.check('combinator', f'then_at {i} of {a} and {one}', wh('then_at'), lambda mk, a=a, one=one, i=i: (meth(mk.e, x := mk.drawn(a), 'then_at', [y := mk.box(one), I(i)], {}, mk.st), x, y),
                lambda m, w, x, y, i=i: at(m.diagram(x), m.diagram(y), i))
    fns = {'fa': ('n s', 'p q'), 'ba': ('n s', 'p q'), 'fc': ('n', 's p', 'q'), 'bc': ('n', 's p', 'q'), 'fx': ('n s', 'p q', 'r t'), 'bx': ('n s', 'p q', 'r t')}
    want = {     # names of the inputs, of the outputs; '*' wires joined to each other
        'fa': ('n s q p p q', 'n s'), 'ba': ('n s s n p q', 'p q'), 'fc': ('n p s s p q', 'n q'), 'bc': ('n s p p s q', 'n q'),
        'fx': ('n s q p t r p q', 't r n s'), 'bx': ('p q s n q p r t', 'r t s n')}
    for f, args in fns.items():
        ref = lambda m, w, f=f: pairs_of(*(x.split() for x in want[f]))
        o.check('combinator', f'{f} {args}', wh(f), lambda mk, f=f, args=args: mk.e.call(mk.e.getattr(ClsV(mk.cls('Diagram')), f, mk.st), [mk.ty(a) for a in args], {}, mk.st, None), ref)


def pairs_of(ins, outs):
    """Every name occurs twice in inputs and outputs: those two are joined."""
    names = sorted(set(ins + outs))
    return wires(names, [names.index(x) for x in ins], [names.index(x) for x in outs])


def at(a, b, i):
    n = len(b.inputs)
    out, (f, g) = both(a, b)
    o = f(a.outputs)
    for x, y in zip(o[i:i + n], g(b.inputs)):
        out.join(x, y)
    out.inputs, out.outputs = f(a.inputs), o[:i] + g(b.outputs) + o[i + n:]
    return out


def slices(o):
    """A diagram is the composition of its parts."""
    D = G + 'Diagram'
    for t in DIAGRAMS[1:] + [one_type(x) for x in DIAGRAMS[1:]]:
        n = len(t.split('|')[1].split())
        for k in range(n + 1):
            o.check('slice', f'parts at {k} of {t}', o.cls(D, '__getitem__'), lambda mk, t=t, k=k: (
                meth(mk.e, cut(mk, x := mk.drawn(t), None, k), 'then', [cut(mk, x, k, None)], {}, mk.st), x), lambda m, w, x: m.diagram(x))
        o.check('slice', f'reverse of {t}', o.cls(D, '__getitem__'), lambda mk, t=t: (cut(mk, x := mk.drawn(t), None, None, -1), x), lambda m, w, x: dagger(m.diagram(x)))
        for a, b in ((0, 1), (1, 2), (-1, None), (None, -1), (1, 1), (0, 9), (5, 9), (-9, 1)):
            o.check('slice', f'[{a}:{b}] of {t}', o.cls(D, '__getitem__'), lambda mk, t=t, a=a, b=b: (cut(mk, x := mk.drawn(t), a, b), mk_part(mk, t, *slice(a, b).indices(n)[:2], n)), lambda m, w, y: m.diagram(y))
        for a, b in ((1, None), (None, 0), (2, 0), (-1, -2), (0, None), (None, None)):
            def go(mk, t=t, a=a, b=b, n=n):
                x = mk.drawn(t)
                ks = list(range(n))[a:b:-1]
                lo, hi = (min(ks), max(ks) + 1) if ks else (0, 0)
                return cut(mk, x, a, b, -1), mk_part(mk, t, lo, hi, n)
            if list(range(n))[a:b:-1]:
                o.check('slice', f'[{a}:{b}:-1] of {t}', o.cls(D, '__getitem__'), go, lambda m, w, y: dagger(m.diagram(y)))
        for k in range(n):
            o.check('slice', f'[{k}] of {t}', o.cls(D, '__getitem__'), lambda mk, t=t, k=k, n=n: (mk.e.call(mk.e.getattr(mk.drawn(t), '__getitem__', mk.st), [I(k)], {}, mk.st, None), mk_part(mk, t, k, k + 1, n)), lambda m, w, y: m.diagram(y))
            o.check('slice', f'[{k - n}] of {t}', o.cls(D, '__getitem__'), lambda mk, t=t, k=k, n=n: (mk.e.call(mk.e.getattr(mk.drawn(t), '__getitem__', mk.st), [I(k - n)], {}, mk.st, None), mk_part(mk, t, k, k + 1, n)), lambda m, w, y: m.diagram(y))


def cut(mk, x, a, b, c=None):
    w = lambda i: None if i is None else I(i)
    return mk.e.slice(x, w(a), w(b), w(c), mk.st, None)


def mk_part(mk, text, i, j, n):
    """The layers i to j of a drawn diagram."""
    dom, boxes = text.split('|')
    bs = boxes.split()
    m = Read(mk.e, mk.st)
    now = m.kinds(mk.T(dom))
    for k, w in enumerate(bs[:max(i, j)]):
        if k == i:
            break
        s, o = w.rsplit('@', 1)
        b = mk.box(s)
        d, c = m.kinds(mk.e.getattr(b, 'dom', mk.st)), m.kinds(mk.e.getattr(b, 'cod', mk.st))
        now = now[:int(o)] + c + now[int(o) + len(d):]
    return mk.drawn((tell(now) if now else '') + ' | ' + ' '.join(bs[i:j]))


# -- normal forms -------------------------------------------------------------
SNAKES = ['n | cap:n.r>n@1 cup:n>n.r@0', 'n | cap:n>n.l@0 cup:n.l>n@1', 'n | cap:n.l>n@1 cup:n>n.l@0', 'n | cap:n>n.r@0 cup:n.r>n@1',
          'n s | cap:n.r>n@1 f:s>p@3 cup:n>n.r@0 g:n,p>q@0', 's n p | cap:n>n.l@1 f:s,n>q@0 cup:n.l>n@1 g:p>r,r@1', 's n p | cap:n>n.l@1 g:p>r,n@4 f:s,n>q@0 cup:n.l>n@1',
          's n p | cap:n>n.l@1 f:s>q@0 g:p>r@4 h:q,n>n@0 cup:n.l>n@1', 's n p | cap:n.r>n@2 f:s>q,q@0 g:p>r@5 h:n,r>s,s@4 cup:n>n.r@2 k:q,s>p@1',
          's n p | cap:n.r>n@2 f:s>@0 g:n,p>r@2 cup:n>n.r@0', 'n | cap:n.r>n@1 cap:n.r>n@3 cup:n>n.r@2 cup:n>n.r@0', 'n | cap:n>n.l@0 cap:n>n.l@0 cup:n.l>n@1 cup:n.l>n@1',
          'n | cap:n>n.l@0 f:n>s,p@0 cup:n.l>n@2', 'n | cap:n.r>n@1 f:n>s,p@2 cup:n>n.r@0', 'n | f:n>p,n@0 cap:n>n.l@1 h:p,n>q@0 cup:n.l>n@1', "n | cap:n.r>n@1 f:n>s@2 cap:s.r>s@1".replace(' cap:s.r>s@1', ' cap:s.l.l>s.l@1').replace(' cap:s.l.l>s.l@1', '') + ' cup:n>n.r@0',
          'n | cap:n.r>n@1 f:n>s@2 cap:s>s.l@3 cup:n>n.r@0 cup:s.l>s@1'.replace('cap:s>s.l@3 cup:n>n.r@0 cup:s.l>s@1', 'cap:s.r>s@3 cup:s>s.r@2 cup:n>n.r@0'),
          'n s | f:n>s@0 cap:p>p.l@1 g:s,p>q@0 cup:s>s.r@2'.replace('cup:s>s.r@2', 'h:p.l,s>r@1'), 'n s p | cap:n.r>n@1 cap:s.r>s@4 cup:s>s.r@3 cup:n>n.r@0', 'n.l n n | cap:n.r>n@3 cup:n>n.r@2 cup:n.l>n@0',
          'n s | cap:s.r>s@2 swap:n>s@0 cup:s>s.r@0'.replace('swap:n>s@0 cup:s>s.r@0', 'cup:s>s.r@1 f:n,s>p@0'), '| !a:n@0 !b:n.r,s@1 cap:s>s.l@3 cup:n>n.r@0 cup:s.l>q@2'.replace(' cap:s>s.l@3 cup:n>n.r@0 cup:s.l>q@2', ' cap:s.r>s@3 cup:n>n.r@0 cup:s>s.r@0')]
TWISTED = ['n.r | cap:n>n.l@1 cup:n.r>n@0', 'n.l | cap:n.r>n@0 cup:n>n.l@1', 'n | cap:n.r>n.r.r@0 cup:n.r.r>n@1'.replace('cap:n.r>n.r.r@0 cup:n.r.r>n@1', 'cap:n.l.l>n.l@0 cup:n.l>n@1')]
PLAIN = ['n s | f:n>n@0 g:s>s@1', 'n s | g:s>s@1 f:n>n@0', 'n s | g:s>p@1 f:n>q@0 h:q,p>r@0', 'n s p | f:p>q@2 g:s>r@1 h:n>s@0 k:s,r,q>n@0', '| !a:n@0 !b:s@1 f:n,s>p@0', '| !a:n@0 !b:n.r,s,n.l@1 !c:n@4 cup:n.l>n@3 cup:n>n.r@0',
         '| !a:n@0 !b:n.r,s,n.l@1 cup:n>n.r@0 !c:n@2 cup:n.l>n@1', 'n s p | swap:s>p@1 swap:n>p@0 f:n,s>q@1', 'n s | f:n,s>p@0 g:p>q@0', 'n | sp:n:1:2@0 f:n>s@0 g:n>p@1 h:s,p>q@0', 'n s | g:s>p,p@1 f:n,p>q@0 h:p>s@1 k:q,s>r@0',
         '| !a:n,s@0 !b:s.r,p@2 !c:p.r,q@4 cup:s>s.r@1 cup:p>p.r@1']
PREGROUP = ['| !a:n@0 !b:n.r,s,n.l@1 !c:n@4 cup:n>n.r@0 cup:n.l>n@1', '| !a:n@0 !b:n.r,s,n.l@1 !c:n@4 cup:n.l>n@3 cup:n>n.r@0', '| !a:n@0 !b:n.r,s,n.l,n.l@1 !c:n@5 !d:n@6 cup:n.l>n@4 cup:n.l>n@3 cup:n>n.r@0',
            '| !a:n@0 !b:n.r,s,p.l@1 !c:p,n.l@4 !d:n@6 cup:p.l>p@3 cup:n.l>n@3 cup:n>n.r@0', '| !a:n@0 !b:s,p@1 !c:p.r,s.r,q@3 cup:p>p.r@2 cup:s>s.r@1', '| !a:s,p@0 !b:p.r,s.r@2 cup:p>p.r@1 cup:s>s.r@0',
            '| !a:s.l,p.l@0 !b:p,s@2 cup:p.l>p@1 cup:s.l>s@0', '| !a:n@0 !b:n.r,s,n.l@1 !c:n@4 !d:s.r,s@5 cup:n>n.r@0 cup:n.l>n@1 cup:s>s.r@0', '| !a:n@0 !b:s.r.r,s.r@1 cup:s.r.r>s.r@1'.replace('cup:s.r.r>s.r@1', 'cup:s.r.r>s.r@1'),
            '| !a:n@0 !b:n.r,s@1 !c:q@3 swap:s>q@2 cup:n>n.r@0', '| !a:n@0 !b:p,q@1 !c:n.r,s@3 swap:q>n.r@2 swap:p>n.r@1 cup:n>n.r@0', '| !a:n@0 !b:n.r,s@1 f:s>p,q@2 cup:n>n.r@0', '| !a:n,s@0 !b:p@2 !c:p.r,s.r,q@3 cup:p>p.r@2 cup:s>s.r@1',
            '| !a:n,p@0 !b:p.r,n.r@2 cup:p>p.r@1 cup:n>n.r@0 !c:s@0', '| !a:n@0 !b:n.r,s,q.l@1 !c:q,n.l,s.r@4'.replace('q,n.l,s.r@4', 'q,r@4') + ' cup:n>n.r@0 cup:q.l>q@1', 'n | !b:n.r,s@1 cup:n>n.r@0', 's | !b:n@1 f:s,n>p@0 !c:p.r,q@1 cup:p>p.r@0',
            '| !a:n@0 !b:n.r@1 cup:n>n.r@0 !c:s@0 !d:s.r,p@1 cup:s>s.r@0', '| !a:n@0 !b:n.r,n.r.r@1 !c:n.r@3'.replace('!c:n.r@3', '!c:n.r.r.r,s@3') + ' cup:n>n.r@0 cup:n.r.r>n.r.r.r@0', '| !a:n.l@0 !b:n,s@1 cup:n.l>n@0',
            '| !a:n.r,s@0 !b:n@0 cup:n>n.r@0', '| !a:n@0 !b:n.l@1 cup:n>n.l@0', '| !a:n,s@0 !b:s.l,n.l@2 cup:s>s.l@1 cup:n>n.l@0',
            '| !a:n,s@0 !b:s.r,p@2 !c:p.r,q@4 cup:s>s.r@1 cup:p>p.r@1', '| !a:n,s@0 !b:s.r,p@2 !c:p.r,q@4 cup:p>p.r@3 cup:s>s.r@1', '| !a:r,n,s,p@0 !b:p.r,s.r,n.r,q@4 cup:p>p.r@3 cup:s>s.r@2 cup:n>n.r@1',
            '| !a:r,n,s@0 !b:s.r,p@3 !c:p.r,n.r,q@5 cup:p>p.r@4 cup:s>s.r@2 cup:n>n.r@1', '| !a:r,n,s@0 !b:s.r,n.r,p@3 !c:p.r,q@6 cup:s>s.r@2 cup:n>n.r@1 cup:p>p.r@1', '| !a:n@0 !b:n.r,s,p@1 !c:p.r,s.r,q@4 cup:p>p.r@3 cup:s>s.r@2 cup:n>n.r@0']


def one_type(t):
    """The drawn diagram with every atom the same."""
    dom, boxes = t.split('|')
    out = []
    for w in boxes.split():
        b, at = w.rsplit('@', 1)
        i = b.index(':')
        tail = re.search(r"[~'_]*$", b[i:]).group()
        body = b[i + 1:len(b) - len(tail)]
        out.append(b[:i + 1] + re.sub(r'[a-z]+(?![a-z])(?<!\.l)(?<!\.r)', 'n', body) + tail + '@' + at)
    return ' '.join(re.sub(r'^[a-z]+', 'n', x) for x in dom.split()) + ' | ' + ' '.join(out)


def normal(o):
    D = G + 'Diagram'
    for t in SNAKES + TWISTED + PLAIN + PREGROUP + [one_type(x) for x in SNAKES + PLAIN + PREGROUP]:
        for how, kw in (('normal_form', {}), ('normal_form', {'left': True}), ('remove_snakes', {}), ('remove_snakes', {'left': True}), ('pregroup_normal_form', {})):
            if how == 'remove_snakes' and 'cap:' not in t or how.startswith('pregroup') and '!' not in t and t not in SNAKES[:4]:
                continue

            def ref(m, w, x, t=t, d=None):
                return m.diagram(x)

            def go(mk, t=t, how=how, kw=kw):
                x = mk.drawn(t)
                return meth(mk.e, x, how, [], {k: K(v) for k, v in kw.items()}, mk.st), x
            o.check('normal', f'{how}{" left" if kw else ""} of {t}', o.cls(D, how), go, ref)
    for t in SNAKES:
        def ref(m, w, x):
            bad = [n for n in (m.names(m.at(y, 'box')) for y in m.items(m.at(x, 'layers'))) if 'Cap' in n]
            cups = sum('Cap' in m.names(m.at(y, 'box')) for y in m.items(m.at(x, 'layers')))
            return (False, f'{cups} caps remain') if cups > t_caps[0] else (True, '')
        t_caps = [1 if 'h:p.l' in t or False else 0]
        o.check('straight', t, o.cls(D, 'normal_form'), lambda mk, t=t: (y := meth(mk.e, mk.drawn(t), 'normal_form', [], {}, mk.st), y), ref)


# -- rewriting ----------------------------------------------------------------
def rewriting(o):
    RD = 'rewrite.rewrite_diagram.'
    for t in PREGROUP + PLAIN + SNAKES[4:8] + [one_type(x) for x in PREGROUP + PLAIN]:
        def go(mk, t=t):
            x = mk.drawn(t)
            r = mk.e.instantiate(ClsV(mk.p.cls(RD + 'RemoveCupsRewriter')), [], {}, mk.st, None)
            return mk.e.call(r, [x], {}, mk.st, None), x
        o.check('rewrite', f'RemoveCups of {t}', o.cls(RD + 'RemoveCupsRewriter', 'rewrite'), go, lambda m, w, x: m.diagram(x))
    for t in PREGROUP[:6]:
        def go(mk, t=t):
            x = mk.drawn(t)
            r = mk.e.instantiate(ClsV(mk.p.cls(RD + 'UnifyCodomainRewriter')), [mk.T('r')], {}, mk.st, None)
            return mk.e.call(r, [x], {}, mk.st, None), x

        def ref(m, w, x):
            a = m.diagram(x)
            f = Wiring()
            f.inputs = [f.end(a.dim[a.find(y)]) for y in a.outputs]
            f.outputs = [f.end('r')]
            place(f, (w.boxes[-1][0][0], False), f.inputs, f.outputs, False, 0)
            return then(a, f)
        o.check('rewrite', f'UnifyCodomain of {t}', o.cls(RD + 'UnifyCodomainRewriter', 'rewrite'), go, ref)
    # one box
    RB = 'rewrite.base.'

    def rule(name, *a):
        def mkr(mk):
            return mk.e.instantiate(ClsV(mk.p.cls(RB + name)), [K(x) for x in a], {}, mk.st, None)
        return mkr

    for dom, cod in (('', 'n.r s n.l'), ('', 'n.r s.r p q n.l.l s.l'), ('', 's n.l'), ('', 'n.r s'), ('p', 'n.r s n.l'), ('p q', 'n.r s.r r n.l'), ('p', 's n.l s.l'), ('p q', 's'), ('', 'n.r p.l'), ('', 'n.r n.r n n n.l n.l'), ('n n', 'n.r n.r n n.l n.l'), ('p', 'n.r'), ('', 's n.r p.l q')):
        def ref(m, w, dom=dom, cod=cod):
            ds, cs = dom.split(), cod.split()
            i = next((k for k, x in enumerate(cs) if not x.endswith('.r')), len(cs))
            j = len(cs)
            while j > i and cs[j - 1].endswith('.l'):
                j -= 1
            a = Wiring()
            a.inputs = [a.end(x.split('.')[0]) for x in ds]
            a.outputs = [a.end(x.split('.')[0]) for x in cs]
            place(a, ('w', False), a.outputs[:i][::-1] + a.inputs + a.outputs[j:][::-1], a.outputs[i:j], False, 0)
            return a
        o.check('rewrite', f'curry of w: {dom or "nothing"} > {cod}', o.cls(RB + 'CurryRewriteRule', 'rewrite'), lambda mk, dom=dom, cod=cod:
                mk.e.call(mk.e.instantiate(ClsV(mk.p.cls(RB + 'Rewriter')), [mk.lst([rule('CurryRewriteRule')(mk)])], {}, mk.st, None), [mk.new('Box', 'w', mk.ty(dom), mk.ty(cod))], {}, mk.st, None), ref)
    for dom, cod in (('n', 's'), ('n s', 'p q'), ('n n', 'n n'), ('n.l s p.r', 'q'), ('n', '')):
        for left in (True, False):
            def ref(m, w, dom=dom, cod=cod, left=left):
                a = Wiring()
                a.inputs = [a.end(x.split('.')[0]) for x in dom.split()]
                a.outputs = [a.end(x.split('.')[0]) for x in cod.split()]
                place(a, ('w', False), [], a.inputs[::-1] + a.outputs if left else a.outputs + a.inputs[::-1], False, 0)
                return a
            o.check('rewrite', f'collapse {"left" if left else "right"} of w: {dom} > {cod or "nothing"}', o.cls(RB + 'CollapseDomainRewriteRule', 'rewrite'), lambda mk, dom=dom, cod=cod, left=left:
                    mk.e.call(rule('CollapseDomainRewriteRule', left)(mk), [mk.new('Box', 'w', mk.ty(dom), mk.ty(cod))], {}, mk.st, None), ref)
    # the rules for words: groups of outputs that are joined; '!' those of the word, in order
    rules = [('connector', 'and', 's s.l', ['01'], ''), ('determiner', 'the', 'n n.l', ['01'], ''), ('auxiliary', 'is', 'n.r s s.l n', ['03', '12'], ''),
             ('postadverb', 'fast', 's.r n.r.r n.r s', ['12'], '03'), ('preadverb', 'very', 'n.r s s.l n', ['03'], '12'), ('prepositional_phrase', 'on', 's.r n.r.r n.r s n.l', ['12'], '034'),
             ('object_rel_pronoun', 'that', 'n.r n n.l.l s.l', ['012'], ''), ('subject_rel_pronoun', 'that', 'n.r n s.l n', ['013'], ''),
             ('coordination', 'and', 'n.r n n.l'.replace('n.r n n.l', 'n.r n n.l'), ['012'], ''), ('coordination', 'and', 'n.r s.r s n n.l s.l'.replace('n.r s.r s n n.l s.l', 's.r n.r n s s.l n.l'), ['035'.replace('035', '034'), '125'], '')]
    for name, word, cod, joined, own in rules:
        def ref(m, w, cod=cod, joined=joined, own=own, word=word):
            a = Wiring()
            a.outputs = [a.end(x.split('.')[0]) for x in cod.split()]
            for g in joined:
                a.join(*(a.outputs[int(i)] for i in g))
            if own:
                place(a, (word, False), [], [a.outputs[int(i)] for i in own], False, 0)
            return a

        def go(mk, name=name, word=word, cod=cod):
            r = mk.e.instantiate(ClsV(mk.p.cls(RB + 'Rewriter')), [mk.lst([K(name)])], {}, mk.st, None)
            return mk.e.call(r, [mk.new('Word', word, mk.ty(cod))], {}, mk.st, None)
        if name == 'coordination' and len(cod.split()) == 3:
            ref = lambda m, w: wires(['n'], [], [0, 0, 0])
        o.check('rewrite', f'{name} of {word}: {cod}', o.p.cls(RB + 'Rewriter').where, go, ref)
    # a rewriter replaces boxes and nothing else
    for t in PREGROUP[:8] + [one_type(x) for x in PREGROUP[:8]]:
        def go(mk, t=t):
            x = mk.drawn(t)
            r = mk.e.instantiate(ClsV(mk.p.cls(RB + 'Rewriter')), [mk.lst([rule('CurryRewriteRule')(mk)])], {}, mk.st, None)
            return mk.e.call(r, [x], {}, mk.st, None), x

        def ref(m, w, x):
            a = m.diagram(x)
            out, (f,) = both(a)
            out.inputs, out.outputs = f(a.inputs), f(a.outputs)
            boxes = []
            for k, (lab, es) in enumerate(out.boxes):
                box = m.at(m.items(m.at(x, 'layers'))[k], 'box') if k < len(m.items(m.at(x, 'layers'))) else None
                boxes.append((lab, es))
            out.boxes = [(lab, es) if lab[2] else curried(m, x, lab, es) for lab, es in out.boxes]
            return out
        o.check('rewrite', f'curry of {t}', o.p.cls(RB + 'Rewriter').where, go, ref)


def curried(m, x, lab, es):
    for layer in m.items(m.at(x, 'layers')):
        b = m.at(layer, 'box')
        if 'Word' in m.names(b) and m.const(m.at(b, 'name')) == lab[0]:
            zs = [z for z, _ in m.kinds(m.at(b, 'cod'))]
            if not (zs[0] or zs[-1]):
                return lab, es
            i = next((k for k, z in enumerate(zs) if z <= 0), len(zs))
            j = len(zs)
            while j > i and zs[j - 1] < 0:
                j -= 1
            ins = es[:i][::-1] + es[j:][::-1]
            return lab[:2] + (len(ins),), ins + es[i:j]
    return lab, es


# -- pregroup diagrams, readers ------------------------------------------------
def pregroup(o):
    D = G + 'Diagram'
    C, S = 'Cup', 'Swap'
    cases = [(['n', 'n.r s n.l', 'n'], [(C, 0, 1), (C, 3, 4)]), (['n', 'n.r s n.l', 'n'], [(C, 3, 4), (C, 0, 1)]), (['n', 'n.r s n.l n.l', 'n', 'n'], [(C, 4, 5), (C, 3, 6), (C, 0, 1)]),
             (['n s', 's.r p', 'p.r n.r q'], [(C, 1, 2), (C, 3, 4), (C, 0, 5)]), (['n', 's'], []), ([], []), (['n', 'n.r s', 's.r p', 'p.r q'], [(C, 0, 1), (C, 2, 3), (C, 4, 5)]),
             (['n', 'n.r s', 's.r p', 'p.r q'], [(C, 4, 5), (C, 0, 1), (C, 2, 3)]), (['n', 'p q', 'q.r'], [(C, 2, 3), (S, 0, 1)]), (['n', 'n.r p', 'q s', 's.r'], [(C, 0, 1), (C, 4, 5), (S, 2, 3)]),
             (['n p q', 'q.r p.r', 's'], [(C, 2, 3), (C, 1, 4), (S, 0, 5)]), (['n', 'n.r s', 'q', 's.r'], [(C, 0, 1), (S, 3, 4), (C, 2, 4)])]
    for words, mors in cases:
        atoms = [a for w in words for a in w.split()]

        def go(mk, words=words, mors=mors):
            ws = [mk.new('Word', f'w{i}', mk.ty(w)) for i, w in enumerate(words)]
            ms = [Tup([ClsV(mk.cls(c)), I(i), I(j)]) for c, i, j in mors]
            return mk.e.call(mk.e.getattr(ClsV(mk.cls('Diagram')), 'create_pregroup_diagram', mk.st), [mk.lst(ws), mk.lst(ms)], {}, mk.st, None)

        def ref(m, w, words=words, mors=mors, atoms=atoms):
            a = Wiring()
            es, used = [], set()
            for i, x in enumerate(words):
                b = a.box((f'w{i}', False, 0), [k.split('.')[0] for k in x.split()])
                es += b
            order = list(range(len(es)))
            for c, i, j in mors:
                x, y = order.index(i), order.index(j)
                assert abs(x - y) == 1
                if c == S:
                    order[x], order[y] = order[y], order[x]
                else:
                    a.join(es[i], es[j])
                    order = [k for k in order if k not in (i, j)]
            a.outputs = [es[k] for k in order]
            return a
        o.check('pregroup', ' + '.join(words) + ' ' + ' '.join(f'{c} {i} {j}' for c, i, j in mors), o.cls(D, 'create_pregroup_diagram'), go, ref)


def readers(o):
    T = 'text2diagram.'
    mod = lambda e, st, m, n: e.module_value(n, e.p.modules[[k for k in e.p.modules if k.endswith(m)][0]], st)
    for n in range(1, 6):
        words = [f'w{i}' for i in range(n)]

        def chain(m, w, words=words):
            a = Wiring()
            prev = a.box(('START', False, 0), ['s'])[0]
            for x in words:
                l, r = a.box((x, False, 0), ['s', 's'])
                a.join(prev, l)
                prev = r
            a.outputs = [prev]
            return a

        def stairs(m, w, words=words):
            a = Wiring()
            prev = None
            for x in words:
                y = a.box((x, False, 0), ['s'])[0]
                if prev is None:
                    prev = y
                else:
                    p, q, r = a.box(('STAIR', False, 2), ['s', 's', 's'])
                    a.join(prev, p)
                    a.join(y, q)
                    prev = r
            a.outputs = [prev]
            return a

        def bag(m, w, words=words):
            a = Wiring()
            es = [a.box((x, False, 0), ['s'])[0] for x in words]
            a.join(*es)
            a.outputs = es[:1]
            return a
        for file, name, ref in (('linear_reader', 'cups_reader', chain), ('linear_reader', 'stairs_reader', stairs), ('spiders_reader', 'spiders_reader', bag)):
            for tok in (False, True):
                def go(mk, file=file, name=name, tok=tok, words=words):
                    r = mod(mk.e, mk.st, T + file, name)
                    arg = mk.lst([K(x) for x in words]) if tok else K(' '.join(words))
                    return meth(mk.e, r, 'sentence2diagram', [arg], {'tokenised': K(tok)}, mk.st)
                o.check('reader', f'{name} of {n} words{" tokenised" if tok else ""}', o.p.modules[[k for k in o.p.modules if k.endswith(T + file)][0]].path, go, ref)
    # trees of boxes
    leaf = lambda c: ('leaf', c)
    f, b = c03.F, c03.B
    cases = [('FORWARD_APPLICATION', 'a', [leaf(f('a', 'b')), leaf('b')]),
             ('BACKWARD_APPLICATION', 's', [leaf('n'), ('FORWARD_APPLICATION', b('s', 'n'), [leaf(f(b('s', 'n'), 'n')), leaf('n')])]),
             ('BACKWARD_APPLICATION', 's', [('FORWARD_APPLICATION', 'n', [leaf(f('n', 'p')), leaf('p')]), ('BACKWARD_COMPOSITION', b('s', 'n'), [leaf(b('s', 'n')), leaf(b('s', 's'))])])]
    TR = o.p.cls(T + 'tree_reader.TreeReader')
    for k, t in enumerate(cases):
        for mode in ('NO_TYPE', 'RULE_ONLY', 'RULE_TYPE', 'HEIGHT'):
            def go(mk, t=t, mode=mode):
                m = c03.Maker(mk.p, mk.e, mk.st)
                tree = m.tree(t, [])
                M = ClsV(mk.p.cls(T + 'tree_reader.TreeReaderMode'))
                return mk.e.call(mk.e.getattr(ClsV(TR), 'tree2diagram', mk.st), [tree, mk.e.getattr(M, mode, mk.st), mk.T('q')], {}, mk.st, None)

            def ref(m, w, t=t, mode=mode):
                a, n = Wiring(), [0]

                def build(t):
                    if t[0] == 'leaf':
                        n[0] += 1
                        return a.box((f'w{n[0]}', False, 0), ['q'])[0], 0
                    subs = [build(x) for x in t[2]]
                    h = 1 + max(x[1] for x in subs)
                    es = a.box((t[0] if mode != 'HEIGHT' else f'layer_{h}', False, len(subs)), ['q'] * (len(subs) + 1))
                    for x, y in zip(subs, es):
                        a.join(x[0], y)
                    return es[-1], h
                a.outputs = [build(t)[0]]
                if mode in ('RULE_ONLY', 'RULE_TYPE', 'NO_TYPE'):      # the names are not part of this property
                    for x in (a, w):
                        x.boxes = [((lab[0] if lab[2] == 0 else 'node', *lab[1:]), es) for lab, es in x.boxes]
                return a
            o.check('reader', f'tree {k} {mode}', TR.find_method('tree2diagram').where, go, ref)


# -- CCG ------------------------------------------------------------------------
def tags(c, sub):
    """The wires of a category over metavariables: (metavariable, index)."""
    if isinstance(c, str):
        if c in sub:
            return [(c, k) for k in range(len(c03.free(sub[c])))]
        return [] if c == 'punc' else [(c, 0)]
    d, r, a = c
    r, a = tags(r, sub), tags(a, sub)[::-1]
    return r + a if d == '/' else a + r


def atoms(c, sub):
    """Names of the wires of `tags`."""
    if isinstance(c, str):
        return [n for n, _ in c03.free(sub.get(c, c))] if c != 'punc' else []
    d, r, a = c
    r, a = atoms(r, sub), atoms(a, sub)[::-1]
    return r + a if d == '/' else a + r


def rule_wiring(dom, cod, sub):
    ins, outs = [t for x in dom for t in tags(x, sub)], tags(cod, sub)
    an = [n for x in dom for n in atoms(x, sub)] + atoms(cod, sub)
    ids, w = {}, Wiring()
    ends = []
    for t, n in zip(ins + outs, an):
        if t not in ids:
            ids[t] = w.end(n)
        ends.append(ids[t])
    w.inputs, w.outputs = ends[:len(ins)], ends[len(ins):]
    return w


def match(pattern, c, sub):
    """Extends sub so that the pattern is c; None if it cannot be."""
    if isinstance(pattern, str):
        if pattern in c03.META:
            if pattern in sub:
                return sub if sub[pattern] == c else None
            return dict(sub, **{pattern: c})
        return sub if pattern == c else None
    if isinstance(c, str) or pattern[0] != c[0]:
        return None
    sub = match(pattern[1], c[1], sub)
    return None if sub is None else match(pattern[2], c[2], sub)


def tree_wiring(t, n):
    """The wiring of a derivation; n counts the leaves."""
    if t[0] == 'leaf':
        n[0] += 1
        w = Wiring()
        if t[1] == 'punc':
            return w
        fs = c03.free(t[1])
        w.outputs = w.box((f'w{n[0]}', False, 0), [x for x, _ in fs])
        return w
    name, cat, ch = t
    cats = [x[1] for x in ch]
    if name == 'CONJUNCTION':
        i = 0 if cats[0] in ('conj', 'punc') else 1
        other = cats[1 - i]
        conj = c03.F(cat, other) if i == 0 else c03.B(cat, other)
        ch = [(x[0], conj) if k == i else x for k, x in enumerate(ch)]
        cats = [x[1] for x in ch]
        schemas = [('', [c03.F('X', 'Y'), 'Y'], 'X')] if i == 0 else [('', ['Y', c03.B('X', 'Y')], 'X')]
    else:
        schemas = c03.SCHEMAS[name]
    for _, d, c in schemas:
        sub = {} if len(d) == len(cats) else None
        for x, y in list(zip(d, cats)) + [(c, cat)]:
            sub = None if sub is None else match(x, y, sub)
        if sub is not None:
            return then(tensor(*(tree_wiring(x, n) for x in ch)), rule_wiring(d, c, sub))
    raise Unsupported(f'no schema for {name}')


def ccg(o, deep):
    R = o.p.cls('text2diagram.ccg_rule.CCGRule')
    ms = c03.members(o.p)
    for name in ms:
        if name in c03.NO_APPLY or name not in c03.SCHEMAS or name == 'UNARY':
            continue
        for variant, dom, cod in c03.SCHEMAS[name]:
            vs = sorted(set(sum(map(c03.metas, dom), []) + c03.metas(cod)))
            same = [(f'same {k}', {v: x for v in vs}) for k, x in (('atoms', 'a'), ('over', c03.F('a', 'a')), ('under', c03.B('a', 'a')))]
            for lab, sub in itertools.chain(c03.assignments(vs, deep), same):
                def go(mk, name=name, dom=dom, cod=cod, sub=sub):
                    m = c03.Maker(mk.p, mk.e, mk.st)
                    return meth(mk.e, m.rule(name), 'apply', [m.seq([c03.inst(x, sub) for x in dom]), m.cat(c03.inst(cod, sub))], {}, mk.st)
                o.check('ccg rule', ' '.join(x for x in (name, variant, lab) if x), R.find_method('apply').where, go,
                        lambda m, w, dom=dom, cod=cod, sub=sub: rule_wiring(dom, cod, sub))


def one_atom(t):
    """The derivation with every atom the same."""
    c = lambda x: (x if x in ('conj', 'punc') else 'a') if isinstance(x, str) else (x[0], c(x[1]), c(x[2]))
    return (t[0], c(t[1]), *([[one_atom(x) for x in t[2]]] if len(t) > 2 else []))


def trees(o, cases):
    TC = o.p.cls('text2diagram.ccg_tree.CCGTree')
    for lab, t in cases:
        for planar in (False, True):
            def go(mk, t=t, planar=planar):
                m = c03.Maker(mk.p, mk.e, mk.st)
                return meth(mk.e, m.tree(t, []), 'to_diagram', [], {'planar': K(planar)}, mk.st)
            o.check('ccg tree', f'{lab}{" (planar)" if planar else ""}', TC.find_method('to_diagram').where, go, lambda m, w, t=t: tree_wiring(t, [0]))


# -- functors ---------------------------------------------------------------------
WIDTH = {'n': ['a', 'b'], 's': [], 'p': ['c'], 'q': ['d', 'e', 'f'], 'r': ['g']}


def functor(o):
    for t in DIAGRAMS[:-1] + PREGROUP[:9] + SNAKES[:4]:
        def go(mk, t=t):
            x = mk.drawn(t)
            f = mk.e.p.modules['c22_maps']
            val = lambda n: mk.e.module_value(n, f, mk.st)
            F = mk.e.instantiate(ClsV(mk.p.cls(G + 'Functor')), [mk.e.module_value('grammar', mk.p.cls(G + 'Functor').module, mk.st), val('ob'), val('ar')], {}, mk.st, None)
            return mk.e.call(F, [x], {}, mk.st, None), x

        o.check('functor', t, o.p.cls(G + 'Functor').find_method('__call__').where, go, lambda m, w, x: Spread(m.e, m.st).diagram(x))


class Spread(Read):
    """The wiring with every wire replaced by the wires that its type goes to, every box by its image."""

    def wide(self, kinds):
        return [x for z, n in kinds for x in WIDTH[n][::-1 if z % 2 else 1]]

    def diagram(self, d):
        w = Wiring()
        w.inputs = [w.end(x) for x in self.wide(self.kinds(self.at(d, 'dom')))]
        ends = list(w.inputs)
        for layer in self.items(self.at(d, 'layers')):
            box = self.at(layer, 'box')
            n = self.names(box)
            l, b, c = (self.wide(self.kinds(x)) for x in (self.at(layer, 'left'), self.at(box, 'dom'), self.at(box, 'cod')))
            i, j = len(l), len(l) + len(b)
            ins = ends[i:j]
            if 'Swap' in n:
                outs = wiring.swap(w, ins, len(self.wide(self.kinds(self.at(box, 'left')))))
            elif 'Cup' in n:
                outs = wiring.cup(w, ins)
            elif 'Cap' in n:
                outs = wiring.cap(w, [(0, x) for x in c[:len(c) // 2]])
            elif 'Spider' in n:
                t = self.wide(self.kinds(self.at(box, 'type')))
                outs = wiring.spider(w, ins, [(0, x) for x in t], len(self.kinds(self.at(box, 'cod')))) if t else []
            else:
                outs = [w.end(x) for x in c]
                name, adj, z = self.base(box)
                place(w, ('F' + name, adj != bool(z)), ins, outs, adj, z)
            ends[i:j] = outs
        w.outputs = ends
        return w


def run(p, ck, tier):
    deep = tier == 'thorough'
    p = Project(repo=str(p.repo), stubs=[('c22_maps', os.path.join(HERE, 'c22_maps.py'))])
    o = Ops(p, ck)
    ck.rule('special', 'A cup or cap of several wires nests them, a swap of several wires crosses each of one side with each of the other in order, a spider of several wires is one spider per wire.')
    ck.rule('combinator', 'Composition, tensor, dagger, rotation, transposition, currying and the CCG combinators connect the boxes and wires of their arguments as they say.')
    ck.rule('permutation', 'Wire i of the result of a permutation is wire permutation[i] of the argument.')
    ck.rule('slice', 'A part of a diagram is the composition of its layers, a diagram is the composition of its parts, and a reversed part is the dagger of the part.')
    ck.rule('normal', 'Normal forms and snake removal give a well-typed diagram with the same connections.')
    ck.rule('straight', 'The normal form of a diagram in which every cap ends in a cup has no cap.')
    ck.rule('rewrite', 'Rewriting replaces boxes by what the rule says, and connects everything else as before.')
    ck.rule('pregroup', 'A pregroup diagram joins the wires that its morphisms name.')
    ck.rule('reader', 'The readers connect the words in their order, as chains, stairs, one spider or the tree of the derivation.')
    ck.rule('ccg rule', 'The diagram of a CCG rule joins each atom of a premise to the same atom in the conclusion or the other premise.')
    ck.rule('ccg tree', 'The diagram of a derivation connects its words as the rules of the derivation connect them, planar or not.')
    ck.rule('functor', 'A functor replaces every wire by the wires of its image and every box by its image, connected as before.')
    jobs = [('special', lambda: special(o)), ('combinators', lambda: combinators(o, deep)), ('slices', lambda: slices(o)), ('normal', lambda: normal(o)), ('rewriting', lambda: rewriting(o)),
            ('pregroup', lambda: pregroup(o)), ('readers', lambda: readers(o)), ('ccg', lambda: ccg(o, deep)), ('functor', lambda: functor(o))]
    cases = list(c03.derivations(deep))
    cases += [(f'{lab}, same atoms', one_atom(t)) for lab, t in cases]
    for i in range(0, len(cases), 12):
        jobs.append((f'trees {i}', lambda part=cases[i:i + 12]: trees(o, part)))
    fork_map(ck, [j for j in jobs if not ONLY or re.search(ONLY, j[0])])
    if not ONLY:
        for r, n in (('special', 100), ('combinator', 100), ('normal', 80), ('ccg rule', 60), ('ccg tree', 40)):
            ck.floor(r, n)
