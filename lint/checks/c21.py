"""C21: the tensor network of a diagram has the wiring of the diagram."""
import os
from ..absint import Raised, Unsupported
from ..harness import *
from ..project import Project
from .. import wiring
from ..wiring import Wiring, of_steps, w_new
from .c14 import HERE, M, const, fn, items, length

TITLE = 'The tensor network of a diagram has the wiring of the diagram'
STUBS = [('numpy', 'numpy'), ('tensornetwork', 'tensornetwork'), ('lambeq.backend.numerical_backend', 'numerical_backend')]


def real(b):
    """Is this base known to have real entries?"""
    if isinstance(b, tuple):
        if b and b[0] in ('array', 'entries', 'kron', 'made', 'entry', 'diag'):
            return all(real(x) for x in b[1:])
        return all(real(x) for x in b)
    return b in ('*', '+', '-', '/') or isinstance(b, (bool, int, float))


class Read:
    """Reads diagrams and networks out of the heap."""

    def __init__(self, e, st):
        self.e, self.st = e, st

    def at(self, v, name):
        return self.e.getattr(v, name, self.st)

    def items(self, v):
        return items(self.e, v, self.st)

    def const(self, v):
        return const(self.e, v, self.st)

    def names(self, v):
        return [c.name for c in self.e.class_of(v, self.st).mro()]

    def kinds(self, t):
        """[(label, dimension)] of a type."""
        n = length(self.e, t, self.st)
        obs = [t] if n == 1 else self.items(self.at(t, 'objects')) if n else []
        out = []
        for o in obs:
            f = self.e.obj(self.st, self.e.res(o, self.st)).fields
            lab = self.const(f['label']) if 'label' in f else None
            out.append((lab, 2 if lab else self.const(self.items(self.at(o, 'dim'))[0])))
        return out

    # arrays of the model of numpy
    def fact(self, a):
        """(base, conjugate, axes, shape)"""
        e, st = self.e, self.st
        g = lambda x: self.at(a, x)
        if e.class_of(a, st) is None or e.class_of(a, st).name != 'ndarray':
            raise Unsupported(f'not an array: {show(a)}')
        ints = lambda x: [self.const(i) for i in self.items(g(x))]
        b = self.base(g('base'))
        return repr(b), self.const(g('conj')) and not real(b), ints('axes'), ints('shape'), g('base'), b

    def base(self, v):
        e, st = self.e, self.st
        v = e.res(v, st)
        if isinstance(v, K):
            return v.v
        if isinstance(v, Tup):
            return tuple(self.base(x) for x in v.items)
        if isinstance(v, Ref):
            o = e.obj(st, v)
            if isinstance(o, ListO):
                return tuple(self.base(x) for x in self.items(v))
            if isinstance(o, InstO) and o.cls.name in ('Num', 'ndarray'):
                return (o.cls.name, *(self.base(o.fields[k]) for k in sorted(o.fields)))
        if isinstance(v, Lin):
            return v.const if v.const is not None else ('sum', repr(v))
        return repr(v)

    def copies(self, base, shape):
        """Is this array 1 where all indices agree and 0 elsewhere?"""
        b = self.e.res(base, self.st)
        if not isinstance(b, Tup) or self.e.res(b.items[0], self.st) != K('entries') or not shape or len(set(shape)) != 1:
            return False
        vals = [self.const(x) for x in self.items(b.items[1])]
        d, n = shape[0], len(shape)
        step = sum(d ** i for i in range(n))
        return len(vals) == d ** n and vals == [1 if i % step == 0 else 0 for i in range(d ** n)]

    def node(self, w, dims, base, conj, axes, shape, raw):
        """Adds a node; gives the ends of its axes as they are now."""
        if self.copies(raw, shape):
            ends = [w.end(d) for d in dims]
            w.join(*ends)
            return ends
        ends = w.box((base, conj) if dims else (base, conj), [shape[axes.index(i)] for i in range(len(axes))])
        return [ends[a] for a in axes]

    # reference semantics of the boxes
    def apply(self, w, box, ins, doubled):
        if isinstance(box, tuple):      # a composite cup, cap, swap or spider
            k, *a = box
            if k == 'swap':
                return wiring.swap(w, ins, a[0])
            if k == 'cup':
                return wiring.cup(w, ins)
            if k == 'cap':
                return wiring.cap(w, a[0], doubled)
            return wiring.spider(w, ins, a[0], a[1], doubled)
        n = self.names(box)
        cod = self.kinds(self.at(box, 'cod'))
        if 'Swap' in n:
            return wiring.swap(w, ins, 1)
        if 'Cup' in n:
            return wiring.cup(w, ins)
        if 'Cap' in n:
            return wiring.cap(w, cod[:1], doubled)
        if 'Spider' in n:
            return wiring.spider(w, ins, self.kinds(self.at(box, 'type')), len(cod), doubled)
        if 'Discard' in n:
            w.join(*ins[0])
            return []
        if 'MixedState' in n:
            a = w.end(2)
            return [(a, a)]
        if 'Measure' in n:
            w.join(*ins[0])
            return [ins[0][0]]
        if 'Encode' in n:
            return [(ins[0], ins[0])]
        mixed = 'Box' in n and self.e.obj(self.st, self.e.res(box, self.st)).fields.get('is_mixed')
        if mixed is not None and self.const(mixed):
            adj, z = False, 0
            while 'Daggered' in n:
                adj, box = not adj, self.at(box, 'box')
                n = self.names(box)
            z = self.const(self.at(box, 'z')) % 2
            f = self.fact(self.at(box, 'data'))
            outs = [w_new(w, k, doubled) for k in cod]
            order = []
            for ws in (outs, ins) if adj else (ins, outs):
                ws = ws[::-1] if z else ws
                order += [x for x in ws if isinstance(x, int)] + [x[0] for x in ws if not isinstance(x, int)] + [x[1] for x in ws if not isinstance(x, int)]
            for a, b in zip(order, w.box((f[0], (adj != bool(z)) and not real(f[5])), f[3])):
                w.join(a, b)
            return outs
        outs = [w_new(w, k, doubled) for k in cod]
        twice = doubled and not (ins + outs and all(isinstance(x, int) for x in ins + outs))
        for i in (0, 1) if twice else (None,):
            pick = lambda ws: list(ws) if i is None else [x[i] for x in ws]
            self.pure(w, box, pick(ins), pick(outs), i == 1)
        return outs

    def pure(self, w, box, ins, outs, conj):
        n = self.names(box)
        if 'Daggered' in n:
            return self.pure(w, self.at(box, 'box'), outs, ins, not conj)
        if 'Controlled' in n:
            d, b, e, st = self.const(self.at(box, 'distance')), self.at(box, 'controlled'), self.e, self.st
            near = e.instantiate(ClsV(e.class_of(box, st)), [b], {'distance': I(1)}, st, None)
            k = len(self.kinds(self.at(b, 'dom')))
            pos = [0] + list(range(d, d + k)) if d > 0 else [len(ins) - 1] + list(range(k))
            for i, (a, b) in enumerate(zip(ins, outs)):
                if i not in pos:
                    w.join(a, b)
            ins, outs, box = [ins[i] for i in pos], [outs[i] for i in pos], near
        z = self.e.obj(self.st, self.e.res(box, self.st)).fields.get('z')
        if z is not None and self.const(z) % 2:
            f = self.fact(self.at(box, 'data'))
            ins, outs, conj = ins[::-1], outs[::-1], not conj
        else:
            data = self.e.obj(self.st, self.e.res(box, self.st)).fields.get('data')
            data = self.e.res(data, self.st) if data is not None else None
            own = isinstance(data, Ref) and self.e.class_of(data, self.st) is not None and self.e.class_of(data, self.st).name == 'ndarray' \
                and not {'Controlled', 'Rotation', 'Scalar'} & set(n)
            f = self.fact(data if own else self.at(box, 'array'))
        ends = ins + outs
        dims = [w.dim[w.find(x)] for x in ends]
        if f[2] != list(range(len(f[2]))):
            raise Unsupported('a plain array with moved axes')
        for a, b in zip(ends, self.node(w, dims, f[0], (f[1] != conj) and not real(f[5]), list(range(len(ends))), dims, f[4])):
            w.join(a, b)


def of_network(m, nodes, edges):
    """The wiring of a network of the model; None with a reason."""
    w, ends = Wiring(), {}
    e, st = m.e, m.st
    for x in m.items(nodes):
        es = [e.res(y, st) for y in m.items(m.at(x, 'edges'))]
        if any(y in ends for y in es):
            w.problem = 'a node is in the network twice'
        if m.const(m.at(x, 'copy')):
            new = [w.end(m.const(m.at(y, 'dim'))) for y in es]
            w.join(*new)
        else:
            f = m.fact(m.at(x, 'tensor'))
            new = m.node(w, f[3], f[0], f[1], f[2], f[3], f[4])
        ends.update(zip(es, new))
    for y in list(ends):
        o = e.res(m.at(y, 'other'), st)
        if o == K(None):
            continue
        if o not in ends:
            w.problem = 'a node is missing from the network'
            continue
        w.join(ends[y], ends[o])
    out = [e.res(y, st) for y in m.items(edges)]
    for y in out:
        if y not in ends:
            w.problem = 'an output edge is of no node'
            return w
        if e.res(m.at(y, 'other'), st) != K(None):
            w.problem = 'an output edge is connected'
    if len(set(out)) != len(out):
        w.problem = 'an output edge is listed twice'
    w.outputs = [ends[y] for y in out]
    free = [y for y in ends if e.res(m.at(y, 'other'), st) == K(None)]
    if set(free) - set(out):
        w.problem = 'a dangling edge is not listed'
    return w


class Mk(M):
    def array(self, name, dims):
        A = fn(self.p, self.e, self.st, 'numpy', 'ndarray')
        return self.e.call(A, [K(name), self.e.new(self.st, ListO([I(d) for d in dims]))], {'fixed': K(True)}, self.st, None)

    def box(self, s):
        """tensor: 'f:2,3>2', 'cup:2', 'cap:2,3', 'swap:2>3', 'sp:2:1:2'; quantum also as in C14, 'cl:bit>bit bit' classical, 'mx:qubit>bit' mixed."""
        if s.endswith("'"):
            return meth(self.e, self.box(s[:-1]), 'dagger', [], {}, self.st)
        if s.endswith('~'):
            return meth(self.e, self.box(s[:-1]), 'rotate', [I(1)], {}, self.st)
        k = s.split(':')
        if self.cat == 'quantum':
            if k[0] == 'sw':
                return self.new('Swap', *(self.ty(x.replace('b', 'bit ').replace('q', 'qubit ')) for x in k[1].split('>')))
            if k[0] in ('cl', 'mx', 'u', 'bit'):
                if k[0] == 'bit':
                    return self.new('Bit', int(k[1]))
                d, c = (x.replace('b', 'bit ').replace('q', 'qubit ').split() for x in k[2].split('>'))
                n = [len(d), len(c)]
                if k[0] == 'mx':
                    n = [sum(2 if x == 'qubit' else 1 for x in y) for y in (d, c)]
                return self.new('Box', k[1], self.ty(' '.join(d)), self.ty(' '.join(c)), self.array(k[1], [2] * sum(n)), is_mixed=K(k[0] == 'mx'))
            return super().box(s)
        T = lambda x: self.ty(x.replace(',', ' '))
        if k[0] in ('cup', 'cap'):
            return self.new(k[0].title(), T(k[1]), T(','.join(reversed(k[1].split(',')))))
        if k[0] == 'swap':
            return self.new('Swap', *map(T, k[1].split('>')))
        if k[0] == 'sp':
            return self.new('Spider', T(k[1]), int(k[2]), int(k[3]))
        d, c = (x.split(',') if x else [] for x in k[1].split('>'))
        return self.new('Box', k[0], T(','.join(d)), T(','.join(c)), self.array(k[0], [int(x) for x in d + c]))

    def wires(self, t):
        return [str(d) if lab is None else lab for lab, d in Read(self.e, self.st).kinds(t)]

    def drawn(self, text):
        """'2 3 | f:2>3@0 g:3>2@1', the domain before the bar; with the kinds of its
        wires and the steps that it is to depict."""
        dom, boxes = text.split('|')
        now, layers, steps = dom.split(), [], []
        first, m = list(now), Read(self.e, self.st)
        for w in boxes.split():
            s, o = w.rsplit('@', 1)
            b, o = self.box(s), int(o)
            k = s.split(':')
            kinds = lambda t: m.kinds(self.ty(t.replace(',', ' ')))
            if m.names(b)[0] != 'Diagram':
                subs, what = [(0, b, 0)], b
            else:       # composite: made of several layers
                subs = [(len(m.kinds(m.at(x, 'left'))), m.at(x, 'box'), 0) for x in m.items(m.at(b, 'layers'))]
                what = {'swap': lambda: ('swap', len(k[1].split('>')[0].split(','))), 'cup': lambda: ('cup',),
                        'cap': lambda: ('cap', kinds(k[1])), 'sp': lambda: ('sp', kinds(k[1]), int(k[3]))}[k[0]]()
            steps.append((o, len(m.kinds(m.at(b, 'dom'))), what))
            for p, x, _ in subs:
                d, c = (self.wires(m.at(x, y)) for y in ('dom', 'cod'))
                assert now[o + p:o + p + len(d)] == d, (text, w, now, d)
                layers.append(self.layer(' '.join(now[:o + p]), x, ' '.join(now[o + p + len(d):])))
                now[o + p:o + p + len(d)] = c
        return self.diagram(' '.join(first), ' '.join(now), layers), m.kinds(self.ty(' '.join(first))), steps


TENSOR = ['| ', '2 3 |', '2 | f:2>3@0', '2 3 | f:2>3@0 g:3>2@1', '2 3 5 | f:3>7@1', '2 3 | f:2,3>5,7@0', "5 7 | f:2,3>5,7'@0", '3 2 | f:2,3>5,7~@0',
          "7 5 | f:2,3>5,7~'@0", "7 5 | f:2,3>5,7'~@0", '3 2 | f:2,3>~@0', "| f:2,3>'@0", '2 | f:2>3@0 g:3>2@0', '3 | f:2>3\'@0 g:2>3@0',
          '2 3 | swap:2>3@0', '2 3 5 7 2 | swap:2,3>5,7,2@0', '2 2 2 2 2 | swap:2,2>2,2,2@0', '2 2 2 | swap:2>2,2@0 f:2,2>3@1', '2 3 5 | swap:2>3@0 swap:2>5@1', '2 3 5 | swap:2,3>5@0', '2 3 5 | swap:2>3,5@0 f:3,5>2@0', '2 2 | swap:2>2@0 f:2>3@0',
          '2 2 | cup:2@0', '3 3 | cup:3@0', '2 3 3 2 | cup:2,3@0', '5 2 3 3 2 7 | cup:2,3@1', '| cap:2@0', '| cap:3@0', '| cap:5@0', '| cap:2,3@0', '5 | cap:2,3,5@1',
          '2 | cap:2@1 cup:2@0', '3 | cap:3@0 cup:3@1', '2 3 | cap:3@1 f:2,3>5@0 cup:3@1', '| cap:2@0 cup:2@0', '| cap:3@0 f:3>2@0 g:3>2@1 cup:2@0', '3 3 | swap:3>3@0 cup:3@0',
          '2 | sp:2:1:2@0', '2 2 | sp:2:2:1@0', '3 | sp:3:1:0@0', '| sp:3:0:1@0', '2 | sp:2:1:1@0', '3 3 3 | sp:3:3:2@0', '2 3 2 3 | sp:2,3:2:1@0', '2 3 | sp:2,3:1:3@0',
          '2 | f:2>3@0 sp:3:1:3@0 g:3>2@1', '2 3 5 2 3 5 | sp:2,3,5:2:1@0', '2 2 | f:2>3@0 g:2>3@1 sp:3:2:1@0 h:3>@0', '7 2 | sp:2:1:2@1 swap:7>2@0 swap:7>2@1',
          '| s:>@0', '| s:>@0 t:>@0', '2 | s:>@1', "2 | s:>'@0", '| f:>2,3@0 g:2>5@0', '| f:>2,3@0 g:3>@1', '2 3 5 | f:2,3,5>7,2@0 g:2>3@1', '2 3 | f:2>@0 g:>5@1',
          "2 3 5 2 | f:7,5,3>2'@3", "2 3 5 2 | f:5,3>2'@3", '2 3 | g:>5@1 f:5,3>2@1', '| a:>2@0 b:>3@1 c:>5@1 d:5>7@1 swap:7>3@1',
          '2 | a:2>3,5@0 b:5>2@1 c:3,2>7@0', '| a:>2@0 b:>3@0 c:>5@0', '| a:>2@0 b:>3@1 c:>5@2 d:3,5>@1', '2 | swap:2>3@0'.replace('2 |', '2 3 |') + ' f:3>5@0 g:2>7@1']
PURE = ['|', 'qubit qubit |', 'qubit | H@0', 'qubit qubit | H@0 X@1', "qubit | S@0 T'@0", "qubit | S'@0", 'qubit | S~@0', "qubit | S'~@0", 'qubit | Rx:?p@0 Ry:?q@0 Rz:?r@0',
        "qubit | Rx:?p'@0 Ry:?q~@0 Rz:?r~@0", '| K0@0 K1@1 H@0 C1(X)@0', 'qubit qubit | C1(X)@0', 'qubit qubit | C-1(X)@0', 'qubit qubit qubit | C2(Z)@0', 'qubit qubit qubit | C-2(S)@0',
        'qubit qubit qubit qubit | C3(Rx:?p)@0', 'qubit qubit qubit qubit qubit | C2(Y)@1', "qubit qubit qubit | C2(S)'@0", 'qubit qubit | C1(S)~@0', "qubit qubit | C1(S')@0",
        'qubit qubit qubit | C1(C1(X))@0', 'qubit qubit qubit qubit | C2(C1(X))@0', 'qubit qubit qubit qubit | C-2(C1(Z))@0', 'qubit qubit qubit | C-1(C1(Y))@0',
        'qubit qubit | SWAP@0', 'qubit qubit qubit | SWAP@0 SWAP@1 H@2', 'qubit qubit | SWAP@0 C1(X)@0 B0@1', '| K0@0 K1@0 B1@1 B0@0', '| sc:0.5@0', "| sc:0.5'@0 K0@0", 'qubit | sqrt:2@0',
        'bit bit |', 'bit | cl:f:b>bb@0', '| bit:0@0 bit:1@1 sw:b>b@0 cl:f:bb>b@0', "bit | cl:f:bb>b'@0", 'qubit qubit | u:f:qq>q@0 u:g:q>qq@0', "qubit | u:f:qq>q'@0", 'qubit qubit | u:f:qq>q~@0',
        'qubit | u:f:q>qq~@0 H@1', 'qubit qubit qubit | u:f:qq>q@1 u:g:qq>q@0', 'qubit qubit | u:f:q>@0 u:g:>q@1']
MIXED = ['qubit | M@0', 'qubit qubit | M@0', 'qubit qubit | M@1', 'qubit | D@0', 'qubit qubit | D@0 H@0', 'qubit qubit qubit | D@1', '| MS@0', 'qubit | MS@0 C1(X)@0 D@0', 'bit | E@0', 'qubit bit | E@1 C1(X)@0',
         'qubit | M@0 E@0', 'bit | E@0 M@0', 'qubit bit qubit |', 'bit qubit bit | H@1', 'bit qubit qubit bit | C1(X)@1 M@1 M@2', 'qubit qubit | M@0 sw:b>q@0 M@0', 'qubit qubit | M@1 sw:q>b@0 H@1',
         'bit bit qubit | sw:b>b@0 M@2', 'qubit bit bit | sw:b>b@1 M@0', 'bit qubit qubit | SWAP@1 M@1', 'qubit bit qubit | sw:q>b@0 SWAP@1 M@2', 'bit qubit | cl:f:b>bb@0 H@2',
         'qubit bit bit | cl:f:bb>b@1 M@0', 'qubit bit qubit | cl:f:b>@1 C1(X)@0 D@0', 'bit qubit | bit:1@1 M@2', '| K0@0 bit:1@0 M@1', '| K0@0 K1@1 H@0 C1(X)@0 M@0 D@1', '| K0@0 K0@1 C1(X)@0 M@0 B1@1',
         'qubit | mx:f:q>q@0', 'qubit bit | mx:f:q>b@0 cl:g:bb>b@0', 'bit qubit bit qubit | mx:f:bq>qb@2', 'bit qubit | mx:f:bq>qqb@0 H@1 M@0', '| mx:f:>qb@0 M@0', 'qubit qubit | mx:f:qq>q@0 D@0', 'bit | mx:f:b>bq@0 D@1',
         'bit qubit | sc:0.5@1 M@1', 'qubit qubit qubit | C2(X)@0 M@0 M@1 D@2', 'bit qubit qubit qubit | C-2(X)@1 M@3', 'qubit | M@0 cl:f:b>bb@0 E@1 S@1', "bit qubit | S'@1 T~@1 D@1", "bit qubit | u:f:qq>q'@1 D@2 M@1",
         'qubit | Rx:?p@0 M@0', 'bit bit | E@1 M@1 sw:b>b@0', 'bit qubit bit qubit | sw:b>q@0 sw:b>q@2 H@0 sw:b>q@1 SWAP@0 M@1', 'qubit bit | sw:q>b@0 E@0 C1(X)@0 M@1', 'bit bit bit | sw:b>b@1 sw:b>b@0 E@0 D@0',
         'bit qubit | bit:0@0 sw:b>b@0 M@2', 'qubit bit qubit bit | u:f:q>qq@2 D@3 M@2']
KNOWN = ["bit | mx:f:q>b'@0", 'qubit | mx:f:q>b~@0']      # not repaired


def project(p):
    return Project(repo=str(p.repo), stubs=[(n, os.path.join(HERE, f + '.py')) for n, f in STUBS])


class Nets:
    def __init__(self, q, b):
        self.q, self.b = q, b

    def run(self, cat, text, mixed=None, how='to_tn'):
        """mixed: None (the default), True."""
        where, want = self.q.func(f'backend.{cat}.Diagram.{how}').where, []

        def go(e, st):
            d, kinds, steps = Mk(self.q, cat, e, st).drawn(text)
            kw = {} if mixed is None else {'mixed': K(mixed)}
            want[:] = [kinds, steps]
            return meth(e, d, how, [], kw, st)

        def chk(e, v, st, path):
            m = Read(e, st)
            doubled = cat == 'quantum' and (bool(mixed) or text in MIXED + KNOWN)
            net = of_network(m, *m.items(v))
            if net.problem:
                return False, net.problem
            ref = of_steps(m, *want, doubled)
            ref.outputs, ref.inputs = ref.inputs + ref.outputs, []
            if ref.problem:
                raise Unsupported(ref.problem)
            return (True, '') if net.same(ref, True) else (False, net.differs(ref, True))
        e = self.b.engine(cat, tyv=False, dg=False)
        e.repr_on = True
        e.MAXSTEPS *= 6
        self.b.run('network' if how == 'to_tn' else 'eval', f'{cat} {"mixed " if mixed else ""}{text}'.replace(' | ', ' : '), where, e, go, chk)


def run(p, ck, tier):
    q = project(p)
    nets = Nets(q, Bench(q, ck))
    ck.rule('network', 'The nodes of the tensor network are the boxes of the diagram, each with the entries, the adjoint and the order of its own axes, connected as the wires connect the boxes; '
            'the open edges are those of the domain, then those of the codomain.')
    ck.rule('eval', 'Evaluating a diagram contracts that network, the doubled one when it is asked for or when the circuit is mixed.')
    jobs = []
    for cat, texts, mixed in (('tensor', TENSOR, None), ('quantum', PURE, None), ('quantum', PURE, True), ('quantum', MIXED + KNOWN, None), ('quantum', MIXED + KNOWN, True)):
        for i in range(0, len(texts), 12):
            jobs.append((f'{cat} {mixed} {i}', lambda part=texts[i:i + 12], cat=cat, mixed=mixed: [nets.run(cat, t, mixed) for t in part]))
    for cat, texts, mixed in (('tensor', TENSOR[::6], None), ('quantum', PURE[::6], None), ('quantum', PURE[::6], True), ('quantum', MIXED[::6], None), ('quantum', MIXED[::6], True)):
        jobs.append((f'eval {cat} {mixed}', lambda part=texts, cat=cat, mixed=mixed: [nets.run(cat, t, mixed, 'eval') for t in part]))
    fork_map(ck, jobs)
    ck.floor('network', 60)
