"""C14: exporting a circuit to another library keeps the circuit."""
import itertools
import os
import re
from ..absint import Raised, Unsupported
from ..harness import *
from ..project import Project
from .c15 import Mk

TITLE = 'Exporting a circuit to another library keeps the circuit'
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs')
STUBS = [('pytket.circuit', 'pytket_circuit'), ('pytket', 'pytket'), ('pytket.utils', 'pytket_utils'), ('sympy', 'sympy'),
         ('pennylane', 'pennylane'), ('torch', 'torch')]
DISCOPY = [('discopy', 'discopy'), ('discopy.core', 'discopy_core'), ('discopy.grammar.pregroup', 'discopy_pregroup'), ('discopy.grammar', 'discopy_grammar'), ('discopy.tensor', 'discopy_tensor'),
           ('discopy.quantum.gates', 'discopy_gates'), ('discopy.quantum', 'discopy_quantum'), ('packaging.version', 'packaging_version')]
ONLY = os.environ.get('LINT_ONLY', '')     # while working on the check: the jobs to run
SYMMETRIC = ('Z', 'S', 'T', 'Rz')      # diagonal: control and target can be exchanged when controlled, except Rz


class M(Mk):
    """Builds circuits."""

    def sym(self, n, scale=1):
        return self.e.instantiate(ClsV(self.p.cls('backend.symbol.Symbol')), [K(n)], {'scale': I(scale)}, self.st, None)

    def phase(self, s):
        """'?x' an unknown number, '$a' a symbol, '3$a' a scaled symbol, else a number."""
        if s[0] == '?':
            return Sym(s[1:], ('real',))
        if '$' in s:
            k, n = s.split('$')
            return self.sym(n, int(k or 1))
        return K(complex(s) if s.endswith('j') else float(s))

    def box(self, s):
        """'H', "S'" dagger, 'S~' conjugate, 'Rx:0.3', 'C2(X)', 'C-1(C1(X))', 'K0', 'B1', 'M', 'D', ..."""
        if s.endswith("'"):
            return meth(self.e, self.box(s[:-1]), 'dagger', [], {}, self.st)
        if s.endswith('~'):
            return meth(self.e, self.box(s[:-1]), 'rotate', [I(1)], {}, self.st)
        if s[0] == 'C' and s.endswith(')'):
            d, r = s[1:-1].split('(', 1)
            return self.new('Controlled', self.box(r), int(d))
        if s[:2] in ('Rx', 'Ry', 'Rz'):
            return self.new(s[:2], self.phase(s[3:]))
        if s[0] in 'KB' and s[1:].isdigit():
            return self.new({'K': 'Ket', 'B': 'Bra'}[s[0]], int(s[1]))
        if s in ('M', 'D', 'E', 'MS'):
            return self.new({'M': 'Measure', 'D': 'Discard', 'E': 'Encode', 'MS': 'MixedState'}[s])
        if s in ('b0', 'b1'):
            return self.new('Bit', int(s[1]))
        if s.startswith('sc:'):
            return self.new('Scalar', self.phase(s[3:]))
        if s.startswith('sqrt:'):
            return self.new('Sqrt', self.phase(s[5:]))
        if s == 'SWAP':
            return self.new('Swap', self.ty('qubit'), self.ty('qubit'))
        if s.startswith('U'):
            return self.new('Box', s, self.ty('qubit'), self.ty('qubit'), data=K(1))
        return self.const(s)

    def names(self, t):
        e, st = self.e, self.st
        n = length(e, t, st)
        if n == 1:
            return [const(e, e.getattr(t, 'label', st), st)]
        return [const(e, e.getattr(x, 'label', st), st) for x in items(e, e.getattr(t, 'objects', st), st)] if n else []

    def circuit(self, text):
        """'K0@0 K0@1 H@0 C1(X)@0 B0@1 M@0'"""
        now, layers = [], []
        for w in text.split():
            s, o = w.rsplit('@', 1)
            b, o = self.box(s), int(o)
            d, c = (self.names(self.e.getattr(b, x, self.st)) for x in ('dom', 'cod'))
            assert now[o:o + len(d)] == d, (text, w, now, d)
            layers.append(self.layer(' '.join(now[:o]), b, ' '.join(now[o + len(d):])))
            now[o:o + len(d)] = c
        return self.diagram('', ' '.join(now), layers)


    def dim(self, t):
        return self.ty(t.replace('a', '2').replace('b', '3'))

    def wound(self, t):
        z = int(t[1:] or 0)
        return self.ty(t[0] + ('.r' if z > 0 else '.l') * abs(z))

    def whole(self, left, b, right):
        """A diagram of one layer."""
        e, st = self.e, self.st
        j = lambda x: meth(e, meth(e, left, '__matmul__', [e.getattr(b, x, st)], {}, st), '__matmul__', [right], {}, st)
        return self.new('Diagram', dom=j('dom'), cod=j('cod'), layers=self.lst([self.new('Layer', left=left, box=b, right=right)]))


def const(e, v, st):
    v = e.res(v, st)
    if isinstance(v, K):
        return v.v
    if isinstance(v, Lin) and v.const is not None:
        return v.const
    raise Unsupported(f'value {show(v)}')


def length(e, v, st):
    return const(e, e.x_len([v], {}, st, None), st)


def items(e, v, st):
    v = e.res(v, st)
    if isinstance(v, Tup):
        return list(v.items)
    o = e.obj(st, v) if isinstance(v, Ref) else None
    if isinstance(o, ListO):
        return list(o.items)
    raise Unsupported(f'items of {show(v)}')


def pairs(e, v, st):
    v = e.res(v, st)
    o = e.obj(st, v) if isinstance(v, Ref) else None
    if isinstance(o, DictO):
        return list(o.d.items())
    raise Unsupported(f'entries of {show(v)}')


def phase_of(e, v, st, k=1):
    """A comparable form of k * v."""
    v = e.res(v, st)
    if isinstance(v, Ref):
        o = e.obj(st, v)
        if isinstance(o, InstO):
            if o.cls.name == 'Symbol':
                s = const(e, e.getattr(v, 'scale', st), st) if 'scale' in o.fields else 1
                return ('symbol', const(e, e.getattr(v, 'name', st), st), round(s * k, 9))
            if o.cls.name == 'Mul':
                b = phase_of(e, o.fields['symbol'], st, k)
                return (*b[:2], round(b[2] * const(e, o.fields['coeff'], st), 9))
        raise Unsupported(f'phase {show(v)}')
    f, rest = factor(v)
    if rest is None:
        return ('number', rounded(f * k))
    if not isinstance(rest, Sym):
        raise Unsupported(f'phase {show(v)}')
    return ('value', round(f * k, 9), show(rest))


def rounded(x):
    return complex(round(x.real, 9), round(x.imag, 9)) if isinstance(x, complex) else round(x, 9)


def factor(v):
    """(c, rest) with v = c * rest, rest None for a number."""
    if isinstance(v, K) and isinstance(v.v, (int, float, complex)) and not isinstance(v.v, bool):
        return v.v if isinstance(v.v, complex) else float(v.v), None
    if isinstance(v, Lin):
        if v.const is not None:
            return float(v.const), None
        if len(v.t) == 1 and not v.c:
            a, k = list(v.t)[0]
            f, r = factor(a)
            return float(k) * f, r
    if isinstance(v, App) and v.op in ('Mult', 'Div') and len(v.args) == 2:
        (f, r), (g, s) = map(factor, v.args)
        if s is None and (v.op == 'Mult' or g):
            return (f * g if v.op == 'Mult' else f / g), r
        if r is None and v.op == 'Mult':
            return f * g, s
    if isinstance(v, App) and v.op == '.array' and len(v.args) == 2:
        return factor(v.args[1])
    if isinstance(v, App) and v.op in ('abs', 'Pow'):
        fs = [factor(x) for x in v.args]
        if all(r is None for _, r in fs) and len(fs) == (2 if v.op == 'Pow' else 1):
            f = fs[0][0] ** fs[1][0] if v.op == 'Pow' else abs(fs[0][0])
            if isinstance(f, (float, complex)):
                return f, None
    if isinstance(v, App) and v.op in ('ext:numpy.sqrt', 'ext:math.sqrt') and len(v.args) == 1:
        f, r = factor(v.args[0])
        if r is None and isinstance(f, float) and f >= 0:
            return f ** 0.5, None
    if isinstance(v, App) and v.op == 'neg' and len(v.args) == 1:
        f, r = factor(v.args[0])
        return -f, r
    return 1.0, v


def negate(ph):
    if ph is None:
        return None
    if ph[0] == 'symbol':
        return (*ph[:2], -ph[2])
    return (ph[0], -ph[1], *ph[2:])


def gate(e, st, box, wires):
    """(name, adjoint, phase, controls, target) of a gate on `wires`."""
    c = e.class_of(box, st)
    n = [x.name for x in c.mro()]
    if 'Daggered' in n:
        g, adj, ph, cs, t = gate(e, st, e.getattr(box, 'box', st), wires)
        return (g, adj, negate(ph), cs, t) if ph is not None else (g, not adj, ph, cs, t)
    if 'Controlled' in n:
        d = const(e, e.getattr(box, 'distance', st), st)
        g, adj, ph, cs, t = gate(e, st, e.getattr(box, 'controlled', st), wires[d:] if d > 0 else wires[:d])
        return g, adj, ph, (wires[0 if d > 0 else -1], *cs), t
    if 'Rotation' in n:
        return n[0], False, phase_of(e, e.getattr(box, 'phase', st), st), (), tuple(wires)
    name = const(e, e.getattr(box, 'name', st), st)
    adj = name in ('S', 'T') and const(e, e.getattr(box, 'z', st), st) % 2 == 1
    return name, adj, None, (), tuple(wires)


class History:
    """What happens on each wire."""

    def __init__(self):
        self.wires, self.live, self.scalars = [], [], []

    def new(self):
        self.wires.append([])
        return len(self.wires) - 1

    def emit(self, g, adj, ph, cs, t):
        if g == 'SWAP' and not cs:
            raise Unsupported('swap event')
        if g in ('H', 'X', 'Y', 'Z'):
            adj = False
        if cs and g in ('Z', 'S', 'T'):
            ev = (g, adj, ph, (), tuple(sorted({*cs, *t})))
        else:
            ev = (g, adj, ph, tuple(sorted(cs)), tuple(t))
        for w in sorted({*cs, *t}):
            self.wires[w].append(ev)

    def end(self, w, what):
        self.wires[w].append((what,))

    def renamed(self, perm):
        r = lambda ws: tuple(perm[w] for w in ws)
        out = [None] * len(self.wires)
        for i, h in enumerate(self.wires):
            out[perm[i]] = [ev if len(ev) < 3 else (*ev[:3], tuple(sorted(r(ev[3]))), tuple(sorted(r(ev[4]))) if not ev[3] and len(ev[4]) > 1 else r(ev[4]))
                            for ev in h]
        return out, [perm[w] for w in self.live]


def history(e, st, d, closed=False):
    """closed: what is still a qubit at the end is discarded."""
    h = History()
    for l in items(e, e.getattr(d, 'layers', st), st):
        left, box = e.getattr(l, 'left', st), e.getattr(l, 'box', st)
        off = length(e, left, st)
        nd = length(e, e.getattr(box, 'dom', st), st)
        n = [x.name for x in e.class_of(box, st).mro()]
        ws = h.live[off:off + nd]
        if len(ws) != nd or off > len(h.live):
            raise Unsupported('a layer that does not fit')
        if 'Ket' in n:
            w = h.new()
            h.live.insert(off, w)
            if const(e, e.getattr(box, 'bit', st), st):
                h.emit('X', False, None, (), (w,))
        elif 'Bra' in n:
            if const(e, e.getattr(box, 'bit', st), st):
                h.emit('X', False, None, (), tuple(ws))
            h.end(ws[0], 'post')
            del h.live[off]
        elif 'Discard' in n:
            h.end(ws[0], 'discard')
            del h.live[off]
        elif 'Measure' in n:
            h.end(ws[0], 'measure')
        elif 'Swap' in n:
            h.live[off], h.live[off + 1] = h.live[off + 1], h.live[off]
        elif 'Scalar' in n:
            h.scalars.append((n[0], phase_of(e, e.getattr(box, 'data', st), st)))
        elif nd and nd == length(e, e.getattr(box, 'cod', st), st):
            h.emit(*gate(e, st, box, ws))
        else:
            raise Unsupported(f'box {n[0]}')
    if closed:
        close(h)
    return h


def close(h):
    for w in list(h.live):
        if ('measure',) not in h.wires[w]:
            h.end(w, 'discard')
            h.live.remove(w)


def tk_history(e, st, c):
    """Of a tket circuit of the model."""
    h = History()
    nq = const(e, e.getattr(c, 'n_qubits', st), st)
    h.live = [h.new() for _ in range(nq)]
    at, bits = list(h.live), {}
    for cmd in items(e, e.getattr(c, 'commands', st), st):
        op = e.getattr(cmd, 'op', st)
        name = const(e, e.getattr(e.getattr(op, 'type', st), 'name', st), st)
        ps = items(e, e.getattr(op, 'params', st), st)
        args = [const(e, items(e, e.getattr(u, 'index', st), st)[0], st) for u in items(e, e.getattr(cmd, 'args', st), st)]
        if name == 'Measure':
            bits[args[1]] = args[0]
            continue
        ph = phase_of(e, ps[0], st, 0.5) if ps else None
        lib(h, name, ph, args, at, False)
    post = {const(e, k, st): const(e, v, st) for k, v in pairs(e, e.getattr(c, 'post_selection', st), st)}
    finish(h, at, bits, post)
    s = phase_of(e, e.getattr(c, 'scalar', st), st)
    h.scale = s[1] if s[0] == 'number' else None
    return h


def lib(h, name, ph, args, at, adj):
    """A gate of another library, on the qubits `args`."""
    if name.endswith('dg'):
        name, adj = name[:-2], not adj
    nc = 0
    while name.startswith('C') and name != 'C':
        name, nc = name[1:], nc + 1
    if adj and ph is not None:
        ph, adj = negate(ph), False
    ws = [at[a] for a in args]
    if name in ('SWAP',) and not nc:
        i, j = args
        at[i], at[j] = at[j], at[i]
        return
    h.emit(name, adj, ph, ws[:nc], ws[nc:])


def finish(h, at, bits, post):
    h.live = []
    for b in sorted(set(post) | set(bits)):
        if b not in bits:
            raise Lost(f'post-selects bit {b}, which is not measured')
        w = at[bits[b]]
        if b in post:
            if post[b]:
                h.emit('X', False, None, (), (w,))
            h.end(w, 'post')
        else:
            h.end(w, 'measure')
            h.live.append(w)
    for w in range(len(h.wires)):
        if not h.wires[w] or h.wires[w][-1] not in (('measure',), ('post',)):
            h.end(w, 'discard')


class Lost(Exception):
    pass


def scale(h):
    """The product of the scalars, None if unknown."""
    f = 1.0
    for kind, ph in h.scalars:
        if ph[0] != 'number':
            return None
        f *= ph[1] ** (0.5 if kind == 'Sqrt' else 1)
    return f


def compare(a, b, tk=False, pl=False):
    """None if the same up to the names of the wires, else what differs."""
    if tk or pl:
        f = scale(a)
        if f is None or b.scale is None:
            raise Unsupported('scalar')
        f = abs(f) ** 2 if tk else f
        if abs(f - b.scale) > 1e-6:
            return f'scalar {b.scale} for {f}'
    if pl and has_discard(a):
        for w in list(a.live):
            a.end(w, 'discard')
        a.live = []
    if len(a.wires) != len(b.wires):
        return f'{len(b.wires)} qubits for {len(a.wires)}'
    if len(a.live) != len(b.live):
        return f'{len(b.live)} outputs for {len(a.live)}'
    if not (tk or pl) and sorted(map(str, a.scalars)) != sorted(map(str, b.scalars)):
        return f'scalars {b.scalars} for {a.scalars}'
    n = len(a.wires)
    ident, _ = a.renamed(list(range(n)))
    for perm in itertools.permutations(range(n)):
        h, live = b.renamed(perm)
        if h == ident and live == a.live:
            return None
    x, y = (sorted(ev for h in s.wires for ev in map(brief, h)) for s in (a, b))
    if x != y:
        miss = [ev for ev in x if x.count(ev) > y.count(ev)]
        more = [ev for ev in y if y.count(ev) > x.count(ev)]
        return f'has {", ".join(dict.fromkeys(more)) or "nothing"} instead of {", ".join(dict.fromkeys(miss)) or "nothing"}'
    return 'the gates or outputs are on other qubits, or in another order'


def brief(ev):
    if len(ev) == 1:
        return ev[0]
    g, adj, ph, cs, t = ev
    s = 'C' * (len(cs) or (len(t) - 1)) + g + ("'" if adj else '')
    if ph is not None:
        s += '(' + ' '.join(map(str, ph[1:])) + ')'
    return s


ONE = ['H', 'X', 'Y', 'Z', 'S', 'T', "S'", "T'", 'S~', 'T~', "S~'", "T'~", 'Rx:?p', 'Ry:?p', 'Rz:?p', "Rx:?p'", "Ry:?p'", "Rz:?p'", 'Rx:?p~', 'Ry:?p~',
       'Rz:?p~', 'Rx:0', 'Ry:0', 'Rz:0', 'Rx:0.25', 'Rz:-0.5', 'Rx:$a', 'Ry:$a', 'Rz:$a', 'Rx:3$a', 'Ry:-2$a', 'Rz:-1$a', "Rx:$a'", "Rz:2$a'"]
TWO = ['SWAP'] + [f'C{d}({g})' for d in (1, -1, 2, -2) for g in ('X', 'Z')] + [
    f'C{d}({r}:{ph})' for r in ('Rx', 'Ry', 'Rz') for d, ph in ((1, '?p'), (-1, '?p'), (2, '$a'), (-2, '0.25'), (1, '0'), (-1, '$a'), (1, '2$a'))] + [
    "C1(Rx:?p)'", "C-1(Ry:?p)'", "C2(Rz:$a)'", 'C1(Rz:?p)~', 'C3(X)', 'C-3(X)', 'C3(Rz:?p)']
THREE = [f'C{a}(C{b}(X))' for a in (1, -1, 2, -2) for b in (1, -1, 2, -2)]
MAYBE = ['C1(Y)', 'C-1(Y)', 'C1(H)', 'C1(S)', 'C-1(T)', "C1(S')", "C1(S)'", 'C1(S~)', 'C1(C1(Z))', 'C-1(C2(Z))', 'C1(C1(Rx:?p))', 'C-1(C1(Rz:$a))', 'C1(C1(C1(X)))',
         'C-1(C1(C1(X)))', 'C1(C1(H))', 'U', "U'", 'C1(U)']
# whole circuits
CIRCUITS = [
    'K0@0 K0@1 Rx:?p@0 Ry:?q@1 M@0 M@1',
    'K0@0 K0@1 Rx:?p@0 Ry:?q@1 M@1 M@0',
    'K0@0 K0@1 K0@2 Rx:?p@0 Ry:?q@1 Rz:?r@2 M@2 M@0 M@1',
    'K0@0 K0@1 K0@2 Rx:?p@0 Ry:?q@1 Rz:?r@2 C1(X)@0 M@1 M@0 B0@2',
    'K1@0 K0@1 C1(X)@0 M@0 M@1', 'K0@0 K1@1 C1(X)@0 M@0 M@1', 'K1@0 M@0', 'K1@0 H@0 M@0', 'K1@0 K1@1 H@1 B0@1 M@0',
    'K0@0 K0@1 Rx:?p@0 Ry:?q@1 C1(X)@0 B0@0 M@0', 'K0@0 K0@1 Rx:?p@0 Ry:?q@1 C1(X)@0 B1@0 M@0',
    'K0@0 K0@1 Rx:?p@0 Ry:?q@1 C1(X)@0 B1@1 M@0', 'K0@0 K0@1 Rx:?p@0 Ry:?q@1 C1(X)@0 M@0 B1@1',
    'K0@0 K0@1 Rx:?p@0 Ry:?q@1 C1(X)@0 B1@0 B0@0', 'K0@0 K0@1 Rx:?p@0 Ry:?q@1 C1(X)@0 B0@1 B1@0',
    'K0@0 K0@1 Rx:?p@0 Ry:?q@1 C1(X)@0 D@0 M@0', 'K0@0 K0@1 Rx:?p@0 Ry:?q@1 C1(X)@0 M@0 D@1',
    'K0@0 K0@1 K0@2 Rx:?p@0 Ry:?q@1 Rz:?r@2 C2(X)@0 D@1 M@1 M@0',
    'K0@0 K0@1 K0@2 Rx:?p@0 Ry:?q@1 Rz:?r@2 C1(X)@1 D@0 D@0 M@0',
    'K0@0 Rx:?p@0 K0@1 Ry:?q@1 C1(X)@0 M@0 M@1', 'K0@0 Rx:?p@0 K0@0 Ry:?q@0 C1(X)@0 M@0 M@1',
    'K0@0 Rx:?p@0 K1@0 Ry:?q@0 C1(Rz:?r)@0 B0@0 M@0', 'K0@0 Rx:?p@0 K0@1 C1(X)@0 B0@0 Ry:?q@0 M@0',
    'K0@0 K0@1 H@0 C1(X)@0 B1@0 Rx:?p@0 K0@0 C1(X)@0 M@1 M@0', 'K0@0 Rx:?p@0 K0@1 Ry:?q@1 K0@2 Rz:?r@2 C2(X)@0 B0@1 C1(Rz:?s)@0 M@0 M@1',
    'K0@0 Rx:?p@0 K0@1 Ry:?q@1 K0@2 Rz:?r@2 C1(C1(X))@0 B0@0 C1(Rz:?s)@0 M@0 M@1',
    'K0@0 K0@1 Rx:?p@0 Ry:?q@1 D@0 H@0 M@0', 'K0@0 K0@1 Rx:?p@0 Ry:?q@1 B0@0 H@0 M@0',
    'K0@0 Rx:?p@0 K0@1 Ry:?q@1 SWAP@0 H@0 M@0 B0@1', 'K0@0 Rx:?p@0 K0@1 Ry:?q@1 SWAP@0 B0@0 Rz:?r@0 M@0',
    'K0@0 H@0 B0@0', 'K0@0 Rx:?p@0 B1@0 K1@0 Ry:?q@0 B0@0', 'K0@0 K0@1 K0@2 K0@3 Rx:?p@0 Ry:?q@1 Rz:?r@2 H@3 C1(X)@0 C-2(Z)@1 SWAP@2 C-3(X)@0 B0@0 B1@1 M@0 M@1',
    'K0@0 Rx:?p@0 K0@1 Ry:?q@1 C1(X)@0 D@0 K0@0 C1(X)@0 M@0 M@1',
    'K0@0 Rx:?p@0 K0@0 Ry:?q@0 K0@1 Rz:?r@1 C2(X)@0 C1(C1(X))@0 B0@0 B1@0 M@0',
]
MOVED = ['SWAP', 'C1(X)', 'C-1(Rz:?s)', 'C2(X)', 'C-2(Z)', 'C1(C1(X))', 'C-1(C2(X))', 'C1(C-2(X))', 'C-2(C1(X))', 'C3(X)', 'C-1(C-1(X))', 'C-3(Z)']
SCALARS = ['K0@0 Rx:?p@0 sc:0.5@0 M@0', 'sc:0.5@0 K0@0 Rx:?p@0 M@0', 'K0@0 Rx:?p@0 M@0 sc:-0.5@1', 'K0@0 K0@1 Rx:?p@0 Ry:?q@1 C1(X)@0 B0@0 sc:2@1 sc:0.25@0 M@0',
           'K0@0 sqrt:4@1 Rx:?p@0 M@0', 'K0@0 Rx:?p@0 M@0 sc:0@0',
           'K0@0 Rx:?p@0 M@0 sc:0.5j@0', 'sc:1+1j@0 K0@0 Rx:?p@0 M@0 sc:0.5@0']
KNOWN = ['K0@0 K0@1 Rx:?p@0 Ry:?q@1 C1(X)@0 D@0 B0@0', 'K0@0 K0@1 K0@2 Rx:?p@0 Ry:?q@1 Rz:?r@2 C1(X)@0 D@0 B1@0 M@0',
         'K0@0 K0@1 Rx:?p@0 Ry:?q@1 C1(X)@0 D@0 B1@0']


def around(g, n, off, after=True, rest=True):
    """The gate on wires off.. of a circuit whose wires are told apart."""
    N = n + off
    s = [f'K0@{i}' for i in range(N)]
    s += [f'R{"xyz"[i % 3]}:?v{i}@{i}' for i in range(N)]
    s.append(f'{g}@{off}')
    if after:
        s += [f'R{"yzx"[i % 3]}:?w{i}@{i}' for i in range(N)]
    if rest:
        s += [f'M@{i}' for i in range(N)]
    return ' '.join(s)


def moved(tier):
    """A qubit that is prepared after, or ends before, a gate that it lies beside or inside of."""
    out = []
    ws = lambda k, p: ' '.join(f'R{"xyz"[i % 3]}:{f"${p}{i}" if p == "w" else f"0.{i}7"}@{i}' for i in range(k))
    ks = lambda k: ' '.join(f'K0@{i}' for i in range(k))
    ms = lambda k: ' '.join(f'M@{i}' for i in range(k))
    for g in MOVED if tier != 'quick' else MOVED[:6]:
        n = Tests.width(None, g)
        for i in range(n + 1):
            out.append(f'{ks(n)} {ws(n, "v")} {g}@0 K0@{i} H@{i} C1(X)@0 {ws(n + 1, "w")} {ms(n + 1)}')
            out.append(f'{ks(n + 1)} {ws(n + 1, "v")} C1(X)@0 B0@{i} {g}@0 {ws(n, "w")} {ms(n)}')
            out.append(f'{ks(n + 1)} {ws(n + 1, "v")} C1(X)@0 D@{i} {g}@0 {ws(n, "w")} {ms(n)}')
            if i in (0, n):
                out.append(f'{ks(n + 1)} {ws(n + 1, "v")} C1(X)@0 M@{i} {g}@{0 if i else 1} {" ".join(f"M@{j}" for j in range(n + 1) if i != j)}')
    return out


def project(p, stubs=STUBS):
    return Project(repo=str(p.repo), stubs=[(n, os.path.join(HERE, f + '.py')) for n, f in stubs])


def engine(b):
    e = b.engine('quantum', tyv=False, dg=False)
    e.repr_on = e.np_lists = True
    e.MAXSTEPS *= 6
    return e


def fn(p, e, st, mod, name):
    return e.module_value(name, p.modules[mod], st)


def run(p, ck, tier):
    q = project(p)
    b = Bench(q, ck)
    ck.rule('tket', 'Each gate, with its angle and direction, each preparation, measurement, discard, post-selection and scalar of a circuit is in its tket circuit, on the same qubits and bits.')
    ck.rule('import', 'Each command of a tket circuit, its post-selections and its scalar are in the circuit made from it, on the same wires; the bits are in their order.')
    ck.rule('circuital', 'Bringing a circuit into the form with preparations first and post-selections last keeps what happens on each wire.')
    ck.rule('pennylane', 'Each gate, with its angle and direction, each preparation, post-selection and scalar of a circuit is in its PennyLane circuit, on the same qubits.')
    ck.rule('weights', 'The value given for a symbol, times the scale, is the angle of each gate that has the symbol.')
    ck.rule('refused', 'A circuit with a kind of gate that the library does not know is refused, or it is exported with the gate.')
    ck.rule('discopy', 'Each box of a diagram, with its data, its flags and its types, is in the DisCoPy diagram at the same place, and converting back gives the diagram again.')
    tests = Tests(q, b)
    jobs = []
    one = [(g, around(g, 1, 0)) for g in ONE]
    two = [(g, around(g, tests.width(g), o)) for g in TWO for o in (0, 1) if o == 0 or tier != 'quick' or g in ('SWAP', 'C-1(X)', 'C2(Rx:$a)')]
    three = [(g, around(g, tests.width(g), o)) for g in THREE for o in (0, 1) if tests.width(g) + o <= 5 and (o == 0 or tier != 'quick')]
    maybe = [(g, around(g, tests.width(g), 0)) for g in MAYBE]
    gates = one + two
    for i in range(0, len(gates), 12):
        part = [t for _, t in gates[i:i + 12]]
        jobs.append((f'tket gates {i}', lambda part=part: [tests.to_tk(t) for t in part]))
        jobs.append((f'pennylane gates {i}', lambda part=part: [tests.pennylane(t) for t in part]))
    for i in range(0, len(three), 12):
        part = [t for _, t in three[i:i + 12]]
        jobs.append((f'tket gates of three {i}', lambda part=part: [tests.to_tk(t) for t in part]))
        jobs.append((f'pennylane gates of three {i}', lambda part=part: [tests.pennylane(t, 'refused') for t in part]))
    for i, t in enumerate(CIRCUITS):
        jobs.append((f'circuit {i}', lambda t=t: (tests.to_tk(t), tests.circuital(t), tests.pennylane(t))))
    for i, t in enumerate(moved(tier)):
        jobs.append((f'moved {i}', lambda t=t: (tests.to_tk(t), tests.pennylane(t)) if 'M@0 C' not in t else tests.to_tk(t)))
    jobs.append(('scalars', lambda: [(tests.to_tk(t), tests.pennylane(t)) for t in SCALARS]))
    jobs.append(('known', lambda: [(tests.to_tk(t), tests.pennylane(t)) for t in KNOWN]))
    jobs.append(('refused', lambda: [(tests.to_tk(t, 'refused'), tests.pennylane(t, 'refused')) for _, t in maybe]))
    jobs.append(('import', lambda: [tests.from_tk(t) for t in TKS]))
    jobs.append(('weights', lambda: [tests.weights(t) for t in WEIGHTS]))
    q2 = project(p, DISCOPY)
    dis = Discopy(q2, Bench(q2, ck))
    for cat, boxes in (('grammar', GRAMMAR), ('tensor', TENSOR), ('quantum', QUANTUM)):
        for i in range(0, len(boxes), 12):
            jobs.append((f'discopy {cat} {i}', lambda cat=cat, part=boxes[i:i + 12]: [dis.run(cat, t) for t in part]))
    if ONLY:
        jobs = [j for j in jobs if re.match(ONLY, j[0])]
    fork_map(ck, jobs)
    ck.floor('tket', 40)
    ck.floor('discopy', 30)
    ck.floor('pennylane', 20)


# tket circuits: command, qubits, bits; last the bits that are post-selected and the scalar
TKS = ['Rx:?p@0 Ry:?q@1 Measure@0>0 Measure@1>1', 'Rx:?p@0 Ry:?q@1 Measure@0>1 Measure@1>0', 'Rx:?p@0 Ry:?q@1 Rz:?r@2 Measure@0>2 Measure@1>0 Measure@2>1',
       'Rx:?p@0 Ry:?q@1 Measure@1>1 Measure@0>0', 'Rx:?p@0 Ry:?q@1 Measure@0>0', 'Rx:?p@0 Ry:?q@1 Measure@1>0',
       'Rx:?p@0 Ry:?q@1 Rz:?r@2 Measure@0>0 Measure@1>1 Measure@2>2 post:1=1', 'Rx:?p@0 Ry:?q@1 Rz:?r@2 Measure@0>0 Measure@1>1 Measure@2>2 post:1=0,0=1',
       'Rx:?p@0 Ry:?q@1 Rz:?r@2 Measure@0>2 Measure@1>0 Measure@2>1 post:0=1', 'Rx:?p@0 Ry:?q@1 CX@0,1 Measure@0>0 Measure@1>1 post:0=1',
       'Rx:?p@0 Ry:?q@1 CX@1,0 Rz:?r@0 Measure@0>0 Measure@1>1', 'Rx:?p@0 Measure@0>0 scale:0.25', 'Rx:?p@0 scale:4 Ry:?q@1 Measure@1>1 scale:0.25 Measure@0>0 scale:9 post:1=1'] + [
    f'Rx:?p@0 Ry:?q@1 Rz:?r@2 {g} Rz:?s@0 Rx:?t@1 Ry:?u@2 Measure@0>0 Measure@1>1 Measure@2>2' for g in (
        'H@1', 'X@0', 'Y@2', 'Z@1', 'S@0', 'T@1', 'Sdg@2', 'Tdg@0', 'Rx:?v@1', 'Ry:?v@0', 'Rz:?v@2', 'Rx:$a@1', 'Rz:3$a@2', 'Ry:0@1',
        'CX@0,1', 'CX@1,0', 'CX@0,2', 'CX@2,0', 'CX@2,1', 'CZ@0,1', 'CZ@2,0', 'CY@0,1', 'CY@2,0', 'CRx:?v@0,1', 'CRx:?v@2,0', 'CRy:?v@1,2', 'CRy:$a@2,1',
        'CRz:?v@0,2', 'CRz:2$a@1,0', 'SWAP@0,1', 'SWAP@0,2', 'SWAP@2,1', 'CCX@0,1,2', 'CCX@2,0,1', 'CCX@1,2,0', 'CCX@0,2,1', 'CCX@2,1,0')]
WEIGHTS = ['K0@0 K0@1 Rx:$a@0 Ry:$b@1 C1(Rz:$a)@0 Rz:2$b@0 Rx:0.25@1 Ry:-3$c@0', "K0@0 Rx:$b@0 Ry:$a@0 Rx:$b'@0", 'K0@0 K0@1 Rx:2$a@1 Rx:0@0 C1(Rx:-1$a)@0']


class Tests:
    def __init__(self, q, b):
        self.q, self.b, self.done = q, b, set()
        self.where = q.func('backend.converters.tk.to_tk').where
        self.pl = q.func('backend.pennylane.to_pennylane').where

    def width(self, g):
        def w(g):
            g = g.rstrip("'~")
            if g[0] == 'C' and g.endswith(')'):
                d, r = g[1:-1].split('(', 1)
                return abs(int(d)) + w(r)
            return 2 if g == 'SWAP' else 1
        return w(g)

    def judge(self, e, f):
        """f() -> the difference or None"""
        try:
            r = f()
        except Lost as x:
            r = str(x)
        return r is None, r or ''

    def refusable(self, e, st, fn):
        done, v = attempt(e, st, fn)
        return v if done else K('refused')

    def to_tk(self, text, rule='tket'):
        def go(e, st):
            d = M(self.q, 'quantum', e, st).circuit(text)
            conv = lambda: meth(e, d, 'to_tk', [], {}, st)
            return Tup([d, conv() if rule == 'tket' else self.refusable(e, st, conv)])

        def chk(e, v, st, path):
            d, t = v.items
            if t == K('refused'):
                return True, 'refused'
            return self.judge(e, lambda: compare(history(e, st, d, True), tk_history(e, st, t), tk=True))
        self.b.run(rule, text if rule == 'tket' else f'tket {text}', self.where, engine(self.b), go, chk)

    def circuital(self, text):
        def go(e, st):
            d = M(self.q, 'quantum', e, st).circuit(text)
            t = e.call(fn(self.q, e, st, 'lambeq.backend.quantum', 'to_circuital'), [d], {}, st, None)
            return Tup([d, t, e.getattr(t, 'is_circuital', st)])

        def chk(e, v, st, path):
            d, t, c = v.items
            if c == K(False):
                return False, 'the result is not circuital'
            ok, msg = self.judge(e, lambda: compare(history(e, st, d, True), history(e, st, t, True)))
            return (ok, msg) if c == K(True) or not ok else (None, show(c))
        self.b.run('circuital', text, self.q.func('backend.quantum.to_circuital').where, engine(self.b), go, chk)

    def pure(self, text):
        return ' '.join(w for w in text.split() if not w.startswith('M@'))

    def pennylane(self, text, rule='pennylane'):
        """Measurements are refused: the circuit without them."""
        text = self.pure(text)
        if text in self.done:
            return
        self.done.add(text)
        if any(f'C{a}(C{b}(X))' in text for a in (1, -1, 2, -2, 3) for b in (1, -1, 2, -2, 3)):
            rule = 'refused'       # PennyLane's Toffoli is not in the table

        def go(e, st):
            d = M(self.q, 'quantum', e, st).circuit(text)
            conv = lambda: self.tape(e, st, meth(e, d, 'to_pennylane', [], {}, st))
            r = conv() if rule == 'pennylane' else self.refusable(e, st, conv)
            return Tup([d, r])

        def chk(e, v, st, path):
            d, t = v.items
            if t == K('refused'):
                return True, 'refused'
            h = history(e, st, d)
            return self.judge(e, lambda: compare(h, self.pl_history(e, st, t, has_discard(h)), pl=True))
        self.b.run(rule, text if rule == 'pennylane' else f'pennylane {text}', self.pl, engine(self.b), go, chk)

    def tape(self, e, st, c, params='_params'):
        t = fn(self.q, e, st, 'pennylane', 'TAPE')
        r = e.call(e.getattr(c, '_circuit', st), [e.getattr(c, params, st)], {}, st, None)
        return Tup([c, t, r])

    def calls(self, e, st, t):
        for x in items(e, t, st):
            x = e.res(x, st)
            if not isinstance(x, Tup):
                raise Unsupported(f'tape {show(x)}')
            n, inv, ps, ws = x.items
            yield const(e, n, st), const(e, inv, st), items(e, ps, st), [const(e, w, st) for w in items(e, ws, st)]

    def states(self, e, st, c):
        """The amplitudes that are kept are those with the post-selected bits."""
        n = const(e, e.getattr(c, '_n_qubits', st), st)
        post = {const(e, k, st): const(e, x, st) for k, x in pairs(e, e.getattr(c, '_post_selection', st), st)}
        want = [k for k in range(2 ** n) if all((k >> n - 1 - i) & 1 == b for i, b in post.items())]
        have = [const(e, x, st) for x in items(e, e.getattr(c, '_valid_states', st), st)]
        if have != want:
            raise Lost(f'keeps the amplitudes {have} instead of {want}')

    def pl_history(self, e, st, v, discards):
        c, t, r = v.items
        self.states(e, st, c)
        h = History()
        h.live = [h.new() for _ in range(const(e, e.getattr(c, '_n_qubits', st), st))]
        at = list(h.live)
        for n, inv, ps, ws in self.calls(e, st, t):
            lib(h, n, phase_of(e, ps[0], st) if ps else None, ws, at, inv)
        post = {const(e, k, st): const(e, x, st) for k, x in pairs(e, e.getattr(c, '_post_selection', st), st)}
        h.live = []
        kind = const(e, e.res(r, st).items[0], st)
        for i, w in enumerate(at):
            if i in post:
                if post[i]:
                    h.emit('X', False, None, (), (w,))
                h.end(w, 'post')
            elif discards:
                h.end(w, 'discard')
            else:
                h.live.append(w)
        if discards != (kind == 'density_matrix'):
            raise Lost(f'evaluated as {kind}')
        if discards and [const(e, x, st) for x in items(e, e.res(r, st).items[1], st)] != list(post):
            raise Lost('the density matrix is not that of the post-selected qubits')
        s = phase_of(e, e.getattr(c, '_scale', st), st)
        h.scale = s[1] if s[0] == 'number' else None
        return h

    def weights(self, text):
        def go(e, st):
            m = M(self.q, 'quantum', e, st)
            d = m.circuit(text)
            c = meth(e, d, 'to_pennylane', [], {}, st)
            ws = e.new(st, DictO({m.sym(n): Sym(f'w_{n}', ('real',)) for n in 'abc' if f'${n}' in text}))
            meth(e, c, 'initialise_concrete_params', [ws], {}, st)
            return Tup([d, self.tape(e, st, c, '_concrete_params')])

        def chk(e, v, st, path):
            d, t = v.items
            h = history(e, st, d)
            sub = lambda ph: ('value', ph[2], f'w_{ph[1]}') if ph and ph[0] == 'symbol' else ph
            h.wires = [[ev if len(ev) == 1 else (*ev[:2], sub(ev[2]), *ev[3:]) for ev in w] for w in h.wires]
            return self.judge(e, lambda: compare(h, self.pl_history(e, st, t, False), pl=True))
        self.b.run('weights', text, self.pl, engine(self.b), go, chk)

    def from_tk(self, text):
        words = text.split()
        n = 1 + max(int(x) for w in words if '@' in w for x in w.split('@')[1].split('>')[0].split(','))
        nb = sum(w.startswith('Measure') for w in words)

        def go(e, st):
            m = M(self.q, 'quantum', e, st)
            t = e.instantiate(ClsV(self.q.cls('backend.converters.tk.Circuit')), [I(n), I(nb)], {}, st, None)
            for w in words:
                if w.startswith('post:'):
                    d = {I(int(x[0])): I(int(x[2])) for x in w[5:].split(',')}
                    meth(e, t, 'post_select', [e.new(st, DictO(d))], {}, st)
                    continue
                if w.startswith('scale:'):
                    meth(e, t, 'scale', [K(float(w[6:]))], {}, st)
                    continue
                g, a = w.split('@')
                if g == 'Measure':
                    meth(e, t, 'Measure', [I(int(x)) for x in a.split('>')], {}, st)
                    continue
                k, ph = (g.split(':') + [''])[:2]
                ps = []
                if ph:
                    x = m.phase(ph)
                    if '$' in ph:
                        x = meth(e, x, 'to_sympy', [], {}, st)
                    ps = [x]
                meth(e, t, k, ps + [I(int(x)) for x in a.split(',')], {}, st)
            return Tup([t, e.call(fn(self.q, e, st, 'lambeq.backend.converters.tk', 'from_tk'), [t], {}, st, None)])

        def chk(e, v, st, path):
            t, d = v.items
            a, b = tk_history(e, st, t), history(e, st, d, True)
            f = scale(b)
            if f is None or a.scale is None:
                raise Unsupported('scalar')
            if abs(abs(f) ** 2 - a.scale) > 1e-6:
                return False, f'the scalar is {f} for a probability scale of {a.scale}'
            b.scalars = list(a.scalars)
            return self.judge(e, lambda: compare(a, b))
        self.b.run('import', text, self.q.func('backend.converters.tk.from_tk').where, engine(self.b), go, chk)


def has_discard(h):
    return any(('discard',) in w for w in h.wires)


# boxes for DisCoPy: category, box
GRAMMAR = ['f', "f'", 'f~', 'f-', 'f~~', "f~'", "f'-", 'W', "W'", 'W~', 'cup n n1', 'cup n-1 n', 'cup n2 n1 r', 'cup n n-1 r', 'cap n n-1', 'cap n1 n',
           'cap n n1 r', 'cap n1 n2 r', 'swap n s1', 'swap n n', 'spider n 2 3', 'spider n1 0 1', 'spider n 1 0', 'z3', 'z-3', "z-3'"]
TENSOR = ['f', "f'", 'f~', 'f-', "f~'", 'v', "v'", 'cup a a', 'cap b b', 'swap a b', 'swap a a', 'spider a 1 2', 'spider b 0 1', 'spider a 3 0']
QUANTUM = [g for g in ONE if g not in ('Rx:0', 'Ry:0')] + ['SWAP', 'C1(X)', 'C-2(X)', 'C3(Rz:?p)', 'C2(Rx:$a)', "C1(S')", "C1(S)'", 'C-1(C2(X))', 'C1(H)', 'C-1(T)',
                                                          'C1(C-1(C1(Z)))', "C1(Rz:?p)'", 'C1(Rz:?p)~', 'K0', 'K1', 'B0', 'B1', 'D', 'M', 'E', "M'", "E'", "K1'", 'sc:0.5',
                                                          'sc:?p', 'sqrt:2', 'sc:-0.25']


class Discopy:
    """What is exported to DisCoPy, by the model of its classes, and what comes back."""

    def __init__(self, q, b):
        self.q, self.b = q, b
        self.where = q.func('backend.converters.discopy.to_discopy').where

    def box(self, m, cat, t):
        n = t.rstrip("'~-")
        suffix = t[len(n):]
        w = n.split(' ')
        ty = lambda x: m.ty(x) if cat == 'grammar' else m.dim(x)
        if w[0] in ('cup', 'cap'):
            b = m.new(w[0].title(), m.wound(w[1]) if cat == 'grammar' else ty(w[1]), m.wound(w[2]) if cat == 'grammar' else ty(w[2]), is_reversed=K(len(w) > 3))
        elif w[0] == 'swap':
            b = m.new('Swap', *(m.wound(x) if cat == 'grammar' else ty(x) for x in w[1:]))
        elif w[0] == 'spider':
            b = m.new('Spider', m.wound(w[1]) if cat == 'grammar' else ty(w[1]), int(w[2]), int(w[3]))
        elif n == 'W':
            b = m.new('Word', 'w', m.ty('n s'))
        elif n[0] == 'z':
            b = m.new('Box', 'g', m.ty(''), m.ty('n'), z=I(int(t[1:].rstrip("'"))))
            suffix = "'" if t.endswith("'") else ''
        elif cat == 'grammar':
            b = m.new('Box', 'f', m.ty('n s'), m.ty('s'))
        else:
            b = m.new('Box', n, m.dim('a b' if n == 'f' else ''), m.dim('b'), Sym('array', ('real',)))
        for c in suffix:
            b = meth(m.e, b, 'dagger', [], {}, m.st) if c == "'" else meth(m.e, b, 'rotate', [I(1 if c == '~' else -1)], {}, m.st)
        return b

    def run(self, cat, t):
        def go(e, st):
            m = M(self.q, cat, e, st)
            b = m.box(t) if cat == 'quantum' else self.box(m, cat, t)
            left, right = {'grammar': ('s', 'n s'), 'quantum': ('bit', 'qubit bit'), 'tensor': ('b', 'a')}[cat]
            if cat == 'tensor':
                left, right = m.dim(left), m.dim(right)
            else:
                left, right = m.ty(left), m.ty(right)
            d = m.whole(left, b, right)
            x = e.call(fn(self.q, e, st, 'lambeq.backend.converters.discopy', 'to_discopy'), [d], {}, st, None)
            return Tup([d, x, e.call(fn(self.q, e, st, 'lambeq.backend.converters.discopy', 'from_discopy'), [x], {}, st, None)])

        def chk(e, v, st, path):
            d, x, r = v.items
            a, b = self.facts(e, st, d), self.discopy_facts(e, st, x)
            if a != b:
                return False, f'{b} for {a}'
            c = self.facts(e, st, r)
            if a != c:
                return False, f'{c} comes back for {a}'
            x, y = (e.reify(z, st) for z in (d, r))
            if repr(x) == repr(y) or e.user_eq(d, r, st, None) is True:
                return True, ''
            return False, 'another diagram comes back'
        e = self.b.engine(cat, tyv=False, dg=False)
        e.repr_on = e.np_lists = True
        e.MAXSTEPS *= 6
        self.b.run('discopy', f'{cat} {t}', self.where, e, go, chk)

    # facts: per layer (left, box, right)
    def ty(self, e, st, t):
        out = []
        n = length(e, t, st)
        obs = [t] if n == 1 else items(e, e.getattr(t, 'objects', st), st) if n else []
        for o in obs:
            c = e.class_of(o, st)
            l = const(e, e.getattr(o, 'label', st), st) if 'label' in e.obj(st, e.res(o, st)).fields else None
            if l is not None:
                out.append((l, 0))
            elif 'Dim' in [k.name for k in c.mro()]:
                out.append((const(e, items(e, e.getattr(o, 'dim', st), st)[0], st), 0))
            else:
                out.append((const(e, e.getattr(o, 'name', st), st), const(e, e.getattr(o, 'z', st), st)))
        return out

    def facts(self, e, st, d):
        out = []
        for l in items(e, e.getattr(d, 'layers', st), st):
            out.append((self.ty(e, st, e.getattr(l, 'left', st)), self.fact(e, st, e.getattr(l, 'box', st)), self.ty(e, st, e.getattr(l, 'right', st))))
        return out

    def fact(self, e, st, b):
        n = [c.name for c in e.class_of(b, st).mro()]
        if 'Daggered' in n:
            k, *r, dom, cod = self.fact(e, st, e.getattr(b, 'box', st))
            if 'Rotation' not in n:
                r[0] = not r[0]
            return (k, *r, cod, dom)
        dom, cod = (tuple(self.ty(e, st, e.getattr(b, x, st))) for x in ('dom', 'cod'))
        at = lambda x: const(e, e.getattr(b, x, st), st)
        if 'Controlled' in n:
            return ('Controlled', False, at('distance'), self.fact(e, st, e.getattr(b, 'controlled', st)), dom, cod)
        for k in ('Rx', 'Ry', 'Rz', 'Sqrt', 'Scalar'):
            if k in n:
                return (k, False, phase_of(e, e.getattr(b, 'data', st), st), dom, cod)
        for k in ('Ket', 'Bra'):
            if k in n:
                return (k, False, at('bit'), dom, cod)
        for k in ('Discard', 'Measure', 'Encode', 'Cup', 'Cap', 'Swap', 'Spider'):
            if k in n:
                return (k, False, dom, cod)
        k = 'Word' if 'Word' in n else 'Box'
        data = show(e.res(e.getattr(b, 'data', st), st)) if 'data' in e.obj(st, e.res(b, st)).fields and 'lambeq.backend.quantum.Box' not in [
            c.qual for c in e.class_of(b, st).mro()] else None
        return (k, False, at('name'), at('z'), data, dom, cod)

    def dty(self, e, st, t):
        out = []
        for x in items(e, e.getattr(t, 'inside', st), st):
            x = e.res(x, st)
            if isinstance(x, Tup):
                out.append((const(e, x.items[0], st), const(e, x.items[1], st)))
            else:
                out.append((const(e, x, st), 0))
        return out

    def discopy_facts(self, e, st, d):
        return [(self.dty(e, st, l.items[0]), self.discopy_fact(e, st, l.items[1]), self.dty(e, st, l.items[2]))
                for l in (e.res(x, st) for x in items(e, e.getattr(d, 'inside', st), st))]

    def discopy_fact(self, e, st, b):
        k = e.class_of(b, st).name
        dom, cod = (tuple(self.dty(e, st, e.getattr(b, x, st))) for x in ('dom', 'cod'))
        at = lambda x: const(e, e.getattr(b, x, st), st)
        if k == 'Controlled':
            return (k, False, at('distance'), self.discopy_fact(e, st, e.getattr(b, 'controlled', st)), dom, cod)
        if k in ('Rx', 'Ry', 'Rz', 'Sqrt', 'Scalar'):
            return (k, False, phase_of(e, e.getattr(b, 'data', st), st), dom, cod)
        if k in ('Ket', 'Bra'):
            bits = [const(e, x, st) for x in items(e, e.getattr(b, 'bitstring', st), st)]
            return (k, False, bits[0] if len(bits) == 1 else bits, dom, cod)
        if k in ('Discard', 'Measure', 'Encode', 'Cup', 'Cap', 'Swap', 'Spider'):
            return (k, False, dom, cod)
        data = e.res(e.getattr(b, 'data', st), st)
        return (k, bool(at('is_dagger')), at('name'), at('z') or 0, None if data == K(None) else show(data), dom, cod)
