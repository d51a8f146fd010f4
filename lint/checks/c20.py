"""C20: every drawing backend can draw everything, and what it draws is the diagram."""
import itertools
import math
import os
import re
from ..absint import Raised, Store, Unsupported
from ..harness import *
from ..project import Project
from ..values import ListO, DictO, InstO
from . import c03
from .c14 import HERE, const, items, length
from .c15 import Mk as Mk15
from .c22 import Mk as Mk22, Read

TITLE = 'Every drawing backend can draw everything'
MPL = ('matplotlib.pyplot', 'matplotlib.patches', 'matplotlib.path')
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs')
EPS = 1e-4
BACKENDS = ('matplotlib', 'TikZ')


class Late(Exception):
    """Something is drawn after the page is handed out."""


class Odd(Exception):
    """What was drawn has a form that the bench has no account of."""


def project(p):
    return Project(repo=str(p.repo), stubs=[(n, os.path.join(STUBS, 'c20_mpl.py')) for n in MPL])


def py(e, v, st):
    v = e.res(v, st)
    if isinstance(v, Lin) and v.const is not None:
        return v.const
    if isinstance(v, K):
        return v.v
    if isinstance(v, Tup):
        return tuple(py(e, x, st) for x in v.items)
    if isinstance(v, Ref):
        o = e.obj(st, v)
        if isinstance(o, ListO):
            return [py(e, x, st) for x in o.items]
        if isinstance(o, DictO) and o.rest is None:
            return {py(e, k, st): py(e, x, st) for k, x in o.d.items()}
    raise Unsupported(f'unknown value {show(v)[:80]}')


def value(e, st, x):
    if isinstance(x, V):
        return x
    if isinstance(x, tuple):
        return Tup([value(e, st, y) for y in x])
    if isinstance(x, list):
        return e.new(st, ListO([value(e, st, y) for y in x]))
    if isinstance(x, int) and not isinstance(x, bool):
        return I(x)
    return K(x)


# -- cases -------------------------------------------------------------------
class Mk20(Mk22):
    """Also frames: '#f:n>s[g:n>n;#h:s>s[k:n>n]]'."""

    def box(self, s):
        if s[0] == '#' and s.endswith(']'):
            head, inner = s[:-1].split('[', 1)
            parts, depth = [''], 0
            for c in inner:
                depth += (c == '[') - (c == ']')
                if c == ';' and not depth:
                    parts.append('')
                else:
                    parts[-1] += c
            name, ty = head[1:].split(':')
            d, c = ty.split('>')
            return self.new('Frame', name, self.T(d), self.T(c), components=self.lst([self.box(x) for x in parts]))
        return super().box(s)


class Case:
    """A diagram, with what has to be seen of it."""

    def __init__(self, diagram, dom, boxes, cod):
        self.diagram, self.dom, self.boxes, self.cod = diagram, dom, boxes, cod     # boxes: (class names, name, dom, cod, offset, value)


def grammar_case(p, e, st, text):
    mk = Mk20(p, 'grammar', e, st)
    d = mk.drawn(text) if '|' in text else mk.box(text)
    if '|' not in text:
        d = meth(e, d, 'to_diagram', [], {}, st)
    c = case_of(e, st, d)
    if '[' in text:
        c.tree = Tree(e, st, d)
    return c


def case_of(e, st, d):
    m = Read(e, st)
    kinds = lambda t: [name_of(k) for k in m.kinds(t)]
    boxes = []
    for layer in m.items(m.at(d, 'layers')):
        b = m.at(layer, 'box')
        boxes.append((m.names(b), m.const(m.at(b, 'name')), kinds(m.at(b, 'dom')), kinds(m.at(b, 'cod')), length(e, m.at(layer, 'left'), st), b))
    return Case(d, kinds(m.at(d, 'dom')), boxes, kinds(m.at(d, 'cod')))


def name_of(k):
    z, n = k
    return n + ('.r' * z if z > 0 else '.l' * -z)


class Find:
    def __init__(self):
        self.up = {}

    def find(self, x):
        self.up.setdefault(x, x)
        while self.up[x] != x:
            x = self.up[x]
        return x

    def join(self, x, y):
        self.up[self.find(x)] = self.find(y)

    def classes(self, keep):
        out = {}
        for x in list(self.up):
            if keep(x):
                out.setdefault(self.find(x), set()).add(x)
        return sorted((sorted(c) for c in out.values()))


def spiderish(names):
    return any(n in names for n in ('Spider', 'Cup', 'Cap', 'Swap'))


def depicted(case):
    """What has to be connected: ports ('0in', i), ('2out', i), ('1box', k, 'dom'/'cod', i)."""
    u = Find()
    scan = [('0in', i) for i in range(len(case.dom))]
    for x in scan:
        u.find(x)
    for k, (names, name, dom, cod, off, b) in enumerate(case.boxes):
        ins = scan[off:off + len(dom)]
        if 'Swap' in names:
            outs = ins[::-1]
        elif 'Cup' in names:
            u.join(*ins)
            outs = []
        elif 'Cap' in names:
            outs = [('3cap', k), ('3cap', k)]
        elif 'Spider' in names:
            outs = [('4sp', k)] * len(cod)
            for x in ins:
                u.join(x, ('4sp', k))
        else:
            for i, x in enumerate(ins):
                u.join(x, ('1box', k, 'dom', i))
            outs = [('1box', k, 'cod', i) for i in range(len(cod))]
        for x in outs:
            u.find(x)
        scan[off:off + len(dom)] = outs
    for i, x in enumerate(scan):
        u.join(x, ('2out', i))
    return u.classes(lambda x: x[0] in ('0in', '1box', '2out'))


# -- drawing -----------------------------------------------------------------
class Drawing:
    """What a call of a drawing function put on the page."""

    def __init__(self):
        self.wires, self.polys, self.texts, self.marks, self.curves, self.arrows, self.about = [], [], [], [], [], [], {}
        self.order = []


class Pen:
    def __init__(self, p, backend, category='grammar'):
        self.p, self.backend = p, backend
        self.bench = None
        self.events = []
        self.category = category

    def prepare(self, e):
        for n in MPL:
            e.intrinsics[n + '.rec'] = self.rec
        num = lambda v, e, st: py(e, v, st)
        e.intrinsics['math.sqrt'] = lambda e, st, a, kw, n: K(math.sqrt(num(a[0], e, st)))
        e.intrinsics['math.isclose'] = lambda e, st, a, kw, n: K(math.isclose(num(a[0], e, st), num(a[1], e, st), **{k: num(x, e, st) for k, x in kw.items()}))
        e.intrinsics['builtins.round'] = lambda e, st, a, kw, n: value(e, st, round(*[num(x, e, st) for x in a]))
        e.intrinsics['builtins.print'] = self.print
        e.intrinsics['builtins.open'] = self.open

    def rec(self, e, st, args, kw, node):
        self.events.append(tuple(py(e, x, st) for x in args))
        return K(None)

    def print(self, e, st, args, kw, node):
        if 'file' in kw:
            self.events.append(('warn',))
        else:
            self.events.append(('print', '\n'.join(str(py(e, x, st)) for x in args)))
        return K(None)

    def open(self, e, st, args, kw, node):
        got = dict(zip(('file', 'mode'), args), **kw)
        path, mode = py(e, got['file'], st), py(e, got['mode'], st) if 'mode' in got else 'r'
        self.events.append(('open', path, mode))
        c = self.p.modules['matplotlib.pyplot'].classes['File']
        return e.new(st, InstO(c, {'path': K(path), 'mode': K(mode)}))

    def result(self):
        if self.backend == 'TikZ':
            return tikz(self.events)
        return mat(self.events)


def near(a, b):
    return abs(a[0] - b[0]) < EPS and abs(a[1] - b[1]) < EPS


def mat(events):
    d = Drawing()
    for ev in events:
        k = ev[0]
        if k in ('patch', 'arrow', 'text', 'scatter') and any(x in d.about for x in ('save', 'show')):
            raise Late(k)
        if k == 'patch':
            _, vs, codes, style = ev
            vs = [tuple(map(float, x)) for x in vs]
            if style.get('facecolor') == 'none':
                d.wires.append((vs[0], vs[-1]))
                d.curves.append((vs, codes, style.get('edgecolor'), style.get('linewidth')))
            else:
                if len(vs) > 1 and near(vs[0], vs[-1]):
                    vs = vs[:-1]
                d.polys.append((vs, style.get('facecolor')))
                d.about.setdefault('outline', set()).add(style.get('linewidth'))
                d.order.append(('poly', len(d.polys) - 1))
                continue
            d.order.append(('wire', len(d.wires) - 1))
        elif k == 'arrow':
            x, y, dx, dy = ev[1:5]
            d.arrows.append(((x, y), (x + dx, y + dy)))
        elif k == 'text':
            d.texts.append((ev[3], (float(ev[1]), float(ev[2])), ev[4]))
        elif k == 'scatter':
            xs, ys = ev[1], ev[2]
            for x, y in zip(xs, ys):
                d.marks.append(((float(x), float(y)), ev[3]))
        elif k in ('aspect', 'margins', 'figure', 'save', 'show', 'print', 'xlim', 'ylim'):
            d.about.setdefault(k, []).append(ev[1:])
        elif k != 'warn':
            raise Odd(k)
    return d


NODE = re.compile(r'\\node \[(.*)\] \((\d+)\) at \((-?[\d.e-]+), (-?[\d.e-]+)\) \{(.*)\};$')
DRAW = re.compile(r'\\draw \[(.*)\] (.*);$')


def tikz(events):
    d = Drawing()
    text = ''
    for ev in events:
        if ev[0] in ('print', 'write'):
            if ev[0] == 'write' and ev[1].endswith('.tikzstyles'):
                d.about.setdefault('styles', []).append(ev[1:])
                continue
            text += ev[-1]
            d.about.setdefault('show' if ev[0] == 'print' else 'save', []).append(ev[1:-1])
        elif ev[0] not in ('open', 'warn'):
            raise Odd(ev[0])
    nodes = {}
    for line in text.split('\n'):
        if line.startswith('\\node'):
            m = re.match(r'\\node \(0\) at \(0, (.*)\) \{\};', line)
            if m:
                d.about['baseline'] = m[1]
                continue
            m = NODE.match(line)
            if not m:
                raise Odd(line)
            if m[2] in nodes:
                d.about['twice'] = m[2]
            nodes[m[2]] = (float(m[3]), float(m[4]))
            if m[5]:
                d.texts.append((m[5], nodes[m[2]], m[1]))
            elif 'circle' in m[1] or 'plus' in m[1] or 'style' in m[1]:
                d.marks.append((nodes[m[2]], m[1]))
        elif line.startswith('\\draw'):
            m = DRAW.match(line)
            if not m:
                raise Odd(line)
            ends = re.findall(r'\((\d+)\.center\)', m[2])
            for k in re.sub(r'\{.*?\}', '', m[1]).split(','):
                if not re.match(r'\s*(-|->|(in|out|looseness)=-?[\d.]+|(draw|fill)=|line width=[\d.]+pt|style=\w+)$', k):
                    d.about['key'] = k.strip()
            for x in ends:
                if x not in nodes:
                    d.about['undeclared'] = (x, line)
                    nodes[x] = (math.nan, math.nan)
            at = [nodes[x] for x in ends]
            if len(at) > 2 and ends[0] == ends[-1]:
                d.polys.append((at[:-1], m[1]))
                d.order.append(('poly', len(d.polys) - 1))
            elif len(at) == 2 and '->' in m[1]:
                d.arrows.append((at[0], at[1]))
            elif len(at) == 2:
                d.wires.append((at[0], at[1]))
                d.curves.append((at, None, m[1], None))
                d.order.append(('wire', len(d.wires) - 1))
            else:
                raise Odd(line)
        elif line.startswith('\\tikzstyle'):
            d.about.setdefault('styles', []).append(line)
        elif line.startswith('\\begin{tikzpicture}'):
            d.about['begin'] = line
    return d


# -- reading a drawing -------------------------------------------------------
def box_of(poly):
    xs, ys = [x for x, _ in poly], [y for _, y in poly]
    return min(xs), max(xs), min(ys), max(ys)


def label(t):
    return re.sub(r'^(R[xz])\(.*', r'\1', t)


def trace(case, d, named=True):
    """What the wires, legs, marks and shapes on the page connect; the shapes are those of the boxes in order of appearance."""
    solid = [(k, b) for k, b in enumerate(case.boxes) if not spiderish(b[0])]
    polys = [box_of(p) for p, _ in d.polys]
    if len(polys) != len(solid):
        return f'{len(polys)} shapes for {len(solid)} boxes'
    which = {}
    for (k, b), r in zip(solid, polys):
        which[k] = r
        if named and 'Measure' not in b[0] and not any(label(t) == label(b[1]) and r[0] - EPS <= x <= r[1] + EPS and r[2] - EPS <= y <= r[3] + EPS for t, (x, y), _ in d.texts):
            return f'box {b[1]!r} is not labelled at its place'
    pts = []

    def pt(p):
        for i, q in enumerate(pts):
            if near(p, q):
                return i
        pts.append(p)
        return len(pts) - 1
    segs = [(pt(a), pt(b)) for a, b in d.wires]
    marks = {pt(m) for m, _ in d.marks}
    at = {}
    for n, (a, b) in enumerate(segs):
        at.setdefault(a, []).append((n, b))
        at.setdefault(b, []).append((n, a))
    u = Find()
    ends, ports = [], {k: ([], []) for k in which}
    for i, lst in at.items():
        x, y = pts[i]
        hit = None
        if i not in marks:
            for k, r in which.items():
                if r[0] - EPS <= x <= r[1] + EPS:
                    if abs(y - r[3]) < EPS and all(pts[o][1] > y + EPS for _, o in lst):
                        hit = (k, 0)
                    elif abs(y - r[2]) < EPS and all(pts[o][1] < y - EPS for _, o in lst):
                        hit = (k, 1)
        if hit:
            if len(lst) != 1:
                return f'{len(lst)} wires in one place of box {case.boxes[hit[0]][1]!r}'
            ports[hit[0]][hit[1]].append((x, lst[0][0]))
        elif i in marks or len(lst) == 2:
            for n, _ in lst:
                u.join(('seg', n), ('seg', lst[0][0]))
        elif len(lst) == 4:
            up = sorted((pts[o][0], n) for n, o in lst if pts[o][1] > y + EPS)
            down = sorted((pts[o][0], n) for n, o in lst if pts[o][1] < y - EPS)
            if len(up) != 2 or len(down) != 2:
                return 'four wires meet at a point'
            u.join(('seg', up[0][1]), ('seg', down[1][1]))
            u.join(('seg', up[1][1]), ('seg', down[0][1]))
        elif len(lst) == 1:
            o = lst[0][1]
            ends.append((i, lst[0][0], pts[o][1] < y))
        else:
            return f'{len(lst)} wires meet at a point'
    ins = sorted((pts[i][0], n) for i, n, top in ends if top)
    outs = sorted((pts[i][0], n) for i, n, top in ends if not top)
    if (len(ins), len(outs)) != (len(case.dom), len(case.cod)):
        return f'{len(ins)} wires come in and {len(outs)} go out of the page instead of {len(case.dom)} and {len(case.cod)}'
    for tag, lst in (('0in', ins), ('2out', outs)):
        for i, (_, n) in enumerate(lst):
            u.join((tag, i), ('seg', n))
    for k, pair in ports.items():
        for side, lst in zip(('dom', 'cod'), pair):
            want = len(case.boxes[k][2 if side == 'dom' else 3])
            if len(lst) != want:
                return f'{len(lst)} wires at the {side} of box {case.boxes[k][1]!r} instead of {want}'
            for i, (_, n) in enumerate(sorted(lst)):
                u.join(('1box', k, side, i), ('seg', n))
    got = u.classes(lambda x: x[0] in ('0in', '1box', '2out'))
    want = depicted(case)
    if got != want:
        a = next((x for x in want if x not in got), None)
        return f'the wires on the page do not connect {a}'
    return None


def overlap(case, d):
    rs = [box_of(p) for p, _ in d.polys]
    solid = [b for b in case.boxes if not spiderish(b[0])]
    for i, a in enumerate(rs):
        for j, b in enumerate(rs[:i]):
            if a[0] < b[1] - EPS and b[0] < a[1] - EPS and a[2] < b[3] - EPS and b[2] < a[3] - EPS:
                return f'boxes {solid[j][1]!r} and {solid[i][1]!r} are drawn on top of each other'
    for (x, y), (z, w) in d.wires:
        if abs(x - z) < EPS:
            for i, r in enumerate(rs):
                if r[0] + EPS < x < r[1] - EPS and min(max(y, w), r[3]) - max(min(y, w), r[2]) > EPS:
                    return f'a wire is drawn through box {solid[i][1]!r}'
    return None


def same_page(a, b):
    """Two backends put the same things in the same places."""
    for what in ('wires', 'polys', 'texts', 'arrows'):
        x, y = getattr(a, what), getattr(b, what)
        f = {'wires': lambda w: w[0] + w[1], 'arrows': lambda w: w[0] + w[1], 'polys': lambda p: tuple(c for q in p[0] for c in q), 'texts': lambda t: (t[0],) + t[1]}[what]
        r = lambda t: tuple(round(c, 3) + 0.0 if isinstance(c, float) else c for c in f(t))
        x, y = sorted(map(r, x)), sorted(map(r, y))
        if len(x) != len(y) or any(len(p) != len(q) or any((abs(c - e) > 2e-3) if isinstance(c, float) else c != e for c, e in zip(p, q)) for p, q in zip(x, y)):
            return f'{what} differ: {[p for p in x if p not in y][:1]} / {[p for p in y if p not in x][:1]}'
    return None


def types_on(case, d, pad=(0.1, 0.1)):
    """Every wire is labelled with its type: those that come in, and those that leave a box."""
    names = {b[1] for b in case.boxes if not spiderish(b[0])}
    got = sorted(t for t, _, _ in d.texts)
    want = sorted([x for x in case.dom] + [x for b in case.boxes for x in b[3]] + [b[1] for b in case.boxes if not spiderish(b[0])])
    if got != want:
        return f'texts {[x for x in got if x not in want][:2]} too many, {[x for x in want if got.count(x) < want.count(x)][:2]} missing'
    return None


GRAMMAR = [
    '|', 'n|', 'n s|', 'n|f:n>s@0', 'n s|f:n>s@0 !w:n@0 swap:n>s@0', 'n s n|swap:n>s@0 swap:n>n@1 swap:s>n@0', '|!a:n@0 !b:n.r,s@1 cup:n>n.r@0', '|!a:n@0 !b:n.r,s,n.l@1 !c:n@4 cup:n>n.r@0 cup:n.l>n@1',
    '|cap:n>n.l@0', 'n|cap:n.r>n@1 cup:n>n.r@0', 'n|sp:n:1:3@0', 'n n n|sp:n:3:1@0', 'n n|sp:n:2:2@0', 'n|sp:n:1:0@0 sp:n:0:1@0', '|sp:n:0:2@0 sp:n:2:0@0', 'n|sp:n:1:2@0 f:n>s@0 g:n>n,n@1 swap:s>n@0',
    '|!a:n@0 e:n>@0 !b:n@0 e2:n>@0', '|c:>@0', '|c:>@0 d:>@0', 'n|c:>@0 d:>@1', '|!a:n,s@0 c:>@1 d:>@0 e:n>@0 g:s>@0 !b:n,n@0', "n s|f:n,s>n@0 g:n,s>n'@0",
    'n.r|f:n>n~@0', 'n.l|f:n>n_@0', 'n n.r|f:n>s,n@0 g:n>n,s~@2', 'n n|f:n>s@0 g:n>s@1 h:s,s>n@0', 'n n|f:n>s,s,s@0 g:s,s>n@1 k:s,n,n>@0', 's n|!w:n,n@1 f:n,n>s@2 swap:n>s@1', 'n n n|swap:n>n@0 swap:n>n@1 swap:n>n@0',
    'n n n n|f:n,n>s@1 g:n,s>@0 h:n>n,n,n@0', 'n n n|f:n>n@0 g:n>n@0 h:n>n@2 k:n,n,n>n@0', '|!w:n,s,n@0 sp:s:1:2@1 swap:s>n@2 f:n,s>s@0', 'n|!a:s@1 !b:s@0 e:s>@2 f:s,n>n,s@0', 'n n|c:>@1 f:n>n@0 c2:>@1 g:n>n@1', 'n|e:n>@0 c:>@0 !w:n@0',
    'n s n s|swap:s>n@1 swap:n>n@0 f:n,n>s@0 swap:s>s@0', 'n|f:n>n,n@0 g:n>n,n@0 h:n>n,n@2 k:n,n>n@1',
]
PREGROUP = [
    '|', '|!a:n@0', '|!a:n@0 !b:n.r,s@1 cup:n>n.r@0', '|!a:n@0 !b:n.r,s,n.l@1 !c:n@4 cup:n>n.r@0 cup:n.l>n@1', '|!a:n,s@0 !b:s.r,n.r@2 cup:s>s.r@1 cup:n>n.r@0', '|!a:n@0 !b:s@1 swap:n>s@0',
    '|!a:n@0 !b:s,n.r@1 swap:n>s@0 cup:n>n.r@1', '|!a:n,n,s@0 swap:n>n@0 swap:n>s@1 swap:n>s@0', '|!a:n@0 !b:n,s@1 !c:s.r,n.r@3 cup:s>s.r@2 cup:n>n.r@1', '|!long_word:n@0 !b:n.r,s@1 !another_word:s.r,n.l@3 !d:n@5 cup:s>s.r@2 cup:n>n.r@0 cup:n.l>n@0',
    '|!a:n@0 !b:s@1 !c:n@2 !d:s@3 swap:s>n@1 swap:n>n@0 swap:s>s@2 swap:n>s@1',
]
FRAMES = ['|#f:>[g:>]@0', 'n|#f:n>s[g:n>n]@0', '|#f:>n[g:n>n]@0', 'n|#f:n>[g:n>n]@0', '|#f:>[!w:n]@0', 'n s|#f:n>n[g:n>n;h:s>n]@0 swap:n>s@0', 'n s|k:s>n,n@1 #f:n,n>n[g:n>n]@0 m:n,n>s@0', 'n|#f:n>n[#g:n>s[h:n>n;k:s>s]]@0',
          'n s|#f:n>n[g:n>n]@0 #k:s>n[h:s>n]@1 sp:n:2:1@0', 'n n n|m:n,n>s@0 #f:n>n[g:n>n]@1 k:s,n>n@0', 'n|c:>@1 #f:n>n[g:n>s]@0 c2:>@0', 'n|sp:n:1:3@0 #f:n,n>n[g:n>s]@1', 'n n|sp:n:1:2@1 swap:n>n@0 #f:n,n>n[g:n>s]@1', 'n s|#f:n,s>[g:n>s]@0 !w:n@0 #k:n>n[!v:s]@0',
          'a b c|m:a,b>a@0 #f:c>c[g:n>s]@1', 'a b c|m:a>a,b@0 #f:c>c[g:n>s]@3', 'a b c|e:a>@0 #f:c>c[g:n>s]@1 swap:b>c@0',
          'a b|#f:b>b[g:b>b]@1 m:a>a,a,a,a@0', 'a b|#f:a>a[#g:a>a[h:n>n;k:n>n]]@0 m:b>b,b,b,b@1', 'a b c|#f:a>a[g:a>a]@0 #k:c>c[h:n>n]@2 m:b>n,n,n,n,n@1', 'a|#f:a>a[g:a>a]@0 w:>n,n,n@0']


class Tree:
    """A diagram with the diagrams in its frames."""

    def __init__(self, e, st, d):
        m = Read(e, st)
        self.case = case_of(e, st, d)
        self.inner = {}
        for k, (names, *_, b) in enumerate(self.case.boxes):
            if 'Frame' in names:
                self.inner[k] = [Tree(e, st, meth(e, c, 'to_diagram', [], {}, st)) for c in m.items(m.at(b, 'components'))]


def nested(tree, polys, area=None):
    """What is in a frame is drawn in it: shapes come in the order frame, component, boxes of the component."""
    def take():
        return box_of(next(polys)[0])
    inside = lambda r, a: a is None or a[0] - EPS <= r[0] and r[1] <= a[1] + EPS and a[2] - EPS <= r[2] and r[3] <= a[3] + EPS
    for k, b in enumerate(tree.case.boxes):
        if spiderish(b[0]):
            continue
        r = take()
        if not inside(r, area):
            return f'box {b[1]!r} is not inside of its frame'
        parts = []
        for t in tree.inner.get(k, []):
            w = take()
            if not inside(w, r):
                return f'a component of frame {b[1]!r} is not inside of it'
            for q in parts:
                if w[0] < q[1] - EPS and q[0] < w[1] - EPS:
                    return f'components of frame {b[1]!r} are drawn on top of each other'
            if parts and w[0] < parts[-1][0]:
                return f'components of frame {b[1]!r} are not drawn from left to right'
            parts.append(w)
            bad = nested(t, polys, w)
            if bad:
                return bad
    return None


def frame_wires(p, ck, text, foliated):
    """DrawableDiagramWithFrames: the end points of the wires, by number."""
    b = Bench(p, ck)
    e = b.engine('grammar', tyv=False, dg=False)
    Pen(p, 'matplotlib').prepare(e)
    e.repr_on = True

    def fn(e, st):
        c = grammar_case(p, e, st, text)
        fn.tree = Tree(e, st, c.diagram)
        return meth(e, ClsV(p.cls('backend.drawing.drawable.DrawableDiagramWithFrames')), 'from_diagram', [c.diagram], {'foliated': K(foliated)}, st)

    def check(e, v, st, path):
        m = Read(e, st)
        ends = m.items(m.at(v, 'wire_endpoints'))
        kind = lambda x: show(m.at(x, 'kind'))
        uf = Find()
        noun = [py(e, m.at(x, 'noun_id'), st) for x in ends]
        for w in m.items(m.at(v, 'wires')):
            i, j = py(e, w, st)
            uf.join(('e', i), ('e', j))
            if noun[i] != noun[j]:
                return False, f'the ends of wire {(i, j)} belong to different nouns'
        nodes = iter(m.items(m.at(v, 'boxes')))

        def level(tree, top):
            u = []
            for k, bx in enumerate(tree.case.boxes):
                n = next(nodes)
                if m.e.res(m.at(n, 'obj'), st) != m.e.res(bx[5], st):
                    return 'boxes in a different order'
                d, c = py(e, m.at(n, 'dom_wires'), st), py(e, m.at(n, 'cod_wires'), st)
                if (len(d), len(c)) != (len(bx[2]), len(bx[3])):
                    return f'{len(d)} and {len(c)} wires at box {bx[1]!r}'
                u.append((k, bx, d, c))
                for t in tree.inner.get(k, []):
                    next(nodes)
                    bad = level(t, False)
                    if bad:
                        return bad
            port = {}
            for k, bx, d, c in u:
                if 'Swap' in bx[0]:
                    port[d[0]], port[d[1]] = c[1], c[0]
                    uf.join(('e', d[0]), ('e', c[1]))
                    uf.join(('e', d[1]), ('e', c[0]))
                    if (noun[d[0]], noun[d[1]]) != (noun[c[1]], noun[c[0]]):
                        return 'the nouns do not cross with the wires'
                elif 'Spider' in bx[0] or 'Cup' in bx[0] or 'Cap' in bx[0]:
                    if 'Spider' in bx[0] and len(d) == 1 and len({noun[x] for x in d + c}) > 1:
                        return 'the legs of a spider that copies belong to different nouns'
                    for x in d + c:
                        uf.join(('e', x), ('e', (d + c)[0]))
            groups = {}
            for k, bx, d, c in u:
                if not spiderish(bx[0]):
                    for side, lst in (('dom', d), ('cod', c)):
                        for i, x in enumerate(lst):
                            groups.setdefault(uf.find(('e', x)), []).append(('1box', k, side, i))
            if top:
                for tag, what in (('0in', 'INPUT'), ('2out', 'OUTPUT')):
                    mine = [i for i, x in enumerate(ends) if what in kind(x) and e.res(m.at(x, 'parent'), st) == K(None)]
                    for n, i in enumerate(mine):
                        groups.setdefault(uf.find(('e', i)), []).append((tag, n))
            got = sorted(sorted(g) for g in groups.values())
            want = sorted(x for x in ([y for y in g if top or y[0] == '1box'] for g in depicted(tree.case)) if x)
            if got != want:
                return f'wires connect {[x for x in got if x not in want][:1]} instead of {[x for x in want if x not in got][:1]}'
            return None
        bad = level(fn.tree, True)
        return (False, bad) if bad else (True, 'wires')
    return guarded(b, 'frame-wires', f'{text}{" foliated" if foliated else ""}', 'lambeq/backend/drawing/drawable.py', e, fn, check)


# -- circuits ----------------------------------------------------------------
CIRCUITS = [
    '|', 'q|', '|ket0@0', '|ket0@0 bra1@0', '|ket0@0 ket1@1 H@0 c1[X]@0 bra0@1', '|bit1@0', 'q b|swap:q,b@0', 'q|H@0 Rx@0 Rz@0', 'q|disc@0', 'q q|disc@1 measure@0', 'b|encode@0 measure@0', '|mixed@0 disc@0',
    '|sc@0', 'q|sc@1 H@0', 'q|sqrt@0', 'q q|c1[X]@0', 'q q|c-1[X]@0', 'q q q|c2[X]@0', 'q q q|c-2[X]@0 H@1', 'q q q|c1[H]@1 c-1[Rz]@0', 'q q q q|c3[Rx]@0 c-3[H]@0', 'q q q|c1[c1[X]]@0', 'q q q|c-1[c-1[X]]@0',
    'q q q|c1[c-1[H]]@0', 'q q q|c-1[c1[Rx]]@0', 'q q q q|c2[c1[X]]@0', 'q q q q|c1[c2[H]]@0', 'q q q q|c-2[c-1[X]]@0', 'q q q q|c-1[c-2[Rx]]@0', 'q q q q q|c2[c-2[X]]@0 c-2[c2[H]]@0',
    'q q q q|c1[c1[c1[X]]]@0 c-1[c1[c-1[Rz]]]@0', 'q q q|c1[u:q,q>q,q]@0', 'q q q|c-1[u:q,q>q,q]@0', 'q q q q|c2[u:q,q>q,q]@0 c-2[u:q,q>q,q]@0', "|ket0@0 ket0@1 c1[X]@0 disc@0 S'@0 T@0 measure@0", 'q q|u:q,q>q@0 ket1@1 swap:q,q@0',
    '|ket0@0 ket1@1 ket0@2 c1[X]@1 H@0 c2[X]@0 bra0@1 bra0@1 measure@0', 'q q b|swap:q,b@1 swap:q,b@0 encode@0 c1[Rx]@0 c-2[H]@0', 'q b q|disc@2 u:q,b>b@0 bit0@1',
]


class MkQ(Mk15):
    def ty(self, s):
        return super().ty(' '.join({'q': 'qubit', 'b': 'bit'}[c] for c in s.split()))

    def box(self, s):
        if s.endswith("'"):
            return meth(self.e, self.box(s[:-1]), 'dagger', [], {}, self.st)
        m = re.match(r'c(-?\d+)\[(.*)\]$', s)
        if m:
            return self.new('Controlled', self.box(m[2]), int(m[1]))
        m = re.match(r'(ket|bra|bit)(\d)$', s)
        if m:
            return self.new(m[1].title(), int(m[2]))
        if s in ('H', 'X', 'S', 'T'):
            return self.const(s)
        if s in ('Rx', 'Rz'):
            return self.new(s, K(0.25))
        if s in ('disc', 'measure', 'encode', 'mixed'):
            return self.new({'disc': 'Discard', 'measure': 'Measure', 'encode': 'Encode', 'mixed': 'MixedState'}[s])
        if s in ('sc', 'sqrt'):
            return self.new('Scalar' if s == 'sc' else 'Sqrt', K(0.5))
        k = s.split(':')
        if k[0] == 'swap':
            return self.new('Swap', *[self.ty(t) for t in k[1].split(',')])
        d, c = k[1].split('>')
        return self.new('Box', k[0], self.ty(d.replace(',', ' ')), self.ty(c.replace(',', ' ')))


def quantum_case(p, e, st, text):
    m = MkQ(p, 'quantum', e, st)
    r = Read(e, st)
    dom, boxes = text.split('|')
    def kinds(t):
        n = length(e, t, st)
        return [r.const(r.at(o, 'label'))[0] for o in ([t] if n == 1 else r.items(r.at(t, 'objects')) if n else [])]
    now, layers, out = dom.split(), [], []
    for w in boxes.split():
        s, o = w.rsplit('@', 1)
        b, o = m.box(s), int(o)
        d, c = kinds(r.at(b, 'dom')), kinds(r.at(b, 'cod'))
        assert now[o:o + len(d)] == d, (text, w, now, d)
        layers.append(m.layer(' '.join(now[:o]), b, ' '.join(now[o + len(d):])))
        out.append((s, r.names(b), r.const(r.at(b, 'name')), d, c, o, b))
        now = now[:o] + c + now[o + len(d):]
    d = m.diagram(dom, ' '.join(now), layers)
    full = lambda t: [{'q': 'qubit', 'b': 'bit'}[x] for x in t]
    case = Case(d, full(dom.split()), [(n, name, full(a), full(c), o, b) for _, n, name, a, c, o, b in out], full(now))
    case.specs = [s for s, *_ in out]
    return case


def controls(spec):
    """'c2[c-1[X]]' -> what is at which wire of the box: positions of the control dots from the outside in, and (position, name) of the block."""
    m = re.match(r'c(-?\d+)\[(.*)\]$', spec)
    if not m:
        n = len(re.match(r'.*:(.*)>', spec)[1].split(',')) if ':' in spec else 1
        return [], (0, spec), n
    dots, (at, name), n = controls(m[2])
    d = int(m[1])
    if d > 0:
        return [0] + [x + d for x in dots], (at + d, name), n + d
    return [n - 1 - d] + dots, (at, name), n - d


def quantum_page(case, d, labels=True):
    """Circuits: controls become wires that pass, their dots and connections are looked at in rows."""
    flat = lambda w: abs(w[0][1] - w[1][1]) < EPS
    rs = [box_of(q) for q, _ in d.polys]
    within = lambda w: any(all(r[0] + EPS < x < r[1] - EPS and r[2] + EPS < y < r[3] - EPS for x, y in w) for r in rs)
    rows = [w for w in d.wires if flat(w)]
    page = Drawing()
    page.polys, page.texts = d.polys, list(d.texts)
    page.wires = [w for w in d.wires if not flat(w) and not within(w)]
    dots = [m for m in d.marks]
    boxes, expect, text = [], [], []
    for s, (names, name, dom, cod, off, b) in zip(case.specs, case.boxes):
        text += cod
        if 'Controlled' in names:
            c, (at, block), n = controls(s)
            expect.append(('controls', [off + x for x in c], off + at, block))
            if block == 'X':
                continue
            inner = len(dom) - (n - (len(re.match(r'.*:(.*)>', block)[1].split(',')) if ':' in block else 1))
            e = block.split(':')[0]
            boxes.append((['Box'], e, dom[at:at + inner], cod[at:at + inner], off + at, None))
            text.append(e)
        elif 'Discard' in names:
            expect.append(('ground',))
            boxes.append((['Ground'], name, dom, cod, off, None))
        else:
            boxes.append((names, name, dom, cod, off, None))
            if not spiderish(names) and 'Measure' not in names:
                text.append(name)
    grounds = sum(1 for x in expect if x[0] == 'ground')
    # grounds: three lines, the first of which is at the end of the wire
    own = Case(None, case.dom, boxes, case.cod)
    got = [t for t, _, _ in d.texts]
    short = lambda t: 'R' if re.match(r'R[xz]\(', t) else t
    norm = lambda ts: sorted('R' if t in ('Rx', 'Rz') else short(t) for t in ts)
    if labels and norm(got) != norm(case.dom + text):
        return f'texts {sorted(got)}, expected {norm(case.dom + text)}'
    lines, conns = [], []
    for a, b in rows:
        (lines if any(near(((a[0] + b[0]) / 2, a[1]), (x, y)) for w in page.wires for x, y in [w[1]]) else conns).append((a, b))
    used = set()
    ends = []
    for a, b in lines:
        ends.append(((a[0] + b[0]) / 2, a[1]))
    if len(ends) != grounds:
        return f'{len(ends)} grounds for {grounds} discards'
    own.ends = ends
    w = trace_ground(own, page, ends, labels)
    if w:
        return w
    shapes = iter(d.polys)
    for names, name, dom, cod, off, b in own.boxes:
        if spiderish(names) or names == ['Ground']:
            continue
        q = next(shapes)[0]
        if 'Ket' in names or 'Bra' in names or 'Bit' in names:
            r = box_of(q)
            y = r[3] if 'Bra' in names else r[2]
            if sum(1 for _, z in q if abs(z - y) < EPS) != 2 or len(q) != 3:
                return f'{name!r} does not point away from its wire'
    return overlap(Case(None, own.dom, [x for x in own.boxes if x[0] != ['Ground']], own.cod), page)


def trace_ground(case, page, ends, labels):
    """Wires into the ground: shapes of zero height stand for the grounds."""
    full = Drawing()
    full.wires, full.texts, full.marks = page.wires, list(page.texts), []
    polys = list(page.polys)
    # grounds are told apart by where the wires lead: leftmost first in the order of appearance is what is drawn
    order, gs = [], list(ends)
    for names, name, *_ in case.boxes:
        if spiderish(names):
            continue
        if names == ['Ground']:
            x, y = gs.pop(0)
            order.append(([(x - .4, y), (x + .4, y), (x + .4, y - .2), (x - .4, y - .2)], None))
            full.texts.append((name, (x, y - .1), None))
        else:
            order.append(polys.pop(0) if polys else None)
    if polys or None in order:
        return f'{len(page.polys)} shapes for {len(case.boxes)} boxes'
    full.polys = order
    for names, name, *_ in case.boxes:
        if 'Measure' in names or not labels:
            pass
    return trace(case, full, named=labels)


def dots_page(case, d):
    """Foliated circuits: one box in each row."""
    flat = lambda w: abs(w[0][1] - w[1][1]) < EPS
    rows = sorted({round(m[0][1], 3) for m in d.marks}, reverse=True)
    want = [(s, b) for s, b in zip(case.specs, case.boxes) if 'Controlled' in b[0]]
    if len(rows) != len(want):
        return f'marks in {len(rows)} rows for {len(want)} controlled boxes'
    for y, (s, b) in zip(rows, want):
        at = []
        for (x0, y0), (x1, y1) in d.wires:
            if min(y0, y1) < y - EPS and max(y0, y1) > y + EPS:
                at.append((x0 + (x1 - x0) * (y - y0) / (y1 - y0), None))
        dots, (pos, block), n = controls(s)
        for q, _ in d.polys:
            r = box_of(q)
            if r[2] < y < r[3]:
                k = len(re.match(r'.*:(.*)>', block)[1].split(',')) if ':' in block else 1
                at += [(r[0] + (r[1] - r[0]) * (i + .5) / k, r) for i in range(k)]
        at.sort(key=lambda t: t[0])
        off = b[4]
        here = [m for m in d.marks if abs(m[0][1] - y) < 1e-3]
        xs = [at[off + i][0] if off + i < len(at) else None for i in dots]
        if block == 'X':
            xs += [at[off + pos][0]] * 2
        got = [m[0][0] for m in here]
        if len(got) != len(xs) or any(a is None or abs(a - c) > 1e-3 for a, c in zip(xs, got)):
            return f'marks of {s} at {got}, expected {xs}'
        lines = sorted(tuple(sorted((a[0], c[0]))) for a, c in d.wires if flat((a, c)) and abs(a[1] - y) < 1e-3)
        if len(lines) != len(dots):
            return f'{len(lines)} connections for {len(dots)} controls of {s}'
        for i, dot in enumerate(dots):
            x = at[off + dot][0]
            rest = dots[i + 1:]
            lo, hi = (min(rest + [pos]), max(rest + [pos]))
            k = len(re.match(r'.*:(.*)>', block)[1].split(',')) if ':' in block else 1
            hi = max(hi, pos + k - 1)
            left, right = at[off + lo], at[off + hi]
            left, right = (left[1][0] if left[1] else left[0] - .5), (right[1][1] if right[1] else right[0] + .5)
            ok = [l for l in lines if (abs(l[0] - x) < 1e-3 and left - 1e-3 <= l[1] <= right + 1e-3) or (abs(l[1] - x) < 1e-3 and left - 1e-3 <= l[0] <= right + 1e-3)]
            if not ok:
                return f'control {dot} of {s} is not connected to what it controls'
    return None


def circuits(p, ck, deep):
    for text in CIRCUITS:
        for fol in (False, True):
            for lab in (None, True, False):
                if lab is not None and fol:
                    continue
                opts = {'foliated': fol}
                if lab is not None:
                    opts['draw_box_labels'] = lab
                pages(p, ck, 'circuit', f'{text}{" foliated" if fol else ""}{"" if lab is None else f" labels={lab}"}', text, opts=opts, cat='quantum',
                      judge=lambda c, d: quantum_page(c, d, lab is not False) or (dots_page(c, d) if fol else None))


def run_draw(p, ck, rule, key, text, backend, how='draw', opts=None, cat='grammar', judge=None):
    """One call of a drawing function; `judge(case, drawing)` -> what is wrong, or None."""
    b = Bench(p, ck)
    e = b.engine(cat, tyv=False, dg=False)
    e.repr_on = True
    pen = Pen(p, backend, cat)
    pen.prepare(e)

    def fn(e, st):
        cases = [make(p, e, st, t, cat) for t in (text if isinstance(text, (list, tuple)) else [text])]
        kw = {k: value(e, st, v) for k, v in (opts or {}).items()}
        if backend == 'TikZ':
            kw['to_tikz'] = K(True)
        if how == 'method':
            meth(e, cases[0].diagram, 'draw', [], kw, st)
        else:
            f = e.module_value(how, p.modules['lambeq.backend.drawing.drawing'], st)
            e.call(f, [c.diagram for c in cases], kw, st, None)
        fn.cases = cases
        return K(None)

    def check(e, v, st, path):
        if path:
            return None, 'depends on unknowns'
        try:
            d = pen.result()
            if d.about.get('undeclared'):
                return False, f'TikZ edge refers to a node that is not there: {d.about["undeclared"][1]}'
            if d.about.get('twice'):
                return False, f'TikZ node {d.about["twice"]} is defined twice'
            if d.about.get('key') and not (rule != 'keys' and d.about['key'].startswith('->looseness')):
                return False, f'option {d.about["key"]} of an edge is none that TikZ knows'
            bad = judge(fn.cases if isinstance(text, (list, tuple)) else fn.cases[0], d) if judge else None
        except Odd as x:
            return None, f'form not known: {x}'
        except Late as x:
            return False, f'{x} drawn after the page was saved or shown'
        return (False, bad) if bad else (True, 'drawn')
    return guarded(b, rule, key, 'lambeq/backend/drawing/drawing.py', e, fn, check)


def guarded(b, rule, key, where, e, fn, check):
    """A stand-in that lacks what the code asks of it says nothing about the code."""
    def f(e, st):
        try:
            return fn(e, st)
        except Raised as x:
            if 'AttributeError' in show(x.exc):
                raise Unsupported(f'{show(x.exc)}')
            raise
    return b.run(rule, key, where, e, f, check)


def make(p, e, st, text, cat):
    return grammar_case(p, e, st, text) if cat == 'grammar' else quantum_case(p, e, st, text)


def pages(p, ck, rule, key, text, how='draw', opts=None, cat='grammar', judge=None):
    """Both backends, the same page."""
    got = {}
    for backend in BACKENDS:
        def j(case, d, backend=backend):
            got[backend] = d
            bad = judge(case, d) if judge else None
            if bad is None and len(got) == 2 and backend == BACKENDS[1]:
                bad = same_page(got[BACKENDS[0]], d)
                bad = bad and f'not what the other backend draws: {bad}'
            return bad
        run_draw(p, ck, rule, f'{key} {backend}', text, backend, how, opts, cat, j)


def beside(a, b):
    """One diagram next to another."""
    d, boxes = b.split('|')
    n = len(a.split('|')[0].split())
    moved = ' '.join(f'{w.rsplit("@", 1)[0]}@{int(w.rsplit("@", 1)[1]) + n}' for w in boxes.split())
    return f'{a.split("|")[0]} {d}'.strip() + f'|{moved} {a.split("|")[1]}'.rstrip()


def grammar(p, ck, deep):
    more = [beside(a, b) for k in (1, 2, 5) for a, b in zip(GRAMMAR[1:], GRAMMAR[k + 1:])] if deep else [beside(a, b) for a, b in zip(GRAMMAR[4::4], GRAMMAR[6::4])]
    for text in GRAMMAR + [t for t in more if not re.search(r"\b(\w+):.*[ !]\1:", t.replace('swap:', '').replace('sp:', '').replace('cup:', '').replace('cap:', ''))]:
        for fol in (False, True):
            def judge(case, d):
                r = trace(case, d) or overlap(case, d) or types_on(case, d)
                if r is None and fol:
                    ys = [y for (t, (x, y), _) in d.texts]
                    at = [next(y for t, (x, y), _ in d.texts if t == b[1]) for b in case.boxes if not spiderish(b[0])]
                    if any(a <= b_ for a, b_ in zip(at, at[1:])):
                        r = 'boxes of a foliated drawing are not one below the other'
                return r
            pages(p, ck, 'draw', f'{text}{" foliated" if fol else ""}', text, opts={'foliated': fol}, judge=judge)


def pregroup(p, ck, deep):
    for text in PREGROUP:
        pages(p, ck, 'pregroup', text, text, how='draw_pregroup', judge=lambda c, d: trace(c, d) or overlap(c, d) or types_on(c, d))
        pages(p, ck, 'pregroup', f'{text} method', text, how='method', judge=lambda c, d: trace(c, d))
        pages(p, ck, 'pregroup', f'{text} as diagram', text, how='method', opts={'draw_as_pregroup': False}, judge=lambda c, d: trace(c, d) or overlap(c, d))


def frames(p, ck, deep):
    for text in FRAMES:
        def judge(case, d):
            want = sorted([x for x in re.findall(r'(\w+):(?=[^\s;\[\]:]*>|\w+[\]@;])', text.split('|')[1]) if x != 'swap' and not x.isdigit()])
            names = sorted(t for t, _, _ in d.texts)
            if names != want:
                return f'labels {names}, expected {want}'
            return nested(case.tree, iter(d.polys))
        for fol in (False, True):
            frame_wires(p, ck, text, fol)
            pages(p, ck, 'frames', f'{text}{" foliated" if fol else ""}', text, opts={'foliated': fol}, judge=judge)
        pages(p, ck, 'frames', f'{text} types', text, opts={'draw_type_labels': True, 'color_wires': False, 'color_boxes': False})
        pages(p, ck, 'frames', f'{text} order', text, opts={'coloring_mode': 'order', 'use_tikzstyles': True})


def keys(p, ck, deep):
    for text in ('q|measure@0', 'q q|c1[X]@0 disc@1', '|ket0@0 H@0'):
        for opts in ({}, {'use_tikzstyles': True}):
            run_draw(p, ck, 'keys', f'{text}{" styles" if opts else ""}', text, 'TikZ', opts=opts, cat='quantum')


# -- options -----------------------------------------------------------------
SHOWN = [('n s|f:n>s@0 !w:n@0 swap:n>s@0', 'draw', 'grammar'), ('n s n|g:n>n,n@0 sp:n:2:1@0 f:n,s>@0', 'draw', 'grammar'),
         ('|!a:n@0 !b:n.r,s,n.l@1 !c:n@4 cup:n>n.r@0 cup:n.l>n@1', 'draw_pregroup', 'grammar'), ('|ket0@0 ket1@1 H@0 c1[Rx]@0 measure@1', 'draw', 'quantum'), ('n|#f:n>s[g:n>n]@0', 'draw', 'grammar')]


def move(d, f):
    """A page, moved point by point."""
    o = Drawing()
    o.wires = [(f(a), f(b)) for a, b in d.wires]
    o.arrows = [(f(a), f(b)) for a, b in d.arrows]
    o.polys = [([f(q) for q in p], c) for p, c in d.polys]
    o.texts = [(t, f(q), k) for t, q, k in d.texts]
    o.marks = [(f(q), k) for q, k in d.marks]
    o.about = d.about
    return o


def without(d, gone):
    o = move(d, lambda q: q)
    o.texts = [t for t in d.texts if not gone(t)]
    return o


def same_marks(a, b):
    x, y = sorted(m[0] for m in a.marks), sorted(m[0] for m in b.marks)
    return None if len(x) == len(y) and all(near(p, q) for p, q in zip(x, y)) else f'marks at {x} / {y}'


def option(p, ck, text, how, cat, name, opts, judge, only=None):
    """judge(case, page by default, page with the option)."""
    for backend in BACKENDS:
        if only and backend != only:
            continue
        base = []

        def keep(case, d):
            base.append(d)
        run_draw(p, ck, 'option', f'{name}: {text} {backend} default', text, backend, how, {}, cat, keep)
        run_draw(p, ck, 'option', f'{name}: {text} {backend}', text, backend, how, opts, cat, lambda c, d: judge(c, base[0], d) if base else None)


def options(p, ck, deep):
    for text, how, cat in SHOWN:
        frame = '#' in text
        pre = how == 'draw_pregroup'
        nm = lambda case: [b[1] for b in case.boxes if not spiderish(b[0])]
        isname = lambda case: (lambda t: label(t[0]) in [label(x) for x in nm(case)] or label(t[0]) == 'R' or t[0] in ('g', 'Rx'))
        o = lambda name, opts, judge, only=None: option(p, ck, text, how, cat, name, opts, judge, only)
        o('draw_type_labels', {'draw_type_labels': False}, lambda c, a, b: same_page(without(a, lambda t: not isname(c)(t) and not t[0].startswith('R')), b) or same_marks(a, b))
        if frame:
            o('draw_type_labels', {'draw_type_labels': True}, lambda c, a, b: None if {t for t, _, _ in b.texts} >= {'n', 's', 'f', 'g'} else 'no types')
        if not pre:
            kets = lambda t: t[0] in ('0', '1') and cat == 'quantum'
            o('draw_box_labels', {'draw_box_labels': False}, lambda c, a, b: same_page(without(a, lambda t: (isname(c)(t) or t[0].startswith('R')) and not kets(t)), b) or same_marks(a, b))
        for tp in ((0.5, 0.25), (0, 0)):
            def padded(c, a, b, tp=tp):
                want = without(a, lambda t: False)
                want.texts = [(t, (x - .1 + tp[0], y if y > top(a) - EPS else y + .1 - tp[1]) if not isname(c)((t,)) and not t.startswith('R') else (x, y), k) for t, (x, y), k in a.texts]
                return same_page(want, b)
            if not frame:
                o(f'textpad {tp}', {'textpad': tp}, padded)
        o('pad', {'pad': (3, -2)}, lambda c, a, b: same_page(move(a, lambda q: (q[0] + 3, q[1] - 2)), b) or same_marks(move(a, lambda q: (q[0] + 3, q[1] - 2)), b))

        def scaled(c, a, b):
            low = min(q[1] for w in a.wires for q in w)
            f = lambda q: (q[0] * 2, low + (q[1] - low) * 3)
            x, y = sorted(f(q) + f(r) for q, r in a.wires), sorted(q + r for q, r in b.wires)
            return None if len(x) == len(y) and all(abs(m - n) < 1e-3 for u, v in zip(x, y) for m, n in zip(u, v)) else 'the ends of the wires are not scaled'
        if cat == 'grammar' and not frame:
            o('scale', {'scale': (2, 3)}, scaled)
        for k, v in (('nodesize', 2), ('fontsize', 17), ('fontsize_types', 19)):
            o(k, {k: v}, lambda c, a, b: same_page(a, b) or same_marks(a, b))
        if not frame:
            sizes = lambda b, want: {str(k.get('fontsize') if isinstance(k, dict) else (re.search(r'scale=(\S+)', k) or [0, ''])[1]) for t in b.texts if want(t) for k in [t[2]]}
            o('fontsize', {'fontsize': 17}, lambda c, a, b: None if sizes(b, lambda t: True) <= {'17'} else f'sizes {sizes(b, lambda t: True)}')
            types = lambda c: (lambda t: not isname(c)(t) and not t[0].startswith('R'))
            o('fontsize and fontsize_types', {'fontsize': 17, 'fontsize_types': 19}, lambda c, a, b: None if sizes(b, types(c)) <= {'19'} and sizes(b, lambda t: not types(c)(t)) <= {'17'} else 'sizes')
        o('figsize', {'figsize': (3, 4)}, lambda c, a, b: same_page(a, b) or (None if [x[0].get('figsize') for x in b.about.get('figure', [])] == [(3, 4)] else f'figure {b.about.get("figure")}'), 'matplotlib')
        o('margins', {'margins': (.3, .2)}, lambda c, a, b: same_page(a, b) or (None if list(flat_of(b.about.get('margins'))) == [.3, .2] else f'margins {b.about.get("margins")}'), 'matplotlib')
        o('aspect', {'aspect': 'auto'}, lambda c, a, b: same_page(a, b) or (None if b.about.get('aspect') == [('auto',)] and a.about.get('aspect') == [('equal',)] else f'aspect {b.about.get("aspect")}'), 'matplotlib')
        o('show', {'show': False}, lambda c, a, b: None if not b.about.get('show') and a.about.get('show') else 'shown all the same')
        o('path', {'path': 'a.b/x.tikz', 'show': False}, lambda c, a, b: (same_page(a, b) or same_marks(a, b)) or (None if [x[0] for x in b.about.get('save', [])] == ['a.b/x.tikz'] else f'saved to {b.about.get("save")}'))
        o('tikz_options', {'tikz_options': 'rotate=90'}, lambda c, a, b: same_page(a, b) or (None if 'baseline=(0.base), rotate=90' in b.about.get('begin', '') else 'options missing'), 'TikZ')
        o('use_tikzstyles', {'use_tikzstyles': True}, styles, 'TikZ')
        o('use_tikzstyles and path', {'use_tikzstyles': True, 'path': 'a.b/x.tikz'}, lambda c, a, b: None if {x[0] for x in b.about.get('styles', [])} == {'a.b/x.tikzstyles'} and [x[0] for x in b.about.get('save', [])] == ['a.b/x.tikz'] else f'styles in {b.about.get("styles")}', 'TikZ')
        if how == 'draw':
            o('linewidths', {'box_linewidth': 7, 'wire_linewidth': 5}, lambda c, a, b: same_page(a, b) or (
                None if {k[3] for k in b.curves} <= {5} and b.about.get('outline', {7}) == {7} else 'widths of lines') if b.curves and b.curves[0][3] is not None else
                same_page(a, b) or (None if all('line width=5pt' in k[2] for k in b.curves) else 'widths of lines'))
    for text, leans in (("s|f:n>s'@0", True), ('n|f:n>s@0', False), ('n.r|f:n>s~@0', True)):
        for a in (None, .75):
            def slanted(c, d, a=a, leans=leans):
                q = [tuple(map(float, x)) for x in d.polys[0][0]]
                xs = sorted(round(x, 3) for x, _ in q)
                skew = max(xs[-1] - xs[-2], xs[1] - xs[0])
                want = (.25 if leans else 0) if a is None else a
                if abs(skew - want) > EPS:
                    return f'box drawn with asymmetry {skew} instead of {want}'
                return None
            pages(p, ck, 'option', f'asymmetry {a}: {text}', text, opts={} if a is None else {'asymmetry': a}, judge=slanted)
    shapes = {}
    for k, text in (('plain', 'n|f:n>n@0'), ('dagger', "n|f:n>n'@0"), ('conjugate', 'n.r|f:n>n~@0'), ('transpose', "n.r|f:n>n'~@0"), ('conjugate', 'n.l|f:n>n_@0')):
        def corner(c, d, k=k):
            q = [tuple(map(float, x)) for x in d.polys[0][0]]
            shape = tuple(sorted((round(x, 3), round(y, 3)) for x, y in q))
            if any(v == shape for n, v in shapes.items() if n != k):
                return f'{k} looks like another form of the box'
            if shapes.setdefault(k, shape) != shape:
                return f'{k} is drawn in two ways'
        run_draw(p, ck, 'forms', f'{k}: {text}', text, 'matplotlib', opts={'asymmetry': .25}, judge=corner)


def top(d):
    return max(q[1] for w in d.wires for q in w)


def flat_of(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat_of(y)
    elif x is not None:
        yield x


def styles(c, a, b):
    w = same_page(a, b)
    if w:
        return w
    defined = [m.groups() for x in b.about.get('styles', []) for y in ([x] if isinstance(x, str) else x[1].split('\n')) for m in [re.match(r'\\tikzstyle\{(.*?)\}=(.*)', y)] if m]
    twice = {n for n, v in defined if any(n == m and v != w for m, w in defined)}
    if twice:
        return f'style {sorted(twice)[0]} is defined in two ways'
    have = {m[1] for x in b.about.get('styles', []) if isinstance(x, str) for m in [re.match(r'\\tikzstyle\{(.*)\}=\[', x)] if m}
    want = {m[1] for k in [x[2] for x in b.curves] + [x[1] for x in b.polys] for m in [re.search(r'style=(\w+)', k)] if m}
    if not want or not want <= have:
        return f'styles {sorted(want - have)} are used but not defined'
    return None


# -- equations ---------------------------------------------------------------
EQUATIONS = [['n s|f:n>s@0', 'n s|f:n>s@0 swap:s>s@0', 'n|g:n>n@0'], ['n|f:n>n,n,n@0'], ['|!a:n@0 !b:n.r,s@1 cup:n>n.r@0', '|!c:s@0'], ['n|', 'n n n|sp:n:3:1@0'], ["s|f:n>s'@0" , 'n|f:n>s@0']]


def equations(p, ck, deep):
    for terms in EQUATIONS:
        for opts in ({}, {'symbol': 'is', 'space': 2}, {'pad': (4, 0)}, {'path': 'x.y/z', 'show': False}, {'draw_type_labels': False}):
            got = {}

            def judge(cases, d, opts=opts, got=got):
                sym = opts.get('symbol', '=')
                space = opts.get('space', 1)
                seen = sorted((x, y) for t, (x, y), _ in d.texts if t == sym)
                if len(seen) != len(cases) - 1:
                    return f'{len(seen)} symbols between {len(cases)} terms'
                cut = [-math.inf] + [x for x, _ in seen] + [math.inf]
                for case, lo, hi in zip(cases, cut, cut[1:]):
                    part = Drawing()
                    mid = lambda qs: lo < min(x for x, _ in qs) and max(x for x, _ in qs) < hi
                    part.wires = [w for w in d.wires if mid(w)]
                    part.polys = [q for q in d.polys if mid(q[0])]
                    part.texts = [t for t in d.texts if lo < t[1][0] < hi]
                    part.marks = [m for m in d.marks if lo < m[0][0] < hi]
                    bad = trace(case, part) or overlap(case, part)
                    if bad:
                        return f'term {cases.index(case)}: {bad}'
                    first = min([x for w in part.wires for x, _ in w] + [x for q, _ in part.polys for x, _ in q])
                    if lo > -math.inf and abs(first - lo - space) > 1 - EPS:
                        return f'a term is {first - lo} from the symbol'
                    last = max([x for w in part.wires for x, _ in w] + [x for q, _ in part.polys for x, _ in q])
                    if hi < math.inf and abs(hi - last - space) > 1 - EPS:
                        return f'a symbol is {hi - last} from the term before'
                    if lo == -math.inf and abs(first - opts.get('pad', (0, 0))[0]) > 1 - EPS:
                        return f'the first term is at {first}'
                if 'path' in opts and [x[0] for x in d.about.get('save', [])] != ['x.y/z']:
                    return f'saved to {d.about.get("save")}'
                if bool(d.about.get('show')) != opts.get('show', True) or len(d.about.get('show', [])) > 1:
                    return f'shown {len(d.about.get("show", []))} times'
                return None
            for backend in BACKENDS:
                run_draw(p, ck, 'equation', f'{" = ".join(terms)} {opts or ""} {backend}', terms, backend, 'draw_equation', opts, judge=judge)


# -- text --------------------------------------------------------------------
TEXTS = PREGROUP[1:] + [
    '|!w:n,s,n@0 !verylongword:s.r,n.r@3 swap:s>n@1 swap:s.r>n.r@3 swap:s>n.r@2 cup:s>s.r@3 cup:n>n.r@1', '|!a:n.l,n@0 !b:n.r@2 !c:n@3 cup:n>n.r@1 cup:n.l>n@0', '|!a:n@0 !b:n.r@1 !c:s.l@2 !d:s@3 cup:s.l>s@2 cup:n>n.r@0',
    '|!aa:n@0 !bb:n.r,s,s.l,n@1 !cc:n.r,s@5 !dd:s.r,s@7 cup:n>n.r@4 cup:n>n.r@0 cup:s.l>s@1 cup:s>s.r@0', '|!a:n,n@0 !b:n.r,n.r@2 swap:n>n@0 swap:n.r>n.r@2 cup:n>n.r@1 cup:n>n.r@0',
    '|!e:@0 !a:n@0 !b:n.r@1 cup:n>n.r@0', '|!a:n@0 !e:@1 !b:s@1 !c:s.r,n.r@2 cup:s>s.r@1 cup:n>n.r@0', '|!a:n@0 !b:s@1 !c:s@2 !d:n@3 swap:s>s@1 swap:n>s@0 swap:s>n@2 swap:n>n@1 swap:s>n@0',
    '|!a:n,n,n,n@0 swap:n>n@0 swap:n>n@2 swap:n>n@1 swap:n>n@0', '|!a:n.l.l,n.l@0 !b:n,n@2 cup:n.l>n@1 swap:n.l.l>n@0',
    '|!Alice:np@0 !run:np.r@1 cup:np>np.r@0', '|!Alice:np@0 !sleeps:np.r,s@1 !a:punc@3 cup:np>np.r@0', '|!abc:np,np,s@0 !d:np@3 swap:np>np@0 swap:s>np@2',
]


def text_rows(case, out, at, ws):
    """What the rows of a text drawing connect; None, or what is wrong."""
    lines = out.split('\n')
    sep = ' @ ' if at else '\u00b7'
    words = [b for b in case.boxes if not b[2] and not spiderish(b[0])]
    rows = lines[3:]
    types = lines[2] if len(lines) > 2 else ''
    pos, x = [], 0
    for b in words:
        row = sep.join(b[3])
        width = max(len(b[1]), len(row))
        if lines[0][x:x + width].strip() != b[1]:
            return f'word {b[1]!r} is not at its place'
        if lines[1][x:x + width] != lines[1][x] * width or not lines[1][x].strip():
            return f'the line under {b[1]!r} is not as long as the word and its types'
        if types[x:x + width].strip() != row:
            return f'types of {b[1]!r} are not at their place'
        q = types.index(row, x)
        for t in b[3]:
            pos.append(q + (len(t) - 1) // 2)
            q += len(t) + len(sep)
        x += width + ws
    col = {c: i for i, c in enumerate(pos)}
    cups, i = [], 0
    while i < len(rows):
        r, new, seen, j = rows[i], {}, set(), 0
        two = '\u256e' in r
        while j < len(r):
            ch = r[j]
            if ch == '\u2502':
                if j not in col:
                    return f'a wire starts in row {i}'
                new[j] = col[j]
                seen.add(j)
            elif ch == '\u2570':
                k = r.find('\u256f', j)
                if j not in col or k not in col or any(j < c < k for c in col):
                    return f'a corner in row {i} is at no wire'
                seen |= {j, k}
                if '\u256e' in r[j:k]:
                    new[j], new[k] = col[k], col[j]
                    m = r.index('\u256e', j)
                    low = rows[i + 1] if i + 1 < len(rows) else ''
                    if low[j:k + 1] != '\u256d' + low[j + 1:m].replace(' ', '?') + '\u2570' + low[m + 1:k].replace(' ', '?') + '\u256e' or set(low[j + 1:m] + low[m + 1:k] + r[j + 1:m] + r[m + 1:k]) - {'\u2500'}:
                        return f'the crossing in row {i} is not closed'
                else:
                    if set(r[j + 1:k]) - {'\u2500'}:
                        return f'the cup in row {i} is not closed'
                    cups.append(tuple(sorted((col[j], col[k]))))
                j = k
            elif ch != ' ':
                return f'stray {ch!r} in row {i}'
            j += 1
        if seen != set(col):
            return f'a wire ends in row {i}'
        if two:
            low = rows[i + 1] if i + 1 < len(rows) else ''
            if any(j >= len(low) or low[j] == ' ' for j in new):
                return f'a wire is broken in row {i + 1}'
            i += 1
        col = new
        i += 1
    scan, want = list(range(len(pos))), []
    for names, name, dom, cod, off, b in case.boxes:
        if 'Cup' in names:
            want.append(tuple(sorted(scan[off:off + 2])))
            del scan[off:off + 2]
        elif 'Swap' in names:
            scan[off:off + 2] = scan[off:off + 2][::-1]
    if sorted(cups) != sorted(want):
        return f'cups {sorted(cups)} drawn, expected {sorted(want)}'
    if [col[c] for c in sorted(col)] != scan:
        return f'wires {[col[c] for c in sorted(col)]} go out, expected {scan}'
    return None


def render(p, ck, key, text, opts, judge):
    b = Bench(p, ck)
    e = b.engine('grammar', tyv=False, dg=False)
    e.repr_on = True

    def fn(e, st):
        fn.case = make(p, e, st, text, 'grammar')
        return meth(e, fn.case.diagram, 'render_as_str', [], {k: value(e, st, v) for k, v in opts.items()}, st)

    def check(e, v, st, path):
        v = e.res(v, st)
        if path or not isinstance(v, K) or not isinstance(v.v, str):
            return None, 'depends on unknowns'
        bad = judge(fn.case, v.v)
        return (False, bad) if bad else (True, 'read back')
    return guarded(b, 'text', key, 'lambeq/backend/drawing/text_printer.py', e, fn, check)


def texts(p, ck, deep):
    for text in TEXTS:
        for opts in [{}] + [{'word_spacing': w, 'use_at_separator': a, 'compress_layers': c} for w, a, c in ((1, False, False), (5, True, True), (2, True, False), (2, False, False), (1, False, True))]:
            got = {}

            def uni(case, out, got=got, opts=opts):
                got[0] = out
                return text_rows(case, out, opts.get('use_at_separator', False), opts.get('word_spacing', 2))

            def asc(case, out, got=got):
                if not out.isascii():
                    return 'characters that are not ASCII'
                for x, y in zip(out.split('\n')[3:], got.get(0, '').split('\n')[3:]):
                    for u, a in (('\u2502', '|'), ('\u2570', '\\'), ('\u256f', '/')):
                        if [i for i, c in enumerate(y) if c == u] != [i for i, c in enumerate(x) if c == a]:
                            return f'{a!r} is not where {u!r} is'
                return None if len(out.split('\n')) == len(got.get(0, out).split('\n')) else 'other rows'
            render(p, ck, f'{text} {opts or ""}', text, opts, uni)
            render(p, ck, f'{text} {opts or ""} ascii', text, dict(opts, use_ascii=True), asc)
        if len(text.split('swap')) < 3:
            continue

        # layers that do not touch each other share a row only when asked to
        sizes = {}
        for c in (False, True):
            def size(case, out, c=c):
                sizes[c] = len(out.split('\n')) - 3
                n = sum(1 if 'Cup' in b[0] else 2 for b in case.boxes if spiderish(b[0]))
                if not c and sizes[c] not in (n, n + 1):
                    return f'{sizes[c]} rows for boxes in layers of their own, expected {n}'
                if c and sizes[c] > n:
                    return 'compressed layers take more rows'
                return None
            render(p, ck, f'{text} rows compress={c}', text, {'compress_layers': c}, size)


def derivs(p, ck, deep):
    """CCGTree.deriv: with ASCII asked for, the same picture in ASCII."""
    def leaves(t):
        return 1 if t[0] == 'leaf' else sum(map(leaves, t[2]))
    for lab, t in list(c03.derivations(False)):
        for vertical in (False, True):
            got = {}
            for ascii_ in (False, True):
                b = Bench(p, ck)
                e = b.engine('grammar', tyv=False, dg=False)
                e.repr_on = True

                def fn(e, st, ascii_=ascii_, t=t):
                    tree = c03.Maker(p, e, st).tree(t, [])
                    return meth(e, tree, 'deriv', [], {'use_ascii': K(ascii_), 'vertical': K(vertical)}, st)

                def check(e, v, st, path, ascii_=ascii_, t=t):
                    v = e.res(v, st)
                    if path or not isinstance(v, K) or not isinstance(v.v, str):
                        return None, f'depends on unknowns {show(v)[:200]}'
                    lines = v.v.split('\n')
                    words = [f'w{i + 1}' for i in range(leaves(t))]
                    seen = re.findall(r'\bw\d+\b', v.v)
                    if seen != words:
                        return False, f'words {seen}, expected {words}'
                    if vertical is False and re.findall(r'\bw\d+\b', lines[0]) != words:
                        return False, 'words are not in the first line'
                    got[ascii_] = lines
                    if ascii_:
                        if not v.v.isascii():
                            return False, f'characters that are not ASCII: {sorted(c for c in set(v.v) if not c.isascii())}'
                        if len(lines) != len(got.get(False, lines)):
                            return False, 'other lines than without ASCII'
                        if not vertical and 0 in got and [x.split() for x in got[False]][0] != lines[0].split():
                            return False, 'other words than without ASCII'
                    return True, 'drawn'
                guarded(b, 'deriv', f'{lab}{" vertical" if vertical else ""}{" ascii" if ascii_ else ""}', 'lambeq/text2diagram/ccg_tree.py', e, fn, check)


def interface(p, ck, deep):
    """Every backend takes what the drawing functions give to any backend."""
    base = p.cls('backend.drawing.drawing_backend.DrawingBackend')
    for sub in base.all_subclasses():
        for name, f in base.methods.items():
            if not f.is_abstract:
                continue
            g = sub.find_method(name)
            if g is None or g is f:
                ck.add('interface', f'{sub.name}.{name}', False if not sub.all_subclasses() else None, sub.module.rel, 'is not there')
                continue
            a, b = f.node.args, g.node.args
            have = [x.arg for x in b.posonlyargs + b.args]
            bad = None
            for i, x in enumerate(a.args):
                if b.vararg is None and (i >= len(have) or have[i] != x.arg):
                    bad = f'argument {x.arg!r} of DrawingBackend.{name} is not taken at its place'
                    break
            if a.kwarg and not b.kwarg:
                bad = bad or f'DrawingBackend.{name} takes any keyword'
            need = len(b.args) - len(b.defaults)
            if need > len(a.args) - len(a.defaults):
                bad = bad or 'needs more arguments than DrawingBackend'
            ck.add('interface', f'{sub.name}.{name}', bad is None, g.where, bad or 'takes the same')


def run(p, ck, tier):
    q = project(p)
    deep = tier == 'thorough'
    jobs = [(f.__name__, lambda f=f: f(q, ck, deep)) for f in (grammar, pregroup, frames, circuits, options, equations, keys, texts, derivs, interface)]
    fork_map(ck, jobs)
