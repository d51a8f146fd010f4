"""What is connected to what in a diagram: boxes, the ends of their legs, and
which ends are joined.  Two diagrams that differ only in how wires are drawn
have the same wiring."""


class Wiring:
    def __init__(self):
        self.parent, self.dim = [], []
        self.boxes = []         # (label, [ends])
        self.inputs, self.outputs = [], []
        self.problem = None

    def end(self, dim=None):
        self.parent.append(len(self.parent))
        self.dim.append(dim)
        return len(self.parent) - 1

    def find(self, x):
        while self.parent[x] != x:
            self.parent[x] = self.parent[self.parent[x]]
            x = self.parent[x]
        return x

    def join(self, *ends):
        if not ends:
            return
        a = self.find(ends[0])
        for b in ends[1:]:
            b = self.find(b)
            if self.dim[a] != self.dim[b]:
                self.problem = self.problem or f'a wire of {self.dim[a]} is joined to a wire of {self.dim[b]}'
            if a != b:
                self.parent[b] = a

    def box(self, label, dims):
        ends = [self.end(d) for d in dims]
        self.boxes.append((label, ends))
        return ends

    def facts(self, loops=False):
        """Comparable description: equal for wirings that are equal up to the
        order of boxes (by refinement of colours)."""
        ends = {}
        for k, ws in (('in', self.inputs), ('out', self.outputs)):
            for i, w in enumerate(ws):
                ends.setdefault(self.find(w), []).append((k, i))
        colour = [lab for lab, _ in self.boxes]
        for _ in range(len(self.boxes) + 2):
            at = {}
            for c, e in ends.items():
                at[c] = list(e)
            for i, (_, es) in enumerate(self.boxes):
                for j, w in enumerate(es):
                    at.setdefault(self.find(w), []).append(('box', colour[i], j))
            wires = {c: hash((self.dim[c], tuple(sorted(map(repr, v))))) for c, v in at.items()}
            colour = [hash((self.boxes[i][0], tuple(wires[self.find(w)] for w in es))) for i, (_, es) in enumerate(self.boxes)]
        alone = sorted(str(self.dim[x]) for x in range(len(self.parent)) if self.find(x) == x and x not in wires)
        return (sorted(colour), [wires[self.find(w)] for w in self.inputs], [wires[self.find(w)] for w in self.outputs],
                sorted(wires.values()), alone if loops else None)

    def same(self, other, loops=False):
        return self.facts(loops) == other.facts(loops)

    def differs(self, other, loops=False):
        """In words."""
        if len(self.inputs) != len(other.inputs) or len(self.outputs) != len(other.outputs):
            return f'{len(self.inputs)} inputs and {len(self.outputs)} outputs instead of {len(other.inputs)} and {len(other.outputs)}'
        a, b = sorted(repr(x) for x, _ in self.boxes), sorted(repr(x) for x, _ in other.boxes)
        if a != b:
            x, y = list(a), list(b)
            for z in a:
                if z in y:
                    y.remove(z)
                    x.remove(z)
            return f'has boxes {", ".join(x) or "none"} instead of {", ".join(y) or "none"}'
        f, g = self.facts(loops), other.facts(loops)
        if f[1] != g[1] or f[2] != g[2]:
            u, v = self.named(), other.named()
            for k in u:
                if u[k] != v.get(k):
                    return f'{k} is joined to {u[k]} instead of {v.get(k)}'
        u, v = self.named(), other.named()
        for k in u:
            if u[k] != v.get(k):
                return f'{k} is joined to {u[k]} instead of {v.get(k)}'
        return 'other connections' if f[:4] != g[:4] else 'other loops'

    def named(self):
        out, at = {}, {}
        for k, ws in (('input', self.inputs), ('output', self.outputs)):
            for i, w in enumerate(ws):
                at.setdefault(self.find(w), []).append(f'{k} {i}')
        for lab, es in self.boxes:
            for j, w in enumerate(es):
                at.setdefault(self.find(w), []).append(f'{lab} leg {j}')
        for v in at.values():
            for x in v:
                out[x] = sorted(y for y in v if y != x)
        return out


def of_steps(m, kinds, steps, doubled=False):
    """The wiring that `steps`, pairs of an offset and of what to apply there,
    depict on wires of the given kinds.  m reads values (see c21.Read)."""
    w = Wiring()
    wires = [w_new(w, k, doubled) for k in kinds]
    w.inputs = list(wires)
    for off, n, what in steps:
        wires[off:off + n] = m.apply(w, what, wires[off:off + n], doubled)
    w.outputs = list(wires)
    for x in ('inputs', 'outputs'):
        ws = getattr(w, x)
        flat = [e for e in ws if isinstance(e, int)] + [e[0] for e in ws if not isinstance(e, int)] + [e[1] for e in ws if not isinstance(e, int)]
        setattr(w, x, flat)
    return w


def of_diagram(m, d, doubled=False):
    """The wiring that the layers of `d` depict."""
    steps = []
    for layer in m.items(m.at(d, 'layers')):
        box = m.at(layer, 'box')
        steps.append((len(m.kinds(m.at(layer, 'left'))), len(m.kinds(m.at(box, 'dom'))), box))
    return of_steps(m, m.kinds(m.at(d, 'dom')), steps, doubled)


def swap(w, ins, k):
    return ins[k:] + ins[:k]


def cup(w, ins):
    for i in range(len(ins) // 2):
        w_join(w, ins[i], ins[len(ins) - 1 - i])
    return []


def cap(w, kinds, doubled=False):
    outs = [w_new(w, k, doubled) for k in kinds]
    return outs + list(reversed(outs))


def spider(w, ins, kinds, n_out, doubled=False):
    k = len(kinds)
    one = [w_new(w, x, doubled) for x in kinds]
    for i, x in enumerate(ins):
        w_join(w, one[i % k], x)
    return one * n_out


def w_new(w, kind, doubled):
    """kind: (what, dimension); a quantum wire is doubled."""
    if doubled and kind[0] == 'qubit':
        return (w.end(kind[1]), w.end(kind[1]))
    return w.end(kind[1])


def w_join(w, *wires):
    if isinstance(wires[0], int):
        w.join(*wires)
    else:
        for i in (0, 1):
            w.join(*(x[i] for x in wires))
