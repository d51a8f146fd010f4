"""C17: each pass over a dataset yields every pair once."""
import itertools
from ..absint import Raised, Unsupported
from ..harness import *

TITLE = 'Each training epoch sees every example once, paired with its label'

PERMS = {
    'identity': lambda xs: xs,
    'reversal': lambda xs: xs[::-1],
    'rotation': lambda xs: xs[1:] + xs[:1],
    'riffle': lambda xs: xs[1::2] + xs[::2],
}


def eng(b, perm='rotation'):
    e = b.engine('grammar', tyv=False, dg=False)
    e.permute = PERMS[perm]
    e.np_lists = True
    e.MAXSTEPS = 200000
    return e


def atoms(e, v, st, out):
    """The element symbols of a batch, in order."""
    v = e.res(v, st)
    if isinstance(v, Sym):
        out.append(v)
    elif isinstance(v, Ref):
        o = e.obj(st, v)
        if isinstance(o, ListO):
            for x in o.items:
                atoms(e, x, st, out)
    elif isinstance(v, Tup):
        for x in v.items:
            atoms(e, x, st, out)
    elif isinstance(v, App):
        for x in v.args:
            if isinstance(x, V):
                atoms(e, x, st, out)
    elif isinstance(v, Spread):
        raise Unsupported('batch of unknown content')
    return out


def elems(e, v, st, kind):
    """Only the example (kind 'x') or label ('y') symbols."""
    return [a for a in atoms(e, v, st, []) if a.path[0] == kind]


def lists(e, st, n):
    d = [Sym(('x', i)) for i in range(n)]
    t = [Sym(('y', i)) for i in range(n)]
    return e.new(st, ListO(d)), e.new(st, ListO(t)), d, t


def build(p, e, st, n, size, shuffle):
    C = ClsV(p.cls('training.dataset.Dataset'))
    d, t, xs, ys = lists(e, st, n)
    kw = {'shuffle': K(shuffle)}
    if size is not None:
        kw['batch_size'] = I(size)
    return e.instantiate(C, [d, t], kw, st, None), d, t


def want(n, size, shuffle, perm):
    idx = list(range(n))
    if size in (None, 0):
        size = n
    return idx, size


def run(p, ck, tier):
    b = Bench(p, ck)
    ck.rule('once', 'A pass yields every example exactly once, each at the position of its own label.')
    ck.rule('batch', 'Every batch but the last has the requested size, none is empty, and batches_per_epoch counts them.')
    ck.rule('kept', 'A pass leaves the dataset and the lists it was made from unchanged, and a second pass yields every pair again.')
    ck.rule('index', 'An example and the label at one index, or in one slice, belong together.')
    ck.rule('shuffle', 'Shuffling two lists keeps each example with its label and leaves the two lists alone.')
    ck.rule('order', 'Without shuffling a pass yields the examples in order.')
    ck.rule('flatten', 'Flattening nested collections of diagrams yields each diagram once, in order.')
    C = p.cls('training.dataset.Dataset')
    it = C.find_method('__iter__')
    top = 7 if tier == 'quick' else 13
    for n in range(1, top):
        for size in [None] + list(range(0, n + 2)):
            for sh in (False, True):
                for perm in (PERMS if sh else ['identity']):
                    one(p, b, ck, n, size, sh, perm, it.where)
    for n in (1, 2, 5):
        index(p, b, n, C.find_method('__getitem__').where)
        for perm in PERMS:
            shuffled(p, b, C, n, perm)
    mismatch(p, b, ck, C)
    flat(p, b, ck, C)
    ck.floor('once', 20)
    ck.floor('kept', 20)


def batches(e, ds, st):
    return e.items(e.call(e.getattr(ds, '__iter__', st), [], {}, st, None), st, None)


def one(p, b, ck, n, size, sh, perm, where):
    key = f'{n} examples, ' + ('no batch size' if size is None else f'batch size {size}') + (f', shuffled by a {perm}' if sh else '')

    def go(e, st):
        ds, d, t = build(p, e, st, n, size, sh)
        b1 = batches(e, ds, st)
        b2 = batches(e, ds, st)
        return Tup([Tup(b1), Tup(b2), ds, d, t])

    def pairs(e, bs, st):
        out = []
        for x in bs.items:
            its = e.items(x, st, None)
            if len(its) != 2:
                raise Unsupported('a batch is not a pair')
            a, c = elems(e, its[0], st, 'x'), elems(e, its[1], st, 'y')
            if elems(e, its[0], st, 'y') or elems(e, its[1], st, 'x'):
                return None, 'examples and labels are mixed'
            out.append((a, c))
        return out, ''

    def once(e, v, st, path):
        for k in (0, 1):
            ps, msg = pairs(e, v.items[k], st)
            if ps is None:
                return False, msg
            seen = []
            for a, c in ps:
                if len(a) != len(c):
                    return False, f'a batch has {len(a)} examples and {len(c)} labels'
                for x, y in zip(a, c):
                    if x.path[1] != y.path[1]:
                        return False, f'example {x.path[1]} comes with the label of example {y.path[1]}'
                    seen.append(x.path[1])
            lost = sorted(set(range(n)) - set(seen))
            if lost:
                return False, f'pass {k + 1} leaves out {len(lost)} of {n} examples'
            if len(seen) != n:
                return False, f'pass {k + 1} yields an example twice'
            if not sh and seen != sorted(seen):
                return False, 'the order changed though shuffling is off'
        return True, ''

    def batch(e, v, st, path):
        ps, msg = pairs(e, v.items[0], st)
        if ps is None:
            return False, msg
        w = size or n
        ls = [len(a) for a, _ in ps]
        if 0 in ls:
            return False, 'an empty batch'
        if any(x != w for x in ls[:-1]) or (ls and ls[-1] > w):
            return False, f'batches of {ls} for a batch size of {w}'
        c = e.res(e.getattr(v.items[2], 'batches_per_epoch', st), st)
        if isinstance(c, Lin) and c.const is not None or isinstance(c, K):
            k = c.const if isinstance(c, Lin) else c.v
            if k != len(ls):
                return False, f'batches_per_epoch is {k}, a pass has {len(ls)} batches'
            return True, ''
        return None, f'batches_per_epoch is {show(c)}'

    def kept(e, v, st, path):
        ds, d, t = v.items[2:]
        for nm, r, kind in (('data', d, 'x'), ('targets', t, 'y')):
            own = [a.path for a in elems(e, r, st, kind)]
            if own != [(kind, i) for i in range(n)]:
                return False, f'the caller\'s list of {nm} changed'
            at = [a.path for a in elems(e, e.getattr(ds, nm, st), st, kind)]
            if at != [(kind, i) for i in range(n)]:
                return False, f'the {nm} of the dataset changed'
        return True, ''
    done = []

    def cached(e, st):
        if not done:
            done.append((go(e, st), st.fork(), e))
        st.become(done[0][1].fork())
        return done[0][0]
    e = eng(b, perm)
    b.run('once', key, where, e, cached, once)
    if done:
        b.run('batch', key, where, e, cached, batch)
        b.run('kept', key, where, e, cached, kept)


def index(p, b, n, where):
    for i in range(-n, n):
        def go(e, st, i=i):
            ds, d, t = build(p, e, st, n, None, False)
            return e.call(e.getattr(ds, '__getitem__', st), [I(i)], {}, st, None)

        def chk(e, v, st, path, i=i):
            its = e.items(v, st, None)
            a, c = elems(e, its[0], st, 'x'), elems(e, its[1], st, 'y')
            if [x.path[1] for x in a] != [i % n] or [x.path[1] for x in c] != [i % n]:
                return False, f'index {i} gives example {[x.path[1] for x in a]} and label {[x.path[1] for x in c]}'
            return True, ''
        b.run('index', f'{n} examples, index {i}', where, eng(b), go, chk)

    def ln(e, st):
        ds, d, t = build(p, e, st, n, None, False)
        return e.call(e.getattr(ds, '__len__', st), [], {}, st, None)
    b.run('index', f'{n} examples, length', where, eng(b), ln, lambda e, v, st, path: (e.res(v, st) == I(n), f'the length is {show(v)}'))


def shuffled(p, b, C, n, perm):
    f = C.find_method('shuffle_data')
    if f is None:
        return

    def go(e, st):
        d, t, xs, ys = lists(e, st, n)
        r = e.call(e.getattr(ClsV(C), 'shuffle_data', st), [d, t], {}, st, None)
        return Tup([r, d, t])

    def chk(e, v, st, path):
        its = e.items(v.items[0], st, None)
        a, c = elems(e, its[0], st, 'x'), elems(e, its[1], st, 'y')
        if [x.path[1] for x in a] != [x.path[1] for x in c]:
            return False, 'examples and labels are shuffled differently'
        if sorted(x.path[1] for x in a) != list(range(n)):
            return False, 'examples are lost or repeated'
        if [x.path[1] for x in elems(e, v.items[1], st, 'x')] != list(range(n)) or \
                [x.path[1] for x in elems(e, v.items[2], st, 'y')] != list(range(n)):
            return False, 'the lists of the caller are shuffled in place'
        return True, ''
    b.run('shuffle', f'{n} examples, {perm}', f.where, eng(b, perm), go, chk)


def mismatch(p, b, ck, C):
    f = C.find_method('__init__')
    for n, m in ((2, 1), (1, 2), (0, 1)):
        e, st = eng(b), Store()
        d, _, _, _ = lists(e, st, n)
        _, t, _, _ = lists(e, st, m)
        key = f'{n} examples and {m} labels'
        try:
            ok, r = attempt_raise(e, st, lambda: e.instantiate(ClsV(C), [d, t], {}, st, None))
        except Unsupported as x:
            ck.unknown('index', key, f.where, str(x))
            continue
        ck.functions |= e.analysed
        ck.add('index', key, not ok, f.where, 'accepted' if ok else 'refused')


def attempt_raise(e, st, fn):
    try:
        return True, fn()
    except Raised as r:
        return False, r


def flat(p, b, ck, C):
    f = C.module.functions.get('flatten')
    if f is None:
        return
    from .c04 import Mk

    def mk(m, e, st, shape):
        if shape == 'd':
            m.k += 1
            x = meth(e, m.box(f'b{m.k}', [('n', 0)], [('n', 0)]), 'to_diagram', [], {}, st)
            m.made.append(x)
            return x
        kind, xs = shape
        xs = [mk(m, e, st, x) for x in xs]
        if kind == 'tuple':
            return Tup(xs)
        if kind == 'dict':
            return e.new(st, DictO({K(f'k{i}'): x for i, x in enumerate(xs)}))
        return e.new(st, ListO(xs))
    shapes = {'no diagram': ('list', []), 'a list': ('list', ['d', 'd']), 'a tuple': ('tuple', ['d', 'd', 'd']),
              'a dictionary': ('list', [('dict', ['d', 'd']), 'd']), 'lists of lists': ('list', [('list', ['d', 'd']), 'd', ('list', ['d'])]),
              'dictionaries of lists': ('list', [('dict', ['d', ('list', ['d', 'd'])]), ('dict', ['d'])])}
    for nm, s in shapes.items():
        def go(e, st, s=s):
            m = Mk(p, e, st)
            m.k, m.made = 0, []
            v = mk(m, e, st, s)
            return Tup([e.call(FnV(f), [v], {}, st, None), Tup(m.made)])

        def chk(e, v, st, path):
            its = [e.res(x, st) for x in e.items(v.items[0], st, None)]
            w = [e.res(x, st) for x in v.items[1].items]
            if its == w:
                return True, ''
            return False, f'{len(w)} diagrams give {len(its)}'
        b.run('flatten', nm, f.where, eng(b), go, chk)
