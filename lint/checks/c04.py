"""C04: rewriting a box never changes its boundary."""
import ast
import itertools
from ..absint import Raised, Unsupported
from ..harness import *
from ..instances import same

TITLE = 'Rewriting never changes a boundary'
STR = ('str',)
RB = 'rewrite.base.'
RD = 'rewrite.rewrite_diagram.'


class Mk:
    """Concrete types and diagrams on the heap."""

    def __init__(self, p, e, st):
        self.p, self.e, self.st = p, e, st

    def cls(self, n):
        return ClsV(self.p.cls('backend.grammar.' + n))

    def new(self, n, *a, **k):
        return self.e.instantiate(self.cls(n), list(a), k, self.st, None)

    def ty(self, fs):
        """[(name, z)] -> Ty"""
        e, st = self.e, self.st
        at = [self.new('Ty', n if isinstance(n, V) else K(n), z=I(z)) for n, z in fs]
        if len(at) == 1:
            return at[0]
        return self.new('Ty', objects=e.new(st, ListO(at))) if at else self.new('Ty')

    def word(self, n, fs):
        return self.new('Word', n if isinstance(n, V) else K(n), self.ty(fs))

    def box(self, n, d, c):
        return self.new('Box', n if isinstance(n, V) else K(n), self.ty(d), self.ty(c))

    def id(self, fs=()):
        return self.e.call(self.e.getattr(self.cls('Diagram'), 'id', self.st), [self.ty(list(fs))], {}, self.st, None)

    def diagram(self, words, mors):
        """words [(name, type)], mors [('c', i) | ('s', i) | ('b', i, n, cod)]"""
        e, st = self.e, self.st
        d, cod = self.id(), []
        for n, t in words:
            d = meth(e, d, '__matmul__', [self.word(n, t)], {}, st)
            cod += t
        for m in mors:
            i = m[1]
            if m[0] == 'c':
                x = self.new('Cup', self.ty(cod[i:i + 1]), self.ty(cod[i + 1:i + 2]))
                new = []
                n = 2
            elif m[0] == 's':
                x = self.new('Swap', self.ty(cod[i:i + 1]), self.ty(cod[i + 1:i + 2]))
                new = [cod[i + 1], cod[i]]
                n = 2
            else:
                n, new = m[2], m[3]
                x = self.box('box', cod[i:i + n], new)
            d = meth(e, d, 'then_at', [x, I(i)], {}, st)
            cod[i:i + n] = new
        return d, cod


def eng(b):
    e = b.engine('grammar', tyv=False, dg=False)
    e.MAXSTEPS = 400000
    return e


def bounds(e, v, st, path):
    """v = (result, domain, codomain)"""
    r, d, c = v.items
    for a, w in (('dom', d), ('cod', c)):
        ok, msg = same(e, e.getattr(r, a, st), w, st, a)
        if ok is not True:
            return ok, msg
    return True, ''


def run(p, ck, tier):
    b = Bench(p, ck)
    ck.rule('template', 'The template of every built-in word rewrite goes from the empty type to the type the rule matches, '
            'and so does the rewritten word.')
    ck.rule('accept', 'A rule that accepts a box rewrites it to a diagram with the boundary of that box.')
    ck.rule('rewriter', 'Applying a Rewriter to a diagram keeps its domain and codomain.')
    ck.rule('diagram', 'Each diagram rewriter returns a well-typed diagram with the domain of the original and the codomain it '
            'documents.')
    ck.rule('words', 'Removing swaps or cups keeps the words of the diagram, and removes the swaps.')
    templates(p, b, ck)
    boxes(p, b, ck, tier)
    diagrams(p, b, ck, tier)
    ck.floor('template', 8)
    ck.floor('accept', 30)
    ck.floor('diagram', 20)


def rule_table(p, ck):
    """Names of the rules in Rewriter._available_rules / _default_rules, with their definitions."""
    R = p.cls(RB + 'Rewriter')
    out = []
    for t in ('_default_rules', '_available_rules'):
        d = R.attrs.get(t)
        if isinstance(d, ast.Dict):
            for k in d.keys:
                if isinstance(k, ast.Constant) and k.value not in out:
                    out.append(k.value)
    return R, out


def templates(p, b, ck):
    R, names = rule_table(p, ck)
    S = p.cls(RB + 'SimpleRewriteRule')
    init = R.find_method('__init__')
    for n in names:
        def rule(e, st, n=n):
            rw = e.instantiate(ClsV(R), [Tup([K(n)])], {}, st, None)
            return e.items(e.getattr(rw, 'rules', st), st, None)[0]
        probe = eng(b)
        try:
            r0 = rule(probe, Store())
        except Exception as x:
            ck.unknown('template', n, R.where, str(x))
            continue

        def go(e, st, rule=rule):
            r = e.res(rule(e, st), st)
            if not e.obj(st, r).cls.is_sub(S):
                return K('other')
            m = Mk(p, e, st)
            cod = e.getattr(r, 'cod', st)
            t = e.getattr(r, 'template', st)
            w = m.new('Word', Sym('word', STR), cod)
            res = meth(e, r, 'rewrite', [w], {}, st)
            return Tup([Tup([t, m.ty([]), cod]), Tup([res, m.ty([]), cod])])

        def chk(e, v, st, path):
            if v == K('other'):
                return True, 'not a template rule'
            for x in v.items:
                ok, msg = bounds(e, x, st, path)
                if ok is not True:
                    return ok, msg
            return True, ''
        b.run('template', n, S.where, eng(b), go, chk)
    # a template given by the user, with placeholders in it
    for lab, inner in (('placeholder alone', False), ('placeholder and boxes', True)):
        def go(e, st, inner=inner):
            m = Mk(p, e, st)
            ph = e.call(e.getattr(ClsV(S), 'placeholder', st), [m.ty([('a', 0), ('b', 1)])], {}, st, None)
            t = ph
            if inner:
                t = meth(e, meth(e, ph, '__matmul__', [m.word('k', [('c', 0)])], {}, st), '__rshift__',
                         [m.box('f', [('a', 0), ('b', 1), ('c', 0)], [('d', 0)])], {}, st)
            cod = e.getattr(t, 'cod', st)
            r = e.instantiate(ClsV(S), [cod, t], {}, st, None)
            w = m.new('Word', Sym('word', STR), cod)
            return Tup([e.call(r, [w], {}, st, None), m.ty([]), cod])
        b.run('template', f'user template: {lab}', S.where, eng(b), go,
              lambda e, v, st, path: bounds(e, v, st, path) if v.items[0] != K(None) else (False, 'does not match its own type'))


def boxes(p, b, ck, tier):
    S = p.cls(RB + 'SimpleRewriteRule')
    A = lambda *s: [(x.rstrip('rl'), x.count('r') - x.count('l')) for x in s]

    def accept(lab, cname, args, box, must=None):
        c = p.cls(RB + cname)
        fn = c.find_method('rewrite')

        def go(e, st):
            m = Mk(p, e, st)
            r = e.instantiate(ClsV(c), *args(m, e, st), st, None)
            x = box(m)
            return Tup([e.call(r, [x], {}, st, None), e.getattr(x, 'dom', st), e.getattr(x, 'cod', st)])

        def chk(e, v, st, path):
            if e.res(v.items[0], st) == K(None):
                return (True, 'not accepted') if not must else (False, 'a box of the documented shape is not rewritten')
            return bounds(e, v, st, path)
        b.run('accept', f'{cname}: {lab}', fn.where, eng(b), go, chk)
    none = lambda m, e, st: ([], {})
    # coordination
    for k in (1, 2, 3):
        mid = [('x', 0), ('y', -1), ('z', 1)][:k]
        rot = lambda t, z: [(n, a + z) for n, a in reversed(t)]
        t = rot(mid, 1) + mid + rot(mid, -1)
        # right.r == mid == left.l
        accept(f'and on {k} wires', 'CoordinationRewriteRule', none, lambda m, t=t: m.word('and', t), True)
        accept(f'and on {k} wires, box with a domain', 'CoordinationRewriteRule', none,
               lambda m, t=t: m.box('and', [('q', 0)], t))
        accept(f'other type on {k} wires', 'CoordinationRewriteRule', none,
               lambda m, mid=mid: m.word('and', mid + rot(mid, 1) + mid))
        accept(f'given words on {k} wires', 'CoordinationRewriteRule', lambda m, e, st: ([Tup([K('or'), K('nor')])], {}),
               lambda m, t=t: m.word('nor', t), True)
    # simple rules
    for lab, dom in (('word', []), ('box with a domain', [('q', 0)])):
        for case in (True, False):
            accept(f'{lab}, {"" if case else "not "}case sensitive', 'SimpleRewriteRule',
                   lambda m, e, st, case=case: ([m.ty(A('a', 'b')), m.word('w', A('a', 'b'))],
                                                {'words': Tup([K('w'), K('v')]), 'case_sensitive': K(case)}),
                   lambda m, dom=dom: m.box('w', dom, A('a', 'b')), not dom)
    accept('template with a domain', 'SimpleRewriteRule',
           lambda m, e, st: ([m.ty(A('a')), m.box('t', A('d'), A('a'))], {}), lambda m: m.box('w', A('d'), A('a')))
    accept('template with another domain', 'SimpleRewriteRule',
           lambda m, e, st: ([m.ty(A('a')), m.box('t', A('d'), A('a'))], {}), lambda m: m.box('w', A('c', 'd'), A('a')))
    # currying
    ls, ms, rs = ((), ('ar',), ('ar', 'brr')), ((), ('m',), ('m', 'n')), ((), ('cl',), ('cl', 'dll'))
    for l, m_, r in itertools.product(ls, ms, rs):
        for dom in ((), ('p',), ('p', 'ql')):
            if tier == 'quick' and dom and len(l) + len(r) > 2:
                continue
            accept(f'{" ".join(dom)} -> {" ".join(l + m_ + r)}', 'CurryRewriteRule', none,
                   lambda m, t=l + m_ + r, dom=dom: m.box(Sym('f', STR), A(*dom), A(*t)), bool(l or r))
    for t in (('al', 'm'), ('m', 'ar'), ('al', 'br'), ('ar', 'm', 'br', 'n', 'cl'), ('ar', 'bl')):
        accept(f' -> {" ".join(t)}', 'CurryRewriteRule', none, lambda m, t=t: m.word(Sym('f', STR), A(*t)))
    # collapsing domains
    for left in (True, False):
        for d, c in (((), ('c',)), (('a',), ('c',)), (('a', 'bl', 'cr'), ('d', 'e')), (('a', 'b'), ())):
            accept(f'{" ".join(d)} -> {" ".join(c)}, {"left" if left else "right"}', 'CollapseDomainRewriteRule',
                   lambda m, e, st, left=left: ([], {'left': K(left)}),
                   lambda m, d=d, c=c: m.box(Sym('f', STR), A(*d), A(*c)), bool(d))
    # unknown words
    for vocab, lab in (((), 'empty vocabulary'), (('w',), 'in the vocabulary'), (('v',), 'not in the vocabulary')):
        accept(lab, 'UnknownWordsRewriteRule', lambda m, e, st, vocab=vocab: ([Tup([K(x) for x in vocab])], {}),
               lambda m: m.word('w', A('a', 'br')), 'w' not in vocab)
        accept(lab + ', box', 'UnknownWordsRewriteRule', lambda m, e, st, vocab=vocab: ([Tup([K(x) for x in vocab])], {}),
               lambda m: m.box('w', A('d'), A('a', 'br')))
    # whole rewriter: boxes that some rule takes and boxes none takes
    R, names = rule_table(p, ck)
    fn = R.find_method('__call__')
    N, Sn = 'n', 's'
    for lab, rules, words, mors in (
            ('default rules', None, [('John', A('n')), ('is', A('nr', 's', 'sl', 'n')), ('the', A('n', 'nl')), ('dog', A('n'))],
             [('c', 0), ('c', 4)]),
            ('curry', ('curry',), [('John', A('n')), ('sees', A('nr', 's', 'nl')), ('it', A('n'))], [('c', 0), ('c', 1)]),
            ('curry and determiner', ('curry', 'determiner'), [('the', A('n', 'nl')), ('dog', A('n')), ('runs', A('nr', 's'))],
             [('c', 1), ('c', 0)]),
            ('every rule', tuple(names), [('John', A('n')), ('and', A('nr', 'n', 'nl')), ('the', A('n', 'nl')), ('dog', A('n'))],
             [('c', 0), ('c', 1), ('c', 1), ('b', 0, 1, A('s', 's'))])):
        def go(e, st, rules=rules, words=words, mors=mors):
            m = Mk(p, e, st)
            rw = e.instantiate(ClsV(R), [Tup([K(x) for x in rules])] if rules is not None else [], {}, st, None)
            d, cod = m.diagram(words, mors)
            return Tup([e.call(rw, [d], {}, st, None), m.ty([]), m.ty(cod)])
        b.run('rewriter', lab, fn.where, eng(b), go, bounds)
    # one session: the same spelling at several types, in both orders
    tys = [A('n', 'nl'), A('nr', 'n'), A('n', 'n'), A('s', 'sl'), A('n', 'nl', 'n')]
    ands = [A('nr', 'n', 'nl'), A('n', 'n', 'n'), A('sr', 's', 'sl')]
    for word, types in (('the', tys), ('the', tys[::-1]), ('and', ands), ('and', ands[::-1]), ('is', [
            A('nr', 's', 'sl', 'n'), A('n', 's', 'sl', 'n'), A('nr', 's')])):
        for rules in (None, ('determiner',), ('curry',), tuple(names)):
            def go(e, st, rules=rules, word=word, types=types):
                m = Mk(p, e, st)
                rw = e.instantiate(ClsV(R), [Tup([K(x) for x in rules])] if rules is not None else [], {}, st, None)
                out = []
                for t in types:
                    d = meth(e, m.word(word, t), 'to_diagram', [], {}, st)
                    out.append(Tup([e.call(rw, [d], {}, st, None), m.ty([]), m.ty(t)]))
                return Tup(out)

            def each(e, v, st, path):
                for i, x in enumerate(v.items):
                    ok, msg = bounds(e, x, st, path)
                    if ok is not True:
                        return ok, f'application {i + 1}: {msg}'
                return True, ''
            b.run('rewriter', f'session: {word} at {len(types)} types from {types[0]}, {rules if rules is None else rules[:2]}', fn.where,
                  eng(b), go, each)
    # rules added to a rewriter that has been used: as if it had had them from the start
    where = (R.find_method('add_rules') or fn).where
    for lab, first, later, words, mors in (
            ('determiner', ('auxiliary',), ('determiner',), [('the', A('n', 'nl')), ('dog', A('n'))], [('c', 1)]),
            ('curry', (), ('curry',), [('John', A('n')), ('sees', A('nr', 's', 'nl')), ('it', A('n'))], [('c', 0), ('c', 1)]),
            ('two of them', ('curry',), ('determiner', 'auxiliary'), [('the', A('n', 'nl')), ('dog', A('n')), ('runs', A('nr', 's'))], [('c', 1), ('c', 0)])):
        def go(e, st, first=first, later=later, words=words, mors=mors):
            m = Mk(p, e, st)
            make = lambda rules: e.instantiate(ClsV(R), [Tup([K(x) for x in rules])], {}, st, None)
            rw, all_ = make(first), make(first + later)
            d, cod = m.diagram(words, mors)
            e.call(rw, [d], {}, st, None)
            meth(e, rw, 'add_rules', [K(x) for x in later], {}, st)
            return Tup([e.call(rw, [d], {}, st, None), e.call(all_, [d], {}, st, None)])

        def alike(e, v, st, path):
            return same(e, v.items[0], v.items[1], st, 'result')
        b.run('rewriter', f'rules added after use: {lab}', where, eng(b), go, alike)


# -- diagram rewriters ---------------------------------------------------
def sentences(deep):
    A = lambda s: [(x.rstrip('rl'), x.count('r') - x.count('l')) for x in s.split()]
    W = lambda *ts: [('abcdefgh'[i], A(t)) for i, t in enumerate(ts)]
    yield 'no morphism', W('n', 's'), []
    yield 'empty', [], []
    yield 'one word', W('s'), []
    yield 'intransitive', W('n', 'nr s'), [('c', 0)]
    yield 'transitive', W('n', 'nr s nl', 'n'), [('c', 0), ('c', 1)]
    yield 'transitive, object first', W('n', 'nr s nl', 'n'), [('c', 3), ('c', 0)]
    yield 'nested cups', W('n s', 'sr nr s'), [('c', 1), ('c', 0)]
    yield 'three nested cups', W('p n s', 'sr nr pr s'), [('c', 2), ('c', 1), ('c', 0)]
    yield 'left adjoints', W('s nl', 'n'), [('c', 1)]
    yield 'nested left adjoints', W('s pl nl', 'n p'), [('c', 2), ('c', 1)]
    yield 'adverb', W('n', 'nr s', 'sr nrr nr s'), [('c', 2), ('c', 1), ('c', 0)]
    yield 'open wires', W('n', 'nr s nl'), [('c', 0)]
    yield 'swap', W('n', 's nr'), [('s', 1), ('c', 0)]
    yield 'swap at the end', W('n', 's', 'sr p'), [('c', 1), ('s', 0)]
    yield 'two swaps', W('n', 's p nr'), [('s', 2), ('s', 1), ('c', 0)]
    yield 'crossed composition', W('n', 'nr s pl', 'sr nrr nr s', 'p'), [('s', 3), ('s', 4), ('s', 5), ('s', 6),
                                                                 ('c', 2), ('c', 1), ('c', 0), ('c', 1)]
    yield 'word that cups itself', W('n nr', 's'), [('c', 0)]
    yield 'word that cups itself last', W('s', 'n nr'), [('c', 1)]
    yield 'word that partly cups itself', W('n nr s'), [('c', 0)]
    yield 'deleted, kept and deleted cup', W('n nr n', 'n nr s', 'sr s'), [('c', 0), ('c', 3), ('c', 1)]
    yield 'kept, deleted and kept cup', W('n', 'nr s nl', 'n p pr'), [('c', 0), ('c', 3), ('c', 1)]
    yield 'word with two cups of its own', W('n nr s sr p'), [('c', 0), ('c', 0)]
    yield 'word with two cups of its own, right one first', W('q', 'qr n nr s sr p'), [('c', 4), ('c', 2), ('c', 0)]
    yield 'word with nested cups of its own', W('p', 'pr n s sr nr q'), [('c', 0), ('c', 1), ('c', 0)]
    yield 'two words with two cups of their own', W('n nr s sr p', 'pr n nr s sr q'), [('c', 0), ('c', 4), ('c', 0), ('c', 2), ('c', 0)]
    if deep:
        yield 'kept cup above two deleted ones', W('n nr p', 'pr n nr s'), [('c', 2), ('c', 0), ('c', 0)]
        yield 'swapped into a detached cup', W('n s nr', 'sr p'), [('s', 1), ('c', 0), ('c', 0)]
        yield 'relative pronoun', W('n', 'nr n nll sl', 'n', 'nr s nl'), [('s', 3), ('c', 0)] if False else \
            [('c', 0)]
        yield 'double nested left', W('s pl nl', 'n p', 'sr q'), [('c', 2), ('c', 1), ('c', 0)]


def mixed(deep):
    A = lambda s: [(x.rstrip('rl'), x.count('r') - x.count('l')) for x in s.split()]
    W = lambda *ts: [('abcdefgh'[i], A(t)) for i, t in enumerate(ts)]
    yield 'box before a cup', W('m', 'nr s'), [('b', 0, 1, A('n')), ('c', 0)]
    yield 'box after a cup', W('n', 'nr s'), [('c', 0), ('b', 0, 1, A('p q'))]
    yield 'box across two words', W('n', 'p', 'nr s'), [('b', 0, 2, A('n')), ('c', 0)]
    yield 'effect', W('n', 's'), [('b', 0, 1, [])]


def diagrams(p, b, ck, tier):
    deep = tier == 'thorough'
    A = lambda s: [(x.rstrip('rl'), x.count('r') - x.count('l')) for x in s.split()]
    for cname, src in (('RemoveCupsRewriter', list(sentences(deep)) + list(mixed(deep))),
                       ('RemoveSwapsRewriter', list(sentences(deep)))):
        c = p.cls(RD + cname)
        fn = c.find_method('rewrite')
        for lab, words, mors in src:
            if cname == 'RemoveCupsRewriter' and not words:
                continue
            done = []

            def go(e, st, c=c, words=words, mors=mors, done=done):
                if not done:
                    m = Mk(p, e, st)
                    r = e.instantiate(ClsV(c), [], {}, st, None)
                    d, cod = m.diagram(words, mors)
                    done.append((Tup([e.call(r, [d], {}, st, None), m.ty([]), m.ty(cod)]), st.fork()))
                st.become(done[0][1].fork())
                return done[0][0]

            def kept(e, v, st, path, cname=cname, words=words):
                bx = [e.obj(st, e.res(x, st)) for x in e.items(e.getattr(v.items[0], 'boxes', st), st, None)]
                W, S = p.cls('backend.grammar.Word'), p.cls('backend.grammar.Swap')
                if cname == 'RemoveSwapsRewriter' and any(o.cls.is_sub(S) for o in bx):
                    return False, 'a swap is left'
                got = []
                D = p.cls('backend.grammar.Daggered')
                for o in bx:
                    o2 = o
                    if o.cls.is_sub(D):
                        o2 = e.obj(st, e.res(o.fields['box'], st))
                    if o2.cls.is_sub(W):
                        n = e.res(o2.fields.get('name'), st)
                        if not isinstance(n, K):
                            return None, 'name'
                        got += n.v.split(' ')
                want = sorted(n for n, _ in words)
                return sorted(got) == want, f'words {sorted(got)}, expected {want}'
            e = eng(b)
            b.run('diagram', f'{cname}: {lab}', fn.where, e, go, bounds)
            b.run('words', f'{cname}: {lab}', fn.where, e, go, kept)
    U = p.cls(RD + 'UnifyCodomainRewriter')
    fn = U.find_method('rewrite')
    for lab, cod, out in (('other codomain', 'n p', 's'), ('same codomain', 's', 's'), ('composite output', 's', 's p'),
                          ('empty codomain', '', 's'), ('adjoint codomain', 'sl', 's')):
        def go(e, st, cod=cod, out=out):
            m = Mk(p, e, st)
            r = e.instantiate(ClsV(U), [m.ty(A(out))], {}, st, None)
            d = meth(e, m.box('f', A('n'), A(cod)), 'to_diagram', [], {}, st)
            return Tup([e.call(r, [d], {}, st, None), m.ty(A('n')), m.ty(A(out))])
        b.run('diagram', f'UnifyCodomainRewriter: {lab}', fn.where, eng(b), go, bounds)

        def go2(e, st, cod=cod, out=out):
            m = Mk(p, e, st)
            r = e.instantiate(ClsV(U), [m.ty(A(out))], {}, st, None)
            d = meth(e, m.box('f', A('n'), A(cod)), 'to_diagram', [], {}, st)
            rs = e.items(e.call(r, [e.new(st, ListO([d, d]))], {}, st, None), st, None)
            return Tup([Tup([x, m.ty(A('n')), m.ty(A(out))]) for x in rs])

        def all_(e, v, st, path):
            if len(v.items) != 2:
                return False, f'{len(v.items)} results for 2 diagrams'
            for x in v.items:
                ok, msg = bounds(e, x, st, path)
                if ok is not True:
                    return ok, msg
            return True, ''
        b.run('diagram', f'UnifyCodomainRewriter: list, {lab}', fn.where, eng(b), go2, all_)
