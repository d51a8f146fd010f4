"""C03: CCG derivations become diagrams with the derivation's types."""
import ast
import itertools
from ..absint import Raised, Unsupported
from ..harness import *
from ..instances import same

TITLE = "CCG rules produce diagrams with the derivation's types"

# categories: 'a' (atom) or (direction, result, argument); metavariables are
# upper-case strings, replaced before use
F = lambda r, a: ('/', r, a)
B = lambda r, a: ('\\', r, a)

#: rule -> list of (variant, premises, conclusion, metavariables that occur in the conclusion only via X, Z)
SCHEMAS = {
    'FORWARD_APPLICATION': [('', [F('X', 'Y'), 'Y'], 'X')],
    'BACKWARD_APPLICATION': [('', ['Y', B('X', 'Y')], 'X')],
    'FORWARD_COMPOSITION': [('', [F('X', 'Y'), F('Y', 'Z')], F('X', 'Z'))],
    'BACKWARD_COMPOSITION': [('', [B('Y', 'Z'), B('X', 'Y')], B('X', 'Z'))],
    'FORWARD_CROSSED_COMPOSITION': [('', [F('X', 'Y'), B('Y', 'Z')], B('X', 'Z'))],
    'BACKWARD_CROSSED_COMPOSITION': [('', [F('Y', 'Z'), B('X', 'Y')], F('X', 'Z'))],
    'GENERALIZED_FORWARD_COMPOSITION': [
        ('2', [F('X', 'Y'), F(F('Y', 'Z'), 'W')], F(F('X', 'Z'), 'W')),
        ('3', [F('X', 'Y'), F(F(F('Y', 'Z'), 'W'), 'V')], F(F(F('X', 'Z'), 'W'), 'V'))],
    'GENERALIZED_BACKWARD_COMPOSITION': [
        ('2', [B(B('Y', 'Z'), 'W'), B('X', 'Y')], B(B('X', 'Z'), 'W')),
        ('3', [B(B(B('Y', 'Z'), 'W'), 'V'), B('X', 'Y')], B(B(B('X', 'Z'), 'W'), 'V'))],
    'GENERALIZED_FORWARD_CROSSED_COMPOSITION': [
        ('2', [F('X', 'Y'), B(B('Y', 'Z'), 'W')], B(B('X', 'Z'), 'W')),
        ('2 mixed', [F('X', 'Y'), F(B('Y', 'Z'), 'W')], F(B('X', 'Z'), 'W')),
        ('3 mixed', [F('X', 'Y'), B(F(B('Y', 'Z'), 'W'), 'V')], B(F(B('X', 'Z'), 'W'), 'V'))],
    'GENERALIZED_BACKWARD_CROSSED_COMPOSITION': [
        ('2', [F(F('Y', 'Z'), 'W'), B('X', 'Y')], F(F('X', 'Z'), 'W')),
        ('2 mixed', [B(F('Y', 'Z'), 'W'), B('X', 'Y')], B(F('X', 'Z'), 'W')),
        ('3', [F(F(F('Y', 'Z'), 'W'), 'V'), B('X', 'Y')], F(F(F('X', 'Z'), 'W'), 'V'))],
    'REMOVE_PUNCTUATION_LEFT': [('', ['punc', 'X'], 'X')],
    'REMOVE_PUNCTUATION_RIGHT': [('', ['X', 'punc'], 'X')],
    'FORWARD_TYPE_RAISING': [('', ['X'], F('Z', B('Z', 'X')))],
    'BACKWARD_TYPE_RAISING': [('', ['X'], B('Z', F('Z', 'X')))],
    'CONJUNCTION': [('conj', ['conj', 'X'], B('X', 'X')), ('punc', ['punc', 'X'], B('X', 'X')),
                    ('punc right', ['X', 'punc'], F('X', 'X')), ('conj right', ['X', 'conj'], F('X', 'X'))],
    'UNARY': [('', ['X'], 'X')],
    'LEXICAL': [('', [], 'X')],
}
#: not given a diagram by apply on purpose
NO_APPLY = {'LEXICAL', 'CONJUNCTION', 'UNKNOWN'}
META = 'XYZWV'


def metas(c):
    if isinstance(c, str):
        return [c] if c in META else []
    return metas(c[1]) + metas(c[2])


def inst(c, sub):
    if isinstance(c, str):
        return sub.get(c, c)
    return (c[0], inst(c[1], sub), inst(c[2], sub))


def free(c):
    """Pregroup type of a category as [(atom, adjoint order)]."""
    if isinstance(c, str):
        return [(c, 0)]
    d, r, a = c
    z = -1 if d == '/' else 1
    arg = [(n, k + z) for n, k in reversed(free(a))]
    return free(r) + arg if d == '/' else arg + free(r)


def text(c):
    if isinstance(c, str):
        return c
    p = lambda x: text(x) if isinstance(x, str) else f'({text(x)})'
    return p(c[1]) + c[0] + p(c[2])


def assignments(vs, deep):
    """Distinct atoms for every metavariable; each and all of them complex in turn."""
    vs = sorted(set(vs))
    atom = {v: v.lower() for v in vs}
    yield 'atoms', atom
    shapes = [lambda v: F(v + '1', v + '2'), lambda v: B(v + '1', v + '2')]
    for k, sh in zip(('over', 'under'), shapes):
        for v in vs:
            yield f'{v} {k}', dict(atom, **{v: sh(v.lower())})
    for k, sh in zip(('over', 'under'), shapes):
        yield f'all {k}', {v: sh(v.lower()) for v in vs}
    if deep:
        nest = [lambda v: F(B(v + '1', v + '2'), v + '3'), lambda v: B(v + '1', F(v + '2', v + '3')),
                lambda v: F(v + '1', F(v + '2', v + '3')), lambda v: B(F(v + '1', v + '2'), B(v + '3', v + '4'))]
        for i, sh in enumerate(nest):
            for v in vs:
                yield f'{v} nested {i}', dict(atom, **{v: sh(v.lower())})
            yield f'all nested {i}', {v: sh(v.lower()) for v in vs}


class Maker:
    def __init__(self, p, e, st):
        self.p, self.e, self.st = p, e, st
        self.C = ClsV(p.cls('text2diagram.ccg_type.CCGType'))
        self.R = p.cls('text2diagram.ccg_rule.CCGRule')
        self.TC = p.cls('text2diagram.ccg_tree.CCGTree')

    def cat(self, c):
        e, st = self.e, self.st
        if isinstance(c, str):
            if c in ('conj', 'punc'):
                return e.getattr(self.C, {'conj': 'CONJUNCTION', 'punc': 'PUNCTUATION'}[c], st)
            return e.instantiate(self.C, [K(c)], {}, st, None)
        return e.instantiate(self.C, [], {'result': self.cat(c[1]), 'direction': K(c[0]), 'argument': self.cat(c[2])},
                             st, None)

    def rule(self, n):
        return self.e.getattr(ClsV(self.R), n, self.st)

    def seq(self, cs):
        return Tup([self.cat(c) for c in cs])

    def ty(self, fs):
        e, st = self.e, self.st
        T = ClsV(self.p.cls('backend.grammar.Ty'))
        r = e.instantiate(T, [], {}, st, None)
        for n, z in fs:
            a = e.instantiate(T, [K(n)], {}, st, None)
            if z:
                a = meth(e, a, 'rotate', [I(z)], {}, st)
            r = e.binop('MatMult', r, a, st, None)
        return r

    def tree(self, t, counter):
        """t: ('leaf', category) or (rule, category, children)."""
        e, st = self.e, self.st
        if t[0] == 'leaf':
            counter.append(t[1])
            return e.instantiate(ClsV(self.TC), [K(f'w{len(counter)}')],
                                 {'rule': self.rule('LEXICAL'), 'biclosed_type': self.cat(t[1])}, st, None)
        ch = [self.tree(c, counter) for c in t[2]]
        return e.instantiate(ClsV(self.TC), [], {'rule': self.rule(t[0]), 'biclosed_type': self.cat(t[1]),
                                                 'children': e.new(st, ListO(ch))}, st, None)


def members(p):
    R = p.cls('text2diagram.ccg_rule.CCGRule')
    out = {}
    for n, v in R.attrs.items():
        if not n.startswith('_') and isinstance(v, ast.AST):
            try:
                x = ast.literal_eval(v)
            except ValueError:
                continue
            out[n] = x[0] if isinstance(x, tuple) else x
    return out


def run(p, ck, tier):
    b = Bench(p, ck)
    deep = tier == 'thorough'
    ck.rule('apply', "rule.apply(dom, cod) goes from the product of the premises' pregroup types to the conclusion's, "
            'for every instance of the rule schema.')
    ck.rule('to_grammar', 'A category X/Y is read as X @ Y.l and X\\Y as Y.r @ X, recursively.')
    ck.rule('infer', 'infer_rule names the rule whose schema the premises and conclusion are an instance of.')
    ck.rule('sound', 'A rule that infer_rule names for two premises and a conclusion has a diagram between exactly those types.')
    ck.rule('resolve', 'rule.resolve(premises, conclusion) gives the premises of the rule instance with that conclusion.')
    ck.rule('members', 'Every member of the rule set is handled by apply and by resolve (none falls through to the '
            '"unreachable" error), and no member is confused with another.')
    ck.rule('names', 'Every rule name a parser can emit is a member of the rule set.')
    ck.rule('tree', 'The diagram of a derivation has the empty domain and the type of the conclusion, contains its words '
            'once each (in sentence order unless planar), and contains no swap when planar.')
    ms = members(p)
    R = p.cls('text2diagram.ccg_rule.CCGRule')
    grammar(p, b, deep)
    rules(p, b, ck, ms, R, deep)
    sound(p, b, R, deep)
    names(p, ck, ms)
    trees(p, b, deep)
    ck.floor('apply', 60)
    ck.floor('infer', 60)
    ck.floor('resolve', 60)
    ck.floor('sound', 60)
    ck.floor('tree', 40)
    ck.floor('names', 10)


def grammar(p, b, deep):
    C = p.cls('text2diagram.ccg_type.CCGType')
    fn = C.find_method('to_grammar')
    cats = ['a', F('a', 'b'), B('a', 'b'), F(F('a', 'b'), 'c'), F('a', F('b', 'c')), B(B('a', 'b'), 'c'),
            B('a', B('b', 'c')), F(B('a', 'b'), 'c'), B(F('a', 'b'), 'c'), F('a', B('b', 'c')), B('a', F('b', 'c')),
            F(B('a', F('b', 'c')), F('d', B('e', 'f')))]
    for c in cats:
        e = b.engine()

        def go(e, st, c=c):
            m = Maker(p, e, st)
            return Tup([meth(e, m.cat(c), 'to_grammar', [], {}, st), m.ty(free(c))])
        b.run('to_grammar', text(c), fn.where, e, go,
              lambda e, v, st, path: (v.items[0] == v.items[1], f'gives {show(v.items[0])}, expected {show(v.items[1])}'))


def rules(p, b, ck, ms, R, deep):
    ap, rs, inf = (R.find_method(n) for n in ('apply', 'resolve', 'infer_rule'))
    cat_eq = lambda e, v, st, path: same(e, v.items[0], v.items[1], st)
    for name in ms:
        if name == 'UNKNOWN':
            continue
        if name not in SCHEMAS:
            ck.unknown('members', name, R.where, 'no schema known for this rule')
            ck.notes.append(f'rule {name} has no schema in the analysis')
            continue
        for variant, dom, cod in SCHEMAS[name]:
            for lab, sub in assignments(sum(map(metas, dom), []) + metas(cod), deep):
                d, c = [inst(x, sub) for x in dom], inst(cod, sub)
                key = ' '.join(x for x in (name, variant, lab) if x)
                # apply
                if name not in NO_APPLY:
                    e = b.engine()

                    def go(e, st, name=name, d=d, c=c):
                        m = Maker(p, e, st)
                        return meth(e, m.rule(name), 'apply', [m.seq(d), m.cat(c)], {}, st)
                    st0 = Store()
                    m0 = Maker(p, e, st0)
                    D = m0.ty(sum(map(free, d), []))
                    Cc = m0.ty(free(c))
                    if name.startswith('REMOVE'):
                        D = Cc          # punctuation carries no wires
                    b.boundary('apply', key, ap.where, e, go, D, Cc)
                # resolve to itself
                e = b.engine()

                def go(e, st, name=name, d=d, c=c):
                    m = Maker(p, e, st)
                    r = meth(e, m.rule(name), 'resolve', [m.seq(d), m.cat(c)], {}, st)
                    exp = [c] if name == 'UNARY' else d
                    if name == 'CONJUNCTION':
                        exp = [F(c, d[1]), d[1]] if d[0] in ('conj', 'punc') else [d[0], B(c, d[0])]
                    return Tup([Tup(e.items(r, st, None)), m.seq(exp)])
                b.run('resolve', key, rs.where, e, go, cat_eq)
                # infer
                e = b.engine()
                if name == 'UNARY':
                    c = 'q' if lab == 'atoms' else F('q1', 'q2') if 'over' in lab else B('q1', 'q2')

                def go(e, st, d=d, c=c):
                    m = Maker(p, e, st)
                    return e.call(e.getattr(ClsV(R), 'infer_rule', st), [m.seq(d), m.cat(c)], {}, st, None)

                def chk(e, v, st, path, name=name):
                    want = e.getattr(ClsV(R), name, st)
                    if v == want:
                        return True, ''
                    return (False if e.is_member(v) else None), f'infers {show(v)}, expected {name}'
                b.run('infer', key, inf.where, e, go, chk)
            # a conclusion of another shape: the premises follow it
            xs = [v for v in set(metas(cod)) if v in 'XZWV']
            if name in ('CONJUNCTION', 'LEXICAL', 'UNARY', 'FORWARD_TYPE_RAISING', 'BACKWARD_TYPE_RAISING') or not xs:
                continue
            for v in sorted(xs):
                for sh, new in (('atom', 'q'),) + ((('over', F('q1', 'q2')), ('under', B('q1', 'q2')))
                                                   if v != 'X' or 'GENERAL' not in name else ()):
                    sub = {m: m.lower() for m in META}
                    d, c2 = [inst(x, sub) for x in dom], inst(cod, dict(sub, **{v: new}))
                    d2 = [inst(x, dict(sub, **{v: new})) for x in dom]
                    e = b.engine()

                    def go(e, st, name=name, d=d, c=c2, d2=d2):
                        m = Maker(p, e, st)
                        r = meth(e, m.rule(name), 'resolve', [m.seq(d), m.cat(c)], {}, st)
                        return Tup([Tup(e.items(r, st, None)), m.seq(d2)])
                    b.run('resolve', ' '.join(x for x in (name, variant, 'with another', v, sh) if x), rs.where, e, go, cat_eq)
    # every member is handled
    for name, val in ms.items():
        for what in ('apply', 'resolve'):
            fn = R.find_method(what)
            sch = SCHEMAS.get(name, [('', ['X', 'Y'], 'Z')])[0]
            e = b.engine()

            def go(e, st, name=name, what=what, sch=sch):
                m = Maker(p, e, st)
                sub = {v: v.lower() for v in META}
                ok, r = attempt(e, st, lambda: meth(e, m.rule(name), what, [m.seq([inst(x, sub) for x in sch[1]]),
                                                                          m.cat(inst(sch[2], sub))], {}, st))
                if ok:
                    return K('handled')
                return K(show(r.exc))

            def chk(e, v, st, path, name=name, what=what):
                ok = v == K('handled')
                if not ok and 'CCGRuleUseError' in v.v:
                    # documented refusals only
                    ok = name == 'UNKNOWN' or what == 'apply' and name in NO_APPLY
                return ok, v.v
            b.run('members', f'{name} in {what}', fn.where, e, go, chk)
    vals = list(ms.values())
    ck.add('members', 'distinct values', len(set(vals)) == len(vals), R.where,
           'two rules have the same value' if len(set(vals)) != len(vals) else '')


def near(c):
    """Categories that differ from c in one atom or one slash."""
    if isinstance(c, str):
        yield 'q'
        return
    d, r, a = c
    yield ('\\' if d == '/' else '/', r, a)
    for x in near(r):
        yield (d, x, a)
    for x in near(a):
        yield (d, r, x)


def sound(p, b, R, deep):
    """Near misses of the schemas and small categories: whatever is inferred has a diagram."""
    inf = R.find_method('infer_rule')
    atoms = ['a', 'b']
    c1 = atoms + [(d, x, y) for d in '/\\' for x in atoms for y in atoms]
    cases = []
    for name, xs in SCHEMAS.items():
        for variant, dom, cod in xs:
            if len(dom) != 2 or name == 'CONJUNCTION' or 'PUNCT' in name:
                continue
            low = {v: v.lower() for v in META}
            d = [inst(x, low) for x in dom]
            for c in near(inst(cod, low)):
                cases.append((d[0], d[1], c))
            for i in (0, 1):
                for x in near(d[i]):
                    cases.append((x, d[1], inst(cod, low)) if i == 0 else (d[0], x, inst(cod, low)))
    if deep:
        cases += [(l, r, c) for l, r in itertools.product(c1, c1) for c in c1
                  if not (isinstance(l, str) and isinstance(r, str))]
    done = set()
    for left, right, cod in cases:
            if (left, right, cod) in done:
                continue
            done.add((left, right, cod))
            e = b.engine()

            def go(e, st, l=left, r=right, c=cod):
                m = Maker(p, e, st)
                rule = e.call(e.getattr(ClsV(R), 'infer_rule', st), [m.seq([l, r]), m.cat(c)], {}, st, None)
                if rule == m.rule('UNKNOWN'):
                    return Tup([rule])
                dg = meth(e, rule, 'apply', [m.seq([l, r]), m.cat(c)], {}, st)
                d = e.as_dg(dg, st, None)
                return Tup([rule, d.dom, d.cod, m.ty(free(l) + free(r)), m.ty(free(c))])

            def chk(e, v, st, path):
                if len(v.items) == 1:
                    return True, 'unknown'
                rule, d, c, wd, wc = v.items
                return (d == wd and c == wc), f'{show(rule)}: {show(d)} -> {show(c)}, expected {show(wd)} -> {show(wc)}'
            b.run('sound', f'{text(left)} , {text(right)} => {text(cod)}', inf.where, e, go, chk)


def names(p, ck, ms):
    """Bobcat's rule enumeration against the rule set."""
    vals = set(ms.values())
    try:
        Rule = p.cls('bobcat.tree.Rule')
        bp = p.cls('text2diagram.model_based_reader.bobcat_parser.BobcatParser')
        fn = bp.find_method('_build_ccgtree')
    except Exception:
        return
    special = {n.value for n in ast.walk(fn.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    used = {}
    for mod in p.modules.values():
        if '.bobcat' not in '.' + mod.name:
            continue
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'Rule':
                used.setdefault(n.attr, f'{mod.path}:{n.lineno}')
    for n in sorted(used):
        if n not in Rule.attrs:
            if Rule.find_method(n) is None:
                ck.bad('names', f'bobcat {n}', used[n], f'Rule.{n} does not exist')
            continue
        ok = n in vals or n in special
        ck.add('names', f'bobcat {n}', ok, used[n], '' if ok else
               f'bobcat emits rule {n}, which is not a CCGRule value: it would silently become UNKNOWN')


# -- derivation trees --------------------------------------------------------
def rename(c, tag):
    if isinstance(c, str):
        return c + tag if c in META else c
    return (c[0], rename(c[1], tag), rename(c[2], tag))


def is_meta(c):
    return isinstance(c, str) and c[0] in META


def walk(c, s):
    while is_meta(c) and c in s:
        c = s[c]
    return c


def unify(a, b, s):
    a, b = walk(a, s), walk(b, s)
    if a == b:
        return s
    if is_meta(a):
        return None if occurs(a, b, s) else dict(s, **{a: b})
    if is_meta(b):
        return None if occurs(b, a, s) else dict(s, **{b: a})
    if isinstance(a, str) or isinstance(b, str) or a[0] != b[0]:
        return None
    s = unify(a[1], b[1], s)
    return None if s is None else unify(a[2], b[2], s)


def occurs(v, c, s):
    c = walk(c, s)
    return c == v if isinstance(c, str) else occurs(v, c[1], s) or occurs(v, c[2], s)


def close(c, s):
    c = walk(c, s)
    if isinstance(c, str):
        return c.lower().replace("'", '_') if is_meta(c) else c
    return (c[0], close(c[1], s), close(c[2], s))


def derivations(deep):
    leaf = lambda c: ('leaf', c)
    flat = [(n, v, d, c) for n, xs in SCHEMAS.items() if n not in ('LEXICAL', 'UNARY') for v, d, c in xs]
    for n, v, d, c in flat:
        s = {}
        yield f'{n} {v}'.strip(), (n, close(c, s), [leaf(close(x, s)) for x in d])
    one = [x for x in flat if x[1] in ('', '2', 'conj', 'mixed')]
    for n, v, d, c in one:
        for n2, v2, d2, c2 in one:
            if 'PUNCT' in n2 and 'PUNCT' in n:
                continue
            d2, c2 = [rename(x, "'") for x in d2], rename(c2, "'")
            for i in range(len(d)):
                if d[i] in ('conj', 'punc'):
                    continue
                s = unify(d[i], c2, {})
                if s is None:
                    continue
                if not deep and not ('RAISING' in n2 or 'APPLICATION' in n2):
                    continue
                sub = (n2, close(c2, s), [leaf(close(x, s)) for x in d2])
                yield (f'{n} {v} over {n2} {v2} as premise {i + 1}',
                       (n, close(c, s), [sub if j == i else leaf(close(x, s)) for j, x in enumerate(d)]))


def trees(p, b, deep):
    TC = p.cls('text2diagram.ccg_tree.CCGTree')
    fn = TC.find_method('to_diagram')
    W, SW = p.cls('backend.grammar.Word'), p.cls('backend.grammar.Swap')
    for lab, t in derivations(deep):
        for planar in (False, True):
            e = b.engine('grammar', tyv=False, dg=False)
            leaves_ = []

            def go(e, st, t=t, planar=planar, leaves_=leaves_):
                m = Maker(p, e, st)
                del leaves_[:]
                tr = m.tree(t, leaves_)
                dg = meth(e, tr, 'to_diagram', [], {'planar': K(planar)}, st)
                return Tup([dg, m.ty([]), m.ty(free(t[1]))])

            def chk(e, v, st, path, planar=planar, leaves_=leaves_):
                dg, wd, wc = v.items
                for a, w in (('dom', wd), ('cod', wc)):
                    ok, msg = same(e, e.getattr(dg, a, st), w, st, a)
                    if ok is not True:
                        return ok, msg
                words = []
                for x in e.items(e.getattr(dg, 'boxes', st), st, None):
                    o = e.obj(st, e.res(x, st))
                    if o.cls.is_sub(W):
                        words.append(e.res(e.getattr(x, 'name', st), st))
                    elif planar and o.cls.is_sub(SW):
                        return False, 'a planar diagram contains a swap'
                if not all(isinstance(w, K) for w in words):
                    return None, 'word names'
                want = [f'w{i + 1}' for i, c in enumerate(leaves_) if c != 'punc']
                got = [w.v for w in words]
                if (sorted(got) if planar else got) != (sorted(want) if planar else want):
                    # a conjunction may be written with a comma
                    alt = [f'w{i + 1}' for i, c in enumerate(leaves_)]
                    if (sorted(got) if planar else got) != (sorted(alt) if planar else alt):
                        return False, f'words {got}, expected {want}'
                return True, ''
            b.run('tree', f'{lab}{" (planar)" if planar else ""}', fn.where, e, go, chk)
