"""C23: Bobcat's chart combines constituents by the rules of CCG, and keeps the best."""
import re
import ast
from ..absint import Raised, Store, Unsupported
from ..engine import Engine
from ..harness import *

TITLE = "Bobcat builds only derivations of CCG and its chart keeps the best of them"
LEX, TREE, RULES, PARSER = 'bobcat.lexicon', 'bobcat.tree', 'bobcat.rules', 'bobcat.parser'
VARS = '+_YZWVUTRQAB'


# -- categories, as plain data -------------------------------------------------
class C:
    """An atom with a feature, or result/dir/argument; var and slot as annotated."""

    def __init__(self, atom='', feat='', res=None, dir='', arg=None, var=0, slot=0):
        self.atom, self.feat, self.res, self.dir, self.arg, self.var, self.slot = atom, feat, res, dir, arg, var, slot

    def __str__(self):
        if self.dir:
            a, b = (f'({x})' if x.dir else str(x) for x in (self.res, self.arg))
            return f'{a}{self.dir}{b}'
        return self.atom + (f'[{self.feat}]' if self.feat else '')


def cat(s):
    pos = 0

    def marks(c):
        nonlocal pos
        m = re.compile(r'(\{(.)\*?\})?(<(\d+)>)?').match(s, pos)
        pos = m.end()
        if m[2]:
            c.var = VARS.index(m[2])
        c.slot = int(m[4] or 0)
        return c

    def one():
        nonlocal pos
        if s[pos] == '(':
            pos += 1
            c = many()
            assert s[pos] == ')', s
            pos += 1
            return marks(c)
        m = re.compile(r'([A-Z]+|conj|[,.;:])(\[(\w+)\])?').match(s, pos)
        assert m, (s, pos)
        pos = m.end()
        return marks(C(m[1], m[3] or ''))

    def many():
        nonlocal pos
        a = one()
        if pos < len(s) and s[pos] in '/\\':
            d = s[pos]
            pos += 1
            return C(res=a, dir=d, arg=one())
        return a
    c = many()
    assert pos == len(s), s
    return c


def slash(a, d, b):
    return C(res=a, dir=d, arg=b)


class Bad(Exception):
    pass


def unify(a, b, got):
    """Equal up to features X, which take the feature that they meet."""
    if bool(a.dir) != bool(b.dir) or a.dir != b.dir:
        raise Bad
    if a.dir:
        unify(a.res, b.res, got)
        unify(a.arg, b.arg, got)
        return
    if a.atom != b.atom:
        raise Bad
    if a.atom == 'S' and a.feat != b.feat:
        if a.feat == 'X':
            got.append(b.feat)
        elif b.feat == 'X':
            got.append(a.feat)
        else:
            raise Bad


def put(c, feat):
    if c.dir:
        return slash(put(c.res, feat), c.dir, put(c.arg, feat))
    return C(c.atom, feat if c.feat == 'X' and feat else c.feat)


def steps(l, r, rule):
    """The categories that the rule may make of l and r."""
    def by(x, y, made):
        got = []
        unify(x, y, got)
        f = {g for g in got if g != 'X'}
        return str(put(made, f.pop() if len(f) == 1 else ''))

    def comp(fun, arg):
        """X|Y and (..(Y|Z1)..|Zn) give ..(X|Z1)..|Zn."""
        out, zs, y = [], [], arg
        while y.dir:
            zs.insert(0, (y.dir, y.arg))
            y = y.res
            made = fun.res
            for d, z in zs:
                made = slash(made, d, z)
            try:
                out.append((by(y, fun.arg, made), [d for d, _ in zs]))
            except Bad:
                pass
        return out
    try:
        if rule == 'FA':
            return [by(l.arg, r, l.res)] if l.dir == '/' else []
        if rule == 'BA':
            return [by(r.arg, l, r.res)] if r.dir == '\\' else []
    except Bad:
        return []
    if rule in ('FC', 'GFC'):
        return [s for s, d in comp(l, r) if (len(d) == 1) == (rule == 'FC') and set(d) <= {'/'}] if l.dir == '/' else []
    if rule == 'BC':
        return [s for s, d in comp(r, l) if d == ['\\']] if r.dir == '\\' else []
    if rule in ('BX', 'GBX'):
        return [s for s, d in comp(r, l) if (len(d) == 1) == (rule == 'BX') and set(d) <= {'/'}] if r.dir == '\\' else []
    if rule == 'CONJ':
        return [str(slash(r, '\\', r))] if l.atom in ('conj', ',', ';') else []
    if rule == 'ADJ_CONJ':
        return [str(r)] if l.atom == 'conj' and r.atom == 'N' else []
    if rule == 'LP':
        return [str(r)] if l.atom in PUNCT else []
    if rule == 'RP':
        return [str(l)] if r.atom in PUNCT else []
    return []


PUNCT = (',', ';', ':', '.', 'LQU', 'RQU', 'LRB', 'RRB')


# -- the engine ------------------------------------------------------------------
def strings(e):
    try:
        v = ast.literal_eval(e)
    except (ValueError, TypeError):
        return None
    return list(v) if isinstance(v, (list, tuple)) else None


class Eng23(Engine):
    """Knows the members of FastIntEnum: `names` and `values` of the class body."""

    def members(self, c):
        if not any(k.name == 'FastIntEnum' for k in c.mro()) or 'values' not in c.attrs:
            return {}
        vs = strings(c.attrs['values']) or []
        ns = strings(c.attrs['names']) if 'names' in c.attrs else []
        ns = (ns or [])[:len(vs)]
        return {n: (i, v) for i, (n, v) in enumerate(zip(ns + [v.upper() for v in vs[len(ns):]], vs))}

    def call_ext(self, name, args, kw, st, node):
        """Regular expressions of constants; the logarithm of a weight."""
        r = lambda x: self.res(x, st)
        if name == 're.compile':
            flags = 0
            for x in list(args[1:]) + list(kw.values()):
                x = r(x)
                if not (isinstance(x, ExtV) and x.name.startswith('re.') and isinstance(getattr(re, x.name[3:], None), re.RegexFlag)):
                    raise Unsupported('flags of a regular expression')
                flags |= getattr(re, x.name[3:])
            x = r(args[0])
            if isinstance(x, K) and isinstance(x.v, str):
                return K(re.compile(x.v, flags))
        if name.startswith('c23.re.'):
            vs = [const_of(r(x)) for x in args]
            k = {a: const_of(r(x)) for a, x in kw.items()}
            v = getattr(vs[0], name[7:])(*vs[1:], **k)
            return I(v) if isinstance(v, int) and not isinstance(v, bool) else K(v)
        if name in ('re.match', 're.fullmatch', 're.search'):
            vs = [const_of(r(x)) for x in args]
            return K(getattr(re, name[3:])(*vs))
        if name == 'math.log' and len(args) == 1:
            x = r(args[0])
            x = x.const if isinstance(x, Lin) else x.v if isinstance(x, K) else None
            if x in LOGS:
                return I(LOGS[x])
        return super().call_ext(name, args, kw, st, node)

    def getitem(self, v, i, st, node):
        w = self.res(v, st)
        if isinstance(w, K) and isinstance(w.v, re.Match):
            x = const_of(self.res(i, st))
            try:
                return K(w.v[x])
            except IndexError:
                raise Raised(App('exc', K('IndexError'), K('no such group')), self.where(node))
        return super().getitem(v, i, st, node)

    def cls_attr(self, v, name, st, node):
        if name in self.members(v.cls):
            return self.enum_member(v.cls, name)
        return super().cls_attr(v, name, st, node)

    def getattr(self, v, name, st, node):
        w = self.res(v, st)
        if isinstance(w, K) and isinstance(w.v, (re.Pattern, re.Match)):
            x = getattr(w.v, name, None)
            return PartialV(ExtV('c23.re.' + name), [w], {}) if callable(x) else K(x)
        if self.is_member(w) and w.typ[0] == 'cls' and w.typ[1].find_attr(name) is None and self.members(w.typ[1]):
            return self.member_attr(w, name, st)
        return super().getattr(v, name, st, node)

    def member_attr(self, w, name, st):
        """`for atom in Atom…: atom.name = <comparison of atom with members>`"""
        c = w.typ[1]
        ms = self.members(c)
        for n in ast.walk(c.module.tree):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == name \
                    and isinstance(n.targets[0].value, ast.Name):
                var = n.targets[0].value.id

                def ev(x):
                    if isinstance(x, ast.Name) and x.id == var:
                        return ms[w.path[2]][0]
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == c.name:
                        return ms[x.attr][0]
                    if isinstance(x, ast.Compare):
                        vs = [ev(y) for y in [x.left, *x.comparators]]
                        f = {ast.Gt: int.__gt__, ast.GtE: int.__ge__, ast.Lt: int.__lt__, ast.LtE: int.__le__, ast.Eq: int.__eq__, ast.NotEq: int.__ne__}
                        if any(type(o) not in f for o in x.ops):
                            if len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)):
                                return (vs[0] in vs[1]) == isinstance(x.ops[0], ast.In)
                            raise Unsupported('attribute of a member')
                        return all(f[type(o)](a, b) for o, a, b in zip(x.ops, vs, vs[1:]))
                    if isinstance(x, (ast.Tuple, ast.List, ast.Set)):
                        return [ev(y) for y in x.elts]
                    if isinstance(x, ast.BoolOp):
                        return (all if isinstance(x.op, ast.And) else any)([ev(y) for y in x.values])
                    if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
                        return not ev(x.operand)
                    raise Unsupported('attribute of a member')
                return K(bool(ev(n.value)))
        raise Unsupported(f'attribute {name} of a member')


LOGS = {1: 0, 10: -10, 20: -20}


def const_of(v):
    if isinstance(v, K):
        return v.v
    if isinstance(v, Lin) and v.const is not None:
        return v.const
    raise Unsupported(f'unknown value {show(v)}')


def number(e, st, v, seen=None):
    """A number for hash(v): equal for equal values."""
    v = e.res(v, st)
    if isinstance(v, Tup):
        return hash(tuple(number(e, st, x) for x in v.items))
    if isinstance(v, Ref):
        o = e.obj(st, v)
        if isinstance(o, InstO) and o.cls.find_method('__hash__'):
            return number(e, st, meth(e, v, '__hash__', [], {}, st))
    if isinstance(v, K):
        return hash(repr(v.v))
    if isinstance(v, Lin) and v.const is not None:
        return hash(repr(v.const))
    if e.is_member(v):
        return hash(v.path)
    raise Unsupported(f'hash of {show(v)}')


def eng(b):
    e = Eng23(b.p, category='grammar', tyv=False, dg=False)
    e.MAXSTEPS = 400000
    e.repr_on = True
    e.intrinsics['builtin:hash'] = lambda e, st, args, kw, node: K(number(e, st, args[0]))
    return e


class M:
    """Makes and reads values of the code under analysis."""

    def __init__(self, b, e, st, real=False):
        self.p, self.e, self.st = b.p, e, st
        for q in ('Atom', 'Feature'):
            e.intrinsics['new:' + b.p.cls(f'{LEX}.{q}').qual] = self.enum_new(q)
        if real:
            return
        cat_ = b.p.cls(LEX + '.Category')
        parse = cat_.find_method('parse')
        if parse is not None:
            e.intrinsics[parse.qual] = lambda e, st, args, kw, node: self.parsed(args, kw, st)

    def enum_new(self, q):
        def new(e, *args):
            x = next((y for a in args if isinstance(a, list) for y in a), None)
            st = next(a for a in args if isinstance(a, Store))
            v = const_of(e.res(x, st))
            c = self.p.cls(f'{LEX}.{q}')
            for n, (i, t) in e.members(c).items():
                if t == v:
                    return e.enum_member(c, n)
            raise Raised(App('exc', K('KeyError'), K(v)), 'lambeq/bobcat/fast_int_enum.py')
        return new

    def parsed(self, args, kw, st):
        s = self.e.res(args[0], st)
        if not isinstance(s, K):
            raise Unsupported('a category that is not a constant')
        v = self.e.res(args[1], st) if len(args) > 1 else K('+')
        old, self.st = self.st, st
        try:
            return self.cat(cat(s.v), tr=VARS.index(v.v))
        finally:
            self.st = old

    def call(self, f, *args, **kw):
        return self.e.call(f, list(args), kw, self.st, None)

    def cls(self, q):
        return ClsV(self.p.cls(q))

    def member(self, q, value):
        c = self.p.cls(q)
        for n, (i, v) in self.e.members(c).items():
            if v == value:
                return self.e.enum_member(c, n)
        raise Unsupported(f'no {value!r} in {q}')

    def cat(self, c, tr=0):
        c = cat(c) if isinstance(c, str) else c
        rel = self.call(self.cls(LEX + '.Relation'), K(str(c)), I(c.slot)) if c.slot else K(None)
        if not c.dir:
            return self.call(self.cls(LEX + '.Category'), self.member(LEX + '.Atom', c.atom), self.member(LEX + '.Feature', c.feat), I(c.var), rel)
        return meth(self.e, self.cat(c.res), 'slash', [K(c.dir), self.cat(c.arg), I(c.var), rel, I(tr)], {}, self.st)

    def name(self, v):
        """str of a category in the store."""
        e, st = self.e, self.st
        d = e.res(e.getattr(v, 'dir', st, None), st)
        if not isinstance(d, K):
            raise Unsupported('category of unknown form')
        if d.v in '/\\':
            return str(slash(cat(self.name(e.getattr(v, 'result', st, None))), d.v, cat(self.name(e.getattr(v, 'argument', st, None)))))
        out = []
        for a in ('atom', 'feature'):
            m = e.res(e.getattr(v, a, st, None), st)
            if not e.is_member(m):
                raise Unsupported(f'category with {a} {show(m)}')
            out.append(e.members(m.typ[1])[m.path[2]][1])
        return out[0] + (f'[{out[1]}]' if out[1] else '')

    def leaf(self, c, word='w', i=1, rule=None):
        t = self.call(FnV(self.p.func(TREE + '.Lexical')), self.cat(c), K(word), I(i))
        if rule:
            e, o = self.e, self.e.obj(self.st, t)
            e.setobj(self.st, t, o.set('rule', e.enum_member(self.p.cls(TREE + '.Rule'), rule)))
        return t

    def made(self, key, word, i, rule):
        """A leaf, or a noun phrase that was raised, as if made by the rule."""
        if key not in ('tr', 'trb'):
            return self.leaf(A[key], word, i, rule)
        t = self.call(FnV(self.p.func(TREE + '.TypeRaising')), self.cat(A[key]), self.leaf(A['np'], word, i))
        o = self.e.obj(self.st, t)
        if rule not in ('FTR', 'BTR'):
            self.e.setobj(self.st, t, o.set('rule', self.e.enum_member(self.p.cls(TREE + '.Rule'), rule)))
        return t

    def rules(self, eisner, grammar=None, pairs=True):
        """A Rules object: every pair of categories may combine (or those given)."""
        e, st = self.e, self.st
        e_, g = self.e, grammar or {}
        lst = lambda rows: e.new(st, ListO([Tup([x if isinstance(x, V) else I(x) if isinstance(x, int) and not isinstance(x, bool) else K(x) for x in r]) for r in rows]))
        gr = self.call(self.cls('bobcat.grammar.Grammar'), e.new(st, DictO({K(k): K(v) for k, v in g.get('cats', {}).items()})), lst(g.get('binary', [])),
                       lst(g.get('change', [])), lst(g.get('raise', [])))
        marked = e.new(st, DictO({K(k): self.cat(v) for k, v in g.get('cats', {}).items()}))
        return self.call(self.cls(RULES + '.Rules'), K(eisner), gr, marked)

    def items(self, v):
        return [self.e.res(x, self.st) for x in self.e.items(v, self.st, None)]

    def at(self, v, *names):
        for n in names:
            v = self.e.res(self.e.getattr(v, n, self.st, None), self.st)
        return v

    def rule(self, t):
        r = self.at(t, 'rule')
        if not self.e.is_member(r):
            raise Unsupported(f'rule {show(r)}')
        return r.path[2]


def deps(m, v):
    """(head, relation slot, filler) of a list of dependencies."""
    out = []
    for d in m.items(v):
        f = m.at(d, 'filler')
        out.append((m.at(d, 'head', 'word').v, const(m, m.at(d, 'relation', 'slot')), f.v if isinstance(f, K) else m.at(f, 'word').v))
    return sorted(out, key=str)


def const(m, v):
    v = m.e.res(v, m.st)
    return v.const if isinstance(v, Lin) else v.v


# -- combinations ------------------------------------------------------------------
A = {
    'n': 'N{_}', 'np': 'NP{_}', 'pp': 'PP{_}', 's': 'S[dcl]{_}', 'conj': 'conj{_}', ',': ',{_}', '.': '.{_}', ';': ';{_}', ':': ':{_}',
    'adj': '(N{Y}/N{Y}<1>){_}', 'det': '(NP{Y}/N{Y}<1>){_}', 'iv': r'(S[dcl]{_}\NP{Y}<1>){_}',
    'tv': r'((S[dcl]{_}\NP{Y}<1>){_}/NP{Z}<2>){_}', 'dtv': r'(((S[dcl]{_}\NP{Y}<1>){_}/NP{Z}<2>){_}/NP{W}<3>){_}',
    'ptv': r'((S[dcl]{_}\NP{Y}<1>){_}/PP{Z}<2>){_}', 'aux': r'((S[dcl]{_}\NP{Y}<1>){_}/(S[b]{Z}\NP{Y}){Z}<2>){_}',
    'ivb': r'(S[b]{_}\NP{Y}<1>){_}', 'tvb': r'((S[b]{_}\NP{Y}<1>){_}/NP{Z}<2>){_}', 'dtvb': r'(((S[b]{_}\NP{Y}<1>){_}/NP{Z}<2>){_}/NP{W}<3>){_}',
    'qtvb': r'((((S[b]{_}\NP{Y}<1>){_}/NP{Z}<2>){_}/NP{W}<3>){_}/PP{V}<4>){_}',
    'adv': r'((S[X]{Y}\NP{Z}){Y}\(S[X]{Y}\NP{Z}){Y}<1>){_}', 'adv2': r'((S[X]{Y}\NP{Z}){Y}/(S[X]{Y}\NP{Z}){Y}<1>){_}',
    'sadv': '(S[X]{Y}/S[X]{Y}<1>){_}', 'sadvb': r'(S[X]{Y}\S[X]{Y}<1>){_}', 'prep': r'((NP{Y}\NP{Y}<1>){_}/NP{Z}<2>){_}', 'pmod': r'(NP{Y}\NP{Y}<1>){_}',
    'vprep': r'(((S[X]{Y}\NP{Z}){Y}\(S[X]{Y}\NP{Z}){Y}<1>){_}/NP{W}<2>){_}', 'tr': r'(S[X]{Y}/(S[X]{Y}\NP{_}){Y}){Y}', 'trb': r'(S[X]{Y}\(S[X]{Y}/NP{_}){Y}){Y}',
    'rel': r'((NP{Y}\NP{Y}<1>){_}/(S[dcl]{Z}\NP{Y}){Z}<2>){_}', 'relo': r'((NP{Y}\NP{Y}<1>){_}/(S[dcl]{Z}/NP{Y}){Z}<2>){_}',
    'scomp': r'((S[dcl]{_}\NP{Y}<1>){_}/S[em]{Z}<2>){_}', 'that': '(S[em]{_}/S[dcl]{Y}<1>){_}', 'sn': '(S[dcl]{_}/NP{Y}<1>){_}', 'says': r'(S[dcl]{_}\S[dcl]{Y}<1>){_}',
    'open': r'((S[X]{Y}/(S[X]{Y}\NP{Z}){Y}<2>){_}/S[X]{Y}<1>){_}', 'openb': r'((S[X]{Y}/(S[X]{Y}\NP{Z}){Y}<2>){_}\S[X]{Y}<1>){_}', 's0': 'S{_}', 'iv0': r'(S{_}\NP{Y}<1>){_}',
    'ssq': '(S[q]{_}/S[dcl]{Y}<1>){_}', 'nn': r'(N{Y}\N{Y}<1>){_}', 'npn': '(NP{_}/N{Y}<1>){_}',
}
RULE_OF = ['L', 'FC', 'BC', 'CONJ', 'FTR', 'BTR', 'GFC', 'GBC']


def expected(l, r, lr, rr, eisner):
    """Rules that must apply and rules that may: by CCG, with the usual restrictions of the parser."""
    must, may = [], []
    raised = ('CONJ', 'BTR', 'FTR')
    std = lambda c: bool(c.dir) or c.atom in ('N', 'NP', 'S', 'PP')
    fa = steps(l, r, 'FA')
    ba = steps(l, r, 'BA')
    no_fa = rr in raised or eisner and lr in ('FC', 'GFC')
    no_ba = lr in raised or eisner and rr in ('BC', 'GBC')
    return fa, ba, no_fa, no_ba, std


def judge(l, r, lr, rr, eisner, got):
    """What is wrong with the results [(rule, category)], or None."""
    fa, ba, no_fa, no_ba, std = expected(l, r, lr, rr, eisner)
    show_ = f'{l} ({lr}) and {r} ({rr})'
    for rule, c in got:
        if rule == 'GBC':
            continue
        ok = steps(l, r, rule)
        if c not in ok:
            return f'{show_} give {c} by {rule}, which allows {ok or "nothing"}'
        if rule == 'FA' and no_fa:
            return f'{show_}: forward application to what was coordinated or type-raised, or of a composition in normal form'
        if rule == 'BA' and no_ba:
            return f'{show_}: backward application to what was coordinated or type-raised, or of a composition in normal form'
        if rule in ('FC', 'GFC') and eisner and lr in ('FC', 'GFC') or rule in ('BC',) and eisner and rr in ('BC', 'GBC'):
            return f'{show_}: {rule} of a composition, which has another derivation in normal form'
        if rule in ('BC', 'BX', 'GBX') and rr == 'CONJ' or rule == 'BC' and lr == 'CONJ':
            return f'{show_}: {rule} with a coordination that is not complete'
        if rule in ('CONJ', 'LP') and rr in raised_ or rule == 'RP' and lr in raised_:
            return f'{show_}: {rule} of what was coordinated or type-raised'
        if rule == 'BX' and l.arg.atom in ('N', 'NP') and False:
            return None
    rules = [a for a, _ in got]
    if len(set(got)) != len(got):
        return f'{show_} give a result twice: {got}'
    if std(l) and std(r) and not l.dir == r.dir == '':
        if fa and not no_fa and not (ba and not no_ba) and 'FA' not in rules:
            return f'{show_} are not combined by forward application: {got}'
        if ba and not no_ba and not (fa and not no_fa) and 'BA' not in rules:
            return f'{show_} are not combined by backward application: {got}'
        if fa and ba and not no_fa and not no_ba and not rules:
            return f'{show_} are not combined'
        if not fa and not ba:
            if steps(l, r, 'FC') and not (eisner and lr in ('FC', 'GFC')) and 'FC' not in rules:
                return f'{show_} are not composed: {got}'
            if steps(l, r, 'BC') and not (eisner and rr in ('BC', 'GBC')) and lr != 'CONJ' and rr != 'CONJ' and 'BC' not in rules:
                return f'{show_} are not composed: {got}'
    if l.atom == 'conj' and std(r) and rr not in raised_ and not (r.dir == '\\' and steps(l, r, 'BA')) and 'CONJ' not in rules:
        return f'{show_} are not coordinated'
    if l.atom in PUNCT and std(r) and rr not in raised_ and 'LP' not in rules:
        return f'{show_}: the mark on the left is not absorbed'
    if l.atom in (',', ';') and std(r) and rr not in raised_ and 'CONJ' not in rules:
        return f'{show_} are not coordinated'
    if r.atom in PUNCT and std(l) and lr not in raised_ and 'RP' not in rules:
        return f'{show_}: the mark on the right is not absorbed'
    return None


raised_ = ('CONJ', 'BTR', 'FTR')


def combine(b, ck, deep):
    where = 'lambeq/bobcat/rules.py'
    names = list(A)
    jobs = [(x, y, 'L', 'L', True) for x in names for y in names]
    some = ['np', 'n', 'iv', 'tv', 'adv', 'adv2', 'adj', 'sadv', 'sadvb', 'says', 'tr', 'trb', 'conj', ',', 'relo', 'sn', 'prep', 'pmod', 'aux', 'tvb', 'that']
    for x in some:
        for y in some:
            l, r = cat(A[x]), cat(A[y])
            if not any(steps(l, r, k) for k in ('FA', 'BA', 'FC', 'BC', 'BX', 'CONJ', 'LP', 'RP')):
                continue
            for k in RULE_OF[1:]:
                jobs += [(x, y, k, 'L', True), (x, y, 'L', k, True), (x, y, k, 'L', False), (x, y, 'L', k, False)]
    groups = {}
    for j in jobs:
        groups.setdefault((j[0], j[2], j[4]), []).append(j)
    for (x, lr, eis), js in groups.items():
        for _, y, _, rr, _ in js:
            e = eng(b)
            box = {}

            def fn(e, st, y=y, rr=rr):
                m = box['m'] = M(b, e, st)
                l, r = m.made(x, 'left', 1, lr), m.made(y, 'right', 2, rr)
                rules = m.rules(eis, {'binary': [(str(cat(A[x])), str(cat(A[y])))]})
                return Tup([l, r, meth(e, rules, 'combine', [l, r], {}, st)])

            def chk(e, v, st, path, y=y, rr=rr):
                m = box['m']
                m.st = st
                l, r, out = v.items
                got = []
                for t in m.items(out):
                    if m.at(t, 'left') != e.res(l, st) or m.at(t, 'right') != e.res(r, st):
                        return False, f'{A[x]} and {A[y]}: the parts of the result are not the two constituents in their order'
                    got.append((m.rule(t), m.name(m.at(t, 'cat'))))
                msg = judge(cat(A[x]), cat(A[y]), lr, rr, eis, got)
                return msg is None, msg or str(got)
            b.run('combine', f'{x}({lr}) {y}({rr}){"" if eis else " any form"}', where, e, fn, chk)


# -- dependencies of derivations ------------------------------------------------------
def D(tree, want, *more):
    return tree, sorted(want), more


# (word, category) | ('raise', category, tree) | (rule, left, right)
W = lambda w, c: ('word', w, c)
DERIV = {
    'adjective': (('FA', W('big', 'adj'), W('dog', 'n')), 'big1dog'),
    'determiner': (('FA', W('the', 'det'), ('FA', W('big', 'adj'), W('dog', 'n'))), 'the1dog big1dog'),
    'transitive': (('BA', W('she', 'np'), ('FA', W('likes', 'tv'), W('him', 'np'))), 'likes1she likes2him'),
    'ditransitive': (('BA', W('she', 'np'), ('FA', ('FA', W('gives', 'dtv'), W('him', 'np')), W('it', 'np'))), 'gives1she gives3him gives2it'),
    'raised subject': (('FA', ('FC', ('raise', 'tr', W('she', 'np')), W('likes', 'tv')), W('him', 'np')), 'likes1she likes2him'),
    'raised subject, two objects': (('FA', ('FA', ('GFC', ('raise', 'tr', W('she', 'np')), W('gives', 'dtv')), W('him', 'np')), W('it', 'np')), 'gives1she gives3him gives2it'),
    'auxiliary': (('BA', W('she', 'np'), ('FA', W('can', 'aux'), ('FA', W('like', 'tvb'), W('him', 'np')))), 'can1she can2like like1she like2him'),
    'auxiliary, composed': (('BA', W('she', 'np'), ('FA', ('FC', W('can', 'aux'), W('like', 'tvb')), W('him', 'np'))), 'can1she can2like like1she like2him'),
    'subject relative': (('BA', W('man', 'np'), ('FA', W('who', 'rel'), ('FA', W('likes', 'tv'), W('him', 'np')))), 'who1man who2likes likes1man likes2him'),
    'object relative': (('BA', W('man', 'np'), ('FA', W('whom', 'relo'), ('FC', ('raise', 'tr', W('she', 'np')), W('likes', 'tv')))), 'whom1man whom2likes likes1she likes2man'),
    'adverb': (('BA', W('she', 'np'), ('BA', ('FA', W('likes', 'tv'), W('him', 'np')), W('much', 'adv'))), 'much1likes likes1she likes2him'),
    'adverb before': (('BA', W('she', 'np'), ('FA', W('really', 'adv2'), ('FA', W('likes', 'tv'), W('him', 'np')))), 'really1likes likes1she likes2him'),
    'preposition': (('BA', W('man', 'np'), ('FA', W('in', 'prep'), W('park', 'np'))), 'in1man in2park'),
    'preposition at a verb': (('BA', W('she', 'np'), ('BA', W('sleeps', 'iv'), ('FA', W('in', 'vprep'), W('park', 'np')))), 'in1sleeps in2park sleeps1she'),
    'complement': (('BA', W('she', 'np'), ('FA', W('says', 'scomp'), ('FA', W('that', 'that'), ('BA', W('he', 'np'), W('sleeps', 'iv'))))), 'says1she says2that that1sleeps sleeps1he'),
    'coordinated subjects': (('BA', ('BA', W('she', 'np'), ('CONJ', W('and', 'conj'), W('he', 'np'))), W('sleep', 'iv')), 'sleep1she sleep1he'),
    'coordinated verbs': (('BA', W('she', 'np'), ('BA', W('sleeps', 'iv'), ('CONJ', W('and', 'conj'), W('runs', 'iv')))), 'sleeps1she runs1she'),
    'coordinated transitive verbs': (('BA', W('she', 'np'), ('FA', ('BA', W('likes', 'tv'), ('CONJ', W('and', 'conj'), W('sees', 'tv'))), W('him', 'np'))), 'likes1she likes2him sees1she sees2him'),
    'marks': (('RP', ('BA', W('she', 'np'), ('LP', W(',', ','), W('sleeps', 'iv'))), W('.', '.')), 'sleeps1she'),
    'adverbs of adverbs': (('BA', W('she', 'np'), ('FA', ('FC', W('really', 'adv2'), W('likes', 'tv')), W('him', 'np'))), 'really1likes likes1she likes2him'),
    'crossed': (('FA', ('BX', W('likes', 'tv'), W('much', 'adv')), W('him', 'np')), 'much1likes likes2him'),
    'object relative, auxiliary': (('BA', W('man', 'np'), ('FA', W('whom', 'relo'), ('FC', ('raise', 'tr', W('she', 'np')), ('FC', W('can', 'aux'), W('like', 'tvb'))))), 'whom1man whom2can can1she can2like like1she like2man'),
    'auxiliary, two objects, adverb': (('BA', W('she', 'np'), ('BA', ('FA', ('FA', ('GFC', W('can', 'aux'), W('give', 'dtvb')), W('him', 'np')), W('it', 'np')), W('soon', 'adv'))), 'can1she can2give give1she give2it give3him soon1can'),
    'auxiliary, three objects, adverb': (('BA', W('she', 'np'), ('BA', ('FA', ('FA', ('FA', ('GFC', W('can', 'aux'), W('give', 'qtvb')), W('to', 'pp')), W('him', 'np')), W('it', 'np')), W('soon', 'adv'))), 'can1she can2give give1she give2it give3him give4to soon1can'),
    'raised, three objects': (('FA', ('FA', ('FA', ('GFC', ('raise', 'tr', W('she', 'np')), W('give', 'qtvb')), W('to', 'pp')), W('him', 'np')), W('it', 'np')), 'give1she give2it give3him give4to'),
    'backward composed': (('BA', W('he', 'np'), ('BC', W('sleeps', 'iv'), W('today', 'sadvb'))), 'today1sleeps sleeps1he'),
}


def show_tree(t):
    return t[1] if t[0] == 'word' else f'{t[0]}({", ".join(show_tree(x) for x in t[1:] if isinstance(x, tuple))})'


def derivations(b, ck, deep):
    for name, (tree, want) in DERIV.items():
        want = sorted((x, int(n), y) for x, n, y in (re.fullmatch(r'(\w+)(\d)(\w+)', w).groups() for w in want.split()))
        e = eng(b)
        box = {}

        def fn(e, st):
            m = box['m'] = M(b, e, st)
            seen, k = [], [0]

            def go(t):
                if t[0] == 'word':
                    k[0] += 1
                    return m.leaf(A[t[2]], t[1], k[0])
                if t[0] == 'raise':
                    return m.call(FnV(b.p.func(TREE + '.TypeRaising')), m.cat(A[t[1]]), go(t[2]))
                l, r = go(t[1]), go(t[2])
                rules = m.rules(False, {'binary': [(m.name(m.at(l, 'cat')), m.name(m.at(r, 'cat')))]})
                for x in m.items(meth(e, rules, 'combine', [l, r], {}, st)):
                    if m.rule(x) == t[0]:
                        seen.append(m.at(x, 'filled_deps'))
                        return x
                raise Raised(App('exc', K(f'no step {t[0]} for {show_tree(t)}')), 'lambeq/bobcat/rules.py')
            top = go(tree)
            return Tup([top, Tup(seen)])

        def chk(e, v, st, path):
            m = box['m']
            m.st = st
            got = sorted(x for d in v.items[1].items for x in deps(m, d))
            got = [g for g in got if g[2] is not None]
            got_ = sorted(g for g in got if g[0] not in ('and',))
            if got_ != want:
                return False, f'the sentence has the dependencies {got_}, expected {want}'
            return True, ''
        b.run('dependencies', name, 'lambeq/bobcat/tree.py', e, fn, chk)


# -- cells of the chart ------------------------------------------------------------------
def plan(n, seed):
    """Sequences of additions, by a fixed generator."""
    x = seed
    for _ in range(n):
        adds = []
        x = (x * 1103515245 + 12345) % 2**31
        for _ in range(1 + (x >> 9) % 3):
            row = []
            x = (x * 1103515245 + 12345) % 2**31
            for _ in range(1 + (x >> 11) % 4):
                x = (x * 1103515245 + 12345) % 2**31
                row.append(('ABCDE'[(x >> 7) % 5], -1 - (x >> 13) % 5))
            adds.append(row)
        yield 1 + (x >> 17) % 3, adds


def cells(b, ck, deep):
    C_, T_ = b.p.cls(PARSER + '.Cell'), b.p.cls(TREE + '.ParseTree')
    cats = dict(A='np', B='n', C='s', D='iv', E='tv')
    ties = [(10, [[(x, -3)] for x in order] + [[(c, -1)]]) for order in ('ABCD', 'DCBA', 'BADC', 'CADB', 'EDCBA', 'BDACE') for c in order]
    ties += [(3, [[(x, -3) for x in 'ABCDE'], [('C', -2)], [('E', -1), ('A', -2)]]), (4, [[(x, -2) for x in 'EDCBA'], [('B', -1), ('D', -1)]])]
    for beam, adds in [*plan(400 if deep else 120, 7), *ties]:
        e = eng(b)
        box = {}

        def fn(e, st):
            m = box['m'] = M(b, e, st)
            cell = m.call(ClsV(C_), I(beam))
            made = {}
            for row in adds:
                ts = []
                for c, sc in row:
                    t = m.leaf(A[cats[c]], f'{c}{sc}', len(made) + 1)
                    e.setobj(st, t, e.obj(st, t).set('score', I(sc)))
                    made[t] = (c, sc)
                    ts.append(t)
                meth(e, cell, 'add', [e.new(st, ListO(ts))], {}, st)
            box['made'] = made
            more = []
            for a in ('trees_map', 'min_score'):
                ok, x = attempt(e, st, lambda: m.at(cell, a))
                more.append(x if ok else K(None))
            return Tup([m.at(cell, 'trees'), *more])

        def chk(e, v, st, path):
            m = box['m']
            m.st = st
            made = box['made']
            best = {}
            for row in adds:
                for c, sc in row:
                    best[c] = max(sc, best.get(c, -99))
                srt = sorted(best.items(), key=lambda x: -x[1])
                if len(srt) > beam:
                    best = {c: sc for c, sc in srt if sc >= srt[beam - 1][1]}
            got = [made.get(x) for x in m.items(v.items[0])]
            h = f'beam {beam}, additions {adds}'
            if sorted(got, key=str) != sorted(best.items(), key=str):
                return False, f'{h}: holds {got}, expected {sorted(best.items(), key=lambda x: -x[1])}'
            if any(x[1] < y[1] for x, y in zip(got, got[1:])):
                return False, f'{h}: {got} is not in the order of the scores'
            d = e.res(v.items[1], st)
            d = e.obj(st, d) if isinstance(d, Ref) else None
            if isinstance(d, DictO) and d.rest is None and all(e.res(x, st) in made for x in d.d.values()) and sorted((made.get(e.res(x, st)) for x in d.d.values()), key=str) != sorted(got, key=str):
                return False, f'{h}: the trees by category are not the trees {got}'
            if len(got) >= beam and isinstance(e.res(v.items[2], st), (Lin, K)):
                lo = const(m, v.items[2])
                if isinstance(lo, (int, float)) and lo > got[beam - 1][1]:
                    return False, f'{h}: the least score to be added is {lo}, the tree at the end of the beam has {got[beam - 1][1]}'
            return True, ''
        b.run('cells', f'beam {beam} {adds}', 'lambeq/bobcat/parser.py', e, fn, chk)


# -- categories ----------------------------------------------------------------------------
def categories(b, ck, deep):
    texts = ['N', 'NP', 'S[dcl]', 'S', 'S[X]', 'S[b]', 'NP[nb]', 'N[num]', r'S[dcl]\NP', 'S[dcl]/NP', r'S[X]\NP', r'S\NP', r'(S[dcl]\NP)/NP', r'S[dcl]\(NP/NP)', r'(S[b]\NP)/NP', 'conj', ',', ';']

    def same(x, y):
        if x.dir or y.dir:
            return x.dir == y.dir and same(x.res, y.res) and same(x.arg, y.arg)
        return x.atom == y.atom and (x.feat == y.feat or x.atom == 'S' and {x.feat, y.feat} <= {'', 'X'})

    def fits(x, y):
        if x.dir or y.dir:
            return x.dir == y.dir and fits(x.res, y.res) and fits(x.arg, y.arg)
        return x.atom == y.atom and x.feat in ('', y.feat)
    for x in texts:
        for y in texts:
            e = eng(b)

            def fn(e, st):
                m = M(b, e, st)
                l, r = m.cat(x), m.cat(y)
                return Tup([e.cmp_eq(l, r, st) if hasattr(e, 'cmp_eq') else meth(e, l, '__eq__', [r], {}, st), meth(e, l, 'matches', [r], {}, st),
                            meth(e, l, '__hash__', [], {}, st), meth(e, r, '__hash__', [], {}, st)])

            def chk(e, v, st, path):
                a, f, h, g = (e.res(i, st) for i in v.items)
                if not all(isinstance(i, K) for i in (a, f)):
                    return None, f'unknown result {show(a)} {show(f)}'
                if bool(a.v) != same(cat(x), cat(y)):
                    return False, f'{x} == {y} is {a.v}'
                if bool(f.v) != fits(cat(x), cat(y)):
                    return False, f'{x}.matches({y}) is {f.v}'
                if a.v and h != g:
                    return False, f'{x} and {y} are equal, their hashes are not'
                return True, ''
            b.run('categories', f'{x} {y}', 'lambeq/bobcat/lexicon.py', e, fn, chk)


def texts_(b, ck, deep):
    """Category.parse of the texts of a grammar."""
    f = b.p.cls(LEX + '.Category').find_method('parse')
    texts = sorted({*A.values(), *(t.replace('{_}', '').replace('{Y}', '') for t in A.values())}) + [r'S[dcl]\NP', r'(S[dcl]\NP)/NP', 'N', 'NP[nb]', 'conj', ',', ';', ':', '.', r'(S[X]{Y}/(S[X]{Y}\NP{_}){Y}){Y}', 'LRB', r'((N/N)/(N/N))/N', r'(N/N)\(S[adj]\NP)', r'NP{Y*}']
    texts = [t for t in texts if not ('NP{Z})' in t and '<1>' in t)] + [r'((S[X]{Y}\NP{Z}){Y}\(S[X]{Y}\NP{Z}){Y}<2>){_}']     # slots count the arguments
    for t in texts:
        for tr in ('+', '_'):
            e = eng(b)
            box = {}

            def fn(e, st):
                m = box['m'] = M(b, e, st, real=True)
                m.call(FnV(f), K(t), K('Z'))      # remembered texts are remembered with their variable
                return m.call(FnV(f), K(t), *([K(tr)] if tr != '+' else []))

            def chk(e, v, st, path):
                m = box['m']
                m.st = st
                w = cat(t)
                if m.name(v) != str(w):
                    return False, f'{t} is read as {m.name(v)}'

                def go(v, w, where):
                    if const(m, m.at(v, 'var')) != w.var:
                        return f'the variable of {w} {where} is {const(m, m.at(v, "var"))}, written {VARS[w.var]}'
                    r = m.at(v, 'relation')
                    if isinstance(r, K) != (not w.slot):
                        return f'{w} {where} has {"no" if isinstance(r, K) else "a"} relation'
                    if w.slot and const(m, m.at(r, 'slot')) != w.slot:
                        return f'{w} {where} is slot {const(m, m.at(r, "slot"))}, not {w.slot}'
                    if w.slot and const(m, m.at(r, 'category')) not in (t, f'({t})'):
                        return f'the relation of {w} {where} names category {const(m, m.at(r, "category"))}'
                    return w.dir and (go(m.at(v, 'result'), w.res, where) or go(m.at(v, 'argument'), w.arg, where)) or None
                msg = go(v, w, f'in {t}')
                if msg is None and w.dir and const(m, m.at(v, 'type_raising_dep_var')) != VARS.index(tr):
                    msg = f'the variable of raised dependencies of {t} is {const(m, m.at(v, "type_raising_dep_var"))}, asked for {tr}'
                return msg is None, msg or ''
            b.run('texts', f'{t} {tr}', 'lambeq/bobcat/lexicon.py', e, fn, chk)


# -- unary rules and marks -------------------------------------------------------------------
GRAMMAR = {
    'cats': {'NP': 'NP', 'NP\\NP': r'(NP{Y}\NP{Y}<1>){_}', 'S/S': '(S[X]{Y}/S[X]{Y}<1>){_}'},
    'change': [(1, 'N', None, 'NP', False), (2, r'S[ng]\NP', None, r'NP\NP', True), (3, ',', r'S[ng]\NP', r'NP\NP', True), (4, 'S[dcl]/S[dcl]', ',', 'S/S', True)],
    'raise': [('NP', r'(S[X]{Y}/(S[X]{Y}\NP{_}){Y}){Y}', '+'), ('NP', r'(S[X]{Y}\(S[X]{Y}/NP{_}){Y}){Y}', '+'), ('PP', r'((S[X]{Y}\NP{Z}){Y}\((S[X]{Y}\NP{Z}){Y}/PP{_}){Y}){Y}', '+')],
}
UNARY = [('type_change', 'N{_}', [('U', 'NP')]), ('type_change', r'(S[ng]{_}\NP{Y}<1>){_}', [('U', r'NP\NP')]), ('type_change', 'NP{_}', []), ('type_change', r'(S[dcl]{_}\NP{Y}<1>){_}', []),
         ('type_raise', 'NP{_}', [('FTR', r'S[X]/(S[X]\NP)'), ('BTR', r'S[X]\(S[X]/NP)')]), ('type_raise', 'PP{_}', [('BTR', r'(S[X]\NP)\((S[X]\NP)/PP)')]), ('type_raise', 'N{_}', [])]
MARKS = [(',{_}', r'(S[ng]{_}\NP{Y}<1>){_}', 'L', 'L', [('LP', r'S[ng]\NP'), ('CONJ', r'(S[ng]\NP)\(S[ng]\NP)'), ('LP', r'NP\NP')]), ('(S[dcl]{_}/S[dcl]{Y}<1>){_}', ',{_}', 'L', 'L', [('RP', 'S[dcl]/S[dcl]'), ('RP', 'S/S')]),
         ('.{_}', r'(S[ng]{_}\NP{Y}<1>){_}', 'L', 'L', [('LP', r'S[ng]\NP')]), ('(S[dcl]{_}/S[dcl]{Y}<1>){_}', '.{_}', 'L', 'L', [('RP', 'S[dcl]/S[dcl]')]), ('(S[dcl]{_}/S[dcl]{Y}<1>){_}', ',{_}', 'CONJ', 'L', []),
         ('N{_}', '.{_}', 'L', 'L', [('RP', 'N')]), ('conj{_}', 'N{_}', 'L', 'L', [('CONJ', r'N\N'), ('ADJ_CONJ', 'N')]), ('conj{_}', 'NP{_}', 'L', 'L', [('CONJ', r'NP\NP')]), (',{_}', 'NP{_}', 'L', 'L', [('LP', 'NP'), ('CONJ', r'NP\NP')]),
         (',{_}', 'NP{_}', 'L', 'CONJ', []), (';{_}', 'NP{_}', 'L', 'L', [('LP', 'NP'), ('CONJ', r'NP\NP')]), (':{_}', 'NP{_}', 'L', 'L', [('LP', 'NP')]), ('N{_}', ':{_}', 'CONJ', 'L', [])]


def unaries(b, ck, deep):
    def res(m, out):
        return sorted((m.rule(t), m.name(m.at(t, 'cat')).replace('S[X]/S[X]', 'S/S')) for t in m.items(out))
    for how, c, want in UNARY:
        e = eng(b)
        box = {}

        def fn(e, st):
            m = box['m'] = M(b, e, st)
            return meth(e, m.rules(True, GRAMMAR), how, [e.new(st, ListO([m.leaf(c)]))], {}, st)

        def chk(e, v, st, path):
            m = box['m']
            m.st = st
            g = res(m, v)
            return (True, '') if g == sorted(want) else (False, f'{c} becomes {g}, the grammar has {want}')
        b.run('unary', f'{how} {c}', 'lambeq/bobcat/rules.py', e, fn, chk)
    for l, r, lr, rr, want in MARKS:
        e = eng(b)
        box = {}

        def fn(e, st):
            m = box['m'] = M(b, e, st)
            x, y = m.leaf(l, 'l', 1, lr), m.leaf(r, 'r', 2, rr)
            rules = m.rules(True, {**GRAMMAR, 'binary': [(str(cat(l)), str(cat(r)))]})
            return meth(e, rules, 'combine', [x, y], {}, st)

        def chk(e, v, st, path):
            m = box['m']
            m.st = st
            g = res(m, v)
            return (True, '') if g == sorted(want) else (False, f'{l} ({lr}) and {r} ({rr}) give {g}, expected {sorted(want)}')
        b.run('marks', f'{l} {r} {lr} {rr}', 'lambeq/bobcat/rules.py', e, fn, chk)

    def none(e, st):
        m = M(b, e, st)
        return meth(e, m.rules(True, GRAMMAR), 'combine', [m.leaf(A['adj']), m.leaf(A['n'])], {}, st)
    b.run('combine', 'pair that the grammar does not list', 'lambeq/bobcat/rules.py', eng(b), none,
          lambda e, v, st, path: (True, '') if not e.items(v, st, None) else (False, 'a pair of categories that the grammar does not list is combined'))


# -- the chart ----------------------------------------------------------------------------------
RAISED = r'S[X]/(S[X]\NP)'
CHART = {
    'cats': {'N': 'N{_}', 'NP': 'NP{_}', 'conj': 'conj{_}', 'NP/N': A['det'], 'N/N': A['adj'], r'S[dcl]\NP': A['iv'], r'(S[dcl]\NP)/NP': A['tv'], r'(NP\NP)/NP': A['prep'],
             r'((S[X]\NP)\(S[X]\NP))/NP': A['vprep'], '.': '.{_}'},
    'binary': [('NP/N', 'N'), ('N/N', 'N'), ('NP', r'S[dcl]\NP'), (r'(S[dcl]\NP)/NP', 'NP'), (r'(NP\NP)/NP', 'NP'), ('NP', r'NP\NP'), (r'((S[X]\NP)\(S[X]\NP))/NP', 'NP'),
               (r'S[dcl]\NP', r'(S[X]\NP)\(S[X]\NP)'), ('conj', 'NP'), ('S[dcl]', '.'),
               (RAISED, r'S[dcl]\NP'), (RAISED, r'(S[dcl]\NP)/NP'), ('S[dcl]/NP', 'NP')],
    'change': [(1, 'N', None, 'NP', False)], 'raise': [('NP', A['tr'], '+')],
}
LABELS = [RAISED + '::NP', RAISED + '::NP::N', 'S[dcl]/NP', 'NP', 'S[dcl]', r'S[dcl]\NP', r'NP\NP', 'NP::N', 'NP[conj]', 'N']
SENT = [
    ('sleep', [['NP'], [r'S[dcl]\NP']]), ('likes', [['NP'], [r'(S[dcl]\NP)/NP'], ['NP']]), ('nouns', [['N'], [r'(S[dcl]\NP)/NP'], ['N']]),
    ('determiners', [['NP/N'], ['N/N', 'N'], ['N'], [r'S[dcl]\NP']]), ('attachment', [['NP'], [r'(S[dcl]\NP)/NP'], ['NP'], [r'(NP\NP)/NP', r'((S[X]\NP)\(S[X]\NP))/NP'], ['NP']]),
    ('and', [['NP'], ['conj'], ['NP'], [r'S[dcl]\NP']]), ('ambiguous', [['NP', 'N'], [r'S[dcl]\NP', 'N'], ['.', 'N']]), ('one', [['N', 'NP']]), ('stop', [['NP'], [r'S[dcl]\NP'], ['.']]),
]


def chart(b, ck, deep):
    for k, (name, tags) in enumerate(SENT):
        n = len(tags)
        for variant in range(6 if deep else 4):
            roots = None if variant % 2 else [['S[dcl]', 'NP'], ['S']][variant // 2 % 2]
            x = [k * 31 + variant * 7 + 1]

            def rnd(m):
                x[0] = (x[0] * 1103515245 + 12345) % 2**31
                return (x[0] >> 12) % m
            spans = {}
            for i in range(n):
                for j in range(i, n):
                    if i == j or variant != 3 or rnd(4):
                        spans[i, j] = {c: -rnd(7) for c in range(len(LABELS)) if rnd(5)}
            probs = [[-rnd(4) for _ in t] for t in tags]
            weight = 1 + variant % 2
            want = oracle(tags, probs, weight, spans, roots)
            chart_case(b, f'{name} {variant}', tags, probs, weight, spans, roots, want)


MISSING_CAT, MISSING_SPAN = -20, -10


def oracle(tags, probs, weight, spans, roots):
    """All derivations, by the length of the span; the best per category at the top."""
    n = len(tags)
    plain = {str(cat(v)): k for k, v in CHART['cats'].items()}
    pairs = {(str(cat(a)), str(cat(c))) for a, c in CHART['binary']}
    label = {}
    for i, t in enumerate(LABELS):
        label[('conj', str(slash(cat(t[:-6]), '\\', cat(t[:-6])))) if t.endswith('[conj]') else ('unary', *[str(cat(y)) for y in t.split('::')]) if '::' in t else ('binary', str(cat(t)))] = i

    def span_score(key, sp):
        if key not in label:
            return MISSING_CAT
        return sp.get(label[key], MISSING_SPAN)
    cells_ = {}
    for length in range(1, n + 1):
        for i in range(n - length + 1):
            j = i + length - 1
            sp = spans.get((i, j))
            made = []                      # (category, score, rule, score without the span)
            if length == 1:
                for t, pr in zip(tags[i], probs[i]):
                    made.append((str(cat(CHART['cats'][t])), weight * pr, 'L', weight * pr))
            elif sp is not None:
                for m in range(i, j):
                    for lc, ls, lr in cells_.get((i, m), ()):
                        for rc, rs, rr in cells_.get((m + 1, j), ()):
                            if (lc, rc) not in pairs:
                                continue
                            l, r = cat(lc), cat(rc)
                            out = []
                            for rule in ('BA', 'FA', 'FC', 'CONJ', 'RP'):
                                if rule == 'FA' and (rr in raised_ or lr == 'FC') or rule in ('BA', 'RP') and lr in raised_ or rule == 'CONJ' and rr in raised_ or rule == 'FC' and (out or lr == 'FC'):
                                    continue
                                out += [(c, rule) for c in steps(l, r, rule)]
                            for c, rule in out:
                                sc = ls + rs
                                made.append((c, sc + span_score(('conj', c) if rule == 'CONJ' else ('binary', c), sp), rule, sc))
            if length < n and sp is not None:
                made += [('NP', base + span_score(('unary', 'NP', 'N'), sp), 'U', base) for c, sc, rule, base in made if c == 'N']
                made += [(RAISED, base + span_score(('unary', RAISED, 'NP', *(['N'] if rule == 'U' else [])), sp), 'FTR', base) for c, sc, rule, base in made if c == 'NP']
            if length == n and roots is not None:
                made = [x for x in made if any(matches(cat(q), cat(x[0])) for q in roots)]
            best = {}
            for c, sc, rule, base in made:
                if c not in best or sc > best[c][1]:
                    best[c] = (c, sc, rule)
            if made:
                cells_[i, j] = list(best.values())
    return sorted(((c, s_) for c, s_, _ in cells_.get((0, n - 1), ())), key=str)


def matches(x, y):
    if x.dir or y.dir:
        return x.dir == y.dir and matches(x.res, y.res) and matches(x.arg, y.arg)
    return x.atom == y.atom and x.feat in ('', y.feat)


def chart_case(b, key, tags, probs, weight, spans, roots, want):
    e = eng(b)
    e.MAXSTEPS = 3000000
    box = {}

    def fn(e, st):
        m = box['m'] = M(b, e, st)
        new = lambda xs: e.new(st, ListO(xs))
        lst = lambda rows: new([Tup([I(x) if isinstance(x, int) and not isinstance(x, bool) else K(x) for x in r]) for r in rows])
        gr = m.call(m.cls('bobcat.grammar.Grammar'), e.new(st, DictO({K(k): K(v) for k, v in CHART['cats'].items()})), lst(CHART['binary']), lst(CHART['change']), lst(CHART['raise']))
        for t in roots or ():
            c = f'{t}'
        kw = dict(cats=new([K(t) for t in LABELS]), root_cats=K(None) if roots is None else new([m.cat(t) for t in roots]), eisner_normal_form=K(True), max_parse_trees=I(100000), beam_size=I(50),
                  input_tag_score_weight=I(weight), missing_cat_score=I(20), missing_span_score=I(10))
        ps = m.call(m.cls(PARSER + '.ChartParser'), gr, **kw)
        tag = lambda t, pr: m.call(m.cls(PARSER + '.Supertag'), K(t), I(pr))
        sent = m.call(m.cls(PARSER + '.Sentence'), new([K(f'w{i}') for i in range(len(tags))]), new([new([tag(t, q) for t, q in zip(a, c)]) for a, c in zip(tags, probs)]),
                      e.new(st, DictO({Tup([I(i), I(j)]): e.new(st, DictO({I(c): I(v) for c, v in d.items()})) for (i, j), d in spans.items()})))
        return e.call(ps, [sent], {}, st, None)

    def chk(e, v, st, path):
        m = box['m']
        m.st = st
        got = []
        ts = m.items(m.at(v, 'root'))
        for t in ts:
            got.append((m.name(m.at(t, 'cat')), const(m, m.at(t, 'score'))))
            ws = []

            def walk(t):
                l, r = m.at(t, 'left'), m.at(t, 'right')
                if isinstance(l, K):
                    ws.append(const(m, m.at(t, 'word')))
                    return
                walk(l)
                if not isinstance(r, K):
                    walk(r)
            walk(t)
            if ws != [f'w{i}' for i in range(len(tags))]:
                return False, f'the words of a parse of {len(tags)} words are {ws}'
        if any(x[1] < y[1] for x, y in zip(got, got[1:])):
            return False, f'the parses are not in the order of their scores: {got}'
        norm = lambda xs: sorted(((c.replace('[nb]', ''), s_) for c, s_ in xs), key=str)
        if norm(got) != norm(want):
            return False, f'the parses are {norm(got)}, the best derivations {norm(want)}'
        if want and [const(m, x) for x in m.items(m.at(v, 'words'))] != [f'w{i}' for i in range(len(tags))]:
            return False, 'the words of the result are not those of the sentence'
        return True, ''
    b.run('chart', key, 'lambeq/bobcat/parser.py', e, fn, chk)


def run(p, ck, tier):
    b = Bench(p, ck)
    deep = tier == 'thorough'
    for f in (combine, derivations, cells, categories, texts_, unaries, chart):
        f(b, ck, deep)
    for r, n in (('combine', 2000), ('dependencies', 10), ('cells', 60), ('categories', 100), ('unary', 3), ('marks', 5), ('chart', 12)):
        ck.floor(r, n)
