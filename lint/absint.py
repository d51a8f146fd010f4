"""Abstract interpreter (engine E1).

A forward abstract interpretation of Python source over the Herbrand (value
numbering) domain of `values.py`:

* values are terms; two expressions are equal when their terms are, whatever
  statements computed them (so extracting helpers, renaming, reordering or
  rewriting as comprehensions/loops does not change the result);
* project functions are followed through calls (context-sensitive summaries
  with a depth bound), everything external is an uninterpreted operation;
* control-flow joins build gated values `Ite(cond, a, b)`; conditions that
  are decided by the abstract values are followed on one side only;
* loops over a sequence of unknown length are summarised on the generic
  element: appends become `Spread`, products become `Prod`, other
  loop-carried values are kept when an invariant (checked inductively) holds
  and are havocked otherwise;
* types of diagrams are elements of the free pregroup (`TyV`), diagrams are
  known by boundary (`DgV`); each use of a primitive adds an *obligation*.

Anything outside the supported subset raises Unsupported; callers report the
affected obligation as undecided.  No solver, no concrete inputs.
"""
from __future__ import annotations
import ast
from .project import (AnalysisBroken, ClassInfo, FuncInfo, Module, Project,
                      deco_name)
from .values import *


class Unsupported(Exception):
    def __init__(self, msg, where=''):
        super().__init__(f'{msg} {where}')


class Raised(Exception):
    """Every path of the evaluated expression raises."""

    def __init__(self, exc, where='', store=None):
        super().__init__(str(exc))
        self.exc, self.where, self.store = exc, where, store


class Store:
    __slots__ = ('m', 'guards', 'live')

    def __init__(self, m=None, guards=(), live=True):
        self.m = dict(m or {})
        self.guards = tuple(guards)
        self.live = live

    def fork(self):
        return Store(self.m, self.guards, self.live)

    def move(self):
        """The state of a path that ends here: nothing is written to this store any more."""
        s = Store.__new__(Store)
        s.m, s.guards, s.live = self.m, self.guards, self.live
        return s

    def become(self, o):
        self.m, self.guards, self.live = o.m, o.guards, o.live


class Obligation:
    def __init__(self, kind, ok, where, msg, ctx=()):
        self.kind, self.ok, self.where, self.msg = kind, ok, where, msg
        self.ctx = tuple(ctx)

    def __repr__(self):
        return f'{self.kind}:{self.ok}@{self.where}: {self.msg}'


ANY = ('any',)
STR_METHODS = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split', 'join',
               'startswith', 'endswith', 'replace', 'format', 'isspace',
               'partition', 'rpartition', 'title', 'capitalize', 'encode',
               'zfill', 'ljust', 'rjust', 'center', 'count', 'find', 'index',
               'casefold', 'swapcase', 'splitlines', 'rsplit', 'rfind', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower',
               'removeprefix', 'removesuffix', 'isnumeric', 'isdecimal', 'isidentifier', 'isascii', 'expandtabs'}


class Interp:
    MAXDEPTH = 40
    MAXREC = 6
    MAXSTEPS = 60000

    def __init__(self, proj: Project, category='grammar', tyv=False, dg=False):
        self.p = proj
        self.cat = category
        self.tyv, self.dg = tyv, dg
        self.n = 0
        self.steps = 0
        self.stack: list = []           # FuncInfo stack
        self.dict_of: dict = {}         # address of a `__dict__` -> the instance
        self.obls: list[Obligation] = []
        self.intrinsics = {}            # qual -> fn(interp, st, args, kw, node)
        self.opaque_funcs = set()       # quals treated as uninterpreted
        self.cond_raises: list[list] = [[]]
        self.pos_syms: dict = {}        # Sym -> lower bound
        self.analysed: set[str] = set()
        self.modcache: dict = {}
        self.grammar = {}
        try:
            g = proj.cls('backend.grammar.Ty')
            self.TyC = g
            self.BoxC = proj.cls('backend.grammar.Box')
            self.DiagC = proj.cls('backend.grammar.Diagram')
            self.LayerC = proj.cls('backend.grammar.Layer')
        except AnalysisBroken:
            self.TyC = self.BoxC = self.DiagC = self.LayerC = None
        self.where_stack = []
        self.layer_log = []

    # -- helpers ---------------------------------------------------------
    def fresh(self, hint='v'):
        self.n += 1
        return f'{hint}#{self.n}'

    def new(self, st, obj):
        a = self.fresh('o')
        st.m[('o', a)] = obj
        return Ref(a)

    def obj(self, st, v):
        if isinstance(v, Ref):
            o = st.m.get(('o', v.addr))
            if o is None:
                raise Unsupported(f'dangling reference {v.addr}')
            return o
        return None

    def setobj(self, st, ref, obj):
        if ref.addr in self.dict_of and isinstance(obj, DictO):      # `x.__dict__` writes through to x
            own = self.dict_of[ref.addr]
            old, o = st.m.get(('o', ref.addr)), st.m.get(('o', own.addr))
            if isinstance(old, DictO) and isinstance(o, InstO):
                f = {k: v for k, v in o.fields.items() if not (K(k) in old.d and K(k) not in obj.d)}
                f.update({k.v: v for k, v in obj.d.items() if isinstance(k, K) and old.d.get(k) is not v})
                st.m[('o', own.addr)] = InstO(o.cls, f)
        st.m[('o', ref.addr)] = obj

    def where(self, node):
        mod = self.stack[-1][0].module if self.stack else None
        r = mod.rel if mod else '?'
        return f'{r}:{getattr(node, "lineno", 0)}'

    def oblige(self, kind, ok, node, msg):
        ctx = [f'{f.qual}' for f, _ in self.stack]
        self.obls.append(Obligation(kind, ok, self.where(node), msg, ctx))

    # -- conditions and facts ----------------------------------------------
    def canon(self, c):
        pol = True
        while isinstance(c, App) and c.op == 'not':
            c, pol = c.args[0], not pol
        if isinstance(c, App) and c.op == '!=':
            c, pol = App('==', *c.args), not pol
        return c, pol

    def fact(self, st, c):
        c, pol = self.canon(c)
        f = st.m.get(('f', c))
        if f is None:
            return None
        return f == pol

    def assume(self, st, c, val):
        c, pol = self.canon(c)
        v = (val == pol)
        st.m[('f', c)] = v
        st.guards = st.guards + ((c, v),)
        if isinstance(c, App) and c.op == 'and' and v:
            for a in c.args:
                a, p = self.canon(a)
                st.m[('f', a)] = p
        if isinstance(c, App) and c.op == 'or' and not v:
            for a in c.args:
                a, p = self.canon(a)
                st.m[('f', a)] = not p

    def res(self, v, st):
        while isinstance(v, Ite):
            d = self.decide(v.c, st)
            if d is True:
                v = v.a
            elif d is False:
                v = v.b
            else:
                break
        return v

    def mkite(self, c, a, b):
        c, pol = self.canon(c)
        if not pol:
            a, b = b, a
        if a == b:
            return a
        if isinstance(a, Ite) and a.c == c:
            a = a.a
        if isinstance(b, Ite) and b.c == c:
            b = b.b
        if isinstance(a, K) and isinstance(b, K) and a.v is True and b.v is False:
            return c
        if isinstance(a, K) and isinstance(b, K) and a.v is False and b.v is True:
            return App('not', c)
        if a == b:
            return a
        return Ite(c, a, b)

    def decide(self, v, st):
        """Truthiness of v: True / False / canonical condition term."""
        v = self.res(v, st)
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, Lin):
            if v.const is not None:
                return v.const != 0
            s = self.sign(v)
            if s in ('+', '-'):
                return True
            return self._fact_or(App('truth', v), st)
        if isinstance(v, TyV):
            if not v.f:
                return False
            if self.sign(v.length) == '+':
                return True
            return self._fact_or(App('nonempty', v), st)
        if isinstance(v, Tup):
            if any(not isinstance(i, Spread) for i in v.items):
                return True
            if not v.items:
                return False
            return self._fact_or(App('nonempty', v), st)
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, ListO):
                return self.decide(Tup(o.items), st)
            if isinstance(o, DictO):
                if any(not isinstance(x, Ite) and x is not ABSENT for x in o.d.values()):
                    return True
                if not o.d and o.rest is None:
                    return False
                return self._fact_or(App('nonempty', v), st)
            if isinstance(o, InstO):
                for n in ('__bool__', '__len__'):
                    m = o.cls.find_method(n)
                    if m is not None:
                        r = self.call(FnV(m), [v], {}, st, None)
                        return self.decide(r, st)
                return True
        if isinstance(v, (FnV, BoundV, ClsV, ModV, OpMeth, PartialV, CatV)):
            return True
        if isinstance(v, ExtV) and v.name == 'typing.TYPE_CHECKING':
            return False
        if isinstance(v, DgV):
            return self._fact_or(App('truth', v), st)
        if isinstance(v, Ite):
            a, b = self.decide(v.a, st), self.decide(v.b, st)
            if a is b and isinstance(a, bool):
                return a
            if a is True and b is False:
                return v.c
            if a is False and b is True:
                return App('not', v.c)
            return self._fact_or(App('truth', v), st)
        if isinstance(v, App):
            if v.op == 'not':
                d = self.decide(v.args[0], st)
                if isinstance(d, bool):
                    return not d
                return App('not', d)
            if v.op == '==':
                e = self.eq(v.args[0], v.args[1], st)
                if isinstance(e, bool):
                    return e
            if v.op in ('and', 'or'):
                ds = [self.decide(a, st) for a in v.args]
                stop = (v.op == 'or')
                if any(d is stop for d in ds):
                    return stop
                ds = [d for d in ds if d is not (not stop)]
                if not ds:
                    return not stop
                if len(ds) == 1:
                    return ds[0]
                return self._fact_or(App(v.op, *ds), st)
            return self._fact_or(v, st)
        if isinstance(v, Sym):
            if v.typ == ('str', 'ne'):
                return True
            if v.typ[0] == 'cls':
                c = v.typ[1]
                m = c.find_method('__len__') or c.find_method('__bool__')
                if m is None:
                    return True
            return self._fact_or(v, st)
        return self._fact_or(App('truth', v), st)

    def _fact_or(self, c, st):
        f = self.fact(st, c)
        return c if f is None else f

    # sign of a linear term
    def lower(self, atom):
        if isinstance(atom, Sym):
            if atom in self.pos_syms:
                return self.pos_syms[atom]
            if atom.typ == ('nat',):
                return 0
        if isinstance(atom, App) and atom.op == 'len':
            return 0
        return None

    def sign(self, l: Lin):
        """'+', '-', '0', '0+' (>=0), '0-' (<=0) or None."""
        if l.const is not None:
            return '+' if l.const > 0 else '-' if l.const < 0 else '0'
        lo = l.c
        for a, k in l.t:
            b = self.lower(a)
            if b is None or k < 0:
                lo = None
                break
            lo += k * b
        if lo is not None:
            if lo > 0:
                return '+'
            if lo == 0:
                return '0+'
        hi = l.c
        for a, k in l.t:
            b = self.lower(a)
            if b is None or k > 0:
                hi = None
                break
            hi += k * b
        if hi is not None:
            if hi < 0:
                return '-'
            if hi == 0:
                return '0-'
        return None

    # -- equality ----------------------------------------------------------
    def reify(self, v, st, depth=0):
        """Replace references by structure (for comparison/reporting)."""
        v = self.res(v, st)
        if depth > 30:
            return v
        r = lambda x: self.reify(x, st, depth + 1)
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, InstO):
                return App('inst', ClsV(o.cls), *[Tup((K(k), r(x))) for k, x in sorted(o.fields.items())])
            if isinstance(o, ListO):
                return self.norm_seq(App('seq', *[r(x) for x in o.items]))
            if isinstance(o, DictO):
                es = sorted((Tup((r(k), r(x))) for k, x in o.d.items()), key=repr)
                if o.rest is not None:
                    es.append(Tup((K('**'), r(o.rest))))
                return App('dict', *es)
        if isinstance(v, Tup):
            return Tup([r(x) for x in v.items])
        if isinstance(v, Spread):
            return Spread(r(v.src), [r(x) for x in v.bodies], v.rev,
                          r(v.filt) if v.filt is not None else None)
        if isinstance(v, Ite):
            return self.mkite(r(v.c), r(v.a), r(v.b))
        if isinstance(v, App):
            return App(v.op, *[r(a) if isinstance(a, V) else a for a in v.args], typ=v.typ)
        if isinstance(v, BoundV):
            return BoundV(v.fn, r(v.self))
        if isinstance(v, PartialV):
            return PartialV(r(v.fn), [r(a) for a in v.args], {k: r(a) for k, a in v.kw})
        if isinstance(v, OpMeth):
            return OpMeth(r(v.recv), v.name)
        if isinstance(v, FnV) and v.frame is not None:
            # closure: captured variables
            free = free_names(v.info.node)
            caps = []
            for nme in sorted(free):
                x = self.lookup_cell(v.frame, nme, st)
                if x is not None and x is not v and not isinstance(x, FnV):
                    caps.append(Tup((K(nme), r(x))))
            return App('closure', K(ast.dump(v.info.node)), *caps)
        return v

    def norm_seq(self, s):
        """seq([*xs as xs]) == xs for immutable symbolic lists."""
        return s

    def seq_eta(self, v):
        if isinstance(v, Sym) and v.typ[0] in ('list', 'tuple'):
            return App('seq', Spread(v, (self.elem(v),)))
        return v

    def elem(self, src):
        et = ANY
        if isinstance(src, Sym) and src.typ[0] == 'list':
            et = src.typ[1]
        return Sym(('elem', src), et)

    def eq(self, a, b, st):
        """True / False / canonical condition."""
        a, b = self.res(a, st), self.res(b, st)
        if a == b:
            return True
        if isinstance(a, K) and isinstance(b, Lin):
            a, b = b, a
        if isinstance(a, Lin) and a.const is not None and isinstance(b, K) and isinstance(b.v, (bool, float, complex)):
            return a.const == b.v
        if self.is_member(a) and self.is_member(b) and a.typ[1] is b.typ[1]:
            x, y = self.enum_attr(a, 'value', st), self.enum_attr(b, 'value', st)
            return x is not None and x == y
        for x, y in ((a, b), (b, a)):
            if isinstance(x, K) and isinstance(x.v, str) and self.is_member(y):
                s = self.enum_str(y, st)
                if s is not None:
                    return s.v == x.v
        if isinstance(a, TyV) and isinstance(b, TyV):
            return self.ty_branch_eq(a, b, st)
        if isinstance(a, CatV) and isinstance(b, CatV):
            return a.name == b.name
        if isinstance(a, ClsV) and isinstance(b, ClsV):
            return a.cls is b.cls
        ra, rb = self.reify(a, st), self.reify(b, st)
        if ra == rb:
            return True
        d = self.distinct(ra, rb, st)
        if d:
            return False
        # distribute over gated values
        for x, y in ((ra, rb), (rb, ra)):
            if isinstance(x, Ite):
                e1, e2 = self.eq(x.a, y, st), self.eq(x.b, y, st)
                if isinstance(e1, bool) and e1 is e2:
                    return e1
                if e1 is True and e2 is False:
                    return self._fact_or(x.c, st)
                if e1 is False and e2 is True:
                    f = self._fact_or(x.c, st)
                    return (not f) if isinstance(f, bool) else App('not', f)
        if isinstance(ra, Tup) and isinstance(rb, Tup) and len(ra.items) == len(rb.items) \
                and not any(isinstance(x, Spread) for x in ra.items + rb.items):
            c = None
            for x, y in zip(ra.items, rb.items):
                d = self.eq(x, y, st)
                if d is False:
                    return False
                if d is not True:
                    c = d if c is None else App('and', c, d, typ=('bool',))
            return True if c is None else self._fact_or(c, st)
        x, y = sorted((ra, rb), key=repr)
        return self._fact_or(App('==', x, y), st)

    def ty_branch_eq(self, a, b, st):
        d = (a.length - b.length)
        if d.const not in (None, 0) or self.sign(d) in ('+', '-'):
            return False
        if len(a.f) == len(b.f) and not has_opaque_ty(a) and not has_opaque_ty(b):
            for x, y in zip(a.f, b.f):
                if (isinstance(x, Gen) and isinstance(y, Gen) and x.name == y.name
                        and x.lo == y.lo and x.hi == y.hi
                        and (x.z - y.z).const not in (None, 0)
                        and self.sign(x.length) == '+'):
                    return False
        x, y = sorted((a, b), key=repr)
        return self._fact_or(App('==', x, y), st)

    def distinct(self, a, b, st):
        """Definitely different values."""
        ka, kb = isinstance(a, (K, Lin)), isinstance(b, (K, Lin))
        if ka and kb:
            if isinstance(a, K) and isinstance(b, K):
                return a.v != b.v
            if isinstance(a, Lin) and isinstance(b, Lin):
                return self.sign(a - b) in ('+', '-')
            k, l = (a, b) if isinstance(a, K) else (b, a)
            if isinstance(k.v, bool) and l.const is not None:
                return int(k.v) != l.const
            if isinstance(k.v, float) and l.const is not None:
                return k.v != l.const
            return True
        if isinstance(a, Tup) and isinstance(b, Tup):
            if any(isinstance(x, Spread) for x in a.items + b.items):
                return False
            return len(a.items) != len(b.items) or any(
                x != y and self.distinct(x, y, st) for x, y in zip(a.items, b.items))
        if isinstance(a, TyV) and isinstance(b, TyV):
            return a != b and self.ty_branch_eq(a, b, st) is False
        if isinstance(a, ClsV) and isinstance(b, ClsV):
            return a.cls is not b.cls
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ExtV) and x.name.startswith('host:') and isinstance(y, (K, Lin)):
                return True
        structs = lambda v: isinstance(v, App) and v.op in ('inst', 'dict', 'seq') or isinstance(v, Tup)
        if structs(a) and isinstance(b, (K, Lin, ClsV)) or structs(b) and isinstance(a, (K, Lin, ClsV)):
            return True
        if isinstance(a, TyV) and isinstance(b, (K, Lin, ClsV)) or isinstance(b, TyV) and isinstance(a, (K, Lin, ClsV)):
            return True
        if isinstance(a, (Sym, App)) and isinstance(b, K):
            a, b = b, a
        if isinstance(b, App) and b.op == 'str+':
            l = [x.v if isinstance(x, K) and isinstance(x.v, str) else '' for x in (b.args[0], b.args[-1])]
            if isinstance(a, K) and isinstance(a.v, str) and not (a.v.startswith(l[0]) and a.v.endswith(l[1])
                                                                  and len(a.v) >= sum(len(x.v) for x in b.args if isinstance(x, K))):
                return True
            if isinstance(a, App) and a.op == 'str+':
                k = [x.v if isinstance(x, K) and isinstance(x.v, str) else '' for x in (a.args[0], a.args[-1])]
                if not (k[0].startswith(l[0]) or l[0].startswith(k[0])) or not (k[1].endswith(l[1]) or l[1].endswith(k[1])):
                    return True
        if isinstance(a, K) and a.v is None and isinstance(b, App) and b.op in ('.array', 'abs', 'neg'):
            return True
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op == '.array' and len(a.args) == len(b.args) == 2 \
                and all(isinstance(x.args[1], (K, Lin)) for x in (a, b)):
            return self.distinct(a.args[1], b.args[1], st)
        if isinstance(a, K) and a.v is None and isinstance(b, App) and b.typ[0] in ('str', 'int', 'nat', 'bool', 'real'):
            return True
        if isinstance(a, K) and isinstance(b, Sym):
            if a.v is None and b.typ[0] in ('cls', 'str', 'int', 'nat', 'bool', 'list', 'dict', 'tuple', 'real'):
                return True
            if a.v == '' and b.typ == ('str', 'ne'):
                return True
            if isinstance(a.v, str) and b.typ[0] in ('cls', 'int', 'nat', 'bool', 'list'):
                return True
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op == 'inst':
            return a.args[0] != b.args[0] and not (
                a.args[0].cls.is_sub(b.args[0].cls) or b.args[0].cls.is_sub(a.args[0].cls))
        if isinstance(a, ClsV) and isinstance(b, K) or isinstance(b, ClsV) and isinstance(a, K):
            return True
        return False

    # -- merging -------------------------------------------------------------
    def merge(self, c, s1, s2, guards):
        if not s1.live:
            s2.guards = guards
            return s2
        if not s2.live:
            s1.guards = guards
            return s1
        m = {}
        keys = list(s1.m)
        keys += [k for k in s2.m if k not in s1.m]
        for k in keys:
            a, b = s1.m.get(k), s2.m.get(k)
            if k[0] == 'f':
                if a is not None and a == b:
                    m[k] = a
                continue
            if k[0] in ('clsexpr', 'modexpr', 'enumobj'):      # lazily evaluated constants
                m[k] = a if a is not None else b
                continue
            if a is None or b is None:
                if k[0] == 'o':
                    m[k] = a if b is None else b
                else:
                    m[k] = self.mkite(c, a if a is not None else ABSENT,
                                      b if b is not None else ABSENT)
                continue
            if a is b or a == b:
                m[k] = a
            elif k[0] == 'v':
                m[k] = self.mkite(c, a, b)
            else:
                m[k] = self.merge_obj(c, a, b)
        return Store(m, guards)

    def merge_obj(self, c, a, b):
        if isinstance(a, InstO) and isinstance(b, InstO) and a.cls is b.cls:
            f = {}
            for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
                f[k] = self.mkite(c, a.fields.get(k, ABSENT), b.fields.get(k, ABSENT))
            return InstO(a.cls, f)
        if isinstance(a, ListO) and isinstance(b, ListO):
            i = 0
            while i < min(len(a.items), len(b.items)) and a.items[i] == b.items[i]:
                i += 1
            ra, rb = a.items[i:], b.items[i:]
            if len(ra) == len(rb) and not any(isinstance(x, Spread) for x in ra + rb):
                return ListO(a.items[:i] + tuple(self.mkite(c, x, y) for x, y in zip(ra, rb)), a.kind)
            src = Ite(c, Tup(ra), Tup(rb))
            return ListO(a.items[:i] + (Spread(src, (Sym(('elem', src)),)),), a.kind)
        if isinstance(a, DictO) and isinstance(b, DictO):
            d = {}
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                d[k] = self.mkite(c, a.d.get(k, ABSENT), b.d.get(k, ABSENT))
            rest = a.rest if a.rest == b.rest else self.mkite(c, a.rest or K(None), b.rest or K(None))
            return DictO(d, rest)
        raise Unsupported('merging different object kinds')

    def tree_exits(self, exits):
        """[(guards, value, store)] -> (value, store), joined by guards."""
        if len(exits) == 1:
            g, v, s = exits[0]
            return v, s
        # pick the first guard that distinguishes
        for g0, _, _ in exits:
            for (c, b) in g0:
                t = [(tuple(x for x in g if x != (c, True)), v, s) for g, v, s in exits if (c, False) not in g]
                e = [(tuple(x for x in g if x != (c, False)), v, s) for g, v, s in exits if (c, True) not in g]
                if t and e and (len(t) < len(exits) or len(e) < len(exits)):
                    v1, s1 = self.tree_exits(t)
                    v2, s2 = self.tree_exits(e)
                    if v1 is None and v2 is None:
                        return None, self.merge(c, s1.fork(), s2.fork(), ())
                    return (self.mkite(c, v1, v2), self.merge(c, s1.fork(), s2.fork(), ()))
        # same guards: take the first (program order)
        g, v, s = exits[0]
        return v, s

    # -- names -----------------------------------------------------------
    def lookup_cell(self, fid, name, st):
        while fid is not None:
            v = st.m.get(('v', fid, name))
            if v is not None:
                return v
            fid = st.m.get(('v', fid, '<outer>'))
            fid = fid.v if fid is not None else None
        return None

    def load(self, name, fid, module, st, node=None):
        v = self.lookup_cell(fid, name, st)
        if v is not None:
            if v is ABSENT:
                raise Unsupported(f'unbound local {name}')
            v = self.res(v, st)
            if isinstance(v, Ite) and (v.a is ABSENT or v.b is ABSENT):
                self.oblige('bound', None, node, f'{name} may be unbound')
                v = v.b if v.a is ABSENT else v.a
            return v
        r = self.module_value(name, module, st)
        if r is not None:
            return r
        if name in BUILTINS:
            return ExtV('builtins.' + name)
        raise Unsupported(f'unknown name {name}', module.rel)

    def module_value(self, name, module, st):
        r = self.p.resolve_name(name, module)
        return self.resolved(r, st, name)

    @staticmethod
    def fills(m, name):
        """The loops of a module that add items to one of its globals."""
        return [s for s in m.tree.body if isinstance(s, ast.For) and not s.orelse and any(
            isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) and isinstance(x.targets[0].value, ast.Name) and x.targets[0].value.id == name
            for x in s.body)]

    def resolved(self, r, st, name=''):
        if r is None:
            return None
        if isinstance(r, ClassInfo):
            return ClsV(r)
        if isinstance(r, FuncInfo):
            return FnV(r)
        if isinstance(r, Module):
            return ModV(r)
        if r[0] == 'ext':
            return ExtV(r[1])
        if r[0] == 'expr':
            _, e, m = r
            k = ('modexpr', id(e))
            if isinstance(e, ast.Call):
                c = self.p.resolve_expr(e.func, m)
                if isinstance(c, ClassInfo) and c.name == 'Category' and e.args \
                        and isinstance(e.args[0], ast.Constant):
                    return CatV(e.args[0].value)
            if k in st.m:
                return st.m[k][0]
            st.m[k] = (Sym(('global', m.name, name)),)
            try:
                f = FuncInfo(ast.parse('def _mod(): pass').body[0], m)
                fid = self.fresh('frm')
                st.m[('v', fid, '<outer>')] = K(None)
                self.stack.append((f, None))
                try:
                    v = self.eval(e, fid, m, st)
                    fills = self.fills(m, name)
                    if fills and isinstance(v, Ref):
                        st.m[k] = (v,)
                        for loop in fills:
                            self.block([loop], fid, m, st)
                finally:
                    self.stack.pop()
            except (Unsupported, Raised) as x:
                import os,sys
                if os.environ.get('LINT_VERBOSE'): print('modexpr', m.name, name, str(x)[:300], file=sys.stderr)
                v = Sym(('global', m.name, name))
            st.m[k] = (v,)
            return v
        if r[0] == 'item':
            _, (e, i), m = r
            return Sym(('global', m.name, name))
        return None

    # -- attribute access ---------------------------------------------------
    def getattr(self, v, name, st, node=None):
        v = self.res(v, st)
        if name in ('all', 'any') and (isinstance(v, K) and isinstance(v.v, bool) or isinstance(v, App) and v.typ == ('bool',)):
            return PartialV(ExtV('identity'), [v], {})      # a comparison result
        if isinstance(v, App) and v.op == 'sliceobj' and name in ('start', 'stop', 'step'):
            return v.args[('start', 'stop', 'step').index(name)]
        if isinstance(v, App) and v.op == 'sliceobj' and name == 'indices':
            return OpMeth(v, name)
        if isinstance(v, Ite):
            s1, s2 = st.fork(), st.fork()
            self.assume(s1, v.c, True)
            self.assume(s2, v.c, False)
            a = self.getattr(v.a, name, s1, node)
            b = self.getattr(v.b, name, s2, node)
            st.become(self.merge(v.c, s1, s2, st.guards))
            return self.mkite(v.c, a, b)
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, InstO):
                return self.inst_attr(v, o, name, st, node)
            py = dict if isinstance(o, DictO) else {'set': set, 'frozenset': frozenset, 'tuple': tuple}.get(o.kind, list)
            if not hasattr(py, name) and not (name == 'reshape' and self.np_lists) and getattr(o, 'kind', 'list') in ('list', 'set', 'frozenset', 'tuple'):
                raise Raised(App('exc', K('AttributeError'), K(name)), self.where(node))
            return OpMeth(v, name)
        if isinstance(v, TyV):
            return self.ty_attr(v, name, st, node)
        if isinstance(v, DgV):
            return self.dg_attr(v, name, st, node)
        if isinstance(v, ClsV):
            return self.cls_attr(v, name, st, node)
        if isinstance(v, CatV):
            m = self.p.categories.get(v.name, {})
            if name in m:
                return ClsV(m[name])
            if name == 'name':
                return K(v.name)
            catc = self.p.cls('backend.grammar.Category')
            f = catc.find_method(name)
            if f is not None:
                return BoundV(FnV(f), v)
            raise Unsupported(f'category attribute {name}')
        if isinstance(v, ModV):
            r = self.module_value(name, v.mod, st)
            if r is None:
                raise Unsupported(f'{v.mod.name}.{name}')
            return r
        if isinstance(v, ExtV):
            return ExtV(v.name + '.' + name)
        if isinstance(v, SuperV):
            cls = self.class_of(v.self, st)
            if cls is None:
                raise Unsupported('super() of unknown')
            r = cls.find_attr(name, after=v.after)
            if r is None:
                if name in ('__init__', '__new__', '__post_init__', '__init_subclass__',
                            '__getattribute__', '__setattr__', '__getattr__'):
                    owner = None
                    if name == '__init__':
                        mro = cls.mro()
                        for c in mro[mro.index(v.after) + 1:]:
                            if c.dc is not None and c.dc.get('init', True):
                                owner = c
                                break
                    return PartialV(ExtV('super.' + name), [v.self if isinstance(v.self, (Ref, ClsV)) else v.self,
                                                            ClsV(owner) if owner else K(None)], {})
                raise Unsupported(f'super().{name}')
            owner, kind, x = r
            # a generated dataclass __init__ may come before x's class
            if name == '__init__':
                mro = cls.mro()
                for c in mro[mro.index(v.after) + 1:]:
                    if c is owner:
                        break
                    if c.dc is not None and c.dc.get('init', True):
                        return PartialV(ExtV('super.__init__'), [v.self, ClsV(c)], {})
            if kind == 'attr':
                return self.class_expr(owner, x, st)
            if x.is_property:
                return self.call(FnV(x), [v.self], {}, st, node)
            if x.is_static or name == '__new__':
                return FnV(x)
            if x.is_classmethod:
                return BoundV(FnV(x), v.self if isinstance(v.self, ClsV) else ClsV(cls))
            return BoundV(FnV(x), v.self)
        if isinstance(v, Sym):
            return self.sym_attr(v, name, st, node)
        if isinstance(v, App):
            if v.typ[0] == 'cls':
                return self.sym_attr(v, name, st, node)
            return OpMeth(v, name)
        if isinstance(v, K) and v.v is None:
            raise Raised(App('exc', K('AttributeError')), self.where(node))
        if isinstance(v, (K, Lin, Tup)):
            py = type(v.v) if isinstance(v, K) else int if isinstance(v, Lin) and v.const is not None else \
                tuple if isinstance(v, Tup) else None
            if py is not None and not hasattr(py, name):
                raise Raised(App('exc', K('AttributeError'), K(name)), self.where(node))
            return OpMeth(v, name)
        if isinstance(v, (FnV, BoundV)) and name in ('__name__', '__qualname__'):
            f = v.fn if isinstance(v, BoundV) else v
            return K(f.info.name)
        if isinstance(v, PartialV) and isinstance(v.fn, ExtV):
            return OpMeth(v, name)
        return OpMeth(v, name)

    def class_of(self, v, st):
        if isinstance(v, ClsV):
            return v.cls
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, InstO):
                return o.cls
        if isinstance(v, Sym) and v.typ[0] == 'cls':
            return v.typ[1]
        if isinstance(v, App) and v.typ[0] == 'cls':
            return v.typ[1]
        if isinstance(v, TyV):
            return self.p.categories.get(self.cat, {}).get('Ty')
        if isinstance(v, DgV):
            return self.p.categories.get(self.cat, {}).get('Diagram')
        return None

    def inst_attr(self, ref, o, name, st, node):
        if name == '__class__':
            return ClsV(o.cls)
        r = o.cls.find_attr(name)
        if name == '__getattribute__' and r is None:
            return PartialV(ExtV('super.__getattribute__'), [ref], {})
        if r is not None and r[1] == 'method' and r[2].is_property and not r[2].is_cached_property:
            return self.call(FnV(r[2]), [ref], {}, st, node)
        if name in o.fields:
            v = self.res(o.fields[name], st)
            if v is not ABSENT:
                if isinstance(v, Ite) and (v.a is ABSENT or v.b is ABSENT):
                    v = v.b if v.a is ABSENT else v.a
                return v
        if name == 'category':
            c = self.p.category(o.cls)
            if c:
                return CatV(c)
        if name == '__dict__':
            d = self.new(st, DictO({K(k): x for k, x in o.fields.items()}))
            if isinstance(ref, Ref):
                self.dict_of[d.addr] = ref
            return d
        if r is not None:
            owner, kind, x = r
            if kind == 'attr':
                v = self.class_expr(owner, x, st)
                if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(v, FnV) and getattr(v.info, 'cls', None) is not None \
                        and not v.info.is_static and not v.info.is_classmethod:      # a method under another name
                    return self.call(v, [ref], {}, st, node) if v.info.is_property else BoundV(v, ref)
                return v
            if x.is_property:
                return self.call(FnV(x), [ref], {}, st, node)
            if x.is_static:
                return FnV(x)
            if x.is_classmethod:
                return BoundV(FnV(x), ClsV(o.cls))
            return BoundV(FnV(x), ref)
        if o.fields.get('<open>') is not None:
            return Sym(('attr', ref, name))
        if self.dg and self.BoxC is not None and o.cls.is_sub(self.BoxC):
            d = self.box_to_dg(ref, st, node)
            return self.getattr(d, name, st, node)
        g = o.cls.find_method('__getattr__')
        if g is not None:
            return self.call(FnV(g), [ref, K(name)], {}, st, node)
        if o.cls.ext_bases:
            return Sym(('attr', ref, name))
        ann = o.cls.annotation(name)
        if ann is not None:
            return Sym(('attr', ref, name), self.typ_of(ann[1], ann[0].module, o.cls))
        raise Raised(App('exc', K('AttributeError'), K(name)), self.where(node))

    def class_default(self, cls, name, st):
        r = cls.find_attr(name)
        if r is None or r[1] != 'attr' or r[2] is None:
            return None
        return self.res(self.class_expr(r[0], r[2], st), st)

    def class_expr(self, owner, e, st):
        k = ('clsexpr', id(e))
        if k in st.m:
            return st.m[k][0]
        # class attribute naming something in the class body first
        if isinstance(e, ast.Name) and (e.id in owner.methods):
            v = FnV(owner.methods[e.id])
        elif isinstance(e, ast.Attribute):
            c = self.p.resolve_expr(e.value, owner.module)
            m = None
            if isinstance(c, ClassInfo):
                if e.attr == '__eq__':
                    own = c.dc_owner('eq')
                    if own and own[1] == 'generated':
                        return PartialV(ExtV('dataclass.__eq__'), [ClsV(own[0])], {})
                m = c.find_method(e.attr)
            v = FnV(m) if m is not None else Sym(('clsattr', owner.qual, ast.unparse(e)))
        elif isinstance(e, ast.Call) and deco_name(e.func).split('.')[-1] == 'field':
            v = Sym(('clsattr', owner.qual, ast.unparse(e)))
            for kw in e.keywords:
                if kw.arg == 'default':
                    v = self.eval_in_module(kw.value, owner.module, st)
        else:
            v = self.eval_in_module(e, owner.module, st, owner)
        st.m[k] = (v,)
        return v

    def eval_in_module(self, e, module, st, owner=None):
        f = FuncInfo(ast.parse('def _cls(): pass').body[0], module)
        fid = self.fresh('frm')
        st.m[('v', fid, '<outer>')] = K(None)
        if owner is not None:
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and n.id in owner.attrs and owner.attrs[n.id] is not e \
                        and owner.attrs[n.id] is not None:
                    st.m[('v', fid, n.id)] = self.class_expr(owner, owner.attrs[n.id], st)
        self.stack.append((f, None))
        try:
            return self.eval(e, fid, module, st)
        finally:
            self.stack.pop()

    def cls_attr(self, v, name, st, node):
        c = v.cls
        if name == '__name__' or name == '__qualname__':
            return K(c.name)
        if name == 'category':
            cat = self.p.category(c)
            if cat:
                return CatV(cat)
        if name == 'special_boxes':
            for k in c.mro():
                if k in self.p.special:
                    d = {K(n): (ClsV(x) if isinstance(x, ClassInfo) else FnV(x))
                         for n, x in self.p.special[k].items()}
                    return self.new(st, DictO(d))
                if 'special_boxes' in k.attrs:
                    break
            return self.new(st, DictO({}))
        # enum members
        r = c.find_attr(name)
        if r is not None:
            owner, kind, x = r
            if kind == 'method':
                if x.is_classmethod:
                    return BoundV(FnV(x), v)
                return FnV(x)
            if self.is_enum(c):
                return self.enum_foreign(c, name, st) or self.enum_member(c, name)
            if x is None:
                raise Unsupported(f'class attribute {c.name}.{name} has no value')
            return self.class_expr(owner, x, st)
        if self.is_enum(c) and name == '__members__':
            return Sym(('members', c.qual))
        if name == '__init__':
            return PartialV(ExtV('cls.__init__'), [v], {})
        if name == '__mro__' or name == '__dict__':
            return Sym(('cls', c.qual, name))
        if name == '__new__':
            return PartialV(ExtV('object.__new__'), [], {})
        if c.ext_bases:
            return App('clsattr', v, K(name))
        raise Raised(App('exc', K('AttributeError'), K(name)), self.where(node))

    def is_enum(self, c):
        return any('Enum' in b for k in c.mro() for b in k.ext_bases) or \
            any(k.name == 'FastIntEnum' for k in c.mro())

    def enum_member(self, c, name):
        return Sym(('enum', c.qual, name), ('cls', c, True))

    def enum_foreign(self, c, name, st):
        """A member that the enum's __new__ makes an instance of a class that is not the enum."""
        nm = c.find_method('__new__')
        if nm is None or c.attrs.get(name) is None or st is None:
            return None
        k = ('enumobj', c.qual, name)
        if k in st.m:
            return st.m[k][0]
        for x in ast.walk(nm.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == '__new__' and x.args:
                t = self.p.resolve_expr(x.args[0], nm.module)
                if isinstance(t, ClassInfo) and not self.is_enum(t):
                    a = self.class_expr(c, c.attrs[name], st)
                    r = self.instantiate(ClsV(t), list(a.items) if isinstance(a, Tup) else [a], {}, st, None)
                    st.m[k] = (r,)
                    return r
        return None

    @staticmethod
    def is_member(v):
        return isinstance(v, Sym) and len(v.path) == 3 and v.path[0] == 'enum'

    def enum_new(self, c, name, st):
        """Attributes the enum's own __new__ gives a member."""
        x = self.class_expr(c, c.attrs[name], st)
        args = list(x.items) if isinstance(x, Tup) else [x]
        nm = c.find_method('__new__')
        if nm is None:
            return {'value': x}
        ps = nm.node.args.posonlyargs + nm.node.args.args
        names = [a.arg for a in ps][1:]
        dflt = nm.node.args.defaults
        env = {}
        for i, n in enumerate(names):
            if i < len(args):
                env[n] = args[i]
            elif i >= len(names) - len(dflt):
                env[n] = self.class_expr(c, dflt[i - len(names)], st)
        out = {'value': x if len(args) > 1 else args[0]}
        for s in ast.walk(nm.node):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id in env:
                for t in s.targets:
                    if isinstance(t, ast.Attribute):
                        out['value' if t.attr == '_value_' else t.attr] = env[s.value.id]
        return out

    def enum_attr(self, v, name, st):
        c = v.typ[1]
        if name == 'name':
            return K(v.path[2])
        if c.attrs.get(v.path[2]) is None:
            return None
        return self.enum_new(c, v.path[2], st).get('value' if name == '_value_' else name)

    def enum_str(self, v, st):
        """The string a str-based enum member equals."""
        if self.is_member(v) and any(b in ('str', 'builtins.str') for k in v.typ[1].mro() for b in k.ext_bases):
            x = self.enum_attr(v, 'value', st)
            if isinstance(x, K) and isinstance(x.v, str):
                return x
        return None

    def sym_attr(self, v, name, st, node):
        t = v.typ
        if t[0] == 'cls':
            c = t[1]
            if name == '__class__':
                if len(t) > 2 and t[2]:
                    return ClsV(c)
                return App('type', v)
            if name == 'category':
                cat = self.p.category(c)
                if cat:
                    return CatV(cat)
            if self.is_member(v) and self.is_enum(c):
                x = self.enum_attr(v, name, st)
                if x is not None:
                    return x
            r = c.find_attr(name)
            exact = len(t) > 2 and t[2]
            if r is not None and r[1] == 'method':
                f = r[2]
                over = not exact and self.overridden(c, name)
                if f.qual in self.opaque_funcs:
                    over = True
                if f.is_property:
                    if over or f.is_abstract:
                        return self.typed_attr(v, name, f.node.returns, f.module, c)
                    return self.call(FnV(f), [v], {}, st, node)
                if f.is_static:
                    return FnV(f)
                if f.is_classmethod:
                    return BoundV(FnV(f), ClsV(c)) if exact or not over else OpMeth(v, name)
                if over or f.is_abstract:
                    return OpMeth(v, name)
                return BoundV(FnV(f), v)
            ann = c.annotation(name)
            if ann is not None:
                return self.typed_attr(v, name, ann[1], ann[0].module, c)
            if r is not None and r[1] == 'attr' and r[2] is not None:
                return self.class_expr(r[0], r[2], st)
        if t[0] in ('str', 'list', 'dict'):
            return OpMeth(v, name)
        return Sym(('attr', v, name))

    def typed_attr(self, v, name, ann, module, owner):
        t = self.typ_of(ann, module, owner) if ann is not None else ANY
        path = ('attr', v, name)
        if self.tyv and name in ('dom', 'cod') and isinstance(v, App) and v.typ[0] == 'cls' \
                and self.BoxC and v.typ[1].is_sub(self.BoxC):
            # the specification of Box.rotate / Box.dagger (C05 checks it)
            if v.op == '.rotate' and len(v.args) == 2 and isinstance(v.args[1], Lin):
                t0 = self.getattr(v.args[0], name, None)
                if isinstance(t0, TyV):
                    return t0.rotate(v.args[1])
            if v.op == '.dagger' and len(v.args) == 1:
                t0 = self.getattr(v.args[0], 'cod' if name == 'dom' else 'dom', None)
                if isinstance(t0, TyV):
                    return t0
        if self.tyv and t[0] == 'cls' and self.TyC and t[1].is_sub(self.TyC):
            return self.ty_gen(('attr', v, name))
        return Sym(path, t)

    def ty_gen(self, name, atomic=False, opaque=False):
        """A type that is a free generator named by a term."""
        nm = ('sd', name) if self.cat != 'grammar' else name
        if atomic:
            return TyV((Gen(nm, I(1)),))
        n = Sym(('len', name), ('nat',))
        return TyV((Gen(nm, Lin(0, [(n, 1)])),))

    def opaque_ty(self, hint='ty'):
        return self.ty_gen(('opaque', self.fresh(hint)))

    def overridden(self, c, name):
        return any(name in s.methods or name in s.attrs for s in c.all_subclasses())

    def typ_of(self, ann, module, owner=None):
        if ann is None:
            return ANY
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return ANY
        if isinstance(ann, ast.Name):
            n = ann.id
            if n == 'str':
                return ('str',)
            if n == 'int':
                return ('int',)
            if n == 'bool':
                return ('bool',)
            if n in ('list', 'List'):
                return ('list', ANY)
            if n in ('dict', 'Dict'):
                return ('dict',)
            if n == 'Self' and owner is not None:
                return ('cls', owner, False)
        if isinstance(ann, ast.Subscript):
            base = ann.value
            bn = base.id if isinstance(base, ast.Name) else getattr(base, 'attr', '')
            if bn in ('list', 'List', 'Iterable', 'Sequence', 'set', 'frozenset', 'Iterator'):
                return ('list', self.typ_of(ann.slice, module, owner))
            if bn in ('ClassVar', 'InitVar', 'Final', 'Annotated'):
                return self.typ_of(ann.slice, module, owner)
            if bn == 'Optional':
                return ANY
            if bn in ('dict', 'Dict', 'Mapping'):
                return ('dict',)
            return ANY
        r = self.p.resolve_expr(ann, module) if isinstance(ann, (ast.Name, ast.Attribute)) else None
        if isinstance(r, ClassInfo):
            if r.name == 'Diagrammable':
                return ANY
            return ('cls', r, False)
        return ANY

    # -- free pregroup types as values -------------------------------------
    def ty_attr(self, v: TyV, name, st, node):
        if name == 'l':
            return v.rotate(I(-1))
        if name == 'r':
            return v.rotate(I(1))
        if name == 'category':
            return CatV(self.cat)
        if name == '__class__':
            return ClsV(self.p.categories[self.cat]['Ty'])
        if name == 'is_empty':
            d = self.decide(v, st)
            return K(not d) if isinstance(d, bool) else App('not', d)
        if name == 'is_atomic':
            s = v.length.const
            if s is not None:
                return K(s == 1)
            if self.sign(v.length - I(1)) == '+':
                return K(False)
            return App('is_atomic', v)
        if name == 'is_complex':
            s = v.length.const
            if s is not None:
                return K(s > 1)
            if self.sign(v.length - I(1)) == '+':
                return K(True)
            return App('is_complex', v)
        if name == 'z':
            if len(v.f) == 1 and isinstance(v.f[0], Gen) and v.f[0].atomic:
                return v.f[0].z
            if v.length.const is not None:
                return I(0)
            return App('z', v)
        if name == 'objects':
            if v.length.const == 1:
                return self.new(st, ListO(()))
            if v.length.const is None:
                return App('objects', v)
            return self.new(st, ListO(self.ty_items(v)))
        if name in ('rotate', 'tensor', 'unwind', 'repeat', 'to_diagram', 'to_json', 'insert',
                    'replace', 'count', 'apply_functor', '__len__', '__matmul__', '_fromiter'):
            return OpMeth(v, name)
        if name == 'name':
            return App('tyname', v)
        c = self.p.categories[self.cat]['Ty']
        f = c.find_method(name)
        if f is not None:
            if f.is_property:
                return self.call(FnV(f), [v], {}, st, node)
            return BoundV(FnV(f), v)
        if name in ('dim', 'product', 'label'):
            return App(name, v)
        raise Raised(App('exc', K('AttributeError'), K(name)), self.where(node))

    def ty_items(self, v: TyV):
        out = []
        for x in v.f:
            if isinstance(x, Gen) and x.length.const is not None and x.length.const <= 8:
                n = x.length.const
                if n == 1:
                    out.append(TyV((x,)))
                    continue
                for i in range(n):
                    if x.z.parity() == 0:
                        out.append(TyV((x.with_(lo=x.lo + I(i), hi=x.lo + I(i + 1)),)))
                    elif x.z.parity() == 1:
                        out.append(TyV((x.with_(lo=x.hi - I(i + 1), hi=x.hi - I(i)),)))
                    else:
                        raise Unsupported('iterating over type of unknown parity')
            else:
                t = TyV((x,))
                out.append(Spread(t, (self.ty_elem(t),)))
        return tuple(out)

    def ty_elem(self, t: TyV):
        """Generic atomic element of t (t is a single factor)."""
        nm = ('elem', t)
        if t.f and isinstance(t.f[0], Gen) and isinstance(t.f[0].name, tuple) and t.f[0].name[:1] == ('sd',):
            nm = ('sd', nm)
        return TyV((Gen(nm, I(1)),))

    def ty_fold(self, items, node=None):
        """Product of a sequence of types (items may be Spread)."""
        t = TyV()
        for x in items:
            if isinstance(x, TyV):
                t = t @ x
            elif isinstance(x, Spread) and x.filt is None:
                body = TyV()
                for b in x.bodies:
                    if not isinstance(b, TyV):
                        raise Unsupported('product of non-types')
                    body = body @ b
                t = t @ self.ty_prod(x.src, body, x.rev)
            else:
                raise Unsupported(f'product of {show(x)}')
        return t

    def ty_prod(self, src, body, rev):
        # prod over elements of t of rotate(elem, z) == rotate(t, z) or, when
        # the order is not the adjoint's, a reversed product
        if isinstance(src, TyV) and len(body.f) == 1 and isinstance(body.f[0], Gen) \
                and body.f[0].name in (('elem', src), ('sd', ('elem', src))):
            z = body.f[0].z
            if body.f[0].name[0] == 'sd':
                return src.rotate(I(1)) if rev else src
            par = z.parity()
            if par is not None and bool(par) == bool(rev):
                return src.rotate(z)
        if not body.f:
            return TyV()
        return TyV((Prod(src, body, rev),))

    def ty_slice(self, v: TyV, lo, hi, st):
        total = v.length

        def pos(x, default):
            if x is None or (isinstance(x, K) and x.v is None):
                return default
            if not isinstance(x, Lin):
                raise Unsupported(f'slice bound {show(x)}')
            s = self.sign(x)
            if s == '-' or (s == '0-' and x.const is None):
                return total + x      # -n with n >= 1 (n = 0 excluded by precondition)
            return x
        a, b = pos(lo, I(0)), pos(hi, total)
        pre, rest = self.ty_split(v, a)
        n = b - a
        if self.sign(n) in ('-', '0'):
            return TyV()
        mid, _ = self.ty_split(rest, n)
        return mid

    def ty_split(self, v: TyV, n: Lin):
        """(v[:n], v[n:]); n in range by assumption."""
        left = []
        fs = list(v.f)
        cur = n
        while fs:
            if cur.const == 0:
                break
            x = fs[0]
            d = cur - x.length
            s = self.sign(d)
            if s in ('+', '0', '0+'):
                left.append(x)
                fs.pop(0)
                cur = d
                continue
            # inside x (or undecided: allowed when the rest is provably enough)
            if isinstance(x, Gen) and (s in ('-', '0-') or (len(fs) == 1)):
                par = x.z.parity()
                if par == 0:
                    mid = x.lo + cur
                    left.append(x.with_(hi=mid))
                    fs[0] = x.with_(lo=mid)
                elif par == 1:
                    mid = x.hi - cur
                    left.append(x.with_(lo=mid))
                    fs[0] = x.with_(hi=mid)
                else:
                    raise Unsupported('slicing type of unknown parity')
                cur = I(0)
                break
            raise Unsupported(f'cannot place position {show(n)} in {show(v)}')
        return TyV(left), TyV(fs)

    # -- diagrams by boundary -----------------------------------------------
    def dg_attr(self, v: DgV, name, st, node):
        if name in ('dom', 'cod'):
            return getattr(v, name)
        if name == 'category':
            return CatV(self.cat)
        if name in ('l', 'r'):
            z = I(-1 if name == 'l' else 1)
            return DgV(v.dom.rotate(z), v.cod.rotate(z), App('rot', v))
        if name == '__class__':
            return ClsV(self.p.categories[self.cat]['Diagram'])
        if name in ('then', 'tensor', 'rotate', 'dagger', 'to_diagram', 'then_at',
                    'permuted', 'id', 'caps', 'cups', 'swap', 'to_json', '__rshift__',
                    '__matmul__', 'permutation'):
            c = self.p.categories[self.cat]['Diagram']
            if ('dg:' + name) in self.intrinsics or name not in c.methods and c.find_method(name) is None:
                pass
            return OpMeth(v, name)
        c = self.p.categories[self.cat]['Diagram']
        r = c.find_attr(name)
        if r is not None and r[1] == 'method':
            f = r[2]
            if name in ('is_id', 'layers', 'boxes', 'offsets', 'has_frames', 'is_pregroup',
                        '__len__', '__iter__', '__getitem__', 'normal_form', 'remove_snakes',
                        'free_symbols', 'is_mixed', 'is_circuital', 'lambdify', 'eval'):
                if name in ('normal_form', 'remove_snakes'):
                    return OpMeth(v, name)
                return App('dgattr', v, K(name), v.src or K(None))
            if f.is_property:
                return self.call(FnV(f), [v], {}, st, node)
            if f.is_classmethod:
                return BoundV(FnV(f), ClsV(c))
            return BoundV(FnV(f), v)
        if name == 'special_boxes':
            return self.cls_attr(ClsV(c), name, st, node)
        if name in ('layers', 'boxes'):
            lc = self.p.categories[self.cat].get('Layer' if name == 'layers' else 'Box')
            return Sym(('attr', v, name, v.src or K(None)),
                       ('list', ('cls', lc, False) if lc is not None else ANY))
        return Sym(('attr', v, name))

    def box_to_dg(self, ref, st, node):
        o = self.obj(st, ref)
        dom, cod = (self.res(o.fields[n], st) if n in o.fields else self.class_default(o.cls, n, st)
                    for n in ('dom', 'cod'))
        if isinstance(dom, TyV) and isinstance(cod, TyV):
            return DgV(dom, cod, App('box', ref))
        raise Unsupported('box without known boundary')

    def as_dg(self, v, st, node):
        v = self.res(v, st)
        if isinstance(v, DgV):
            return v
        if isinstance(v, TyV):
            return DgV(v, v, App('id', v))
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, InstO) and self.BoxC and o.cls.is_sub(self.BoxC):
                return self.box_to_dg(v, st, node)
            if isinstance(o, InstO) and self.DiagC and o.cls.is_sub(self.DiagC):
                return self.box_to_dg(v, st, node)
        if isinstance(v, Ite):
            return None
        if isinstance(v, (Sym, App)) and v.typ[0] == 'cls' and self.BoxC and \
                (v.typ[1].is_sub(self.BoxC) or v.typ[1].is_sub(self.DiagC)):
            dom, cod = self.getattr(v, 'dom', st), self.getattr(v, 'cod', st)
            if isinstance(dom, TyV) and isinstance(cod, TyV):
                return DgV(dom, cod, v)
        return None

    def ty_same(self, a: TyV, b: TyV):
        """For obligations: True / False (differs for some instance) / None."""
        if a == b:
            return True
        if has_opaque_ty(a) or has_opaque_ty(b):
            return None
        return False

    def dg_then(self, a, b, st, node):
        ok = self.ty_same(a.cod, b.dom)
        if ok is False:
            # equality may hold on this path by assumption
            if self.fact(st, App('==', *sorted((a.cod, b.dom), key=repr))) is True:
                ok = True
        self.oblige('compose', ok, node,
                    f'codomain {show(a.cod)} meets domain {show(b.dom)}')
        return DgV(a.dom, b.cod, App('then', a.src or a, b.src or b))

    def dg_tensor(self, a, b):
        return DgV(a.dom @ b.dom, a.cod @ b.cod, App('tensor', a.src or a, b.src or b))

    def special(self, kind, args, kw, st, node):
        """Boundary and precondition of cap/cup/swap/spider on types."""
        names = {'cap': ('left', 'right', 'is_reversed'), 'cup': ('left', 'right', 'is_reversed'),
                 'swap': ('left', 'right'), 'spider': ('type', 'n_legs_in', 'n_legs_out')}[kind]
        vals = dict(zip(names, args))
        vals.update(kw)
        if kind in ('cap', 'cup'):
            l, r = self.res(vals['left'], st), self.res(vals['right'], st)
            rev = self.decide(vals.get('is_reversed', K(False)), st)
            if not (isinstance(l, TyV) and isinstance(r, TyV)):
                raise Unsupported(f'{kind} on unknown types')
            if isinstance(rev, bool):
                # Cap: left == right.r (reversed: right.l); Cup: left == right.l
                z = (1 if kind == 'cap' else -1) * (-1 if rev else 1)
                ok = self.ty_same(l, r.rotate(I(z)))
            else:
                ok = None
            self.oblige(kind, ok, node, f'{kind} on non-adjoint types {show(l)}, {show(r)}'
                        if not ok else f'{kind} on {show(l)}, {show(r)}')
            e = TyV()
            return DgV(e, l @ r, App(kind, l, r)) if kind == 'cap' else DgV(l @ r, e, App(kind, l, r))
        if kind == 'swap':
            l, r = self.res(vals['left'], st), self.res(vals['right'], st)
            if not (isinstance(l, TyV) and isinstance(r, TyV)):
                raise Unsupported('swap on unknown types')
            return DgV(l @ r, r @ l, App('swap', l, r))
        if kind == 'spider':
            t = self.res(vals['type'], st)
            i, o = vals['n_legs_in'], vals['n_legs_out']
            if not isinstance(t, TyV):
                raise Unsupported('spider on unknown type')
            return DgV(self.ty_pow(t, i), self.ty_pow(t, o), App('spider', t, i, o))

    def ty_pow(self, t, n):
        if isinstance(n, Lin) and n.const is not None:
            r = TyV()
            for _ in range(n.const):
                r = r @ t
            return r
        return TyV((Prod(App('range', n), t, False),)) if t.f else TyV()

    def opmeth(self, v: OpMeth, args, kw, st, node):
        if v.name == 'indices' and isinstance(v.recv, App) and v.recv.op == 'sliceobj':
            a = [self.res(x, st) for x in list(v.recv.args) + list(args)]
            if all(isinstance(x, Lin) and x.const is not None or x == K(None) for x in a):
                a = [x.const if isinstance(x, Lin) else None for x in a]
                return Tup([I(x) for x in slice(*a[:3]).indices(a[3])])
        r, name = v.recv, v.name
        if name in ('conjugate', 'conj') and not args and not kw and isinstance(r, (App, Sym, Lin, K)):
            return self.conj(r, st)
        if isinstance(r, TyV):
            return self.ty_method(r, name, args, kw, st, node)
        if isinstance(r, DgV):
            return self.dg_method(r, name, args, kw, st, node)
        if isinstance(r, Ref):
            o = self.obj(st, r)
            if isinstance(o, ListO):
                return self.list_method(r, o, name, args, kw, st, node)
            if isinstance(o, DictO):
                return self.dict_method(r, o, name, args, kw, st, node)
        if isinstance(r, K) and isinstance(r.v, str):
            return self.str_method(r, name, args, kw, st, node)
        if isinstance(r, App) and r.op == 'str+' and len(args) == 1 and not kw and isinstance(args[0], K) and isinstance(args[0].v, str):
            x = self.concat_method(r, name, args[0].v, st)
            if x is not None:
                return x
        if isinstance(r, Sym) and r.typ[0] == 'list':
            if name == 'copy':
                return self.new(st, ListO(self.items(r, st, node)))
        if isinstance(r, Tup) and name in ('index', 'count') and len(args) == 1:
            x = self.seq_index(r.items, args[0], name, st, node)
            if x is not None:
                return x
        if name in ('shuffle', 'permutation', 'sample') and isinstance(r, (App, Sym)):
            x = self.random_op(name, args, kw, st, node)
            if x is not None:
                return x
        t = ANY
        if isinstance(r, (Sym, App)) and r.typ[0] == 'cls':
            f = r.typ[1].find_method(name)
            if f is not None:
                t = self.typ_of(f.node.returns, f.module, r.typ[1])
                if name in ('rotate', 'dagger') and self.BoxC and r.typ[1].is_sub(self.BoxC):
                    t = ('cls', self.p.categories[self.cat]['Box'], False)
        if isinstance(r, (Sym, App)) and name in STR_METHODS and r.typ[0] == 'str':
            t = ('str',)
        k = tuple(Tup((K(a), x)) for a, x in sorted(kw.items()))
        return App('.' + name, r, *args, *k, typ=t)

    def ty_method(self, r, name, args, kw, st, node):
        if name == 'rotate':
            z = self.as_int(args[0] if args else kw['z'])
            if z is None:
                raise Unsupported(f'rotate by {show(args[0])}')
            return r.rotate(z)
        if name == 'unwind':
            z = self.ty_attr(r, 'z', st, node)
            if isinstance(z, Lin):
                return r.rotate(-z)
            raise Unsupported('unwind')
        if name in ('tensor', '__matmul__'):
            t = r
            if len(args) == 1 and not isinstance(self.res(args[0], st), TyV):
                return self.ty_fold((r,) + self.items(args[0], st, node))
            for a in args:
                if isinstance(a, Spread):
                    t = t @ self.ty_fold((a,))
                    continue
                a = self.res(a, st)
                if not isinstance(a, TyV):
                    d = self.as_dg(a, st, node)
                    if d is not None:
                        return self.dg_tensor(DgV(t, t), d)
                    raise Unsupported(f'tensor with {show(a)}')
                t = t @ a
            return t
        if name == 'repeat':
            return self.ty_pow(r, args[0])
        if name == 'to_diagram':
            return DgV(r, r, App('id', r))
        if name == 'to_json':
            return App('to_json', r)
        if name == '__len__':
            return r.length
        if name == '_fromiter':
            return self.ty_fold(self.items(args[0], st, node))
        if name == 'insert':
            a, i = self.res(args[0], st), args[1]
            if isinstance(a, TyV) and isinstance(i, Lin):
                x, y = self.ty_split(r, i)
                return x @ a @ y
        if name == 'replace':
            a, i = self.res(args[0], st), args[1]
            if isinstance(a, TyV) and isinstance(i, Lin):
                x, y = self.ty_split(r, i)
                _, y = self.ty_split(y, I(1))
                return x @ a @ y
        if name == 'count':
            return App('.count', r, *args)
        if name == 'apply_functor':
            return App('.apply_functor', r, *args)
        raise Unsupported(f'Ty.{name}')

    def dg_method(self, r, name, args, kw, st, node):
        k = 'dg:' + name
        if k in self.intrinsics:
            return self.intrinsics[k](self, st, [r] + list(args), kw, node)
        if name in ('then', '__rshift__'):
            d = r
            for a in args:
                if isinstance(a, Spread):
                    raise Unsupported('then(*unknown)')
                b = self.as_dg(a, st, node)
                if b is None:
                    raise Unsupported(f'then({show(a)})')
                d = self.dg_then(d, b, st, node)
            return d
        if name in ('tensor', '__matmul__'):
            d = r
            for a in args:
                if isinstance(a, Spread):
                    if len(a.bodies) == 1 and a.filt is None:
                        b = self.as_dg(a.bodies[0], st, node)
                        if b is not None:
                            d = self.dg_tensor(d, DgV(self.ty_prod(a.src, b.dom, a.rev),
                                                      self.ty_prod(a.src, b.cod, a.rev), a))
                            continue
                    raise Unsupported('tensor(*unknown)')
                b = self.as_dg(a, st, node)
                if b is None:
                    raise Unsupported(f'tensor({show(a)})')
                d = self.dg_tensor(d, b)
            return d
        if name == 'rotate':
            z = self.as_int(args[0])
            if z is None:
                raise Unsupported('rotate')
            return DgV(r.dom.rotate(z), r.cod.rotate(z), App('rot', r, z))
        if name == 'dagger':
            return DgV(r.cod, r.dom, App('dagger', r))
        if name == 'to_diagram':
            return r
        if name in ('normal_form', 'remove_snakes', 'pregroup_normal_form'):
            return DgV(r.dom, r.cod, App('nf', r))
        if name == 'then_at':
            a = self.as_dg(args[0], st, node)
            i = args[1] if len(args) > 1 else kw['index']
            if a is None:
                raise Unsupported('then_at')
            return self.dg_then_at(r, a, i, st, node)
        if name in ('id', 'caps', 'cups', 'swap', 'permutation'):
            c = ClsV(self.p.categories[self.cat]['Diagram'])
            return self.call(self.cls_attr(c, name, st, node), args, kw, st, node)
        if name == 'permuted':
            return DgV(r.dom, self.permuted_ty(r.cod, args[0], st, node), App('perm', r))
        if name == 'to_json':
            return App('to_json', r)
        raise Unsupported(f'Diagram.{name}')

    def permuted_ty(self, t, perm, st, node):
        p = self.items(perm, st, node)
        objs = []
        for x in p:
            if not (isinstance(x, Lin) and x.const is not None):
                raise Unsupported('permutation')
            objs.append(self.ty_slice(t, x, x + I(1), st))
        return self.ty_fold(objs)

    def dg_then_at(self, r, a, i, st, node):
        i = self.as_int(i)
        if i is None:
            raise Unsupported('then_at index')
        left, rest = self.ty_split(r.cod, i)
        mid, right = self.ty_split(rest, a.dom.length)
        ok = self.ty_same(mid, a.dom)
        self.oblige('compose', ok, node, f'inserting {show(a)} at {show(i)} of {show(r.cod)}')
        return DgV(r.dom, left @ a.cod @ right, App('then_at', r, a))

    def as_int(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, K) and isinstance(v.v, bool):
            return I(int(v.v))
        if isinstance(v, (Sym, App)) and v.typ[0] in ('int', 'nat', 'any'):
            return Lin(0, [(v, 1)])
        return None

    # -- sequences -------------------------------------------------------
    def items(self, v, st, node=None):
        """The items of an iterable as a tuple (with Spread)."""
        v = self.res(v, st)
        if isinstance(v, Tup):
            return self.expand(v.items, st)
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, ListO):
                return self.expand(o.items, st)
            if isinstance(o, DictO):
                if o.rest is not None:
                    raise Unsupported('iterating open dict')
                return tuple(k for k, x in o.d.items() if x is not ABSENT)
            if isinstance(o, InstO):
                m = o.cls.find_method('__iter__')
                if m is not None:
                    return self.gen_items(m, [v], {}, st, node)
                if not any(o.cls.find_attr(x) for x in ('__getitem__',)) and not any(c.ext_bases for c in o.cls.mro()):
                    raise Raised(App('exc', K('TypeError'), K('not iterable')), self.where(node))
        if isinstance(v, K) and isinstance(v.v, str):
            return tuple(K(c) for c in v.v)
        if isinstance(v, TyV):
            return self.ty_items(v)
        if isinstance(v, Sym) and v.typ[0] == 'cls':
            m = v.typ[1].find_method('__iter__')
            if m is not None and not self.overridden(v.typ[1], '__iter__'):
                return self.gen_items(m, [v], {}, st, node)
        if isinstance(v, ClsV) and self.is_enum(v.cls):
            return tuple(self.enum_member(v.cls, n) for n in v.cls.attrs if not n.startswith('_'))
        if isinstance(v, App) and v.op == 'range':
            return (Spread(v, (Sym(('elem', v), ('nat',)),)),)
        if isinstance(v, (Sym, App)):
            return (Spread(v, (self.elem(v) if isinstance(v, Sym) else Sym(('elem', v)),)),)
        if isinstance(v, Ite):
            src = v
            return (Spread(src, (Sym(('elem', src)),)),)
        raise Unsupported(f'iterating {show(v)}', self.where(node) if node else '')

    def expand(self, items, st):
        """Resolve Spreads whose source became known."""
        out = []
        for x in items:
            if isinstance(x, Spread) and isinstance(x.src, Ite):
                s = self.res(x.src, st)
                if isinstance(s, Tup) and len(x.bodies) == 1 and x.bodies[0] == Sym(('elem', x.src)):
                    its = s.items
                    out.extend(reversed(its) if x.rev else its)
                    continue
            out.append(x)
        return tuple(out)

    def gen_items(self, f, args, kw, st, node):
        r = self.call(FnV(f), args, kw, st, node)
        return self.items(r, st, node)

    def seq_len(self, v, st, node):
        v = self.res(v, st)
        if isinstance(v, TyV):
            return v.length
        if isinstance(v, DgV):
            return Lin(0, [(App('len', v, v.src or K(None)), 1)])
        if isinstance(v, K) and isinstance(v.v, str):
            return I(len(v.v))
        if isinstance(v, Ref) and isinstance(self.obj(st, v), InstO):
            m = self.obj(st, v).cls.find_method('__len__')
            if m is not None:
                return self.call(FnV(m), [v], {}, st, node)
            if self.dg:
                raise Unsupported('len of box')
        if isinstance(v, Sym) and v.typ[0] == 'cls':
            m = v.typ[1].find_method('__len__')
            if m is not None and not self.overridden(v.typ[1], '__len__'):
                return self.call(FnV(m), [v], {}, st, node)
            return Lin(0, [(App('len', v), 1)])
        if isinstance(v, (Sym, App)) and not (isinstance(v, App) and v.op == 'range'):
            return Lin(0, [(App('len', v), 1)])
        n = I(0)
        for x in self.items(v, st, node):
            if isinstance(x, Spread):
                if x.filt is not None:
                    n = n + Lin(0, [(App('len', x), 1)])
                else:
                    l = x.src.length if isinstance(x.src, TyV) else \
                        (x.src.args[0] if isinstance(x.src, App) and x.src.op == 'range' and isinstance(x.src.args[0], Lin)
                         and len(x.src.args) == 1 else Lin(0, [(App('len', x.src), 1)]))
                    n = n + l.scale(len(x.bodies))
            else:
                n = n + I(1)
        return n

    def set_method(self, r, o, name, args, st, node):
        """Set operations on sets whose membership is decided."""
        if name not in ('union', 'update', 'difference', 'intersection', 'symmetric_difference', 'issubset',
                        'issuperset', 'isdisjoint', 'discard', 'add', 'remove'):
            return None
        if name in ('discard', 'add', 'remove'):
            others = [(args[0],)]
        else:
            others = [tuple(self.items(a, st, node)) for a in args]
        if any(isinstance(x, Spread) for xs in others + [o.items] for x in xs):
            return None

        def has(xs, a):
            u = False
            for x in xs:
                d = self.user_eq(x, a, st, node)
                if d is True:
                    return True
                u = u or d is not False
            return None if u else False
        out = list(o.items)
        for xs in others:
            ins = [has(out, x) for x in xs]
            rev = [has(xs, x) for x in out]
            if None in ins or None in rev:
                return None
            if name == 'issubset':
                return K(all(rev))
            if name == 'issuperset':
                return K(all(ins))
            if name == 'isdisjoint':
                return K(not any(ins))
            add = []
            for x, y in zip(xs, ins):
                if not y and has(add, x) is False:
                    add.append(x)
            if name in ('union', 'update', 'add'):
                out += add
            elif name in ('difference', 'discard', 'remove'):
                if name == 'remove' and not any(ins):
                    raise Raised(App('exc', K('KeyError'), xs[0]), self.where(node))
                out = [x for x, y in zip(out, rev) if not y]
            elif name == 'intersection':
                out = [x for x, y in zip(out, rev) if y]
            else:
                out = [x for x, y in zip(out, rev) if not y] + add
        if name in ('update', 'discard', 'add', 'remove'):
            self.setobj(st, r, ListO(out, o.kind))
            return K(None)
        return self.new(st, ListO(out, 'set'))

    def flat_items(self, r, st):
        out = []
        for x in self.obj(st, r).items:
            x = self.res(x, st)
            if isinstance(x, Ref) and isinstance(self.obj(st, x), ListO):
                out += self.flat_items(x, st)
            else:
                out.append(x)
        return out

    def list_method(self, r, o, name, args, kw, st, node):
        if name == '__getitem__' and len(args) == 1:
            return self.getitem(r, args[0], st, node)
        if name == 'append':
            self.setobj(st, r, ListO(o.items + (args[0],), o.kind))
            return K(None)
        if name == 'extend':
            self.setobj(st, r, ListO(o.items + self.items(args[0], st, node), o.kind))
            return K(None)
        if name == 'copy':
            return self.new(st, ListO(o.items, o.kind))
        if name == 'reshape' and not any(isinstance(x, Spread) for x in o.items):
            shape = list(args)
            if len(shape) == 1 and not isinstance(self.res(shape[0], st), Lin):
                shape = list(self.items(shape[0], st, node))
            shape = [self.res(x, st) for x in shape]
            if not all(isinstance(x, Lin) and x.const is not None and x.const >= 0 for x in shape):
                raise Unsupported('reshape')
            flat = self.flat_items(r, st)
            n = 1
            for x in shape:
                n *= x.const
            if n != len(flat):
                raise Raised(App('exc', K('ValueError'), K('reshape')), self.where(node))

            def build(its, sh):
                if not sh:
                    return its[0]
                k = len(its) // sh[0] if sh[0] else 0
                return self.new(st, ListO([build(its[i * k:(i + 1) * k], sh[1:]) for i in range(sh[0])]))
            return build(flat, [x.const for x in shape])
        if name == 'add':
            x = self.set_method(r, o, name, args, st, node)
            if x is not None:
                return x
            if args[0] not in o.items:
                self.setobj(st, r, ListO(o.items + (args[0],), o.kind))
            return K(None)
        if name == 'pop':
            if o.items and not any(isinstance(x, Spread) for x in o.items):
                i = args[0].const if args else -1
                if i is None:
                    raise Unsupported('pop index')
                its = list(o.items)
                v = its.pop(i)
                self.setobj(st, r, ListO(its, o.kind))
                return v
            if o.items and not args and not isinstance(o.items[-1], Spread):
                self.setobj(st, r, ListO(o.items[:-1], o.kind))
                return o.items[-1]
            if args and args[0] == I(0) and o.items and not isinstance(o.items[0], Spread):
                self.setobj(st, r, ListO(o.items[1:], o.kind))
                return o.items[0]
            raise Unsupported('pop from symbolic list')
        if name == 'insert' and isinstance(args[0], Lin) and args[0].const is not None:
            i = args[0].const
            if i == 0 or not any(isinstance(x, Spread) for x in o.items):
                its = list(o.items)
                its.insert(i, args[1])
                self.setobj(st, r, ListO(its, o.kind))
                return K(None)
        if name == 'reverse':
            self.setobj(st, r, ListO(self.rev_items(o.items), o.kind))
            return K(None)
        if name in ('index', 'count'):
            x = self.seq_index(o.items, args[0], name, st, node)
            if x is not None:
                return x
            return App('.' + name, self.reify(r, st), *args, typ=('int',))
        if o.kind == 'set' or name in ('issubset', 'issuperset', 'isdisjoint', 'difference', 'intersection'):
            x = self.set_method(r, o, name, args, st, node)
            if x is not None:
                return x
        if name in ('union', 'update', 'difference', 'intersection', 'symmetric_difference'):
            its = o.items
            for a in args:
                its = its + ((a,) if isinstance(a, Spread) else self.items(a, st, node))
            if name == 'update':
                self.setobj(st, r, ListO(its, o.kind))
                return K(None)
            if name == 'union':
                return self.new(st, ListO(its, o.kind))
            return App('.' + name, self.reify(r, st), *[self.reify(a, st) for a in args])
        if name == 'sort':
            x = self.res(self.x_sorted([r], kw, st, node), st)
            its = self.obj(st, x).items
            if not any(isinstance(i, Spread) for i in its):
                self.setobj(st, r, ListO(its, o.kind))
                return K(None)
            self.setobj(st, r, ListO((Spread(App('sorted', self.reify(r, st)), (Sym(('elem', App('sorted', self.reify(r, st)))),)),), o.kind))
            return K(None)
        if name in ('remove', 'clear', 'discard'):
            if name == 'clear':
                self.setobj(st, r, ListO((), o.kind))
                return K(None)
            i = self.seq_index(o.items, args[0], 'index', st, node) if name == 'remove' else None
            if isinstance(i, Lin) and i.const is not None:
                its = list(o.items)
                del its[i.const]
                self.setobj(st, r, ListO(its, o.kind))
                return K(None)
            raise Unsupported(f'list.{name}')
        raise Unsupported(f'list.{name}')

    def seq_index(self, items, a, name, st, node):
        ds = []
        for i, x in enumerate(items):
            if isinstance(x, Spread):
                return None
            d = self.user_eq(x, a, st, node)
            if d is True and name == 'index':
                return I(i)
            if d not in (True, False):
                return None
            ds.append(d)
        if name == 'count':
            return I(sum(ds))
        raise Raised(App('exc', K('ValueError'), K('not in list')), self.where(node))

    def rev_items(self, items):
        return tuple(Spread(x.src, tuple(reversed(x.bodies)), not x.rev, x.filt)
                     if isinstance(x, Spread) else x for x in reversed(items))

    def dict_method(self, r, o, name, args, kw, st, node):
        if name == '__getitem__' and len(args) == 1:
            return self.getitem(r, args[0], st, node)
        if name in ('get', 'pop', 'setdefault'):
            k = args[0]
            if not isinstance(k, (K, Lin)):
                k = self.res(k, st)
            ky, found = self.dkey(o, k, st, node)
            if found:
                k = ky
            if k in o.d and isinstance(self.res(o.d[k], st), Ite) is False and self.res(o.d[k], st) is not ABSENT:
                v = self.res(o.d[k], st)
                if name == 'pop':
                    d = dict(o.d)
                    del d[k]
                    self.setobj(st, r, DictO(d, o.rest))
                return v
            if found is False or found and self.res(o.d[k], st) is ABSENT:
                if len(args) > 1 or name in ('get', 'setdefault'):
                    dv = args[1] if len(args) > 1 else K(None)
                    if name == 'setdefault':
                        d = dict(o.d)
                        d[k] = dv
                        self.setobj(st, r, DictO(d, o.rest))
                    return dv
                raise Raised(App('exc', K('KeyError'), k), self.where(node))
            if k in o.d:   # gated presence
                v = self.res(o.d[k], st)
                if isinstance(v, Ite) and (v.a is ABSENT or v.b is ABSENT):
                    dv = args[1] if len(args) > 1 else (K(None) if name == 'get' else None)
                    if dv is None:
                        raise Unsupported('pop of possibly missing key')
                    if name == 'pop':
                        d = dict(o.d)
                        del d[k]
                        self.setobj(st, r, DictO(d, o.rest))
                    return self.mkite(v.c, dv if v.a is ABSENT else v.a, dv if v.b is ABSENT else v.b)
            if name == 'get':
                return App('dictget', self.reify(r, st), *args)
            raise Unsupported(f'dict.{name} with unknown key')
        if name == 'items' and o.rest is None:
            return self.new(st, ListO([Tup((k, x)) for k, x in o.d.items() if x is not ABSENT]))
        if name == 'keys' and o.rest is None:
            return self.new(st, ListO([k for k, x in o.d.items() if x is not ABSENT]))
        if name == 'values' and o.rest is None:
            return self.new(st, ListO([x for k, x in o.d.items() if x is not ABSENT]))
        if name == 'copy':
            return self.new(st, DictO(o.d, o.rest))
        if name == 'clear' and not args:
            self.setobj(st, r, DictO({}))
            return K(None)
        if name == 'popitem' and not args and o.rest is None and o.d and not any(x is ABSENT for x in o.d.values()):
            d = dict(o.d)
            k, v = d.popitem()
            v = self.res(v, st)
            if not isinstance(v, Ite):
                self.setobj(st, r, DictO(d))
                return Tup([k, v])
        if name == 'update':
            d = dict(o.d)
            rest = o.rest
            for a in args:
                ao = self.obj(st, self.res(a, st)) if isinstance(self.res(a, st), Ref) else None
                if isinstance(ao, DictO):
                    d.update(ao.d)
                    rest = rest or ao.rest
                else:
                    rest = App('update', rest or K(None), a)
            d.update({K(k): x for k, x in kw.items()})
            self.setobj(st, r, DictO(d, rest))
            return K(None)
        if name in ('items', 'keys', 'values'):
            return App('.' + name, self.reify(r, st))
        raise Unsupported(f'dict.{name}')

    def concat_method(self, r, name, s, st):
        """Methods of a text whose beginning or end is known."""
        lit = lambda x: x.v if isinstance(x, K) and isinstance(x.v, str) else ''
        a, z = lit(r.args[0]), lit(r.args[-1])
        if name == 'startswith':
            if a.startswith(s):
                return K(True)
            if not s.startswith(a):
                return K(False)
        if name == 'endswith':
            if z.endswith(s):
                return K(True)
            if not s.endswith(z):
                return K(False)
        if name == 'split' and s and s in a:
            src = App('.split', App('str+', K(a.split(s)[-1]), *r.args[1:], typ=('str',)), K(s), typ=('list', ('str',)))
            return self.new(st, ListO((*[K(x) for x in a.split(s)[:-1]], Spread(src, (Sym(('elem', src), ('str',)),)))))
        return None

    def str_method(self, r, name, args, kw, st, node):
        if name == 'format' and not kw:
            import string
            try:
                parts, auto = [], 0
                for lit, fld, spec, conv in string.Formatter().parse(r.v):
                    parts.append(K(lit))
                    if fld is None:
                        continue
                    if spec or conv:
                        raise ValueError
                    if fld == '':
                        fld, auto = str(auto), auto + 1
                    parts.append(self.tostr(args[int(fld)], st))
                return self.mkstr(parts)
            except (ValueError, IndexError):
                pass
        if all(isinstance(a, K) or isinstance(a, Lin) and a.const is not None for a in args) and not kw \
                and name in STR_METHODS and name not in ('format', 'join', 'encode'):
            try:
                v = getattr(r.v, name)(*[a.v if isinstance(a, K) else a.const for a in args])
            except Exception:
                raise Unsupported(f'str.{name}')
            return self.from_py(v, st)
        if name == 'translate' and len(args) == 1 and isinstance(r, K):
            o = self.obj(st, self.res(args[0], st)) if isinstance(self.res(args[0], st), Ref) else None
            if isinstance(o, DictO):
                try:
                    t = {k.const if isinstance(k, Lin) else k.v: x.v if isinstance(x, K) else x.const
                         for k, x in ((k, self.res(x, st)) for k, x in o.d.items())}
                    return K(r.v.translate(t))
                except AttributeError:
                    pass
        if name == 'join':
            its = self.items(args[0], st, node)
            if not any(isinstance(x, Spread) for x in its):
                parts = []
                for i, x in enumerate(its):
                    if i:
                        parts.append(r)
                    parts.append(x)
                return self.mkstr(parts)
            return App('.join', r, App('seq', *[self.reify(x, st) for x in its]), typ=('str',))
        return App('.' + name, r, *[self.reify(a, st) for a in args], typ=('str',))

    def from_py(self, v, st):
        if isinstance(v, bool) or v is None or isinstance(v, (str, float, bytes, complex)):
            return K(v)
        if isinstance(v, int):
            return I(v)
        if isinstance(v, tuple):
            return Tup([self.from_py(x, st) for x in v])
        if isinstance(v, list):
            return self.new(st, ListO([self.from_py(x, st) for x in v]))
        raise Unsupported('constant')

    def mkstr(self, parts):
        out = []
        for p in parts:
            if isinstance(p, App) and p.op == 'str+':
                out.extend(p.args)
            else:
                out.append(p)
        m = []
        for p in out:
            if isinstance(p, K) and isinstance(p.v, str):
                if p.v == '':
                    continue
                if m and isinstance(m[-1], K) and isinstance(m[-1].v, str):
                    m[-1] = K(m[-1].v + p.v)
                    continue
            m.append(p)
        if not m:
            return K('')
        if len(m) == 1 and (isinstance(m[0], K) or getattr(m[0], 'typ', ANY)[0] == 'str'):
            return m[0]
        return App('str+', *m, typ=('str',))

    def tostr(self, v, st):
        v = self.res(v, st)
        if isinstance(v, K):
            return K(str(v.v))
        if isinstance(v, Lin) and v.const is not None:
            return K(str(v.const))
        if isinstance(v, (Sym, App)) and v.typ[0] == 'str':
            return v
        if getattr(self, 'repr_on', False) and isinstance(v, Ref) and isinstance(self.obj(st, v), InstO):
            m = self.obj(st, v).cls.find_method('__str__')
            if m is not None:
                return self.call(BoundV(FnV(m), v), [], {}, st, None)
            return self.x_repr([v], {}, st, None)
        return App('tostr', self.reify(v, st), typ=('str',))


import builtins as _b
BUILTINS = set(dir(_b))


def free_names(node):
    bound, used = set(), set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            (used if isinstance(n.ctx, ast.Load) else bound).add(n.id)
        elif isinstance(n, ast.arg):
            bound.add(n.arg)
    return used - bound
