"""Abstract values: Herbrand terms, linear integers, free-pregroup types."""
from __future__ import annotations
from .project import ClassInfo


class V:
    __slots__ = ('_k', '_h')

    def key(self):
        raise NotImplementedError

    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((type(self).__name__, self.key()))
            return self._h

    def __repr__(self):
        return show(self)


class K(V):
    """Python constant (not int; ints are Lin, except bool)."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def key(self):
        return (type(self.v).__name__, self.v)


class Lin(V):
    """const + sum coef*atom; atoms are V."""
    __slots__ = ('c', 't')

    def __init__(self, c, t=()):
        self.c = c
        self.t = tuple(sorted(((a, k) for a, k in t if k != 0),
                              key=lambda x: repr(x[0])))

    def key(self):
        return (self.c, self.t)

    @property
    def const(self):
        return self.c if not self.t else None

    def __add__(self, o):
        d = dict(self.t)
        for a, k in o.t:
            d[a] = d.get(a, 0) + k
        return Lin(self.c + o.c, d.items())

    def __neg__(self):
        return Lin(-self.c, [(a, -k) for a, k in self.t])

    def __sub__(self, o):
        return self + (-o)

    def scale(self, n):
        return Lin(self.c * n, [(a, k * n) for a, k in self.t])

    def parity(self):
        if all(k % 2 == 0 for _, k in self.t):
            return self.c % 2
        return None


def I(n):
    return Lin(n)


class Sym(V):
    """Unknown value.  path: hashable tuple; typ: TypeDesc."""
    __slots__ = ('path', 'typ')

    def __init__(self, path, typ=('any',)):
        self.path = path if isinstance(path, tuple) else (path,)
        self.typ = typ

    def key(self):
        return self.path


class App(V):
    __slots__ = ('op', 'args', 'typ')

    def __init__(self, op, *args, typ=('any',)):
        self.op, self.args, self.typ = op, args, typ

    def key(self):
        return (self.op, self.args)


class Tup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def key(self):
        return self.items


class Spread(V):
    """Zero or more values: for the generic element `elem(src)` of src
    (in src order, or reversed), the values `bodies` in turn."""
    __slots__ = ('src', 'bodies', 'rev', 'filt')

    def __init__(self, src, bodies, rev=False, filt=None):
        self.src, self.bodies, self.rev, self.filt = src, tuple(bodies), rev, filt

    def key(self):
        return (self.src, self.bodies, self.rev, self.filt)


class Ite(V):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def key(self):
        return (self.c, self.a, self.b)


class Ref(V):
    __slots__ = ('addr',)

    def __init__(self, addr):
        self.addr = addr

    def key(self):
        return self.addr


class FnV(V):
    """Closure: node (FunctionDef/Lambda), module, env frame id, owner."""
    __slots__ = ('info', 'frame', 'uid')

    def __init__(self, info, frame=None):
        self.info, self.frame = info, frame

    def key(self):
        return (id(self.info.node), self.frame)


class BoundV(V):
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def key(self):
        return (self.fn, self.self)


class OpMeth(V):
    """Method `name` of an abstract value, not resolved to a definition."""
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def key(self):
        return (self.recv, self.name)


class ClsV(V):
    __slots__ = ('cls',)

    def __init__(self, cls):
        self.cls = cls

    def key(self):
        return self.cls.qual


class ModV(V):
    __slots__ = ('mod',)

    def __init__(self, mod):
        self.mod = mod

    def key(self):
        return self.mod.name


class ExtV(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return self.name


class CatV(V):
    """A lambeq Category object."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return self.name


class SuperV(V):
    __slots__ = ('after', 'self')

    def __init__(self, after, self_):
        self.after, self.self = after, self_

    def key(self):
        return (self.after.qual, self.self)


class PartialV(V):
    __slots__ = ('fn', 'args', 'kw')

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, tuple(args), tuple(sorted(kw.items()))

    def key(self):
        return (self.fn, self.args, self.kw)


# --------------------------------------------------------------------------
# free pregroup types
class Gen(V):
    """Slice [lo:hi) of a generator type of length n, rotated by z."""
    __slots__ = ('name', 'n', 'lo', 'hi', 'z')

    def __init__(self, name, n, z=None, lo=None, hi=None):
        self.name = name
        self.n = n
        self.z = z if z is not None else I(0)
        if isinstance(name, tuple) and name and name[0] == 'sd':
            # self-dual wires (tensor and quantum types): rotating a single
            # wire does nothing, rotating several reverses their order
            if (n.const == 1) or (lo is not None and hi is not None and (hi - lo).const == 1):
                self.z = I(0)
            elif self.z.parity() is not None:
                self.z = I(self.z.parity())
        self.lo = lo if lo is not None else I(0)
        self.hi = hi if hi is not None else n

    def key(self):
        return (self.name, self.n, self.lo, self.hi, self.z)

    @property
    def length(self):
        return self.hi - self.lo

    @property
    def atomic(self):
        return self.length.const == 1

    def with_(self, z=None, lo=None, hi=None):
        return Gen(self.name, self.n, z if z is not None else self.z,
                   lo if lo is not None else self.lo,
                   hi if hi is not None else self.hi)


class Prod(V):
    """Product over the generic element of src of a type (body)."""
    __slots__ = ('src', 'body', 'rev')

    def __init__(self, src, body, rev=False):
        self.src, self.body, self.rev = src, body, rev

    def key(self):
        return (self.src, self.body, self.rev)

    @property
    def length(self):
        return Lin(0, [(App('len', self), 1)])


class RotF(V):
    """(type)^z for a z of unknown parity."""
    __slots__ = ('ty', 'z')

    def __init__(self, ty, z):
        self.ty, self.z = ty, z

    def key(self):
        return (self.ty, self.z)

    @property
    def length(self):
        return self.ty.length


class TyV(V):
    __slots__ = ('f',)

    def __init__(self, factors=()):
        self.f = ty_norm(tuple(factors))

    def key(self):
        return self.f

    @property
    def length(self):
        s = I(0)
        for x in self.f:
            s = s + x.length
        return s

    def __matmul__(self, o):
        return TyV(self.f + o.f)

    def rotate(self, z: Lin):
        if z.const == 0 or not self.f:
            return self
        p = z.parity()
        if p is None:
            if len(self.f) == 1 and isinstance(self.f[0], Gen):
                g = self.f[0]
                return TyV((g.with_(z=g.z + z),))
            if len(self.f) == 1 and isinstance(self.f[0], RotF):
                r = self.f[0]
                return r.ty.rotate(r.z + z)
            return TyV((RotF(self, z),))
        out = []
        for x in (reversed(self.f) if p else self.f):
            if isinstance(x, Gen):
                out.append(x.with_(z=x.z + z))
            elif isinstance(x, Prod):
                out.append(Prod(x.src, x.body.rotate(z), x.rev ^ bool(p)))
            elif isinstance(x, RotF):
                out.extend(x.ty.rotate(x.z + z).f)
        return TyV(out)

    def unwound(self):
        return self


def ty_norm(fs):
    out = []
    for x in fs:
        if isinstance(x, RotF) and x.z.const == 0:
            out.extend(x.ty.f)
            continue
        if isinstance(x, Gen):
            if (x.hi - x.lo).const == 0:
                continue
            if out and isinstance(out[-1], Gen):
                p = out[-1]
                if p.name == x.name and p.z == x.z and p.n == x.n:
                    par = x.z.parity()
                    if par == 0 and p.hi == x.lo:
                        out[-1] = p.with_(hi=x.hi)
                        continue
                    if par == 1 and x.hi == p.lo:
                        out[-1] = p.with_(lo=x.lo)
                        continue
        out.append(x)
    return tuple(out)


class DgV(V):
    """A diagram known by its boundary; `src` says where it came from."""
    __slots__ = ('dom', 'cod', 'src')

    def __init__(self, dom, cod, src=None):
        self.dom, self.cod, self.src = dom, cod, src

    def key(self):
        return (self.dom, self.cod)


# --------------------------------------------------------------------------
# heap objects (immutable; updates replace them in the store)
class InstO:
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, dict(fields)

    def set(self, k, v):
        d = dict(self.fields)
        d[k] = v
        return InstO(self.cls, d)

    def __eq__(self, o):
        return isinstance(o, InstO) and self.cls is o.cls and self.fields == o.fields


class ListO:
    __slots__ = ('items', 'kind')

    def __init__(self, items, kind='list'):
        self.items, self.kind = tuple(items), kind

    def __eq__(self, o):
        return isinstance(o, ListO) and self.items == o.items and self.kind == o.kind


class DictO:
    """Known entries (insertion order) plus optional unknown rest."""
    __slots__ = ('d', 'rest')

    def __init__(self, d, rest=None):
        self.d, self.rest = dict(d), rest

    def __eq__(self, o):
        return (isinstance(o, DictO) and list(self.d.items()) == list(o.d.items())
                and self.rest == o.rest)


ABSENT = K('<absent>')


def show(v, depth=0):
    if depth > 6:
        return '…'
    s = lambda x: show(x, depth + 1)
    if isinstance(v, K):
        return repr(v.v)
    if isinstance(v, Lin):
        if not v.t:
            return str(v.c)
        parts = []
        for a, k in v.t:
            parts.append((('-' if k == -1 else '' if k == 1 else f'{k}*') + s(a)))
        if v.c:
            parts.append(str(v.c))
        return '+'.join(parts).replace('+-', '-')
    if isinstance(v, Sym):
        def p(x):
            if isinstance(x, tuple):
                if x and x[0] == 'attr':
                    return f'{p(x[1])}.{x[2]}'
                if x and x[0] == 'elem':
                    return f'each({p(x[1])})'
                if len(x) == 1:
                    return p(x[0])
                return '(' + ','.join(map(p, x)) + ')'
            return s(x) if isinstance(x, V) else str(x)
        return p(v.path)
    if isinstance(v, App):
        return f'{v.op}(' + ', '.join(s(a) if isinstance(a, V) else str(a) for a in v.args) + ')'
    if isinstance(v, Tup):
        return '(' + ', '.join(map(s, v.items)) + ')'
    if isinstance(v, Spread):
        return ('*[' + ', '.join(map(s, v.bodies)) + ' for ' +
                (('reversed ' if v.rev else '') + s(v.src)) +
                (' if ' + s(v.filt) if v.filt is not None else '') + ']')
    if isinstance(v, Ite):
        return f'({s(v.a)} if {s(v.c)} else {s(v.b)})'
    if isinstance(v, Ref):
        return f'@{v.addr}'
    if isinstance(v, FnV):
        return f'<fn {v.info.name}>'
    if isinstance(v, BoundV):
        return f'<bound {v.fn.info.name}>'
    if isinstance(v, OpMeth):
        return f'{s(v.recv)}.{v.name}'
    if isinstance(v, ClsV):
        return v.cls.name
    if isinstance(v, ModV):
        return v.mod.name
    if isinstance(v, (ExtV, CatV)):
        return v.name
    if isinstance(v, SuperV):
        return 'super()'
    if isinstance(v, PartialV):
        return f'partial({s(v.fn)})'
    if isinstance(v, Gen):
        if isinstance(v.name, tuple) and v.name and v.name[0] == 'sd':
            v = Gen(v.name[1], v.n, v.z, v.lo, v.hi)
        nm = v.name if isinstance(v.name, str) else show(v.name, depth + 1) if isinstance(v.name, V) else str(v.name)
        r = nm
        if not (v.lo.const == 0 and v.hi == v.n):
            r += f'[{s(v.lo)}:{s(v.hi)}]'
        if v.z.const is not None:
            r += ('.l' * -v.z.const) + ('.r' * v.z.const)
        else:
            r += f'^({s(v.z)})'
        return r
    if isinstance(v, Prod):
        return ('∏' + ('~' if v.rev else '') + f'({s(v.body)} for {s(v.src)})')
    if isinstance(v, RotF):
        return f'({s(v.ty)})^({s(v.z)})'
    if isinstance(v, TyV):
        return ' @ '.join(map(s, v.f)) if v.f else 'Ty()'
    if isinstance(v, DgV):
        return f'[{s(v.dom)} -> {s(v.cod)}]'
    return object.__repr__(v)


def has_opaque_ty(t: TyV):
    """Does the type contain parts the analysis has no exact term for?"""
    for x in t.f:
        if isinstance(x, RotF):
            return True
        if isinstance(x, Gen) and isinstance(x.name, tuple) and x.name:
            nm = x.name[1] if x.name[0] == 'sd' else x.name
            if isinstance(nm, tuple) and nm and nm[0] == 'opaque':
                return True
        if isinstance(x, Prod) and has_opaque_ty(x.body):
            return True
    return False
