"""Engine E1, second part: expressions, calls, statements, loops."""
from __future__ import annotations
import ast
from .absint import *          # noqa: F401,F403
from .absint import Interp, Store, Unsupported, Raised, Obligation, ANY
from .project import ClassInfo, FuncInfo, deco_name
from .values import *


class LoopCtl(Exception):
    pass


def frame_names(f):
    """The local names of a function that nothing can refer to after it returned."""
    r = FRAMES.get(f)
    if r is None:
        inner = any(isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.GeneratorExp, ast.ClassDef)) for b in f.body for n in ast.walk(b)) \
            if isinstance(f.body, list) else True
        r = FRAMES[f] = () if inner else tuple({n.id for b in f.body for n in ast.walk(b) if isinstance(n, ast.Name)}
                                               | {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)})
    return r


FRAMES: dict = {}


class Engine(Interp):

    # ======================= expressions ================================
    def eval(self, e, fid, mod, st):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Unsupported('analysis budget exceeded')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}', self.where(e))
        return m(e, fid, mod, st)

    def e_Constant(self, e, fid, mod, st):
        if e.value is Ellipsis:
            return K('...')
        return self.from_py(e.value, st)

    def e_Name(self, e, fid, mod, st):
        return self.load(e.id, fid, mod, st, e)

    def e_Attribute(self, e, fid, mod, st):
        v = self.eval(e.value, fid, mod, st)
        return self.getattr(v, e.attr, st, e)

    def e_Tuple(self, e, fid, mod, st):
        return Tup(self.elts(e.elts, fid, mod, st))

    def e_List(self, e, fid, mod, st):
        return self.new(st, ListO(self.elts(e.elts, fid, mod, st)))

    def e_Set(self, e, fid, mod, st):
        return self.new(st, ListO(self.elts(e.elts, fid, mod, st), 'set'))

    def elts(self, elts, fid, mod, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.items(self.eval(x.value, fid, mod, st), st, x))
            else:
                out.append(self.eval(x, fid, mod, st))
        return out

    def e_Dict(self, e, fid, mod, st):
        d, rest = {}, None
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.res(self.eval(v, fid, mod, st), st)
                o = self.obj(st, x) if isinstance(x, Ref) else None
                if isinstance(o, DictO):
                    d.update(o.d)
                    rest = rest or o.rest
                else:
                    rest = App('update', rest or K(None), x)
                continue
            kv = self.eval(k, fid, mod, st)
            self.dput(d, kv, self.eval(v, fid, mod, st), st, k)
        return self.new(st, DictO(d, rest))

    def e_JoinedStr(self, e, fid, mod, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                x = self.eval(v.value, fid, mod, st)
                if v.conversion == 114:
                    parts.append(self.x_repr([x], {}, st, v))
                elif v.format_spec is not None and isinstance(self.res(x, st), (K, Lin)) and (
                        isinstance(self.res(x, st), K) or self.res(x, st).const is not None) and isinstance(
                            spec := self.e_JoinedStr(v.format_spec, fid, mod, st), K):
                    x = self.res(x, st)
                    try:
                        parts.append(K(format(x.v if isinstance(x, K) else x.const, spec.v)))
                    except (TypeError, ValueError) as err:
                        raise Raised(App('exc', K(type(err).__name__), K(str(err))), self.where(v))
                elif v.format_spec is not None:
                    parts.append(App('format', self.reify(x, st), K(ast.dump(v.format_spec)), typ=('str',)))
                else:
                    parts.append(self.tostr(x, st))
        return self.mkstr(parts)

    def e_NamedExpr(self, e, fid, mod, st):
        v = self.eval(e.value, fid, mod, st)
        self.bind(e.target, v, fid, mod, st)
        return v

    def e_Lambda(self, e, fid, mod, st):
        return FnV(FuncInfo(e, mod, self.stack[-1][0].cls if self.stack else None), fid)

    def e_Starred(self, e, fid, mod, st):
        raise Unsupported('starred')

    def e_IfExp(self, e, fid, mod, st):
        c = self.decide(self.eval(e.test, fid, mod, st), st)
        if c is True:
            return self.eval(e.body, fid, mod, st)
        if c is False:
            return self.eval(e.orelse, fid, mod, st)
        return self.both(c, lambda s: self.eval(e.body, fid, mod, s),
                         lambda s: self.eval(e.orelse, fid, mod, s), st)

    def both(self, c, fa, fb, st):
        """Evaluate two alternatives under condition c and join."""
        g = st.guards
        s1, s2 = st.fork(), st.fork()
        self.assume(s1, c, True)
        self.assume(s2, c, False)
        a = b = None
        ra = rb = None
        try:
            a = fa(s1)
        except Raised as r:
            ra = r
        try:
            b = fb(s2)
        except Raised as r:
            rb = r
        if ra and rb:
            raise ra
        if ra:
            self.cond_raises[-1].append((c, True, ra, s1))
            s2.guards = g
            st.become(s2)
            return b
        if rb:
            self.cond_raises[-1].append((c, False, rb, s2))
            s1.guards = g
            st.become(s1)
            return a
        st.become(self.merge(c, s1, s2, g))
        return self.mkite(c, a, b)

    def e_BoolOp(self, e, fid, mod, st):
        isor = isinstance(e.op, ast.Or)

        def go(vals, s):
            v = self.eval(vals[0], fid, mod, s)
            if len(vals) == 1:
                return v
            d = self.decide(v, s)
            if d is isor:
                return v
            if d is (not isor):
                return go(vals[1:], s)
            if isor:
                r = self.both(d, lambda q: v, lambda q: go(vals[1:], q), s)
            else:
                r = self.both(d, lambda q: go(vals[1:], q), lambda q: v, s)
            # boolean-valued: build and/or terms for canonical conditions
            if isinstance(r, Ite) and self.boolean(v) and self.boolean(r.a if r.b == v else r.b):
                rest = r.b if isor else r.a
                if isinstance(r.c, V) and r.c == self.canon(v)[0]:
                    a1 = v
                    return App('or' if isor else 'and', *self.flat('or' if isor else 'and', a1, rest), typ=('bool',))
            return r
        return go(e.values, st)

    def flat(self, op, a, b):
        xs = list(a.args) if isinstance(a, App) and a.op == op else [a]
        ys = list(b.args) if isinstance(b, App) and b.op == op else [b]
        return xs + [y for y in ys if y not in xs]

    def boolean(self, v):
        if isinstance(v, K):
            return isinstance(v.v, bool)
        if isinstance(v, App):
            return v.op in ('==', 'not', 'and', 'or', 'in', 'isinstance', '<', '<=', 'any', 'all',
                            'nonempty', 'truth', 'is_atomic', 'is_complex') or v.typ[0] == 'bool'
        if isinstance(v, Sym):
            return v.typ[0] == 'bool'
        return False

    def e_UnaryOp(self, e, fid, mod, st):
        v = self.eval(e.operand, fid, mod, st)
        if isinstance(e.op, ast.Not):
            d = self.decide(v, st)
            if isinstance(d, bool):
                return K(not d)
            c, pol = self.canon(d)
            return App('not', c) if pol else c
        v = self.res(v, st)
        if isinstance(e.op, ast.USub):
            if isinstance(v, App) and v.op == 'neg':
                return v.args[0]
            c = self.class_of(v, st) if isinstance(v, (Ref, Sym, App)) else None
            if c is not None and c.find_method('__neg__') is not None and not self.is_enum(c):
                return self.call(self.getattr(v, '__neg__', st, e), [], {}, st, e)
            if isinstance(v, (Sym, App)) and v.typ[0] == 'real':
                return App('neg', v, typ=v.typ)
            if isinstance(v, K) and isinstance(v.v, (float, bool, complex)):
                return self.from_py(-v.v, st)
            i = self.as_int(v)
            if i is not None:
                i = -i
                if i.c == 0 and len(i.t) == 1 and i.t[0][1] == 1:
                    return i.t[0][0]        # -(-x)
                return i
            return App('neg', v)
        return App(type(e.op).__name__, v)

    BIN = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'MatMult': '__matmul__',
           'RShift': '__rshift__', 'LShift': '__lshift__', 'Pow': '__pow__', 'Mod': '__mod__',
           'FloorDiv': '__floordiv__', 'Div': '__truediv__', 'BitAnd': '__and__', 'BitOr': '__or__',
           'BitXor': '__xor__'}

    def e_BinOp(self, e, fid, mod, st):
        a = self.eval(e.left, fid, mod, st)
        b = self.eval(e.right, fid, mod, st)
        return self.binop(type(e.op).__name__, a, b, st, e)

    def binop(self, op, a, b, st, node, inplace=False):
        a, b = self.res(a, st), self.res(b, st)
        for x in (a, b):
            if isinstance(x, Ite) and self.kindly(x):
                c = x.c
                if x is a:
                    return self.both(c, lambda s: self.binop(op, x.a, b, s, node),
                                     lambda s: self.binop(op, x.b, b, s, node), st)
                return self.both(c, lambda s: self.binop(op, a, x.a, s, node),
                                 lambda s: self.binop(op, a, x.b, s, node), st)
        if isinstance(a, TyV) or isinstance(b, TyV) or isinstance(a, DgV) or isinstance(b, DgV):
            r = self.diag_binop(op, a, b, st, node)
            if r is not None:
                return r
        if self.dg and op in ('MatMult', 'RShift'):
            da, db = self.as_dg(a, st, node), self.as_dg(b, st, node)
            if da is not None and db is not None:
                return self.dg_tensor(da, db) if op == 'MatMult' else self.dg_then(da, db, st, node)
        # user-defined operators
        ca = self.class_of(a, st) if isinstance(a, (Ref, Sym, App)) else None
        if ca is not None and not self.is_enum(ca):
            m = ca.find_method(self.BIN[op])
            if m is not None:
                f = self.getattr(a, self.BIN[op], st, node)
                r = self.call(f, [b], {}, st, node)
                x = self.res(r, st)
                if not (isinstance(x, ExtV) and x.name.endswith('NotImplemented')):
                    return r
        cb = self.class_of(b, st) if isinstance(b, (Ref, Sym, App)) else None
        if cb is not None and not self.is_enum(cb):
            rn = '__r' + self.BIN[op][2:]
            m = cb.find_method(rn)
            if m is not None:
                return self.call(self.getattr(b, rn, st, node), [a], {}, st, node)
        oa = self.obj(st, a) if isinstance(a, Ref) else None
        ob = self.obj(st, b) if isinstance(b, Ref) else None
        if op == 'Add':
            if isinstance(oa, ListO) or isinstance(ob, ListO):
                if inplace and isinstance(oa, ListO):
                    self.setobj(st, a, ListO(oa.items + self.items(b, st, node), oa.kind))
                    return a
                return self.new(st, ListO(self.items(a, st, node) + self.items(b, st, node)))
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if self.strish(a) and self.strish(b):
                return self.mkstr([a, b])
        if op == 'Mult':
            for x, y, ox in ((a, b, oa), (b, a, ob)):
                if isinstance(y, Lin) and y.const is not None:
                    if isinstance(ox, ListO):
                        return self.new(st, ListO(ox.items * y.const))
                    if isinstance(x, Tup):
                        return Tup(x.items * y.const)
                if isinstance(ox, ListO) and len(ox.items) == 1 and not isinstance(ox.items[0], Spread):
                    src = App('range', y)
                    return self.new(st, ListO((Spread(src, (ox.items[0],)),)))
            if self.strish(a) and not self.strish(b):
                i = self.as_int(b)
                if i is not None and i.const is not None and isinstance(a, K):
                    return K(a.v * i.const)
                return App('str*', a, b, typ=('str',))
        la, lb = self.as_int(a), self.as_int(b)
        if isinstance(a, K) and isinstance(b, (K, Lin)) or isinstance(b, K) and isinstance(a, (K, Lin)):
            pa = a.v if isinstance(a, K) else a.const
            pb = b.v if isinstance(b, K) else b.const
            if isinstance(pa, (int, float, complex)) and isinstance(pb, (int, float, complex)):
                import operator as O
                f = {'Add': O.add, 'Sub': O.sub, 'Mult': O.mul, 'Div': O.truediv,
                     'Mod': O.mod, 'FloorDiv': O.floordiv, 'Pow': O.pow}.get(op)
                if f:
                    try:
                        return self.from_py(f(pa, pb), st)
                    except Exception:
                        pass
        if op == 'Div' and isinstance(a, Lin) and isinstance(b, Lin) and a.const is not None and b.const:
            return K(a.const / b.const)
        if la is not None and lb is not None and self.inty(a) and self.inty(b):
            if op == 'Add':
                return la + lb
            if op == 'Sub':
                return la - lb
            if op == 'Mult':
                if la.const is not None:
                    return lb.scale(la.const)
                if lb.const is not None:
                    return la.scale(lb.const)
            if op == 'Mod' and lb.const is not None and lb.const > 0:
                m = lb.const
                if all(k % m == 0 for _, k in la.t):
                    return I(la.c % m)
                return Lin(0, [(App('%', Lin(la.c % m, [(x, k % m) for x, k in la.t]), lb, typ=('nat',)), 1)])
            if op == 'FloorDiv' and la.const is not None and lb.const:
                return I(la.const // lb.const)
            if op == 'Pow' and la.const is not None and lb.const is not None and lb.const >= 0:
                return I(la.const ** lb.const)
            if op in ('LShift', 'RShift', 'BitAnd', 'BitOr', 'BitXor') and la.const is not None and lb.const is not None and lb.const >= 0:
                import operator as O
                return I({'LShift': O.lshift, 'RShift': O.rshift, 'BitAnd': O.and_, 'BitOr': O.or_, 'BitXor': O.xor}[op](la.const, lb.const))
        if isinstance(oa, DictO) and isinstance(ob, DictO) and op == 'BitOr':
            return self.new(st, DictO({**oa.d, **ob.d}, oa.rest or ob.rest))
        if op in ('Add', 'Sub', 'Mult') and all(isinstance(x, Lin) or isinstance(x, K) and isinstance(x.v, (int, float)) or isinstance(x, (Sym, App)) and x.typ[0] == 'real'
                                                for x in (a, b)):
            return App(op, a, b, typ=('real',))
        return App(op, self.reify(a, st), self.reify(b, st))

    def kindly(self, ite):
        return True

    def inty(self, v):
        return isinstance(v, Lin) or isinstance(v, K) and isinstance(v.v, bool) or \
            isinstance(v, (Sym, App)) and v.typ[0] in ('int', 'nat', 'bool')

    def strish(self, v):
        return isinstance(v, K) and isinstance(v.v, str) or \
            isinstance(v, (Sym, App)) and v.typ[0] == 'str'

    def diag_binop(self, op, a, b, st, node):
        if op == 'MatMult':
            if isinstance(a, TyV) and isinstance(b, TyV):
                return a @ b
            da, db = self.as_dg(a, st, node), self.as_dg(b, st, node)
            if da is not None and db is not None:
                return self.dg_method(da, 'tensor', [db], {}, st, node)
        if op == 'RShift':
            if isinstance(a, TyV) and isinstance(b, TyV):
                return a.rotate(I(1)) @ b
            da, db = self.as_dg(a, st, node), self.as_dg(b, st, node)
            if da is not None and db is not None:
                return self.dg_method(da, 'then', [db], {}, st, node)
        if op == 'LShift' and isinstance(a, TyV) and isinstance(b, TyV):
            return a @ b.rotate(I(-1))
        if op == 'Pow' and isinstance(a, TyV):
            return self.ty_pow(a, b)
        return None

    def e_Compare(self, e, fid, mod, st):
        left = self.eval(e.left, fid, mod, st)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fid, mod, st)
            v = self.compare(type(op).__name__, left, right, st, e)
            if out is None:
                out = v
            else:
                d1, d2 = self.decide(out, st), self.decide(v, st)
                if d1 is False or d2 is False:
                    out = K(False)
                elif d1 is True:
                    out = v
                elif d2 is True:
                    pass
                else:
                    out = App('and', *self.flat('and', d1, d2), typ=('bool',))
            left = right
        return out

    def truthval(self, d):
        return K(d) if isinstance(d, bool) else d

    def compare(self, op, a, b, st, node):
        a, b = self.res(a, st), self.res(b, st)
        if op in ('Eq', 'NotEq'):
            d = self.user_eq(a, b, st, node)
            if op == 'Eq':
                return self.truthval(d)
            if isinstance(d, bool):
                return K(not d)
            c, pol = self.canon(d)
            return App('not', c) if pol else c
        if op in ('Is', 'IsNot'):
            if isinstance(a, Ref) and isinstance(b, Ref):
                d = (a == b)
            elif isinstance(a, Ref) and isinstance(b, (K, Lin, TyV, DgV, ClsV)) or \
                    isinstance(b, Ref) and isinstance(a, (K, Lin, TyV, DgV, ClsV)):
                d = False
            elif isinstance(a, (TyV, DgV, FnV, BoundV)) and isinstance(b, K) or \
                    isinstance(b, (TyV, DgV, FnV, BoundV)) and isinstance(a, K):
                d = False
            else:
                d = self.eq(a, b, st)
            if op == 'Is':
                return self.truthval(d)
            if isinstance(d, bool):
                return K(not d)
            c, pol = self.canon(d)
            return App('not', c) if pol else c
        if op in ('In', 'NotIn'):
            d = self.contains(a, b, st, node)
            if op == 'In':
                return self.truthval(d)
            if isinstance(d, bool):
                return K(not d)
            c, pol = self.canon(d)
            return App('not', c) if pol else c
        if op in ('Lt', 'Gt', 'LtE', 'GtE') and isinstance(a, Ref) and isinstance(self.obj(st, a), InstO):
            m = self.obj(st, a).cls.find_method({'Lt': '__lt__', 'Gt': '__gt__', 'LtE': '__le__', 'GtE': '__ge__'}[op])
            if m is not None:
                return self.call(BoundV(FnV(m), a), [b], {}, st, node)
        if op in ('Lt', 'Gt', 'LtE', 'GtE') and isinstance(a, Tup) and isinstance(b, Tup) \
                and not any(isinstance(x, Spread) for x in a.items + b.items):
            for x, y in zip(a.items, b.items):
                d = self.user_eq(x, y, st, node)
                if d is False:
                    return self.compare(op, x, y, st, node)
                if d is not True:
                    break
            else:
                return K({'Lt': len(a.items) < len(b.items), 'Gt': len(a.items) > len(b.items),
                          'LtE': len(a.items) <= len(b.items), 'GtE': len(a.items) >= len(b.items)}[op])
        if op in ('Lt', 'Gt', 'LtE', 'GtE'):
            na, nb = self.number(a), self.number(b)
            if na is not None and nb is not None and (isinstance(na, float) or isinstance(nb, float)):
                return K({'Lt': na < nb, 'Gt': na > nb, 'LtE': na <= nb, 'GtE': na >= nb}[op])
        la, lb = self.as_int(a), self.as_int(b)
        if la is not None and lb is not None:
            if op in ('Gt', 'GtE'):
                la, lb = lb, la
                op = {'Gt': 'Lt', 'GtE': 'LtE'}[op]
            s = self.sign(lb - la)
            if op == 'Lt':
                if s == '+':
                    return K(True)
                if s in ('0', '-', '0-'):
                    return K(False)
                f = self._fact_or(App('<', la, lb), st)
                return self.truthval(f)
            if s in ('+', '0', '0+'):
                return K(True)
            if s == '-':
                return K(False)
            f = self._fact_or(App('<', lb, la), st)     # a<=b  ==  not b<a
            return K(not f) if isinstance(f, bool) else App('not', f)
        if isinstance(a, K) and isinstance(b, K):
            try:
                return K({'Lt': a.v < b.v, 'LtE': a.v <= b.v, 'Gt': a.v > b.v, 'GtE': a.v >= b.v}[op])
            except TypeError:
                pass
        ra, rb = self.reify(a, st), self.reify(b, st)
        if op in ('Gt', 'GtE'):
            ra, rb = rb, ra
            op = {'Gt': 'Lt', 'GtE': 'LtE'}[op]
        return self.truthval(self._fact_or(App({'Lt': '<', 'LtE': '<='}[op], ra, rb), st))

    def user_eq(self, a, b, st, node, depth=0):
        """`a == b` as Python evaluates it: the class's __eq__, the one the
        dataclass decorator generates, or equality of values."""
        a, b = self.res(a, st), self.res(b, st)
        if a == b:
            return True
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, Ite):
                u, v = self.user_eq(x.a, y, st, node, depth), self.user_eq(x.b, y, st, node, depth)
                if isinstance(u, bool) and u is v:
                    return u
                return self.eq(a, b, st)
        if depth > 8:
            return self.eq(a, b, st)
        oa = self.obj(st, a) if isinstance(a, Ref) else None
        ob = self.obj(st, b) if isinstance(b, Ref) else None
        if isinstance(oa, InstO):
            own = oa.cls.dc_owner('eq')
            if own is None:
                if isinstance(ob, InstO) and ob.cls.dc_owner('eq') is None and not oa.cls.ext_bases and not ob.cls.ext_bases:
                    return False
                if not isinstance(b, Ref) and isinstance(b, K):
                    return False
                return self.eq(a, b, st)
            if isinstance(own[1], ast.Attribute) and own[1].attr == '__eq__':     # __eq__ = Other.__eq__
                k = self.p.resolve_expr(own[1].value, own[0].module)
                if isinstance(k, ClassInfo) and k.dc_owner('eq') is not None:
                    own = k.dc_owner('eq')
            if own[1] == 'generated':
                if isinstance(b, (K, Lin, Tup, ClsV)):
                    return False
                if isinstance(ob, InstO):
                    if ob.cls is not oa.cls:
                        if ob.cls.dc_owner('eq') is not None and (ob.cls.dc_owner('eq')[1] == 'generated' or isinstance(
                                ob.cls.dc_owner('eq')[1], ast.Attribute) and ob.cls.dc_owner('eq')[1].attr == '__eq__'):
                            return False
                        if ob.cls.dc_owner('eq') is not None and isinstance(ob.cls.dc_owner('eq')[1], FuncInfo):
                            return self.user_eq(b, a, st, node, depth + 1)     # the reflected __eq__
                        return self.eq(a, b, st)
                    fs = [f.name for f in own[0].dc_fields() if getattr(f, 'compare', True) and not getattr(f, 'initvar', False)]
                    return self.all_eq([(self.getattr(a, f, st, node), self.getattr(b, f, st, node)) for f in fs], st, node, depth)
                return self.eq(a, b, st)
            if isinstance(own[1], FuncInfo) and self.user_eq_on:
                if isinstance(b, (K, Lin, ClsV)) and any(isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'isinstance'
                                                        for n in ast.walk(own[1].node)):
                    pass
                try:
                    r = self.call(BoundV(FnV(own[1]), a), [b], {}, st, node)
                except Unsupported:
                    return self.eq(a, b, st)
                r = self.res(r, st)
                if isinstance(r, ExtV) and r.name.endswith('NotImplemented'):
                    return False
                return self.decide(r, st)
            if isinstance(b, K):
                return False
            return self.eq(a, b, st)
        if isinstance(ob, InstO) and isinstance(a, (K, Lin)):
            return self.user_eq(b, a, st, node, depth)
        if isinstance(oa, ListO) and isinstance(ob, ListO) and oa.kind == ob.kind and oa.kind in ('list', 'tuple') \
                and not any(isinstance(x, Spread) for x in oa.items + ob.items):
            if len(oa.items) != len(ob.items):
                return False
            return self.all_eq(list(zip(oa.items, ob.items)), st, node, depth)
        if isinstance(oa, ListO) and isinstance(ob, ListO) and {oa.kind, ob.kind} <= {'set', 'frozenset'} \
                and not any(isinstance(x, Spread) for x in oa.items + ob.items) and len(oa.items) * len(ob.items) <= 100:
            for xs, ys in ((oa.items, ob.items), (ob.items, oa.items)):
                for x in xs:
                    ds = [self.user_eq(x, y, st, node, depth + 1) for y in ys]
                    if True in ds:
                        continue
                    if any(d is not False for d in ds):
                        return self.eq(a, b, st)
                    return False
            return True
        if isinstance(a, Tup) and isinstance(b, Tup) and not any(isinstance(x, Spread) for x in a.items + b.items):
            if len(a.items) != len(b.items):
                return False
            return self.all_eq(list(zip(a.items, b.items)), st, node, depth)
        return self.eq(a, b, st)

    user_eq_on = True

    def all_eq(self, pairs, st, node, depth):
        unk = []
        for x, y in pairs:
            d = self.user_eq(x, y, st, node, depth + 1)
            if d is False:
                return False
            if d is not True:
                unk.append(d)
        if not unk:
            return True
        if len(unk) == 1:
            return self._fact_or(unk[0], st)
        return self._fact_or(App('and', *unk, typ=('bool',)), st)

    def dkey(self, o, k, st, node):
        """The key of dict object `o` that equals `k`: (key, True), (None,
        False) if there is none, (None, None) if that is not known."""
        if k in o.d:
            return k, True
        unk = o.rest is not None
        for x in o.d:
            if isinstance(x, (K, Lin)) and isinstance(k, (K, Lin)) and all(
                    isinstance(y, K) or y.const is not None for y in (x, k)):
                continue
            r = self.user_eq(x, k, st, node)
            if r is True:
                return x, True
            if r is not False:
                unk = True
        return None, (None if unk else False)

    def dput(self, d, k, v, st, node):
        k = self.res(k, st)
        if isinstance(k, Ref):
            x, found = self.dkey(DictO(d), k, st, node)
            if found:
                k = x
        d[k] = v

    def contains(self, a, b, st, node):
        b = self.res(b, st)
        if isinstance(b, Ite):
            x, y = self.contains(a, b.a, st, node), self.contains(a, b.b, st, node)
            if isinstance(x, bool) and x is y:
                return x
            if isinstance(x, bool) and isinstance(y, bool):
                f = self._fact_or(b.c, st)
                return (f if x else not f) if isinstance(f, bool) else f if x else App('not', f)
            return self._fact_or(App('in', self.reify(a, st), self.reify(b, st)), st)
        if isinstance(b, Ref) and isinstance(self.obj(st, b), InstO) and self.obj(st, b).cls.find_method('__contains__') is not None:
            return self.decide(self.call(self.getattr(b, '__contains__', st, node), [a], {}, st, node), st)
        if isinstance(b, Ref) and isinstance(self.obj(st, b), DictO):
            o = self.obj(st, b)
            a = self.res(a, st)
            ky, found = self.dkey(o, a, st, node)
            if found:
                x = self.res(o.d[ky], st)
                if x is ABSENT:
                    return False
                if isinstance(x, Ite) and x.b is ABSENT:
                    return self._fact_or(x.c, st)
                if isinstance(x, Ite) and x.a is ABSENT:
                    f = self._fact_or(x.c, st)
                    return (not f) if isinstance(f, bool) else App('not', f)
                return True
            if found is False:
                return False
            return self._fact_or(App('in', self.reify(a, st), self.reify(b, st)), st)
        if isinstance(b, K) and isinstance(b.v, str):
            if isinstance(a, K) and isinstance(a.v, str):
                return a.v in b.v
            return self._fact_or(App('in', self.reify(a, st), b), st)
        if isinstance(b, TyV) and isinstance(a, TyV):
            its = self.ty_items(b)
        else:
            try:
                its = self.items(b, st, node)
            except Unsupported:
                return self._fact_or(App('in', self.reify(a, st), self.reify(b, st)), st)
        unk = []
        for x in its:
            if isinstance(x, Spread):
                unk.append(App('in', self.reify(a, st), self.reify(x, st)))
                continue
            d = self.user_eq(a, x, st, node)
            if d is True:
                return True
            if d is not False:
                unk.append(d)
        if not unk:
            return False
        if len(unk) == 1:
            return self._fact_or(unk[0], st)
        return self._fact_or(App('or', *unk, typ=('bool',)), st)

    def e_Subscript(self, e, fid, mod, st):
        v = self.eval(e.value, fid, mod, st)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, fid, mod, st) if e.slice.lower else None
            hi = self.eval(e.slice.upper, fid, mod, st) if e.slice.upper else None
            step = self.eval(e.slice.step, fid, mod, st) if e.slice.step else None
            return self.slice(v, lo, hi, step, st, e)
        i = self.eval(e.slice, fid, mod, st)
        return self.getitem(v, i, st, e)

    def slice(self, v, lo, hi, step, st, node):
        v = self.res(v, st)
        lo, hi, step = (None if x is None or self.res(x, st) == K(None) else x for x in (lo, hi, step))
        if isinstance(v, Ite):
            return self.both(v.c, lambda s: self.slice(v.a, lo, hi, step, s, node),
                             lambda s: self.slice(v.b, lo, hi, step, s, node), st)
        if isinstance(v, TyV) and step is None:
            return self.ty_slice(v, lo, hi, st)
        if isinstance(v, Ref) and isinstance(self.obj(st, v), InstO):
            return self.getitem(v, App('sliceobj', lo or K(None), hi or K(None), step or K(None)), st, node)
        if step is not None:
            if isinstance(step, Lin) and step.const == -1 and lo is None and hi is None:
                its = self.rev_items(self.items(v, st, node))
                return Tup(its) if isinstance(v, Tup) else self.new(st, ListO(its))
            if isinstance(step, Lin) and step.const and all(x is None or isinstance(x, Lin) and x.const is not None
                                                            for x in (lo, hi)):
                if isinstance(v, Tup) or isinstance(v, Ref) and isinstance(self.obj(st, v), ListO):
                    its = self.items(v, st, node)
                    if not any(isinstance(x, Spread) for x in its):
                        its = its[None if lo is None else lo.const:None if hi is None else hi.const:step.const]
                        return Tup(its) if isinstance(v, Tup) else self.new(st, ListO(its))
            return App('slice', self.reify(v, st), lo or K(None), hi or K(None), step)
        if isinstance(v, DgV):
            return App('slice', v, v.src or K(None), lo or K(None), hi or K(None))
        islist = isinstance(v, Tup) or isinstance(v, Ref) and isinstance(self.obj(st, v), ListO)
        if islist:
            its = self.items(v, st, node)
            n = len(its)
            l = lo.const if isinstance(lo, Lin) else (0 if lo is None else None)
            h = hi.const if isinstance(hi, Lin) else (n if hi is None else None)
            sp = [i for i, x in enumerate(its) if isinstance(x, Spread)]
            if l is not None and h is not None or (lo is None or hi is None):
                ok = None
                if not sp and l is not None and h is not None:
                    ok = its[l:h] if hi is not None else its[l:]
                elif sp:
                    # prefix before the first spread / suffix after the last
                    if hi is None and l is not None and 0 <= l <= sp[0]:
                        ok = its[l:]
                    elif hi is None and l is not None and l < 0 and -l <= n - 1 - sp[-1]:
                        ok = its[l:]
                    elif lo is None and h is not None and 0 <= h <= sp[0]:
                        ok = its[:h]
                    elif lo is None and h is not None and h < 0 and -h <= n - 1 - sp[-1]:
                        ok = its[:h]
                    elif l is not None and h is not None and hi is not None and 0 <= l <= sp[0] and h < 0 \
                            and -h <= n - 1 - sp[-1]:
                        ok = its[l:h]
                if ok is not None:
                    return Tup(ok) if isinstance(v, Tup) else self.new(st, ListO(ok))
        if isinstance(v, K) and isinstance(v.v, str):
            l = lo.const if isinstance(lo, Lin) else None
            h = hi.const if isinstance(hi, Lin) else None
            if (lo is None or l is not None) and (hi is None or h is not None):
                return K(v.v[l:h])
        r = App('slice', self.reify(v, st), lo or K(None), hi or K(None))
        if isinstance(v, (Sym, App)) and v.typ[0] == 'str':
            r.typ = ('str',)
        return r

    def getitem(self, v, i, st, node):
        v, i = self.res(v, st), self.res(i, st)
        if isinstance(v, Ite):
            return self.both(v.c, lambda s: self.getitem(v.a, i, s, node),
                             lambda s: self.getitem(v.b, i, s, node), st)
        if isinstance(i, App) and i.op == 'sliceobj' and not (
                isinstance(v, Ref) and isinstance(self.obj(st, v), InstO)):
            return self.slice(v, *i.args, st, node)
        if isinstance(v, TyV):
            if isinstance(i, Lin):
                if self.sign(i) in ('-', '0-') and i.const != 0:
                    i = v.length + i
                return self.ty_slice(v, i, i + I(1), st)
            raise Unsupported('type index')
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, DictO):
                if isinstance(i, Ite):
                    return self.both(i.c, lambda s: self.getitem(v, i.a, s, node),
                                     lambda s: self.getitem(v, i.b, s, node), st)
                ky, found = self.dkey(o, i, st, node)
                if found:
                    x = self.res(o.d[ky], st)
                    if x is ABSENT:
                        raise Raised(App('exc', K('KeyError'), i), self.where(node))
                    if isinstance(x, Ite) and (x.a is ABSENT or x.b is ABSENT):
                        pol = x.b is ABSENT
                        s2 = st.fork()
                        self.assume(s2, x.c, not pol)
                        self.cond_raises[-1].append((x.c, not pol, Raised(App('exc', K('KeyError'), i), self.where(node)), s2))
                        self.assume(st, x.c, pol)
                        return x.a if pol else x.b
                    return x
                if found is False:
                    raise Raised(App('exc', K('KeyError'), i), self.where(node))
                return App('getitem', self.reify(v, st), self.reify(i, st))
            if isinstance(o, ListO):
                return self.seq_get(o.items, i, v, st, node)
            if isinstance(o, InstO):
                m = o.cls.find_method('__getitem__')
                if m is not None:
                    return self.call(self.getattr(v, '__getitem__', st, node), [i], {}, st, node)
        if isinstance(v, Tup):
            return self.seq_get(v.items, i, v, st, node)
        if isinstance(v, ClsV):
            if self.is_enum(v.cls) and isinstance(i, K):
                if i.v in v.cls.attrs:
                    return self.enum_member(v.cls, i.v)
                raise Raised(App('exc', K('KeyError'), i), self.where(node))
            if self.is_enum(v.cls):
                # Enum[x.name] == x
                if isinstance(i, Sym) and i.path[:1] == ('attr',) and i.path[2] == 'name' \
                        and getattr(i.path[1], 'typ', ANY)[0] == 'cls' and i.path[1].typ[1] is v.cls:
                    return i.path[1]
                return App('enumget', v, i, typ=('cls', v.cls, True))
            return v            # Generic[...]
        if isinstance(v, ExtV):
            return v
        if isinstance(v, App) and v.op in self.getitem_laws:
            r = self.getitem_laws[v.op](self, v, i, st, node)
            if r is not None:
                return r
        if isinstance(v, Sym) and v.typ[0] == 'list':
            return Sym(('item', v, i), v.typ[1])
        if isinstance(v, K) and isinstance(v.v, str) and isinstance(i, Lin) and i.const is not None:
            if not -len(v.v) <= i.const < len(v.v):
                raise Raised(App('exc', K('IndexError'), i), self.where(node))
            return K(v.v[i.const])
        return App('getitem', self.reify(v, st), self.reify(i, st))

    getitem_laws: dict = {}

    def seq_get(self, items, i, v, st, node):
        c = i.const if isinstance(i, Lin) else (int(i.v) if isinstance(i, K) and isinstance(i.v, bool) else None)
        items = self.expand(items, st)
        if c is not None:
            if c >= 0:
                seg = items[:c + 1]
                if not any(isinstance(x, Spread) for x in seg):
                    if c >= len(items):
                        raise Raised(App('exc', K('IndexError'), i), self.where(node))
                    return items[c]
            else:
                seg = items[c:]
                if len(items) >= -c and not any(isinstance(x, Spread) for x in seg):
                    return items[c]
        return App('getitem', self.reify(v, st), self.reify(i, st))

    # ------------------------------------------------ comprehensions
    def e_ListComp(self, e, fid, mod, st):
        return self.new(st, ListO(self.comp(e, fid, mod, st)))

    def e_SetComp(self, e, fid, mod, st):
        return self.new(st, ListO(self.comp(e, fid, mod, st), 'set'))

    def e_GeneratorExp(self, e, fid, mod, st):
        return Tup(self.comp(e, fid, mod, st))

    def e_DictComp(self, e, fid, mod, st):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        g = ast.ListComp(elt=pair, generators=e.generators)
        ast.copy_location(pair, e)
        ast.copy_location(g, e)
        its = self.comp(g, fid, mod, st)
        d, rest = {}, None
        for x in its:
            if isinstance(x, Tup) and not isinstance(x.items[0], Spread):
                self.dput(d, x.items[0], x.items[1], st, e)
            else:
                rest = App('dictof', *((rest,) if rest else ()), self.reify(x, st))
        return self.new(st, DictO(d, rest))

    def comp(self, e, fid, mod, st):
        fr = self.fresh('frm')
        st.m[('v', fr, '<outer>')] = K(fid)

        def go(gens, s):
            """-> list of items"""
            if not gens:
                return [self.eval(e.elt, fr, mod, s)]
            g = gens[0]
            src = self.eval(g.iter, fr, mod, s)
            out = []
            for it in self.items(src, s, g.iter):
                if isinstance(it, Spread):
                    if len(it.bodies) != 1:
                        raise Unsupported('comprehension over multi-body spread')
                    x = it.bodies[0]
                    filt = it.filt
                else:
                    x, filt = it, None
                self.bind(g.target, x, fr, mod, s)
                cond = None
                ok = True
                s2 = s.fork()
                for t in g.ifs:
                    d = self.decide(self.eval(t, fr, mod, s2), s2)
                    if d is False:
                        ok = False
                        break
                    if d is not True:
                        cond = d if cond is None else App('and', *self.flat('and', cond, d), typ=('bool',))
                        self.assume(s2, d, True)
                if not ok:
                    continue
                sub = go(gens[1:], s2)
                # keep heap allocations
                if cond is None:
                    s.become(s2)
                else:
                    for k, val in s2.m.items():
                        if k[0] in ('o', 'v') and k not in s.m:
                            s.m[k] = val
                if isinstance(it, Spread):
                    f = filt
                    if cond is not None:
                        f = cond if f is None else App('and', *self.flat('and', f, cond), typ=('bool',))
                    bodies = []
                    for b in sub:
                        if isinstance(b, Spread):
                            # nested generators: flatten structurally
                            src2 = App('nest', it.src, self.reify(b, s))
                            bodies = None
                            out.append(Spread(src2, (self.reify(b.bodies[0], s),), it.rev, f))
                            break
                        bodies.append(b)
                    if bodies is not None:
                        out.append(Spread(it.src, tuple(bodies), it.rev, f))
                elif cond is not None:
                    for b in sub:
                        src2 = Ite(cond, Tup((b,)), Tup(()))
                        out.append(Spread(src2, (Sym(('elem', src2)),)))
                else:
                    out.extend(sub)
            return out
        return tuple(go(e.generators, st))

    # ======================= calls ======================================
    def e_Call(self, e, fid, mod, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f, selfv = None, None
            for fi, sv in reversed(self.stack):
                if fi.cls is not None:
                    f, selfv = fi, sv
                    break
            if f is None:
                raise Unsupported('super() outside method')
            p = f.params()
            sv = self.lookup_cell(fid, p[0], st) if p else None
            return SuperV(f.cls, sv if sv is not None else selfv)
        # Category.from_json style intrinsic hooks use plain calls
        fn = self.eval(e.func, fid, mod, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.items(self.eval(a.value, fid, mod, st), st, a))
            else:
                args.append(self.eval(a, fid, mod, st))
        kw, rest = {}, None
        for k in e.keywords:
            v = self.eval(k.value, fid, mod, st)
            if k.arg is not None:
                kw[k.arg] = v
            else:
                v = self.res(v, st)
                o = self.obj(st, v) if isinstance(v, Ref) else None
                if isinstance(o, DictO):
                    for kk, x in o.d.items():
                        x = self.res(x, st)
                        if x is ABSENT:
                            continue
                        if not isinstance(kk, K):
                            raise Unsupported('** with unknown key')
                        if isinstance(x, Ite) and (x.a is ABSENT or x.b is ABSENT):
                            kw[kk.v] = x
                        else:
                            kw[kk.v] = x
                    if o.rest is not None:
                        kw['**'] = o.rest
                else:
                    kw['**'] = self.reify(v, st)
        return self.call(fn, args, kw, st, e)

    def call(self, fn, args, kw, st, node):
        fn = self.res(fn, st)
        if isinstance(fn, Ite):
            return self.both(fn.c, lambda s: self.call(fn.a, args, kw, s, node),
                             lambda s: self.call(fn.b, args, kw, s, node), st)
        if isinstance(fn, FnV):
            return self.call_fn(fn, args, kw, st, node)
        if isinstance(fn, BoundV):
            return self.call_fn(fn.fn, [fn.self] + list(args), kw, st, node)
        if isinstance(fn, PartialV):
            if isinstance(fn.fn, ExtV):
                r = self.special_partial(fn, args, kw, st, node)
                if r is not None:
                    return r
            return self.call(fn.fn, list(fn.args) + list(args), {**dict(fn.kw), **kw}, st, node)
        if isinstance(fn, ClsV):
            return self.instantiate(fn, args, kw, st, node)
        if isinstance(fn, ExtV) and fn.name in self.intrinsics:
            return self.intrinsics[fn.name](self, st, args, kw, node)
        if isinstance(fn, ExtV):
            return self.call_ext(fn.name, args, kw, st, node)
        if isinstance(fn, OpMeth):
            return self.opmeth(fn, args, kw, st, node)
        if isinstance(fn, Ref):
            o = self.obj(st, fn)
            if isinstance(o, InstO) and o.cls.find_method('__call__'):
                return self.call(self.getattr(fn, '__call__', st, node), args, kw, st, node)
        if isinstance(fn, Sym) and fn.typ[0] == 'cls':
            m = fn.typ[1].find_method('__call__')
            if m is not None:
                return self.call(self.getattr(fn, '__call__', st, node), args, kw, st, node)
        if isinstance(fn, CatV):
            catc = self.p.cls('backend.grammar.Category')
            return self.call(FnV(catc.find_method('__call__')), [fn] + list(args), kw, st, node)
        if isinstance(fn, Sym) and len(fn.path) == 3 and fn.path[0] == 'attr' and not kw \
                and fn.path[2] in ('conjugate', 'conj'):
            if not args and isinstance(fn.path[1], V):
                return self.conj(fn.path[1], st)
            if len(args) == 1:
                return self.conj(args[0], st)
        k = tuple(Tup((K(a), self.reify(x, st))) for a, x in sorted(kw.items()))
        return App('call', self.reify(fn, st), *[self.reify(a, st) for a in args], *k)

    def special_partial(self, fn, args, kw, st, node):
        n = fn.fn.name
        if n == 'object.__new__' or n == 'super.__new__':
            # __new__(cls): allocate
            c = args[0] if args else fn.args[0]
            if isinstance(c, ClsV):
                return self.new(st, InstO(c.cls, {}))
            raise Unsupported('__new__')
        if n == 'super.__init__':
            selfv, owner = fn.args
            if isinstance(owner, ClsV):
                self.dc_init(selfv, owner.cls, args, kw, st, node)
            return K(None)
        if n == 'cls.__init__':
            c = fn.args[0].cls
            selfv, rest = args[0], args[1:]
            self.run_init(selfv, c, rest, kw, st, node)
            return K(None)
        if n == 'super.__getattribute__':
            if isinstance(args[0], K):
                return self.getattr(fn.args[0], args[0].v, st, node)
        if n == 'super.__setattr__':
            self.setattr_raw(fn.args[0], args[0].v, args[1], st, node)
            return K(None)
        if n in ('super.__post_init__', 'super.__init_subclass__'):
            return K(None)
        if n == 'super.__getattr__':
            raise Raised(App('exc', K('AttributeError')), self.where(node))
        if n == 'dataclass.__eq__':
            return self.truthval(self.eq(args[0], args[1], st))
        return None

    def bind_args(self, info, args, kw, fid, st, node, outer_frame, module):
        a = info.node.args
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        env = {}
        args = list(args)
        # spread in positional arguments
        if any(isinstance(x, Spread) for x in args):
            i = next(i for i, x in enumerate(args) if isinstance(x, Spread))
            if i < len(names) or a.vararg is None:
                raise Unsupported('*args of unknown length', self.where(node) if node else '')
        for n, v in zip(names, args):
            env[n] = v
        extra = args[len(names):]
        if extra and a.vararg is None:
            raise Raised(App('exc', K('TypeError'), K(f'too many arguments to {info.name}')),
                         self.where(node) if node is not None else '')
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(extra)
        kwonly = [x.arg for x in a.kwonlyargs]
        extrakw = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in env and k in names[:len(args)]:
                    raise Raised(App('exc', K('TypeError'), K(f'duplicate argument {k}')),
                                 self.where(node) if node is not None else '')
                if isinstance(v, Ite) and (v.a is ABSENT or v.b is ABSENT):
                    raise Unsupported('conditional keyword')
                env[k] = v
            elif k == '**':
                if a.kwarg is None:
                    for n in names + kwonly:
                        if n not in env:
                            env[n] = App('kwitem', v, K(n))
                else:
                    extrakw['**'] = v
            else:
                extrakw[k] = v
        if extrakw and a.kwarg is None:
            raise Raised(App('exc', K('TypeError'), K(f'unexpected keyword {sorted(extrakw)} for {info.name}')),
                         self.where(node) if node is not None else '')
        if a.kwarg is not None:
            rest = extrakw.pop('**', None)
            env[a.kwarg.arg] = self.new(st, DictO({K(k): v for k, v in extrakw.items()}, rest))
        nd = len(a.defaults)
        for i, n in enumerate(names):
            if n not in env:
                j = i - (len(names) - nd)
                if j < 0:
                    raise Raised(App('exc', K('TypeError'), K(f'missing argument {n} of {info.name}')),
                                 self.where(node) if node is not None else '')
                env[n] = self.eval(a.defaults[j], outer_frame, module, st)
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in env:
                if d is None:
                    raise Raised(App('exc', K('TypeError'), K(f'missing argument {n}')),
                                 self.where(node) if node is not None else '')
                env[n] = self.eval(d, outer_frame, module, st)
        for n, v in env.items():
            st.m[('v', fid, n)] = v

    def call_fn(self, fn, args, kw, st, node):
        info = fn.info
        q = info.qual
        h = self.intrinsics.get(q)
        if h is not None:
            r = h(self, st, args, kw, node)
            if r is not NotImplemented:
                return r
        if q in self.opaque_funcs:
            k = tuple(Tup((K(a), self.reify(x, st))) for a, x in sorted(kw.items()))
            return App('call:' + q, *[self.reify(a, st) for a in args], *k,
                       typ=self.typ_of(getattr(info.node, 'returns', None), info.module, info.cls))
        # special boxes and Diagram.id by boundary
        if self.dg:
            r = self.dg_call(info, args, kw, st, node)
            if r is not None:
                return r
        if isinstance(info.node, ast.AsyncFunctionDef):
            raise Unsupported('async')
        rec = sum(1 for f, _ in self.stack if f.node is info.node)
        if len(self.stack) > self.MAXDEPTH or rec >= self.MAXREC:
            return App('call:' + q, *[self.reify(a, st) for a in args],
                       *[Tup((K(a), self.reify(x, st))) for a, x in sorted(kw.items())],
                       typ=self.typ_of(getattr(info.node, 'returns', None), info.module, info.cls))
        self.analysed.add(q)
        fid = self.fresh('frm')
        st.m[('v', fid, '<outer>')] = K(fn.frame) if fn.frame is not None else K(None)
        self.stack.append((info, args[0] if args else None))
        try:
            self.bind_args(info, args, kw, fid, st, node, fn.frame, info.module)
            if isinstance(info.node, ast.Lambda):
                return self.eval(info.node.body, fid, info.module, st)
            return self.run_body(info, fid, st, node)
        finally:
            self.stack.pop()

    def dg_call(self, info, args, kw, st, node):
        c = info.cls
        if c is not None and self.DiagC is not None and c.is_sub(self.DiagC):
            rest = args[1:] if info.is_classmethod or args else args
            if info.name == 'id':
                t = rest[0] if rest else kw.get('dom')
                if t is None or isinstance(t, K) and t.v is None:
                    return DgV(TyV(), TyV(), App('id', TyV()))
                t = self.res(t, st)
                if isinstance(t, TyV):
                    return DgV(t, t, App('id', t))
                if isinstance(t, Ite):
                    return None
                raise Unsupported(f'id({show(t)})')
            if info.name in ('tensor', 'then') and ('raw:' + info.name) not in self.intrinsics:
                d = self.as_dg(args[0], st, node)
                if d is not None:
                    return self.dg_method(d, info.name, rest, kw, st, node)
            if info.name in ('then_at', 'rotate', 'dagger', 'permuted') and ('raw:' + info.name) not in self.intrinsics:
                d = self.as_dg(args[0], st, node)
                if d is not None:
                    return self.dg_method(d, info.name, rest, kw, st, node)
            if info.name == 'permutation' and ('raw:permutation') not in self.intrinsics:
                t = self.res(rest[0] if rest else kw['dom'], st)
                p = rest[1] if len(rest) > 1 else kw['permutation']
                return DgV(t, self.permuted_ty(t, p, st, node), App('perm', t))
            if info.name == 'lift' and 'raw:lift' not in self.intrinsics:
                out = []
                for x in self.items(args[-1], st, node):
                    if isinstance(x, Spread):
                        bs = [self.as_dg(b, st, node) for b in x.bodies]
                        if any(b is None for b in bs):
                            raise Unsupported('lift')
                        out.append(Spread(x.src, bs, x.rev, x.filt))
                    else:
                        d = self.as_dg(x, st, node)
                        if d is None:
                            raise Unsupported('lift')
                        out.append(d)
                return self.new(st, ListO(out))
        return None

    def run_body(self, info, fid, st, node):
        base = st.guards
        st.guards = ()
        isgen = is_generator(info.node)
        if isgen:
            st.m[('v', fid, '<yield>')] = self.new(st, ListO(()))
        exits = self.block(info.node.body, fid, info.module, st)
        outs = []
        raised = []
        for kind, v, s in exits:
            if kind == 'return':
                outs.append((s.guards, v, s))
            elif kind == 'raise':
                raised.append((v, s))
        if st.live:
            outs.append((st.guards, K(None), st.move()))
        if not outs:
            v, s = raised[0]
            for v2, s2 in raised[1:]:
                pass
            s.guards = base + s.guards
            raise Raised(v.exc if isinstance(v, Raised) else v, getattr(v, 'where', ''), s)
        for v, s in raised:
            c = None
            for g, b in s.guards:
                t = g if b else App('not', g)
                c = t if c is None else App('and', *self.flat('and', c, t), typ=('bool',))
            self.cond_raises[-1].append((c or K(True), True,
                                         v if isinstance(v, Raised) else Raised(v), s))
        val, s = self.tree_exits(outs)
        # facts established on every returning path survive
        s.guards = base
        if isgen:
            val = s.m[('v', fid, '<yield>')]
        if not isgen:
            for n in frame_names(info.node):
                s.m.pop(('v', fid, n), None)
        st.become(s)
        st.live = True
        return val

    # ------------------------------------------------ construction
    def instantiate(self, cv, args, kw, st, node):
        c = cv.cls
        h = self.intrinsics.get('new:' + c.qual)
        if h is not None:
            r = h(self, st, args, kw, node)
            if r is not NotImplemented:
                return r
        if self.tyv and self.TyC is not None and c.is_sub(self.TyC):
            r = self.make_ty(c, args, kw, st, node)
            if r is not None:
                return r
        if self.dg and self.DiagC is not None:
            if c.is_sub(self.DiagC):
                return self.make_diagram(c, args, kw, st, node)
            for owner, reg in self.p.special.items():
                for kname in ('cap', 'cup', 'swap', 'spider'):
                    if reg.get(kname) is c and not self.atomic_special(args, kw, st):
                        return self.special(kname, args, kw, st, node)
        if self.is_enum(c):
            x = self.res(args[0], st) if len(args) == 1 else None
            if isinstance(x, Ite):
                return self.both(x.c, lambda s: self.instantiate(cv, [x.a], kw, s, node),
                                 lambda s: self.instantiate(cv, [x.b], kw, s, node), st)
            if self.is_member(x) and x.typ[1] is c:
                return x
            if isinstance(x, K):
                for n, e in c.attrs.items():
                    if e is not None and not n.startswith('_') and self.enum_new(c, n, st)['value'] == x:
                        return self.enum_member(c, n)
                ms = c.find_method('_missing_')
                if ms is not None:
                    return self.call(self.getattr(cv, '_missing_', st, node), [x], {}, st, node)
                raise Raised(App('exc', K('ValueError'), x), self.where(node))
            return App('enum', cv, *args, typ=('cls', c, True))
        nm = c.find_method('__new__')
        if nm is not None:
            ref = self.call_fn(FnV(nm), [cv] + list(args), kw, st, node)
            ref = self.res(ref, st)
            if isinstance(ref, Ite):
                raise Unsupported('__new__ with undecided result')
            if not (isinstance(ref, Ref) and isinstance(self.obj(st, ref), InstO)
                    and self.obj(st, ref).cls.is_sub(c)):
                return ref
        else:
            ref = self.new(st, InstO(c, {}))
        self.run_init(ref, c, args, kw, st, node)
        return ref

    def atomic_special(self, args, kw, st):
        """Constructors of special boxes are analysed themselves only when
        the check under way asks for it ('raw:special'), and then only the
        outermost call: the nested calls on wires keep their specification."""
        return bool(self.intrinsics.pop('raw:special', False))

    def make_ty(self, c, args, kw, st, node):
        """Ty(), Ty('n'), Ty('n', z=..), Ty(objects=[..])."""
        names = [f.name for f in self.TyC.dc_fields()]
        init = c.find_method('__init__')
        if init is not None and init.cls is not self.TyC:
            a = init.node.args
            names = [x.arg for x in a.posonlyargs + a.args][1:]
            if a.vararg:
                names = ['*']
        vals = dict(zip(names, args)) if names != ['*'] else {'dims': args}
        vals.update(kw)
        objs = self.res(vals.get('objects', K(None)), st)
        if not (isinstance(objs, K) and objs.v is None):
            its = self.items(objs, st, node)
            if its:
                return self.ty_fold(its)
        nm = vals.get('name')
        if nm is None or isinstance(nm, K) and nm.v is None:
            if 'dims' in vals and vals['dims']:
                return None
            return TyV()
        z = self.as_int(vals.get('z', I(0)))
        if z is None:
            raise Unsupported('Ty z')
        nm = self.res(nm, st)
        if isinstance(nm, App) and nm.op == 'tyname' and len(nm.args[0].f) == 1:
            g = nm.args[0].f[0]
            return TyV((g.with_(z=z),))
        nm = nm.v if isinstance(nm, K) else nm
        return TyV((Gen(nm if self.cat == 'grammar' else ('sd', nm), I(1), z),))

    def make_diagram(self, c, args, kw, st, node):
        fields = ['dom', 'cod', 'layers']
        vals = dict(zip(fields, args))
        vals.update(kw)
        dom, cod = self.res(vals['dom'], st), self.res(vals['cod'], st)
        if not (isinstance(dom, TyV) and isinstance(cod, TyV)):
            raise Unsupported('diagram with unknown boundary', self.where(node))
        layers = self.res(vals.get('layers', K(None)), st)
        self.check_layers(dom, cod, layers, st, node)
        return DgV(dom, cod, App('diagram', dom, cod, self.reify(layers, st)))

    def check_layers(self, dom, cod, layers, st, node):
        """The layers must compose from dom to cod.  `layer_log` gets True /
        False / None (not decided)."""
        if isinstance(layers, Ite):
            self.layer_log.append(None)
            return
        if isinstance(layers, (Sym, App)):
            d = self.layers_owner(layers)
            if d is not None:
                ok = self.ty_same_st(d.dom, dom, st)
                if ok:
                    ok = self.ty_same_st(d.cod, cod, st)
                self.layer_log.append(ok)
                self.oblige('layers', ok, node, f'diagram {show(dom)} -> {show(cod)} takes over the layers of '
                            f'{show(d)}')
            else:
                self.layer_log.append(None)
            return
        cur = dom
        for x in self.items(layers, st, node):
            if isinstance(x, Spread):
                seg = self.layer_segment(x, st, node)
                if seg is None:
                    self.layer_log.append(None)
                    return
            else:
                seg = self.layer_bounds(x, st, node)
                if seg is None:
                    self.layer_log.append(None)
                    return
            ok = self.ty_same_st(cur, seg[0], st)
            self.oblige('layers', ok, node, f'layer domain {show(seg[0])} follows {show(cur)}')
            if ok is not True:
                self.layer_log.append(ok)
                return
            cur = seg[1]
        ok = self.ty_same_st(cur, cod, st)
        self.layer_log.append(ok)
        self.oblige('layers', ok, node, f'diagram codomain {show(cod)} is that of its layers {show(cur)}')

    def ty_same_st(self, a, b, st):
        ok = self.ty_same(a, b)
        if ok is False and self.fact(st, App('==', *sorted((a, b), key=repr))) is True:
            return True
        return ok

    def layer_parts(self, x, st):
        if isinstance(x, (Sym, App)) and x.typ[0] == 'cls' and self.LayerC and x.typ[1].is_sub(self.LayerC):
            return tuple(self.res(self.getattr(x, k, st), st) for k in ('left', 'box', 'right'))
        o = self.obj(st, x) if isinstance(x, Ref) else None
        if not (isinstance(o, InstO) and self.LayerC and o.cls.is_sub(self.LayerC)):
            return None
        return tuple(self.res(o.fields.get(k, K(None)), st) for k in ('left', 'box', 'right'))

    def layer_bounds(self, x, st, node):
        p = self.layer_parts(self.res(x, st), st)
        if p is None:
            return None
        l, b, r = p
        d = self.as_dg(b, st, node)
        if d is None or not isinstance(l, TyV) or not isinstance(r, TyV):
            return None
        return l @ d.dom @ r, l @ d.cod @ r

    def layers_owner(self, src):
        if isinstance(src, Sym) and len(src.path) >= 3 and src.path[0] == 'attr' and src.path[2] == 'layers' \
                and isinstance(src.path[1], DgV):
            return src.path[1]
        return None

    def layer_segment(self, x, st, node):
        """Boundary of a run of layers obtained uniformly from those of one
        diagram: every layer l@b@r becomes P @ F(l@b@r) @ Q, in order (F a
        rotation) or reversed with domain and codomain swapped (a dagger)."""
        d = self.layers_owner(x.src)
        if d is None or len(x.bodies) != 1 or x.filt is not None:
            return None
        el = Sym(('elem', x.src), x.src.typ[1] if x.src.typ[0] == 'list' else ('any',))
        el = self.elem(x.src)
        g = self.layer_bounds(el, st, node)
        got = self.layer_bounds(x.bodies[0], st, node)
        if g is None or got is None:
            return None
        for rev in (False, True):
            gd, gc = g if not rev else (g[1], g[0])
            zs = {I(0)} | {y.z for y in got[0].f if isinstance(y, Gen)}
            for z in zs:
                try:
                    pd, pc = gd.rotate(z), gc.rotate(z)
                except Unsupported:
                    continue
                n = len(pd.f)
                for i in range(len(got[0].f) - n + 1):
                    if got[0].f[i:i + n] != pd.f:
                        continue
                    P, Q = TyV(got[0].f[:i]), TyV(got[0].f[i + n:])
                    if P @ pc @ Q == got[1]:
                        if x.rev != rev:
                            self.oblige('layers', False, node, 'layers taken in '
                                        + ('reverse' if x.rev else 'original') + ' order although each keeps '
                                        + ('its' if x.rev else 'the opposite') + ' direction')
                            return None
                        if rev:
                            return P @ d.cod.rotate(z) @ Q, P @ d.dom.rotate(z) @ Q
                        return P @ d.dom.rotate(z) @ Q, P @ d.cod.rotate(z) @ Q
        self.oblige('layers', None if has_opaque_ty(got[0]) or has_opaque_ty(got[1]) else False, node,
                    f'layer {show(g[0])} -> {show(g[1])} becomes {show(got[0])} -> {show(got[1])}, which does '
                    'not compose along the diagram')
        return None

    def run_init(self, ref, c, args, kw, st, node):
        own = c.dc_owner('init')
        if own is None:
            if c.ext_bases:
                o = self.obj(st, ref)
                self.setobj(st, ref, o.set('<open>', Tup([self.reify(a, st) for a in args])))
                for k, v in kw.items():
                    self.setattr_raw(ref, k, v, st, node)
            return
        owner, what = own
        if what == 'generated':
            self.dc_init(ref, owner, args, kw, st, node)
        elif isinstance(what, FuncInfo):
            self.call_fn(FnV(what), [ref] + list(args), kw, st, node)
        else:
            raise Unsupported('__init__ assigned')

    def dc_init(self, ref, owner, args, kw, st, node):
        """The __init__ generated by @dataclass on `owner`."""
        fields = self.p_fields(owner)
        init = [f for f in fields if f.init]
        order = [f for f in init if not f.kw_only] + [f for f in init if f.kw_only]
        args = list(args)
        env = {}
        if any(isinstance(a, Spread) for a in args):
            raise Unsupported('*args in constructor')
        if len(args) > len([f for f in order if not f.kw_only]):
            raise Raised(App('exc', K('TypeError'), K(f'too many arguments to {owner.name}')), self.where(node))
        for f, v in zip(order, args):
            env[f.name] = v
        for k, v in kw.items():
            if k == '**':
                for f in order:
                    if f.name not in env:
                        env[f.name] = App('kwitem', v, K(f.name))
                continue
            if k not in [f.name for f in order]:
                raise Raised(App('exc', K('TypeError'), K(f'unexpected keyword {k} for {owner.name}')), self.where(node))
            if k in env:
                raise Raised(App('exc', K('TypeError'), K(f'duplicate argument {k} for {owner.name}')), self.where(node))
            if isinstance(v, Ite) and (v.a is ABSENT or v.b is ABSENT):
                raise Unsupported('conditional keyword')
            env[k] = v
        initvars = []
        for f in fields:
            if f.name in env:
                v = env[f.name]
            elif not f.init and f.factory is None and not f.initvar:
                continue        # stays a class attribute
            elif f.factory is not None:
                v = self.call(self.eval_in_module(f.factory, f.owner.module, st), [], {}, st, node)
            elif f.default is not None:
                v = self.eval_in_module(f.default, f.owner.module, st)
            elif f.init:
                raise Raised(App('exc', K('TypeError'), K(f'missing argument {f.name} of {owner.name}')), self.where(node))
            else:
                continue
            if f.initvar:
                initvars.append(v)
            else:
                self.set_attr(ref, f.name, v, st, node)
        cls = self.class_of(ref, st)
        pi = cls.find_method('__post_init__')
        if pi is not None:
            self.call_fn(FnV(pi), [ref] + initvars, {}, st, node)

    def p_fields(self, owner):
        return owner.dc_fields_at(owner)

    def dc_replace(self, v, kw, st, node):
        v = self.res(v, st)
        if isinstance(v, TyV):
            if set(kw) == {'z'} and len(v.f) == 1 and isinstance(v.f[0], Gen):
                return TyV((v.f[0].with_(z=self.as_int(kw['z'])),))
            raise Unsupported('replace(Ty)')
        if isinstance(v, DgV):
            raise Unsupported('replace(Diagram)')
        cls = self.class_of(v, st)
        if cls is None:
            return App('replace', self.reify(v, st),
                       *[Tup((K(a), self.reify(x, st))) for a, x in sorted(kw.items())])
        owner = next((c for c in cls.mro() if c.dc is not None), None)
        if owner is None:
            raise Raised(App('exc', K('TypeError'), K('replace() on non-dataclass')), self.where(node))
        full = dict(kw)
        for f in self.p_fields(owner):
            if not f.init:
                if f.name in kw:
                    raise Raised(App('exc', K('ValueError'), K(f'field {f.name} is init=False')), self.where(node))
                continue
            if f.name not in full:
                if f.initvar:
                    if f.default is None and f.factory is None:
                        raise Raised(App('exc', K('ValueError'), K(f'InitVar {f.name} must be specified')), self.where(node))
                    if f.default is not None:
                        # dataclasses.replace uses getattr(obj, name) for
                        # InitVar with default
                        full[f.name] = self.getattr(v, f.name, st, node)
                    continue
                full[f.name] = self.getattr(v, f.name, st, node)
        return self.instantiate(ClsV(cls), [], full, st, node)

    # ------------------------------------------------ external calls
    def conj(self, x, st):
        """Complex conjugate; an involution, whichever library computes it."""
        x = self.res(x, st)
        if isinstance(x, Lin) and x.const is not None:
            return x
        if isinstance(x, K) and isinstance(x.v, (int, float, complex)):
            return K(x.v.conjugate())
        x = self.reify(x, st)
        if isinstance(x, App) and x.op == 'conj':
            return x.args[0]
        return App('conj', x)

    permute = None     # what a random shuffle does to a list

    def random_op(self, short, args, kw, st, node):
        """A shuffle applies the permutation under consideration; None if it is no shuffle."""
        if self.permute is None or not args:
            return None
        a = self.res(args[0], st)
        if short == 'shuffle' and isinstance(a, Ref) and isinstance(self.obj(st, a), ListO):
            o = self.obj(st, a)
            self.setobj(st, a, ListO(tuple(self.permute(list(o.items))), o.kind))
            return K(None)
        if short == 'permutation' and len(args) == 1:
            if isinstance(a, Lin) and a.const is not None:
                return self.new(st, ListO(self.permute([I(i) for i in range(a.const)])))
            return self.new(st, ListO(self.permute(list(self.items(a, st, node)))))
        if short == 'sample' and (len(args) == 2 or 'k' in kw):
            its = self.permute(list(self.items(a, st, node)))
            k = self.res(args[1] if len(args) == 2 else kw['k'], st)
            if isinstance(k, Lin) and k.const is not None:
                if k.const > len(its):
                    raise Raised(App('exc', K('ValueError')), self.where(node))
                return self.new(st, ListO(its[:k.const]))
        return None

    def call_ext(self, name, args, kw, st, node):
        short = name.split('.')[-1]
        if name.split('.')[0] in ('random', 'numpy', 'torch') and short in ('shuffle', 'permutation', 'sample'):
            r = self.random_op(short, args, kw, st, node)
            if r is not None:
                return r
        if short in ('conjugate', 'conj') and name.split('.')[0] in ('numpy', 'jax', 'torch') \
                and len(args) == 1 and not kw:
            return self.conj(args[0], st)
        h = getattr(self, 'x_' + short, None)
        if name == 'numpy.issubdtype':
            return h(args, kw, st, node)
        if name == 'math.ceil':
            return h(args, kw, st, node)
        if name == 'identity':
            return args[0]
        if name in ('numpy.prod', 'math.prod') and len(args) == 1 and not kw and isinstance(self.res(args[0], st), (Tup, Ref)):
            its = [self.res(x, st) for x in self.items(args[0], st, node)]
            if all(isinstance(x, Lin) and x.const is not None for x in its):
                n = 1
                for x in its:
                    n *= x.const
                return I(n)
        if name == 'numpy.array' and self.np_lists and len(args) == 1 and not kw:
            a = self.res(args[0], st)
            if isinstance(a, Ref) and isinstance(self.obj(st, a), ListO) and not any(
                    isinstance(x, Spread) for x in self.obj(st, a).items):
                return self.new(st, ListO(self.obj(st, a).items))
        if name in ('numpy.abs', 'numpy.argmin', 'numpy.argmax') and len(args) == 1 and not kw:
            a = self.res(args[0], st)
            o = self.obj(st, a) if isinstance(a, Ref) else None
            ks = [x.const if isinstance(x, Lin) else x.v if isinstance(x, K) and isinstance(x.v, float) else None
                  for x in o.items] if isinstance(o, ListO) else [None]
            if ks and None not in ks:
                if short == 'abs':
                    return self.new(st, ListO([I(abs(k)) if isinstance(k, int) else K(abs(k)) for k in ks]))
                return I(ks.index((min if short == 'argmin' else max)(ks)))
        if name == 'itertools.cycle' and len(args) == 1:
            return App('cycle', args[0])
        if name in ('numpy.equal', 'numpy.array_equal') and len(args) == 2 and not kw:
            return self.truthval(self.user_eq(args[0], args[1], st, node))
        if name.split('.')[0] in ('pickle', 'dill', 'cloudpickle') and args:
            if short == 'dumps':
                return App('pickled', self.copy_value(args[0], st, True))
            a = self.res(args[0], st)
            if short == 'loads' and isinstance(a, App) and a.op == 'pickled':
                return self.copy_value(a.args[0], st, True)
        if h is not None and (name.startswith('builtins.') or name.split('.')[0] in
                              ('dataclasses', 'copy', 'typing', 'typing_extensions', 'functools',
                               'itertools', 'json', 'collections')):
            return h(args, kw, st, node)
        if name.startswith('builtins.') and (short.endswith('Error') or short.endswith('Exception')
                                             or short.endswith('Warning')):
            return App('exc', K(short), *[self.reify(a, st) for a in args])
        k = tuple(Tup((K(a), self.reify(x, st))) for a, x in sorted(kw.items()))
        return App('ext:' + name, *[self.reify(a, st) for a in args], *k)

    def x_ceil(self, args, kw, st, node):
        import math
        v = self.res(args[0], st)
        if isinstance(v, Lin):
            return v
        if isinstance(v, App) and v.op == 'Div' and all(isinstance(x, Lin) and x.const is not None for x in v.args) and v.args[1].const:
            a, b = v.args
            return I(-(-a.const // b.const))
        if isinstance(v, K) and isinstance(v.v, float):
            return I(math.ceil(v.v))
        return App('ext:math.ceil', self.reify(v, st), typ=('int',))

    def x_ord(self, args, kw, st, node):
        v = self.res(args[0], st)
        if isinstance(v, K) and isinstance(v.v, str) and len(v.v) == 1:
            return I(ord(v.v))
        return App('ext:builtins.ord', self.reify(v, st), typ=('int',))

    def x_chr(self, args, kw, st, node):
        v = self.res(args[0], st)
        if isinstance(v, Lin) and v.const is not None:
            return K(chr(v.const))
        return App('ext:builtins.chr', self.reify(v, st), typ=('str',))

    def x_len(self, args, kw, st, node):
        v = self.res(args[0], st)
        if isinstance(v, Ite):
            return self.both(v.c, lambda s: self.x_len([v.a], kw, s, node),
                             lambda s: self.x_len([v.b], kw, s, node), st)
        return self.seq_len(v, st, node)

    def x_isinstance(self, args, kw, st, node):
        v, t = self.res(args[0], st), self.res(args[1], st)
        ts = self.items(t, st, node) if isinstance(t, Tup) or isinstance(t, Ref) else (t,)
        if isinstance(t, App) and t.op == 'BitOr':
            ts = t.args
        if isinstance(v, Ite):
            return self.both(v.c, lambda s: self.x_isinstance([v.a, t], kw, s, node),
                             lambda s: self.x_isinstance([v.b, t], kw, s, node), st)
        unk = []
        for c in ts:
            c = self.res(c, st)
            d = self.isinst(v, c, st)
            if d is True:
                return K(True)
            if d is None:
                f = self._fact_or(App('isinstance', self.reify(v, st), c, typ=('bool',)), st)
                if f is True:
                    return K(True)
                if f is not False:
                    unk.append(f)
        if not unk:
            return K(False)
        if len(unk) == 1:
            return unk[0]
        return App('or', *unk, typ=('bool',))

    def isinst(self, v, c, st):
        if isinstance(c, ExtV):
            n = c.name.split('.')[-1]
            if isinstance(v, K):
                if v.v is None:
                    return n == 'NoneType' or n == 'object'
                t = type(v.v).__name__
                return t == n or (t == 'bool' and n in ('int', 'Integral', 'Number')) or n in ('Iterable', 'Sequence') and t == 'str'
            if isinstance(v, Lin):
                return n in ('int', 'Integral', 'Number', 'Real', 'Rational')
            if isinstance(v, Tup):
                return n in ('tuple', 'Iterable', 'Sequence', 'Collection')
            if isinstance(v, Ref):
                o = self.obj(st, v)
                if isinstance(o, ListO):
                    return n == o.kind or n in ('Iterable', 'Collection') or (n == 'Sequence' and o.kind == 'list')
                if isinstance(o, DictO):
                    return n in ('dict', 'Mapping', 'MutableMapping', 'Iterable', 'Collection')
                if isinstance(o, InstO):
                    if n in ('str', 'int', 'list', 'dict', 'tuple', 'float', 'bool', 'slice', 'complex'):
                        return False
                    if n == 'Iterable':
                        return o.cls.find_method('__iter__') is not None
                    if n in ('Mapping', 'Sequence', 'ndarray') and not o.cls.ext_bases:
                        return False
                    return None
            if isinstance(v, (TyV, DgV)):
                if n in ('str', 'int', 'list', 'dict', 'tuple', 'slice'):
                    return False
                return None
            if isinstance(v, (FnV, BoundV, ClsV)):
                if n in ('str', 'int', 'list', 'dict', 'tuple'):
                    return False
            if self.is_array(v):
                return n in ('ndarray', 'Iterable')
            t = getattr(v, 'typ', ANY)
            if t[0] == 'str':
                return n == 'str' or n in ('Iterable', 'Sequence')
            if t[0] in ('int', 'nat'):
                return n in ('int', 'Integral', 'Number')
            if t[0] == 'bool':
                return n in ('bool', 'int')
            if t[0] == 'real':
                return True if n in ('Number', 'Real') else None if n in ('float', 'int') else False
            if t[0] == 'cls' and n in ('str', 'int', 'list', 'dict', 'tuple', 'float', 'slice'):
                return False
            if isinstance(v, App) and v.op == 'sliceobj':
                return n == 'slice'
            if isinstance(v, App) and v.op in ('to_json',):
                return n in ('dict', 'Mapping')
            if isinstance(v, App) and v.op in ('seq',):
                return n in ('list', 'Iterable', 'Sequence')
            return None
        if not isinstance(c, ClsV):
            return None
        t = c.cls
        if isinstance(v, ClsV):
            return False if not any('type' in b for k in t.mro() for b in k.ext_bases) else None
        if isinstance(v, (K, Lin, Tup, FnV, BoundV)):
            return False
        if isinstance(v, TyV):
            if self.TyC and t.is_sub(self.TyC):
                cc = self.p.categories[self.cat]['Ty']
                return cc.is_sub(t)
            return True if t.name == 'Entity' else False
        if isinstance(v, DgV):
            if self.DiagC and t.is_sub(self.DiagC):
                return self.p.categories[self.cat]['Diagram'].is_sub(t)
            if isinstance(v.src, (Sym, App)) and v.src.op if isinstance(v.src, App) else isinstance(v.src, Sym):
                if isinstance(v.src, Sym):
                    return None
            if self.BoxC and t.is_sub(self.BoxC):
                if isinstance(v.src, App) and v.src.op in ('cap', 'cup', 'swap', 'spider', 'box', 'rot', 'dagger'):
                    return None
            return False
        cls = self.class_of(v, st)
        if cls is None:
            if isinstance(v, Ref) or self.is_array(v) or getattr(v, 'typ', ANY)[0] in ('real', 'str', 'int', 'nat', 'bool'):
                return False
            return None
        if cls.is_sub(t):
            return True
        if isinstance(v, Ref) or (len(v.typ) > 2 and v.typ[2]):
            return False
        if not any(s.is_sub(t) for s in cls.all_subclasses()):
            return False
        return None

    def numeric(self, v):
        """A number, a numpy constant or an array built from numbers only."""
        if isinstance(v, Lin):
            return all(self.numeric(a) for a, _ in v.t)
        if isinstance(v, K):
            return isinstance(v.v, (int, float, complex))
        if isinstance(v, ExtV):
            return v.name.split('.')[-1] in ('pi', 'e', 'inf')
        if isinstance(v, Sym):
            if v.typ[0] in ('real', 'int', 'nat'):
                return True
            return len(v.path) == 3 and v.path[0] in ('attr', 'extattr') and v.path[2] in ('T', 'pi', 'e') and self.numeric(v.path[1])
        if isinstance(v, (Tup,)):
            return all(self.numeric(x) for x in v.items)
        if isinstance(v, App):
            if v.op in ('ext:numpy.array', 'ext:numpy.eye', 'ext:numpy.zeros', 'ext:numpy.ones', 'ext:numpy.kron',
                        'ext:numpy.sqrt', 'ext:numpy.exp', 'seq', 'getitem', 'setitem', 'neg', 'conj',
                        'Mult', 'Add', 'Sub', 'Div', 'Pow', 'MatMult'):
                return all(self.numeric(x) for x in v.args if isinstance(x, V))
            if v.op in ('ext:math.prod', 'int', 'float', 'ext:builtins.int', 'ext:builtins.len', 'len'):
                return True
            if v.op in ('attr', 'extattr') and len(v.args) == 2:
                return self.numeric(v.args[0])
        return False

    def is_array(self, v):
        return isinstance(v, (App, Sym)) and self.numeric(v) and v.typ[0] not in ('real', 'int', 'nat')

    def x_issubdtype(self, args, kw, st, node):
        a = self.res(args[0], st)
        if isinstance(a, (Sym, App)):
            x = a.path if isinstance(a, Sym) else a.args
            if any(isinstance(y, V) and self.is_array(y) for y in x) and isinstance(args[1], (ExtV, Sym, App)) \
                    and 'number' in show(args[1]):
                return K(True)
        return App('issubdtype', *[self.reify(x, st) for x in args], typ=('bool',))

    def x_issubclass(self, args, kw, st, node):
        a, b = self.res(args[0], st), self.res(args[1], st)
        if isinstance(a, ClsV) and isinstance(b, ClsV):
            return K(a.cls.is_sub(b.cls))
        return App('issubclass', a, b, typ=('bool',))

    def x_type(self, args, kw, st, node):
        v = self.res(args[0], st)
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, InstO):
                return ClsV(o.cls)
            return ExtV('builtins.' + ('dict' if isinstance(o, DictO) else o.kind))
        if isinstance(v, (TyV, DgV)):
            return self.getattr(v, '__class__', st, node)
        if isinstance(v, Sym) and v.typ[0] == 'cls' and len(v.typ) > 2 and v.typ[2]:
            return ClsV(v.typ[1])
        if isinstance(v, Ite):
            return self.both(v.c, lambda s: self.x_type([v.a], kw, s, node),
                             lambda s: self.x_type([v.b], kw, s, node), st)
        if isinstance(v, K):
            return ExtV('builtins.' + type(v.v).__name__)
        if isinstance(v, Lin):
            return ExtV('builtins.int')
        return App('type', self.reify(v, st))

    def x_getattr(self, args, kw, st, node):
        n = self.res(args[1], st)
        if not isinstance(n, K):
            return App('getattr', *[self.reify(a, st) for a in args])
        try:
            return self.getattr(args[0], n.v, st, node)
        except Raised:
            if len(args) > 2:
                return args[2]
            raise

    def x_hasattr(self, args, kw, st, node):
        n = self.res(args[1], st)
        v = self.res(args[0], st)
        if isinstance(n, K) and isinstance(v, (Ref, TyV, K, Tup, ClsV)):
            try:
                self.getattr(v, n.v, st.fork(), node)
                return K(True)
            except Raised:
                return K(False)
        if isinstance(n, K) and n.v in ('shape', 'dtype', 'T') and self.is_array(v):
            return K(True)
        return self.truthval(self._fact_or(App('hasattr', self.reify(v, st), n, typ=('bool',)), st))

    def x_setattr(self, args, kw, st, node):
        n = self.res(args[1], st)
        if not isinstance(n, K):
            raise Unsupported('setattr with unknown name')
        self.set_attr(args[0], n.v, args[2], st, node)
        return K(None)

    def x_list(self, args, kw, st, node):
        return self.new(st, ListO(self.items(args[0], st, node) if args else ()))

    def x_tuple(self, args, kw, st, node):
        return Tup(self.items(args[0], st, node) if args else ())

    def x_set(self, args, kw, st, node):
        its = self.items(args[0], st, node) if args else ()
        out = []
        for x in its:
            if x not in out and not (isinstance(x, Ref) and isinstance(self.obj(st, x), InstO) and len(out) < 12
                                     and any(isinstance(y, Ref) and self.user_eq(y, x, st, node) is True for y in out)):
                out.append(x)
        return self.new(st, ListO(out, 'set'))

    x_frozenset = x_set

    def x_iter(self, args, kw, st, node):
        return Tup(self.items(args[0], st, node))

    def x_dict(self, args, kw, st, node):
        d, rest = {}, None
        if args:
            v = self.res(args[0], st)
            o = self.obj(st, v) if isinstance(v, Ref) else None
            if isinstance(o, DictO):
                d, rest = dict(o.d), o.rest
            elif isinstance(v, (Sym, App)):
                rest = v
            else:
                for x in self.items(v, st, node):
                    if isinstance(x, Tup):
                        self.dput(d, x.items[0], x.items[1], st, node)
                    else:
                        rest = App('dictof', self.reify(x, st))
        d.update({K(k): v for k, v in kw.items()})
        return self.new(st, DictO(d, rest))

    def x_fromkeys(self, args, kw, st, node):
        ks = [self.res(x, st) for x in self.items(args[0], st, node)]
        if any(isinstance(k, Spread) or not isinstance(k, (K, Lin)) for k in ks):
            raise Unsupported('fromkeys')
        return self.new(st, DictO({k: args[1] if len(args) > 1 else K(None) for k in ks}))

    def x_reversed(self, args, kw, st, node):
        return Tup(self.rev_items(self.items(args[0], st, node)))

    def x_sorted(self, args, kw, st, node):
        its = self.items(args[0], st, node)
        if len(its) <= 1 and not any(isinstance(x, Spread) for x in its):
            return self.new(st, ListO(its))
        if not any(isinstance(x, Spread) for x in its) and len(its) <= 12:
            try:
                out = self.sort_items(its, kw, st, node)
            except (Unsupported, Raised):
                out = None
            if out is not None:
                return self.new(st, ListO(out))
        src = App('sorted', App('seq', *[self.reify(x, st) for x in its]),
                  *[Tup((K(k), self.reify(v, st))) for k, v in sorted(kw.items())])
        return self.new(st, ListO((Spread(src, (Sym(('elem', src)),)),)))

    def sort_items(self, its, kw, st, node):
        key = self.res(kw.get('key', K(None)), st)
        rev = self.decide(kw.get('reverse', K(False)), st)
        if rev not in (True, False):
            return None
        ks = [(x if key == K(None) else self.call(key, [x], {}, st, node), x) for x in its]
        out = []
        for k, x in ks:
            j = len(out)
            while j:
                d = self.decide(self.compare('Lt', *((out[j - 1][0], k) if rev else (k, out[j - 1][0])), st, node), st)
                if d is True:
                    j -= 1
                elif d is False:
                    break
                else:
                    return None
            out.insert(j, (k, x))
        return [x for _, x in out]

    def x_enumerate(self, args, kw, st, node):
        its = self.items(args[0], st, node)
        start = args[1] if len(args) > 1 else kw.get('start', I(0))
        out, base = [], start
        for x in its:
            if isinstance(x, Spread):
                if len(x.bodies) != 1:
                    raise Unsupported('enumerate')
                idx = Lin(0, [(Sym(('idx', x.src), ('nat',)), 1)]) + base
                out.append(Spread(x.src, (Tup((idx, x.bodies[0])),), x.rev, x.filt))
                base = base + Lin(0, [(App('len', x.src), 1)])
            else:
                out.append(Tup((base, x)))
                base = base + I(1)
        return Tup(out)

    np_lists = False    # arrays of objects are lists

    def x_zip(self, args, kw, st, node):
        args = [self.res(a, st) for a in args]
        cyc = [isinstance(a, App) and a.op == 'cycle' for a in args]
        seqs = [self.items(a.args[0] if c else a, st, node) for a, c in zip(args, cyc)]
        if any(cyc) and not all(cyc) and not any(isinstance(x, Spread) for s in seqs for x in s):
            n = min(len(s) for s, c in zip(seqs, cyc) if not c)
            seqs = [(list(s) * n)[:n] if c else s for s, c in zip(seqs, cyc)]
        if all(not any(isinstance(x, Spread) for x in s) for s in seqs):
            return Tup([Tup(t) for t in zip(*seqs)])
        if len({len(s) for s in seqs}) == 1:
            out = []
            for t in zip(*seqs):
                if all(isinstance(x, Spread) for x in t):
                    if any(len(x.bodies) != 1 for x in t):
                        raise Unsupported('zip')
                    srcs = [x.src for x in t]
                    revs = {x.rev for x in t}
                    fil = [x.filt for x in t]
                    if len(set(srcs)) == 1 and len(revs) == 1 and len(set(fil)) == 1:
                        out.append(Spread(srcs[0], (Tup([x.bodies[0] for x in t]),), t[0].rev, t[0].filt))
                    else:
                        src = App('zip', *[self.reify(x, st) for x in t])
                        out.append(Spread(src, (Tup([x.bodies[0] for x in t]),)))
                elif any(isinstance(x, Spread) for x in t):
                    raise Unsupported('zip of different shapes')
                else:
                    out.append(Tup(t))
            return Tup(out)
        raise Unsupported('zip of different shapes')

    def x_map(self, args, kw, st, node):
        out = []
        for x in self.items(args[1], st, node):
            if isinstance(x, Spread):
                out.append(Spread(x.src, [self.call(args[0], [b], {}, st, node) for b in x.bodies], x.rev, x.filt))
            else:
                out.append(self.call(args[0], [x], {}, st, node))
        return Tup(out)

    def x_filter(self, args, kw, st, node):
        out = []
        for x in self.items(args[1], st, node):
            b = x.bodies[0] if isinstance(x, Spread) else x
            d = self.decide(self.call(args[0], [b], {}, st, node), st)
            if d is False:
                continue
            if d is True:
                out.append(x)
            elif isinstance(x, Spread):
                out.append(Spread(x.src, x.bodies, x.rev, d if x.filt is None else App('and', x.filt, d)))
            else:
                src = Ite(d, Tup((b,)), Tup(()))
                out.append(Spread(src, (Sym(('elem', src)),)))
        return Tup(out)

    def x_range(self, args, kw, st, node):
        cs = [a.const if isinstance(a, Lin) else None for a in args]
        if all(c is not None for c in cs) and len(range(*cs)) <= 64:
            return Tup([I(i) for i in range(*cs)])
        if len(args) == 2 and args[0] == I(0):
            args = args[1:]
        return App('range', *args)

    def x_any(self, args, kw, st, node):
        return self.anyall(args, st, node, True)

    def x_all(self, args, kw, st, node):
        return self.anyall(args, st, node, False)

    def anyall(self, args, st, node, isany):
        unk = []
        for x in self.items(args[0], st, node):
            if isinstance(x, Spread):
                s = st.fork()
                ds = [self.decide(b, s) for b in x.bodies]
                if all(d is (not isany) for d in ds):
                    continue
                unk.append(App('any' if isany else 'all', Spread(x.src, [self.truthval(d) for d in ds], False, x.filt), typ=('bool',)))
                continue
            d = self.decide(x, st)
            if d is isany:
                return K(isany)
            if d is not (not isany):
                unk.append(d)
        if not unk:
            return K(not isany)
        if len(unk) == 1:
            return self.truthval(self._fact_or(unk[0], st))
        return self.truthval(self._fact_or(App('or' if isany else 'and', *unk, typ=('bool',)), st))

    def x_sum(self, args, kw, st, node):
        its = self.items(args[0], st, node)
        tot = args[1] if len(args) > 1 else kw.get('start', I(0))
        for x in its:
            if isinstance(x, Spread):
                b = x.bodies
                if all(isinstance(y, Lin) and y.const is not None for y in b) and x.filt is None:
                    n = Lin(0, [(App('len', x.src), sum(y.const for y in b))])
                    tot = self.binop('Add', tot, n, st, node)
                    continue
                tot = self.binop('Add', tot, App('sum', self.reify(x, st), typ=('int',)), st, node)
            else:
                tot = self.binop('Add', tot, x, st, node)
        return tot

    def x_int(self, args, kw, st, node):
        v = self.res(args[0], st) if args else I(0)
        if isinstance(v, Lin):
            return v
        if isinstance(v, K):
            try:
                b = self.res(args[1] if len(args) > 1 else kw.get('base', I(10)), st)
                if isinstance(b, Lin) and b.const is not None and isinstance(v.v, str):
                    return I(int(v.v, b.const))
                return I(int(v.v))
            except Exception:
                raise Raised(App('exc', K('ValueError')), self.where(node))
        if isinstance(v, Ite):
            return self.mkite(v.c, self.x_int([v.a], {}, st, node), self.x_int([v.b], {}, st, node))
        if self.boolean(v):
            return self.mkite(v, I(1), I(0))
        return App('int', self.reify(v, st), typ=('int',))

    @staticmethod
    def number(v):
        if isinstance(v, Lin):
            return v.const
        return v.v if isinstance(v, K) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool) else None

    def x_float(self, args, kw, st, node):
        v = self.res(args[0], st) if args else K(0.0)
        if isinstance(v, K) and isinstance(v.v, (str, float)):
            try:
                return K(float(v.v))
            except ValueError:
                raise Raised(App('exc', K('ValueError')), self.where(node))
        if isinstance(v, Lin) and v.const is not None:
            return K(float(v.const))
        return App('float', self.reify(v, st), typ=('real',))

    def x_bool(self, args, kw, st, node):
        d = self.decide(args[0], st) if args else False
        return self.truthval(d)

    def x_str(self, args, kw, st, node):
        return self.tostr(args[0], st) if args else K('')

    def x_repr(self, args, kw, st, node):
        v = self.res(args[0], st)
        o = self.obj(st, v) if isinstance(v, Ref) else None
        if self.repr_on and isinstance(o, InstO):
            own = o.cls.dc_owner('repr')
            if own is not None and isinstance(own[1], FuncInfo):
                return self.call(BoundV(FnV(own[1]), v), [], {}, st, node)
            if own is not None and own[1] == 'generated':
                parts = [(f.name, self.x_repr([self.getattr(v, f.name, st, node)], {}, st, node)) for f in own[0].dc_fields()
                         if getattr(f, 'repr', True) and not getattr(f, 'initvar', False)]
                if all(isinstance(x, K) for _, x in parts):
                    return K(f'{o.cls.name}(' + ', '.join(f'{n}={x.v}' for n, x in parts) + ')')
        if self.repr_on and isinstance(o, ListO) and o.kind == 'list' and not any(isinstance(x, Spread) for x in o.items):
            parts = [self.x_repr([x], {}, st, node) for x in o.items]
            if all(isinstance(x, K) for x in parts):
                return K('[' + ', '.join(x.v for x in parts) + ']')
        if self.repr_on and isinstance(v, FnV):
            return K(f'<function {v.info.name}>')
        if self.repr_on and isinstance(v, K) and isinstance(v.v, (str, int, float, type(None))):
            return K(repr(v.v))
        if self.repr_on and isinstance(v, Lin) and v.const is not None:
            return K(repr(v.const))
        return App('repr', self.reify(v, st), typ=('str',))

    repr_on = False     # evaluate __repr__ and __hash__ methods

    def x_hash(self, args, kw, st, node):
        v = self.res(args[0], st)
        o = self.obj(st, v) if isinstance(v, Ref) else None
        if self.repr_on and isinstance(o, InstO):
            own = o.cls.dc_owner('hash')
            for _ in range(5):      # __hash__ = Other.__hash__
                if own is not None and isinstance(own[1], ast.Attribute) and own[1].attr == '__hash__':
                    k = self.p.resolve_expr(own[1].value, own[0].module)
                    if isinstance(k, ClassInfo):
                        own = k.dc_owner('hash')
            if own is not None and own[1] == 'none':
                raise Raised(App('exc', K('TypeError'), K('unhashable')), self.where(node))
            f = own[1] if own is not None else None
            if isinstance(f, ast.AST):
                f = self.class_expr(own[0], f, st)
                f = f.info if isinstance(f, FnV) else None
            if isinstance(f, FuncInfo):
                return self.call(BoundV(FnV(f), v), [], {}, st, node)
            if own is None:
                return App('id()', self.reify(v, st), typ=('int',))
        if self.repr_on and isinstance(v, Tup) and not any(isinstance(x, Spread) for x in v.items):
            return App('hash', Tup([x if isinstance(x, (K, Lin)) else self.x_hash([x], {}, st, node) for x in map(
                lambda y: self.res(y, st), v.items)]), typ=('int',))
        return App('hash', self.reify(args[0], st), typ=('int',))

    def x_id(self, args, kw, st, node):
        return App('id()', self.reify(args[0], st), typ=('int',))

    def x_abs(self, args, kw, st, node):
        v = self.res(args[0], st)
        if isinstance(v, Lin) and v.const is not None:
            return I(abs(v.const))
        if isinstance(v, K) and isinstance(v.v, (bool, float, complex)):
            return self.from_py(abs(v.v), st)
        return App('abs', self.reify(v, st), typ=('int',))

    def x_min(self, args, kw, st, node):
        return self.minmax('min', args, kw, st, node)

    def x_max(self, args, kw, st, node):
        return self.minmax('max', args, kw, st, node)

    def minmax(self, n, args, kw, st, node):
        its = self.items(args[0], st, node) if len(args) == 1 else tuple(args)
        if all(isinstance(x, Lin) and x.const is not None for x in its) and its and not kw:
            return I((min if n == 'min' else max)(x.const for x in its))
        rs = [self.res(x, st) for x in its]
        num = lambda x: x.const if isinstance(x, Lin) else x.v if isinstance(x, K) and isinstance(x.v, (int, float)) else None
        if not its and len(args) == 1 and set(kw) <= {'key', 'default'}:
            if 'default' in kw:
                return kw['default']
            raise Raised(App('exc', K('ValueError'), K(f'{n}() iterable argument is empty')), self.where(node))
        if its and all(num(x) is not None for x in rs) and 'key' not in kw:
            return (min if n == 'min' else max)(rs, key=num)
        return App(n, *[self.reify(x, st) for x in its], typ=('int',))

    def x_callable(self, args, kw, st, node):
        v = self.res(args[0], st)
        if isinstance(v, (FnV, BoundV, ClsV, PartialV)):
            return K(True)
        if isinstance(v, (K, Lin, TyV, Tup)):
            return K(False)
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if not isinstance(o, InstO):
                return K(False)
            if o.cls.find_method('__call__') is not None:
                return K(True)
            if not any(c.ext_bases for c in o.cls.mro()):
                return K(False)
        return App('callable', self.reify(v, st), typ=('bool',))

    def x_next(self, args, kw, st, node):
        its = self.items(args[0], st, node)
        if its and not isinstance(its[0], Spread):
            return its[0]
        if not its:
            if len(args) > 1:
                return args[1]
            raise Raised(App('exc', K('StopIteration')), self.where(node))
        return App('next', App('seq', *[self.reify(x, st) for x in its]), *args[1:])

    def x_print(self, args, kw, st, node):
        return K(None)

    def x_cast(self, args, kw, st, node):
        return args[1]

    def is_mutable(self, o):
        """Containers and instances of classes that are not frozen."""
        if isinstance(o, InstO):
            return not any('frozen=True' in ast.unparse(d) for c in o.cls.mro() for d in c.node.decorator_list)
        return not (isinstance(o, ListO) and o.kind in ('tuple', 'frozenset'))

    def x_replace(self, args, kw, st, node):
        return self.dc_replace(args[0], kw, st, node)

    def x_deepcopy(self, args, kw, st, node):
        return self.copy_value(args[0], st, True)

    def x_copy(self, args, kw, st, node):
        return self.copy_value(args[0], st, False)

    def copy_value(self, v, st, deep, memo=None):
        v = self.res(v, st)
        memo = {} if memo is None else memo
        if isinstance(v, Ref):
            if v in memo:
                return memo[v]
            o = self.obj(st, v)
            r = self.new(st, o)
            memo[v] = r
            if deep:
                cp = lambda x: self.copy_value(x, st, True, memo)
                if isinstance(o, InstO):
                    o = InstO(o.cls, {k: cp(x) for k, x in o.fields.items()})
                elif isinstance(o, ListO):
                    o = ListO([Spread(x.src, [cp(b) for b in x.bodies], x.rev, x.filt)
                               if isinstance(x, Spread) else cp(x) for x in o.items], o.kind)
                else:
                    o = DictO({cp(k): cp(x) for k, x in o.d.items()}, o.rest)
                self.setobj(st, r, o)
            return r
        if isinstance(v, Tup) and deep:
            return Tup([self.copy_value(x, st, True, memo) for x in v.items])
        return v

    def x_loads(self, args, kw, st, node):
        h = self.intrinsics.get('json.loads')
        if h is not None:
            return h(self, st, args, kw, node)
        return App('json.loads', self.reify(args[0], st))

    def x_partial(self, args, kw, st, node):
        return PartialV(args[0], args[1:], kw)

    def x_product(self, args, kw, st, node):
        import itertools
        n = self.res(kw.get('repeat', I(1)), st)
        seqs = []
        for a in args:
            a = self.res(a, st)
            seqs.append([K(x) for x in a.v] if isinstance(a, K) and isinstance(a.v, str) else self.items(a, st, node))
        if isinstance(n, Lin) and n.const is not None and not any(isinstance(x, Spread) for s in seqs for x in s):
            out = list(itertools.islice(itertools.product(*seqs, repeat=n.const), 1025))
            if len(out) <= 1024:
                return Tup([Tup(list(x)) for x in out])
        return App('ext:itertools.product', *[self.reify(a, st) for a in args], Tup((K('repeat'), n)))

    def x_chain(self, args, kw, st, node):
        out = ()
        for a in args:
            out += self.items(a, st, node)
        return Tup(out)

    def x_object(self, args, kw, st, node):
        return Sym(('object', self.fresh()))

    def x_slice(self, args, kw, st, node):
        a = [x if x is not None else K(None) for x in args]
        return App('sliceobj', *((K(None), a[0], K(None)) if len(a) == 1 else (a + [K(None)])[:3]))

    def x_super(self, args, kw, st, node):
        if len(args) == 2 and isinstance(args[0], ClsV):
            return SuperV(args[0].cls, args[1])
        raise Unsupported('super')

    # ======================= statements =================================
    def block(self, stmts, fid, mod, st):
        """Execute; returns abrupt exits [(kind, value, store)]; st.live
        tells whether control falls through."""
        exits = []
        for s in stmts:
            if not st.live:
                break
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Unsupported(f'statement {type(s).__name__}', self.where(s))
            self.steps += 1
            try:
                r = m(s, fid, mod, st)
            except Raised as ex:
                s2 = ex.store if isinstance(ex.store, Store) else st.fork()
                s2 = s2.fork()
                s2.guards = st.guards
                exits.append(('raise', ex, s2))
                st.live = False
                r = None
            if r:
                exits.extend(r)
        return exits

    def s_Expr(self, s, fid, mod, st):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            y = self.lookup_cell(fid, '<yield>', st)
            o = self.obj(st, y)
            if isinstance(s.value, ast.Yield):
                v = self.eval(s.value.value, fid, mod, st) if s.value.value else K(None)
                o = self.obj(st, y)
                self.setobj(st, y, ListO(o.items + (v,)))
            else:
                its = self.items(self.eval(s.value.value, fid, mod, st), st, s)
                o = self.obj(st, y)
                self.setobj(st, y, ListO(o.items + its))
            return
        self.eval(s.value, fid, mod, st)

    def s_Pass(self, s, fid, mod, st):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, fid, mod, st):
        names = {}
        mod.bind_import(s, names)
        for n, b in names.items():
            if b[0] == 'module':
                r = self.p.modules.get(b[1]) or ('ext', b[1])
            else:
                r = self.p.resolve_from(*b[1])
            v = self.resolved(r, st, n)
            if v is None:
                v = ExtV('.'.join(map(str, b[1])) if isinstance(b[1], tuple) else b[1])
            st.m[('v', fid, n)] = v

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, fid, mod, st):
        fi = FuncInfo(s, mod, None)
        fi.outer = self.stack[-1][0] if self.stack else None
        fi.cls = self.stack[-1][0].cls if self.stack else None
        if fi.is_overload:
            return
        st.m[('v', fid, s.name)] = FnV(fi, fid)

    def s_ClassDef(self, s, fid, mod, st):
        raise Unsupported('local class')

    def s_Assert(self, s, fid, mod, st):
        n = len(self.cond_raises[-1])
        d = self.decide(self.eval(s.test, fid, mod, st), st)
        if d is True:
            return
        if d is False:
            raise Raised(App('exc', K('AssertionError')), self.where(s))
        s2 = st.fork()
        self.assume(s2, d, False)
        g = st.guards
        self.assume(st, d, True)
        st.guards = g
        return

    def s_Return(self, s, fid, mod, st):
        v = self.eval(s.value, fid, mod, st) if s.value is not None else K(None)
        out = ('return', v, st.move())
        st.live = False
        return [out]

    def s_Raise(self, s, fid, mod, st):
        if s.exc is None:
            v = App('exc', K('reraise'))
        else:
            try:
                v = self.eval(s.exc, fid, mod, st)
                if isinstance(v, ExtV):
                    v = App('exc', K(v.name.split('.')[-1]))
                elif isinstance(v, ClsV):
                    v = App('exc', K(v.cls.name))
                elif isinstance(v, Ref):
                    o = self.obj(st, v)
                    v = App('exc', K(o.cls.name if isinstance(o, InstO) else 'Exception'))
            except Unsupported:
                n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                v = App('exc', K(ast.unparse(n).split('.')[-1]))
        out = ('raise', Raised(v, self.where(s)), st.move())
        st.live = False
        return [out]

    def s_Break(self, s, fid, mod, st):
        out = ('break', None, st.move())
        st.live = False
        return [out]

    def s_Continue(self, s, fid, mod, st):
        out = ('continue', None, st.move())
        st.live = False
        return [out]

    def s_Assign(self, s, fid, mod, st):
        v = self.eval(s.value, fid, mod, st)
        for t in s.targets:
            self.bind(t, v, fid, mod, st)

    def s_AnnAssign(self, s, fid, mod, st):
        if s.value is None:
            return
        v = self.eval(s.value, fid, mod, st)
        self.bind(s.target, v, fid, mod, st)

    def s_AugAssign(self, s, fid, mod, st):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, fid, mod, st, s)
            v = self.eval(s.value, fid, mod, st)
            r = self.binop(op, cur, v, st, s, inplace=True)
            self.bind(t, r, fid, mod, st)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, fid, mod, st)
            cur = self.getattr(base, t.attr, st, s)
            v = self.eval(s.value, fid, mod, st)
            r = self.binop(op, cur, v, st, s, inplace=True)
            self.set_attr(base, t.attr, r, st, s)
        elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            base = self.eval(t.value, fid, mod, st)
            i = self.eval(t.slice, fid, mod, st)
            cur = self.getitem(base, i, st, s)
            v = self.eval(s.value, fid, mod, st)
            self.setitem(base, i, self.binop(op, cur, v, st, s, inplace=True), st, s)
        else:
            raise Unsupported('augmented assignment', self.where(s))

    def const_slice(self, sl, fid, mod, st):
        def cst(x):
            if x is None:
                return None
            v = self.res(self.eval(x, fid, mod, st), st)
            if isinstance(v, K) and v.v is None:
                return None
            if isinstance(v, Lin) and v.const is not None:
                return v.const
            raise Unsupported('slice', self.where(x))
        return slice(cst(sl.lower), cst(sl.upper), cst(sl.step))

    def s_Delete(self, s, fid, mod, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.m.pop(('v', fid, t.id), None)
            elif isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                base = self.res(self.eval(t.value, fid, mod, st), st)
                i = self.eval(t.slice, fid, mod, st)
                o = self.obj(st, base) if isinstance(base, Ref) else None
                if isinstance(o, DictO) and self.dkey(o, self.res(i, st), st, s)[1]:
                    d = dict(o.d)
                    del d[self.dkey(o, self.res(i, st), st, s)[0]]
                    self.setobj(st, base, DictO(d, o.rest))
                elif isinstance(o, ListO) and isinstance(i, Lin) and i.const is not None \
                        and not any(isinstance(x, Spread) for x in o.items):
                    its = list(o.items)
                    del its[i.const]
                    self.setobj(st, base, ListO(its, o.kind))
                else:
                    raise Unsupported('del item', self.where(s))
            else:
                if isinstance(t, ast.Subscript):
                    base = self.res(self.eval(t.value, fid, mod, st), st)
                    o = self.obj(st, base) if isinstance(base, Ref) else None
                    if isinstance(o, ListO) and not any(isinstance(x, Spread) for x in o.items):
                        its = list(o.items)
                        del its[self.const_slice(t.slice, fid, mod, st)]
                        self.setobj(st, base, ListO(its, o.kind))
                        continue
                if isinstance(t, ast.Attribute):
                    base = self.res(self.eval(t.value, fid, mod, st), st)
                    o = self.obj(st, base) if isinstance(base, Ref) else None
                    if isinstance(o, InstO):
                        m = o.cls.find_method(t.attr)
                        if t.attr in o.fields:
                            fs = dict(o.fields)
                            del fs[t.attr]
                            self.setobj(st, base, InstO(o.cls, fs))
                            continue
                        if m is not None and m.is_cached_property:
                            continue    # recomputed at every use here
                raise Unsupported('del', self.where(s))

    def bind(self, t, v, fid, mod, st):
        if isinstance(t, ast.Name):
            st.m[('v', fid, t.id)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.res(v, st)
            if isinstance(v, Ite):
                for i, x in enumerate(t.elts):
                    self.bind(x, self.getitem(v, I(i), st, t), fid, mod, st)
                return
            if isinstance(v, (Sym, App)) and not (isinstance(v, Sym) and v.typ[0] == 'cls'
                                                  and v.typ[1].find_method('__iter__')):
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        raise Unsupported('starred target')
                    self.bind(x, self.getitem(v, I(i), st, t), fid, mod, st)
                return
            its = self.items(v, st, t)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                nafter = len(t.elts) - i - 1
                if any(isinstance(x, Spread) for x in its[:i]) or \
                        (nafter and any(isinstance(x, Spread) for x in its[-nafter:])):
                    raise Unsupported('starred target')
                for x, y in zip(t.elts[:i], its[:i]):
                    self.bind(x, y, fid, mod, st)
                mid = its[i:len(its) - nafter]
                self.bind(t.elts[i].value, self.new(st, ListO(mid)), fid, mod, st)
                for x, y in zip(t.elts[i + 1:], its[len(its) - nafter:]):
                    self.bind(x, y, fid, mod, st)
                return
            if any(isinstance(x, Spread) for x in its):
                src = App('seq', *[self.reify(x, st) for x in its])
                for i, x in enumerate(t.elts):
                    self.bind(x, App('getitem', src, I(i)), fid, mod, st)
                return
            if len(its) != len(t.elts):
                raise Raised(App('exc', K('ValueError'), K('unpack')), self.where(t))
            for x, y in zip(t.elts, its):
                self.bind(x, y, fid, mod, st)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, fid, mod, st)
            self.set_attr(base, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, fid, mod, st)
            if isinstance(t.slice, ast.Slice):
                rb = self.res(base, st)
                o = self.obj(st, rb) if isinstance(rb, Ref) else None
                if isinstance(o, ListO) and not any(isinstance(x, Spread) for x in o.items):
                    its = list(o.items)
                    its[self.const_slice(t.slice, fid, mod, st)] = self.items(v, st, t)
                    self.setobj(st, rb, ListO(its, o.kind))
                    return
                raise Unsupported('slice assignment', self.where(t))
            i = self.eval(t.slice, fid, mod, st)
            if isinstance(t.value, ast.Name) and self.is_array(self.res(base, st)):
                # a fresh array bound to this name only
                self.bind(t.value, App('setitem', self.res(base, st), i, self.reify(v, st)), fid, mod, st)
                return
            self.setitem(base, i, v, st, t)
        else:
            raise Unsupported('target')

    def setitem(self, base, i, v, st, node):
        base = self.res(base, st)
        o = self.obj(st, base) if isinstance(base, Ref) else None
        if isinstance(o, DictO):
            i = self.res(i, st)
            d = dict(o.d)
            self.dput(d, i, v, st, node)
            self.setobj(st, base, DictO(d, o.rest))
            return
        if isinstance(o, ListO) and isinstance(i, Lin) and i.const is not None:
            its = list(o.items)
            c = i.const
            seg = its[:c + 1] if c >= 0 else its[c:]
            if not any(isinstance(x, Spread) for x in seg) and -len(its) <= c < len(its):
                its[c] = v
                self.setobj(st, base, ListO(its, o.kind))
                return
        if isinstance(o, InstO):
            m = o.cls.find_method('__setitem__')
            if m is not None:
                self.call_fn(FnV(m), [base, i, v], {}, st, node)
                return
        if isinstance(base, (Sym, App)):
            self.ext_write(base, v, st, node)
            return
        raise Unsupported('item assignment', self.where(node))

    def ext_write(self, base, v, st, node):
        raise Unsupported(f'write into unknown object {show(base)}', self.where(node))

    def set_attr(self, base, name, v, st, node):
        base = self.res(base, st)
        o = self.obj(st, base) if isinstance(base, Ref) else None
        if isinstance(o, InstO):
            m = o.cls.find_method('__setattr__')
            if m is not None and not any(f.node is m.node for f, _ in self.stack):
                self.call_fn(FnV(m), [base, K(name), v], {}, st, node)
                return
            for c in o.cls.mro():
                if name in c.setters:
                    self.call_fn(FnV(c.setters[name]), [base, v], {}, st, node)
                    return
            self.setattr_raw(base, name, v, st, node)
            return
        if isinstance(base, (Sym, App)):
            self.ext_write(base, v, st, node)
            return
        if isinstance(base, Ite):
            raise Unsupported('attribute write through gated value', self.where(node))
        raise Unsupported('attribute assignment', self.where(node))

    def setattr_raw(self, base, name, v, st, node):
        o = self.obj(st, base)
        if not isinstance(o, InstO):
            raise Unsupported('attribute assignment')
        self.setobj(st, base, o.set(name, v))

    def s_If(self, s, fid, mod, st):
        d = self.decide(self.eval(s.test, fid, mod, st), st)
        if d is True:
            return self.block(s.body, fid, mod, st)
        if d is False:
            return self.block(s.orelse, fid, mod, st)
        g = st.guards
        s1, s2 = st.fork(), st.fork()
        self.assume(s1, d, True)
        self.assume(s2, d, False)
        e1 = self.block(s.body, fid, mod, s1)
        e2 = self.block(s.orelse, fid, mod, s2)
        if s1.live and s2.live:
            st.become(self.merge(d, s1, s2, g))
        elif s1.live:
            st.become(s1)
        elif s2.live:
            st.become(s2)
        else:
            st.live = False
        return e1 + e2

    def s_Match(self, s, fid, mod, st):
        raise Unsupported('match statement')

    def s_With(self, s, fid, mod, st):
        for it in s.items:
            v = self.eval(it.context_expr, fid, mod, st)
            o = self.obj(st, v) if isinstance(v, Ref) else None
            if isinstance(o, InstO) and o.cls.find_method('__enter__') is not None:
                v = self.call(self.getattr(v, '__enter__', st, it.context_expr), [], {}, st, it.context_expr)
            else:
                v = App('enter', self.reify(v, st))
            if it.optional_vars is not None:
                self.bind(it.optional_vars, v, fid, mod, st)
        return self.block(s.body, fid, mod, st)

    def s_Try(self, s, fid, mod, st):
        pre = st.fork()
        self.cond_raises.append([])
        exits = self.block(s.body, fid, mod, st)
        conds = self.cond_raises.pop()
        out = []
        handled = []          # (cond, store) alternatives that reach a handler
        for kind, v, sx in exits:
            if kind == 'raise':
                h = self.find_handler(s, v, mod)
                if h is not None:
                    handled.append((None, h, v, sx))
                    continue
            out.append((kind, v, sx))
        for c, pol, ex, sx in conds:
            h = self.find_handler(s, ex, mod)
            if h is not None:
                handled.append(((c, pol), h, ex, sx))
            else:
                self.cond_raises[-1].append((c, pol, ex, sx))
        if st.live and s.orelse:
            out += self.block(s.orelse, fid, mod, st)
        g = pre.guards
        normal = st if st.live else None
        for cond, h, ex, sx in handled:
            hs = sx.fork()
            if h.name:
                hs.m[('v', fid, h.name)] = ex.exc if isinstance(ex, Raised) else ex
            ho = self.block(h.body, fid, mod, hs)
            out += ho
            if hs.live:
                if normal is None:
                    normal = hs
                elif cond is not None:
                    c, pol = cond
                    normal = self.merge(c, hs, normal, g) if pol else self.merge(c, normal, hs, g)
                else:
                    # exclusive by guards
                    c = self.guard_cond(hs.guards[len(g):])
                    normal = self.merge(c, hs, normal, g)
        if normal is None:
            st.live = False
        elif normal is not st:
            st.become(normal)
            st.live = True
        if s.finalbody:
            if st.live:
                out += self.block(s.finalbody, fid, mod, st)
            fixed = []
            for kind, v, sx in out:
                sf = sx.fork()
                sf.live = True
                fo = self.block(s.finalbody, fid, mod, sf)
                fixed += fo
                if sf.live:
                    fixed.append((kind, v, sf))
            out = fixed
        return out

    def guard_cond(self, gs):
        c = None
        for t, b in gs:
            x = t if b else App('not', t)
            c = x if c is None else App('and', *self.flat('and', c, x), typ=('bool',))
        return c if c is not None else App('unknown', K(self.fresh()))

    EXC_PARENTS = {'KeyError': {'LookupError', 'Exception', 'BaseException'},
                   'IndexError': {'LookupError', 'Exception', 'BaseException'},
                   'NotImplementedError': {'RuntimeError', 'Exception', 'BaseException'},
                   'ModuleNotFoundError': {'ImportError', 'Exception', 'BaseException'}}

    def find_handler(self, s, ex, mod):
        e = ex.exc if isinstance(ex, Raised) else ex
        name = e.args[0].v if isinstance(e, App) and e.op == 'exc' and isinstance(e.args[0], K) else None
        for h in s.handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                n = ast.unparse(t).split('.')[-1]
                if n in ('Exception', 'BaseException') or n == name:
                    return h
                if name and n in self.EXC_PARENTS.get(name, ()):
                    return h
                r = self.p.resolve_expr(t, mod)
                if isinstance(r, ClassInfo) and name:
                    for m in self.p.modules.values():
                        if name in m.classes and m.classes[name].is_sub(r):
                            return h
        return None

    # ------------------------------------------------ loops
    def s_While(self, s, fid, mod, st):
        out, broken = [], []
        for rnd in range(40):
            d = self.decide(self.eval(s.test, fid, mod, st), st)
            if d is False:
                if st.live and s.orelse:
                    out += self.block(s.orelse, fid, mod, st)
                break
            if d is not True:
                raise Unsupported('while loop', self.where(s))
            for kind, v, sx in self.block(s.body, fid, mod, st):
                if kind == 'break':
                    broken.append(sx)
                elif kind == 'continue':
                    self.rejoin(st, sx)
                else:
                    out.append((kind, v, sx))
            if not st.live:
                break
        else:
            raise Unsupported('while loop bound', self.where(s))
        for sx in broken:
            self.rejoin(st, sx)
        return out

    def s_For(self, s, fid, mod, st):
        src = self.eval(s.iter, fid, mod, st)
        items = self.items(src, st, s.iter)
        out = []
        broken = []
        live, count = self.res(src, st), False      # a list is followed while it changes
        if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'enumerate' \
                and len(s.iter.args) == 1 and not s.iter.keywords and isinstance(s.iter.args[0], ast.Name):
            live, count = self.res(self.eval(s.iter.args[0], fid, mod, st), st), True
        o = self.obj(st, live) if isinstance(live, Ref) else None
        plain = lambda o: isinstance(o, ListO) and o.kind == 'list' and not any(isinstance(x, Spread) for x in o.items)
        if not plain(o):
            live = None
        i = 0
        while True:
            if live is not None and st.live:
                now = self.obj(st, live)
                if now is not o and plain(now):
                    o = now
                    items = tuple(Tup((I(j), x)) for j, x in enumerate(o.items)) if count else o.items
            if i >= len(items) or not st.live:
                break
            it = items[i]
            i += 1
            if isinstance(it, Spread):
                out += self.loop_spread(s, it, fid, mod, st)
                continue
            self.bind(s.target, it, fid, mod, st)
            ex = self.block(s.body, fid, mod, st)
            for kind, v, sx in ex:
                if kind == 'break':
                    broken.append(sx)
                elif kind == 'continue':
                    self.rejoin(st, sx)
                else:
                    out.append((kind, v, sx))
        if st.live and s.orelse:
            out += self.block(s.orelse, fid, mod, st)
        for sx in broken:
            self.rejoin(st, sx)
        return out

    def rejoin(self, st, sx):
        """Join an abrupt (break/continue) state back into the flow."""
        sx = sx.fork()
        sx.live = True
        if not st.live:
            st.become(sx)
            return
        # common guard prefix
        i = 0
        while i < min(len(st.guards), len(sx.guards)) and st.guards[i] == sx.guards[i]:
            i += 1
        g = st.guards[:i]
        c = self.guard_cond(sx.guards[i:])
        st.become(self.merge(c, sx, st, g))

    def changed(self, a, b):
        return [k for k in b.m if k[0] in 'vo' and k in a.m and a.m[k] is not b.m[k] and a.m[k] != b.m[k]]

    def loop_spread(self, s, it, fid, mod, st):
        """Summary of a loop over sequences of unknown length."""
        pre = st.fork()
        nob = len(self.obls)
        tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        phis = {}           # key -> placeholder
        keep = {}           # key -> invariant description
        mods = set()
        for rnd in range(8):
            h = pre.fork()
            del self.obls[nob:]
            for k in mods:
                h.m[k] = self.placeholder(k, pre.m[k], rnd, keep.get(k))
            base = h.fork()
            if it.filt is not None:
                self.assume(h, it.filt, True)
            exits = []
            for b in it.bodies:
                self.bind(s.target, b, fid, mod, h)
                ex = self.block(s.body, fid, mod, h)
                for kind, v, sx in ex:
                    if kind == 'continue':
                        self.rejoin(h, sx)
                    else:
                        exits.append((kind, v, sx))
            ch = [k for k in self.changed(base, h) if not (k[0] == 'v' and k[2] in tnames)] if h.live else []
            for kind, v, sx in exits:
                if kind == 'break':
                    ch += [k for k in self.changed(base, sx) if k not in ch and not (k[0] == 'v' and k[2] in tnames)]
            new = [k for k in ch if k not in mods and k in pre.m]
            bad = False
            if not new:
                # check invariants of placeholders
                for k in list(mods):
                    if h.live and not self.inv_ok(k, base.m[k], h.m[k], keep, pre.m[k]):
                        bad = True
                if not bad:
                    break
            mods |= set(new)
        else:
            raise Unsupported('loop summary did not converge', self.where(s))
        brk = [sx for kind, v, sx in exits if kind == 'break']
        out = [(kind, v, sx) for kind, v, sx in exits if kind not in ('break', 'continue')]
        # final state
        fin = pre.fork()
        for k, v in h.m.items():
            if k not in fin.m and k[0] == 'o':
                fin.m[k] = v
        for k in mods:
            if brk:
                fin.m[k] = self.havoc(k, pre.m[k])
            else:
                fin.m[k] = self.summary(k, pre.m[k], base.m[k], h.m.get(k) if h.live else base.m[k], it, keep.get(k))
        for n in tnames:
            fin.m[('v', fid, n)] = Sym(('last', it.src, n))
        fin.guards = pre.guards
        # exceptions/returns inside the loop leave under an existential guard
        o2 = []
        for kind, v, sx in out:
            s2 = sx.fork()
            c = self.guard_cond(sx.guards[len(pre.guards):]) if len(sx.guards) > len(pre.guards) else App('nonempty', it.src)
            ec = App('exists', it.src, c)
            s2.guards = pre.guards + ((ec, True),)
            o2.append((kind, v, s2))
            fin.guards = fin.guards + ((ec, False),)
            fin.m[('f', ec)] = False
            # on the continuing path no element satisfied the guard
            fin.m[('f', App('exists', it.src, c))] = False
        if not h.live and not brk and not o2:
            pass
        st.become(fin)
        return o2

    def placeholder(self, k, v, rnd, keep):
        tag = ('phi', str(k[1]), k[2] if k[0] == 'v' else k[1])
        if isinstance(v, TyV):
            return self.ty_gen(tag)
        if isinstance(v, DgV):
            keepd, keepc = keep or (True, True)
            return DgV(v.dom if keepd else self.ty_gen(tag + ('dom',)),
                       v.cod if keepc else self.ty_gen(tag + ('cod',)), Sym(tag))
        if isinstance(v, Lin):
            return Lin(0, [(Sym(tag, ('int',)), 1)])
        if isinstance(v, ListO):
            p = Sym(tag)
            return ListO((Spread(p, (Sym(('elem', p)),)),), v.kind)
        if isinstance(v, DictO):
            return DictO({}, Sym(tag))
        if isinstance(v, InstO):
            return InstO(v.cls, {f: self.placeholder(('v', k[1], f), x, rnd, None) if isinstance(x, (TyV, DgV, Lin))
                                 else Sym(tag + (f,), getattr(x, 'typ', ANY)) for f, x in v.fields.items()})
        return Sym(tag, getattr(v, 'typ', ANY))

    def inv_ok(self, k, before, after, keep, pre):
        if isinstance(before, DgV):
            kd, kc = keep.get(k, (True, True))
            if not isinstance(after, DgV):
                raise Unsupported('loop-carried diagram changes kind')
            nd, nc = kd and after.dom == before.dom, kc and after.cod == before.cod
            if (nd, nc) != (kd, kc):
                keep[k] = (nd, nc)
                return False
        return True

    def havoc(self, k, v):
        tag = ('havoc', self.fresh('h'))
        return self.placeholder(('v', tag[1], 'h'), v, 0, (False, False))

    def summary(self, k, pre, before, after, it, keep):
        """Value after all iterations, from one generic iteration."""
        if after == before:
            return pre
        phi = self.phi_in(before)
        if isinstance(before, ListO) and isinstance(after, ListO):
            n = len(before.items)
            if after.items[:n] == before.items:
                app = after.items[n:]
                if not any(self.mentions(x, phi) for x in app):
                    if all(not isinstance(x, Spread) for x in app):
                        return ListO(pre.items + (Spread(it.src, app, it.rev, it.filt),), pre.kind)
                    if len(app) == 1:
                        x = app[0]
                        if isinstance(x.src, Ite) and isinstance(x.src.a, Tup) and isinstance(x.src.b, Tup) \
                                and len(x.src.a.items) + len(x.src.b.items) == 1:
                            # conditional append = filter
                            c = x.src.c if x.src.a.items else App('not', x.src.c)
                            body = (x.src.a.items or x.src.b.items)
                            f = c if it.filt is None else App('and', *self.flat('and', it.filt, c), typ=('bool',))
                            return ListO(pre.items + (Spread(it.src, body, it.rev, f),), pre.kind)
                        src2 = App('nest', it.src, x)
                        return ListO(pre.items + (Spread(src2, x.bodies, it.rev, it.filt),), pre.kind)
            if n and after.items[len(after.items) - n:] == before.items and pre.kind == 'list':
                app = after.items[:len(after.items) - n]
                if not any(self.mentions(x, phi) for x in app) and not any(isinstance(x, Spread) for x in app):
                    return ListO((Spread(it.src, app, not it.rev, it.filt),) + pre.items, pre.kind)
        if isinstance(before, TyV) and isinstance(after, TyV) and it.filt is None:
            n = len(before.f)
            if after.f[:n] == before.f:
                body = TyV(after.f[n:])
                if not self.mentions(body, phi):
                    return pre @ self.ty_prod(it.src, body, it.rev)
            if n and after.f[-n:] == before.f:
                body = TyV(after.f[:-n])
                if not self.mentions(body, phi):
                    return self.ty_prod(it.src, body, not it.rev) @ pre
        if isinstance(before, DgV) and isinstance(after, DgV):
            dom = pre.dom if (keep or (True, True))[0] else self.opaque_ty('dom')
            cod = pre.cod if (keep or (True, True))[1] else None
            if cod is None:
                # cod grows by a product?
                n = len(before.cod.f)
                b = before.cod.f
                a = after.cod.f
                ph = self.phi_in(before.cod)
                if it.filt is None and a[:n] == b and not self.mentions(TyV(a[n:]), ph):
                    cod = pre.cod @ self.ty_prod(it.src, TyV(a[n:]), it.rev)
                elif it.filt is None and n and a[-n:] == b and not self.mentions(TyV(a[:-n]), ph):
                    cod = self.ty_prod(it.src, TyV(a[:-n]), not it.rev) @ pre.cod
                else:
                    cod = self.opaque_ty('cod')
            if not (keep or (True, True))[0]:
                n = len(before.dom.f)
                a, b = after.dom.f, before.dom.f
                ph = self.phi_in(before.dom)
                if it.filt is None and a[:n] == b and not self.mentions(TyV(a[n:]), ph):
                    dom = pre.dom @ self.ty_prod(it.src, TyV(a[n:]), it.rev)
                elif it.filt is None and n and a[-n:] == b and not self.mentions(TyV(a[:-n]), ph):
                    dom = self.ty_prod(it.src, TyV(a[:-n]), not it.rev) @ pre.dom
            return DgV(dom, cod, App('loop', before, after))
        if isinstance(before, Lin) and isinstance(after, Lin) and it.filt is None:
            d = after - before
            if not self.mentions(d, phi):
                if d.const is not None:
                    return pre + Lin(0, [(App('len', it.src), d.const)])
                return pre + Lin(0, [(App('sum', Spread(it.src, (d,))), 1)])
        if isinstance(before, DictO) and isinstance(after, DictO) and after.rest == before.rest:
            ents = list(after.d.items())
            if not any(self.mentions(a, phi) or self.mentions(b, phi) for a, b in ents):
                rest = App('dictof', *((pre.rest,) if pre.rest is not None else ()),
                           Spread(it.src, [Tup(e) for e in ents], it.rev, it.filt))
                return DictO(pre.d, rest)
        if isinstance(after, V) and not self.mentions(after, phi) and not isinstance(before, (TyV, DgV, Lin)):
            return Ite(App('nonempty', it.src), App('lastof', it.src, after), pre) if isinstance(pre, V) else self.havoc(k, pre)
        return self.havoc(k, pre)

    def phi_in(self, v):
        out = set()

        def walk(x):
            if isinstance(x, Sym):
                if x.path and x.path[0] in ('phi',):
                    out.add(x)
                for y in x.path:
                    walk(y)
            elif isinstance(x, V):
                for y in children(x):
                    walk(y)
            elif isinstance(x, tuple):
                if x and x[0] == 'phi':
                    out.add(x)
                for y in x:
                    walk(y)
        if isinstance(v, (ListO,)):
            for x in v.items:
                walk(x)
        elif isinstance(v, DictO):
            walk(v.rest)
        elif isinstance(v, InstO):
            for x in v.fields.values():
                walk(x)
        else:
            walk(v)
        return out

    def mentions(self, v, phis):
        if not phis:
            return False
        tags = {p.path if isinstance(p, Sym) else p for p in phis}

        def walk(x):
            if isinstance(x, Sym):
                return x.path in tags or any(walk(y) for y in x.path)
            if isinstance(x, V):
                return any(walk(y) for y in children(x))
            if isinstance(x, tuple):
                return x in tags or any(walk(y) for y in x)
            return False
        return walk(v)


def children(x):
    if isinstance(x, App):
        return [a for a in x.args]
    if isinstance(x, Tup):
        return list(x.items)
    if isinstance(x, Spread):
        return [x.src, *x.bodies] + ([x.filt] if x.filt is not None else [])
    if isinstance(x, Ite):
        return [x.c, x.a, x.b]
    if isinstance(x, Lin):
        return [a for a, _ in x.t]
    if isinstance(x, TyV):
        return list(x.f)
    if isinstance(x, Gen):
        return [x.name, x.n, x.lo, x.hi, x.z]
    if isinstance(x, Prod):
        return [x.src, x.body]
    if isinstance(x, RotF):
        return [x.ty, x.z]
    if isinstance(x, DgV):
        return [x.dom, x.cod]
    if isinstance(x, BoundV):
        return [x.self]
    if isinstance(x, OpMeth):
        return [x.recv]
    if isinstance(x, PartialV):
        return [x.fn, *x.args, *[b for _, b in x.kw]]
    if isinstance(x, Sym):
        return list(x.path)
    return []


def is_generator(node):
    g = getattr(node, '_isgen', None)
    if g is None:
        g = node._isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
    return g


def own_nodes(fn):
    """Nodes of a function excluding nested function bodies."""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def free_names(node):
    bound = set()
    used = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            (used if isinstance(n.ctx, ast.Load) else bound).add(n.id)
        elif isinstance(n, ast.arg):
            bound.add(n.arg)
    return used - bound


BUILTINS_SET = None
