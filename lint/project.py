"""Loading and name resolution of the analysed program.

The analysed program is every module below <repo>/lambeq.  Nothing is
imported or executed: modules are parsed, names are resolved through imports
and re-exports, classes get their C3 linearisation, dataclass fields are
collected with inheritance, and lambeq's two registries are recovered from
decorators: `@grammar` / `@tensor('Ty')` (category members) and
`@Diagram.register_special_box('cup')`.
"""
from __future__ import annotations
import ast
import hashlib
import os
from typing import Any

REPO = os.environ.get('LAMBEQ_REPO', '/repo')
PKG = 'lambeq'


class AnalysisBroken(Exception):
    """An anchor of the analysis is gone: neither pass nor violation."""


class FieldInfo:
    def __init__(self, name, node, owner, initvar=False, init=True,
                 default=None, factory=None, compare=True, kw_only=False,
                 repr_=True, ann=None):
        self.name, self.node, self.owner = name, node, owner
        self.initvar, self.init = initvar, init
        self.default, self.factory = default, factory
        self.compare, self.kw_only, self.repr = compare, kw_only, repr_
        self.ann = ann

    @property
    def has_default(self):
        return self.default is not None or self.factory is not None


class FuncInfo:
    """A function or method definition (the last one for a name)."""

    def __init__(self, node, module, cls=None, outer=None):
        self.node, self.module, self.cls, self.outer = node, module, cls, outer
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        decs = [deco_name(d) for d in getattr(node, 'decorator_list', [])]
        self.decorators = decs
        self.is_property = any(d.split('.')[-1] in ('property', 'cached_property')
                               for d in decs)
        self.is_cached_property = any(d.split('.')[-1] == 'cached_property'
                                      for d in decs)
        self.is_static = 'staticmethod' in decs
        self.is_classmethod = 'classmethod' in decs
        self.is_overload = any(d.split('.')[-1] == 'overload' for d in decs)
        self.is_abstract = any(d.split('.')[-1] in ('abstractmethod', 'abstractproperty')
                               for d in decs)

    @property
    def qual(self):
        if self.cls is not None:
            return f'{self.module.name}.{self.cls.name}.{self.name}'
        return f'{self.module.name}.{self.name}'

    @property
    def where(self):
        return f'{self.module.rel}:{self.node.lineno}'

    def __repr__(self):
        return f'<Func {self.qual}>'

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


def deco_name(d):
    if isinstance(d, ast.Call):
        return deco_name(d.func)
    if isinstance(d, ast.Attribute):
        return deco_name(d.value) + '.' + d.attr
    if isinstance(d, ast.Name):
        return d.id
    return '?'


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module = node, module
        self.name = node.name
        self.methods: dict[str, FuncInfo] = {}
        self.attrs: dict[str, ast.expr | None] = {}   # class-level assigns
        self.anns: dict[str, ast.expr] = {}
        self.decorators = node.decorator_list
        self.base_exprs = node.bases
        self.bases: list[ClassInfo] = []
        self.ext_bases: list[str] = []
        self._mro = None
        self.own_category = None       # Category registered by decorator
        self.setters = {}
        self.nested = {}
        for st in node.body:
            self._collect(st)
        self.subclasses: list[ClassInfo] = []
        # dataclass?
        self.dc = None
        for d in node.decorator_list:
            n = deco_name(d)
            if n.split('.')[-1] == 'dataclass':
                opts = {'init': True, 'eq': True, 'repr': True, 'frozen': False}
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg in opts or k.arg:
                            try:
                                opts[k.arg] = ast.literal_eval(k.value)
                            except Exception:
                                pass
                self.dc = opts

    def _collect(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = FuncInfo(st, self.module, self)
            if f.is_overload:
                return
            if any(d.endswith('.setter') for d in f.decorators):
                self.setters[st.name] = f
                return
            self.methods[st.name] = f
            self.attrs.pop(st.name, None)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = st.value
                    self.methods.pop(t.id, None)
        elif isinstance(st, ast.AnnAssign):
            if isinstance(st.target, ast.Name):
                self.anns[st.target.id] = st.annotation
                if st.value is not None:
                    self.attrs[st.target.id] = st.value
        elif isinstance(st, ast.ClassDef):
            self.nested[st.name] = st
        elif isinstance(st, ast.If):
            for s in st.body + st.orelse:
                self._collect(s)
        elif isinstance(st, ast.Try):
            for s in st.body:
                self._collect(s)

    @property
    def qual(self):
        return f'{self.module.name}.{self.name}'

    @property
    def where(self):
        return f'{self.module.rel}:{self.node.lineno}'

    def __repr__(self):
        return f'<Class {self.qual}>'

    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases] + [list(self.bases)]
            out = [self]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise AnalysisBroken(f'no MRO for {self.qual}')
                out.append(c)
                for s in seqs:
                    if s and s[0] is c:
                        s.pop(0)
            self._mro = out
        return self._mro

    def is_sub(self, other: 'ClassInfo'):
        return other in self.mro()

    def find_method(self, name, after=None):
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
            if name in c.attrs:
                return None
        return None

    def find_attr(self, name, after=None):
        """(owner, kind, node): kind 'method' or 'attr'."""
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                return c, 'method', c.methods[name]
            if name in c.attrs:
                return c, 'attr', c.attrs[name]
        return None

    def all_subclasses(self):
        out, todo = [], list(self.subclasses)
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                todo.extend(c.subclasses)
        return out

    def annotation(self, name):
        for c in self.mro():
            if name in c.anns:
                return c, c.anns[name]
        return None

    # dataclass semantics -------------------------------------------------
    def own_fields(self):
        out = []
        for st in self.node.body:
            if not (isinstance(st, ast.AnnAssign)
                    and isinstance(st.target, ast.Name)):
                continue
            ann = ast.unparse(st.annotation)
            if 'ClassVar' in ann:
                continue
            f = FieldInfo(st.target.id, st, self, ann=st.annotation)
            if ann.startswith('InitVar') or '.InitVar' in ann:
                f.initvar = True
            v = st.value
            if isinstance(v, ast.Call) and deco_name(v.func).split('.')[-1] == 'field':
                for k in v.keywords:
                    if k.arg == 'default':
                        f.default = k.value
                    elif k.arg == 'default_factory':
                        f.factory = k.value
                    elif k.arg in ('init', 'compare', 'repr', 'kw_only'):
                        try:
                            setattr(f, k.arg, ast.literal_eval(k.value))
                        except Exception:
                            pass
            elif v is not None:
                f.default = v
            out.append(f)
        return out

    def dc_fields(self):
        """Fields the dataclass machinery of this class (or the nearest
        decorated ancestor) knows, in order."""
        fields: dict[str, FieldInfo] = {}
        for c in reversed(self.mro()):
            if c.dc is not None:
                for f in c.own_fields():
                    fields[f.name] = f
        return list(fields.values())

    def dc_owner(self, what):
        """Nearest class in the MRO whose decorator generates `what`
        ('init'/'eq'/'repr') or that defines it explicitly.
        Returns (cls, 'generated'|FuncInfo|attr-expr) or None."""
        meth = {'init': '__init__', 'eq': '__eq__', 'repr': '__repr__',
                'hash': '__hash__'}[what]
        for c in self.mro():
            if meth in c.methods:
                return c, c.methods[meth]
            if meth in c.attrs:
                return c, c.attrs[meth]
            if what != 'hash' and c.dc is not None and c.dc.get(what, True):
                return c, 'generated'
            if what == 'hash' and c.dc is not None and c.dc.get('eq', True):
                # eq without explicit hash: unhashable
                return c, 'none'
            if what == 'hash' and '__eq__' in c.methods:
                return c, 'none'
        return None

    def dc_fields_at(self, owner):
        fields = {}
        for c in reversed(owner.mro()):
            if c.dc is not None:
                for f in c.own_fields():
                    fields[f.name] = f
        return list(fields.values())


class Module:
    def __init__(self, name, path, project):
        self.name, self.path, self.project = name, path, project
        self.rel = os.path.relpath(path, project.repo)
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        self.tree = ast.parse(self.source)
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.names: dict[str, tuple] = {}    # name -> (kind, payload)
        self.classes: dict[str, ClassInfo] = {}
        self.functions: dict[str, FuncInfo] = {}
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, ast.ClassDef):
                c = ClassInfo(st, self)
                self.classes[st.name] = c
                self.names[st.name] = ('class', c)
                self._nested(c)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(st, self)
                if f.is_overload:
                    continue
                self.functions[st.name] = f
                self.names[st.name] = ('func', f)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                self.bind_import(st, self.names)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ('expr', st.value)
                    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) \
                            and t.value.id in self.classes and 'ClassVar' in ast.dump(
                                self.classes[t.value.id].anns.get(t.attr) or ast.Name('ClassVar')):
                        # class attribute given after the class body
                        self.classes[t.value.id].attrs[t.attr] = st.value
                    elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) \
                            and len(t.elts) == len(st.value.elts):
                        for a, b in zip(t.elts, st.value.elts):
                            if isinstance(a, ast.Name):
                                self.names[a.id] = ('expr', b)
                    elif isinstance(t, ast.Tuple):
                        for i, a in enumerate(t.elts):
                            if isinstance(a, ast.Name):
                                self.names[a.id] = ('item', (st.value, i))
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.names[st.target.id] = ('expr', st.value)
            elif isinstance(st, ast.If):
                self._collect(st.orelse)
                self._collect(st.body)
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    self._collect(h.body)
                self._collect(st.body)
            elif isinstance(st, ast.With):
                self._collect(st.body)
            elif isinstance(st, ast.For):
                self._collect(st.body)

    def _nested(self, c):
        for n, node in c.nested.items():
            k = ClassInfo(node, self)
            k.name = f'{c.name}.{n}'
            self.classes[k.name] = k
            self.names[k.name] = ('class', k)
            c.attrs[n] = ast.copy_location(ast.Name(k.name, ast.Load()), node)
            self._nested(k)

    def bind_import(self, st, names):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    names[a.asname] = ('module', a.name)
                else:
                    names[a.name.split('.')[0]] = ('module', a.name.split('.')[0])
        else:
            base = st.module or ''
            if st.level:
                parts = self.name.split('.')
                if not self.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (st.level - 1)]
                base = '.'.join(parts + ([st.module] if st.module else []))
            for a in st.names:
                names[a.asname or a.name] = ('from', (base, a.name))


class Project:
    def __init__(self, repo=None, stubs=()):
        self.repo = repo or REPO
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f'no package at {root}')
        self.modules: dict[str, Module] = {}
        h = hashlib.sha256()
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for fn in sorted(files):
                if fn.endswith('.py'):
                    p = os.path.join(d, fn)
                    rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-len('.__init__')]
                    m = Module(rel, p, self)
                    self.modules[rel] = m
                    h.update(m.source.encode())
        self.digest = h.hexdigest()
        # models of the libraries that lambeq uses
        for name, path in stubs:
            self.modules[name] = Module(name, path, self)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.base_exprs:
                    r = self.resolve_expr(b, m)
                    if isinstance(r, ClassInfo):
                        c.bases.append(r)
                        r.subclasses.append(c)
                    else:
                        c.ext_bases.append(ast.unparse(b))
        self.categories: dict[str, dict[str, ClassInfo]] = {}
        self.special: dict[ClassInfo, dict[str, Any]] = {}
        self._registries()

    # ------------------------------------------------------------------
    def classes(self):
        for m in self.modules.values():
            yield from m.classes.values()

    def functions(self):
        """All functions and methods, top level and class level."""
        for m in self.modules.values():
            yield from m.functions.values()
            for c in m.classes.values():
                yield from c.methods.values()

    def cls(self, qual) -> ClassInfo:
        mod, _, name = qual.rpartition('.')
        if not mod.startswith(PKG):
            mod = PKG + '.' + mod
        m = self.modules.get(mod)
        if m is not None and name in m.classes:
            return m.classes[name]
        if m is not None:                       # moved but re-exported
            r = self.resolve_name(name, m)
            if isinstance(r, ClassInfo):
                return r
        raise AnalysisBroken(f'anchor class {qual} not found')

    def func(self, qual) -> FuncInfo:
        mod, _, name = qual.rpartition('.')
        if not mod.startswith(PKG):
            mod = PKG + '.' + mod
        m = self.modules.get(mod)
        if m is not None:
            if name in m.functions:
                return m.functions[name]
            r = self.resolve_name(name, m)
            if isinstance(r, FuncInfo):
                return r
        cmod, _, cname = mod.rpartition('.')
        try:
            c = self.cls(mod)
        except AnalysisBroken:
            c = None
        if c is not None:
            f = c.find_method(name)
            if f is not None:
                return f
        raise AnalysisBroken(f'anchor function {qual} not found')

    # ------------------------------------------------------------------
    def resolve_name(self, name, module: Module, _seen=None):
        """ClassInfo | FuncInfo | Module | ('expr', node, module) |
        ('ext', dotted) | None."""
        _seen = _seen or set()
        if (name, module.name) in _seen:
            return None
        _seen.add((name, module.name))
        b = module.names.get(name)
        if b is None:
            sub = self.modules.get(module.name + '.' + name)
            return sub
        kind, payload = b
        if kind in ('class', 'func'):
            return payload
        if kind == 'expr':
            return ('expr', payload, module)
        if kind == 'item':
            return ('item', payload, module)
        if kind == 'module':
            return self.modules.get(payload) or ('ext', payload)
        if kind == 'from':
            return self.resolve_from(*payload, _seen=_seen)
        return None

    def resolve_from(self, base, name, _seen=None):
        m = self.modules.get(base)
        if m is None:
            return ('ext', f'{base}.{name}')
        if name in m.names:
            r = self.resolve_name(name, m, _seen)
            if r is not None:
                return r
        sub = self.modules.get(f'{base}.{name}')
        if sub is not None:
            return sub
        return None

    def resolve_expr(self, e, module):
        """Resolve a dotted static expression to class/func/module."""
        if isinstance(e, ast.Name):
            r = self.resolve_name(e.id, module)
            if isinstance(r, tuple) and r[0] == 'expr':
                if isinstance(r[1], (ast.Name, ast.Attribute)):
                    return self.resolve_expr(r[1], r[2])
            return r
        if isinstance(e, ast.Attribute):
            base = self.resolve_expr(e.value, module)
            if isinstance(base, Module):
                return self.resolve_name(e.attr, base)
            if isinstance(base, ClassInfo):
                f = base.find_method(e.attr)
                return f
            if isinstance(base, tuple) and base[0] == 'ext':
                return ('ext', base[1] + '.' + e.attr)
            return None
        if isinstance(e, ast.Subscript):        # Generic[...]
            return self.resolve_expr(e.value, module)
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(ast.parse(e.value, mode='eval').body, module)
            except SyntaxError:
                return None
        return None

    # ------------------------------------------------------------------
    def category_of_name(self, e, module):
        """Category name if expression e denotes a module-level Category."""
        r = self.resolve_expr(e, module)
        if isinstance(r, tuple) and r[0] == 'expr':
            v, m = r[1], r[2]
            if isinstance(v, ast.Call):
                f = self.resolve_expr(v.func, m)
                if isinstance(f, ClassInfo) and f.name == 'Category' and v.args:
                    if isinstance(v.args[0], ast.Constant):
                        return v.args[0].value
        return None

    def _registries(self):
        for m in self.modules.values():
            for c in m.classes.values():
                for d in c.decorators:
                    if isinstance(d, ast.Call):
                        cat = self.category_of_name(d.func, m)
                        if cat and d.args and isinstance(d.args[0], ast.Constant):
                            self.categories.setdefault(cat, {})[d.args[0].value] = c
                            c.own_category = cat
                    else:
                        cat = self.category_of_name(d, m)
                        if cat:
                            self.categories.setdefault(cat, {})[c.name] = c
                            c.own_category = cat
            for obj in list(m.classes.values()) + list(m.functions.values()):
                for d in obj.node.decorator_list:
                    if (isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute)
                            and d.func.attr == 'register_special_box' and d.args
                            and isinstance(d.args[0], ast.Constant)):
                        owner = self.resolve_expr(d.func.value, m)
                        if isinstance(owner, ClassInfo):
                            self.special.setdefault(owner, {})[d.args[0].value] = obj
            for st in m.tree.body:     # X.register_special_box('name', factory)
                if (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call)
                        and isinstance(st.value.func, ast.Attribute)
                        and st.value.func.attr == 'register_special_box'
                        and len(st.value.args) == 2):
                    owner = self.resolve_expr(st.value.func.value, m)
                    obj = self.resolve_expr(st.value.args[1], m)
                    k = st.value.args[0]
                    if isinstance(owner, ClassInfo) and isinstance(k, ast.Constant):
                        self.special.setdefault(owner, {})[k.value] = obj

    def category(self, c: ClassInfo):
        for k in c.mro():
            if k.own_category:
                return k.own_category
        return None


def where(module, node):
    return f'{module.rel}:{getattr(node, "lineno", 0)}'
