"""C10: a checkpoint file is replaced only by a complete one."""
import ast
from ..cfg import Graph, dotted, lines, own_walk
from ..project import FuncInfo
from .c11 import small

TITLE = 'A crash while saving never destroys the previous checkpoint'

SAME = {'fspath', 'str', 'Path', 'PurePath', 'abspath', 'realpath', 'expanduser', 'resolve', 'absolute', 'fsdecode', 'normpath'}
NEAR = {'with_suffix', 'with_name', 'with_stem'}
TEMP = {'NamedTemporaryFile', 'mkstemp', 'TemporaryDirectory', 'mkdtemp', 'TemporaryFile', 'mktemp'}
DESTROY = {'remove', 'unlink', 'rmdir', 'rmtree', 'truncate', 'write_bytes', 'write_text', 'touch'}
MOVE = {'replace', 'rename', 'renames', 'move'}
DUMP = {'dump', 'write', 'save', 'savez', 'writelines', 'copyfileobj'}


class Paths:
    """What a path expression denotes relative to the file being saved."""

    def __init__(self, proj):
        self.p = proj

    def of(self, e, fr, depth=0):
        """'final', 'near' (another name in the same directory), 'dir', 'far' or None."""
        if e is None or depth > 12:
            return None
        rec = lambda x, f=fr: self.of(x, f, depth + 1)
        if isinstance(e, ast.Name):
            g = fr
            while g.closure is not None and not g.is_local(e.id):
                g = g.closure
            if e.id in g.binds and not g.count.get(e.id):
                x, f = g.binds[e.id]
                return rec(x, f)
            if g.parent is None and e.id in g.info.params()[1:] and not g.count.get(e.id):
                return 'final' if e.id == g.info.params()[1] else None
            if e.id in g.single:
                return rec(g.single[e.id], g)
            vals = [n for n in ast.walk(g.info.node) if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Tuple, ast.Name))]
            out = set()
            for n in vals:
                t = n.targets[0]
                names = [x.id for x in t.elts if isinstance(x, ast.Name)] if isinstance(t, ast.Tuple) else [t.id]
                if e.id not in names:
                    continue
                if isinstance(t, ast.Name) and any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.value)):
                    # path = Path(path) and the like
                    r = self.of_self(n.value, g, e.id, depth)
                    out.add(r)
                else:
                    out.add(rec(n.value, g))
            if len(out) == 1:
                return out.pop()
            return None
        if isinstance(e, ast.JoinedStr):
            if not e.values:
                return None
            h = e.values[0]
            if isinstance(h, ast.FormattedValue):
                k = rec(h.value)
                rest = e.values[1:]
                if k == 'final':
                    return 'final' if not rest else 'near'
                if k in ('near', 'far'):
                    return k
                if k == 'dir' and rest:
                    return 'near'
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mod)):
            k = rec(e.left)
            return {'final': 'near', 'near': 'near', 'far': 'far', 'dir': 'near'}.get(k)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
            k = rec(e.left)
            return {'dir': 'near', 'far': 'far'}.get(k)
        if isinstance(e, ast.BoolOp):
            ks = {rec(v) for v in e.values if not isinstance(v, ast.Constant)}
            return ks.pop() if len(ks) == 1 else None
        if isinstance(e, ast.IfExp):
            ks = {rec(e.body), rec(e.orelse)}
            return ks.pop() if len(ks) == 1 else None
        if isinstance(e, ast.Attribute):
            k = rec(e.value)
            if e.attr == 'parent':
                return 'dir' if k in ('final', 'near') else None
            if e.attr == 'name':
                return k if k in ('near', 'far') else None
            return None
        if isinstance(e, ast.Subscript):
            return rec(e.value) if rec(e.value) in ('near', 'far') else None
        if isinstance(e, ast.Call):
            name = (dotted(e.func) or getattr(e.func, 'attr', '')).split('.')[-1]
            recv = e.func.value if isinstance(e.func, ast.Attribute) else None
            if name in TEMP:
                d = next((k.value for k in e.keywords if k.arg == 'dir'), None)
                if d is None:
                    return 'far'
                return 'near' if rec(d) == 'dir' else None
            if name in SAME:
                k = rec(e.args[0]) if e.args else rec(recv)
                return k
            if name in NEAR:
                return 'near' if rec(recv) in ('final', 'near') else None
            if name == 'dirname':
                return 'dir' if e.args and rec(e.args[0]) in ('final', 'near') else None
            if name in ('join', 'joinpath'):
                k = rec(e.args[0] if name == 'join' and e.args else recv)
                return {'dir': 'near', 'far': 'far'}.get(k)
            if name == 'gettempdir':
                return 'far'
            if name == 'open':
                k = self.opened(e, fr, depth)
                return k[0] if k else None
        return None

    def of_self(self, v, fr, name, depth):
        """path = Path(path): still what the parameter is."""
        if isinstance(v, ast.Call) and (dotted(v.func) or '').split('.')[-1] in SAME and name in fr.info.params():
            b = fr.binds.get(name)
            if b is not None:
                return self.of(b[0], b[1], depth + 1)
            return 'final' if fr.parent is None and fr.info.params()[1:2] == [name] else None
        return None

    def opened(self, c, fr, depth=0):
        """(kind of path, writes?) of an open call."""
        name = (dotted(c.func) or getattr(c.func, 'attr', '')).split('.')[-1]
        if name in ('NamedTemporaryFile', 'fdopen'):
            return (self.of(c, fr, depth + 1) if name != 'fdopen' else 'near'), True
        if name != 'open':
            return None
        if isinstance(c.func, ast.Attribute) and dotted(c.func) not in ('io.open', 'os.open', 'gzip.open', 'bz2.open', 'lzma.open'):
            path, args = c.func.value, c.args
        else:
            path, args = (c.args[0] if c.args else None), c.args[1:]
        mode = next((k.value for k in c.keywords if k.arg == 'mode'), args[0] if args else None)
        m = mode.value if isinstance(mode, ast.Constant) else ('r' if mode is None else None)
        writes = m is None or not isinstance(m, str) or any(x in m for x in 'wax+')
        return self.of(path, fr, depth + 1), writes


def run(p, ck, tier):
    ck.rule('in-place', 'The saved path itself is never opened for writing, truncated or removed.')
    ck.rule('complete', 'The saved path is replaced only by a file in the same directory that was completely written and closed, also when writing raises.')
    ck.rule('done', 'When a save returns, the new file is in place.')
    ck.rule('callers', 'Whoever saves a checkpoint neither removes nor writes the file itself.')
    C = p.cls('training.checkpoint.Checkpoint')
    m = C.find_method('to_file')
    saver(p, ck, m)
    callers(p, ck, m)
    ck.floor('in-place', 1)
    ck.floor('callers', 2)


def calls(n):
    if n.ast is None or n.kind not in ('stmt', 'test', 'eval', 'return', 'enter', 'raise'):
        return []
    return [c for c in own_walk(n.ast) if isinstance(c, ast.Call)]


def name_of(c):
    return (dotted(c.func) or getattr(c.func, 'attr', '')).split('.')[-1]


def destroys(P, c, fr):
    """Does the call write or remove the saved path itself?"""
    nm = name_of(c)
    if nm == 'open':
        k = P.opened(c, fr)
        return k is not None and k[1] and k[0] == 'final'
    if nm in DESTROY:
        a = [c.args[0]] if c.args and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in ('os', 'shutil') else []
        if isinstance(c.func, ast.Name) and c.args:
            a = [c.args[0]]
        if isinstance(c.func, ast.Attribute) and not a:
            a = [c.func.value]
        return any(P.of(x, fr) == 'final' for x in a)
    if nm in ('dump', 'save', 'savez', 'copy', 'copyfile', 'copy2') and len(c.args) >= 2 and isinstance(c.func, ast.Attribute):
        return P.of(c.args[1], fr) == 'final'
    if nm in MOVE:
        s, d = move_args(c, P, fr)
        return s is not None and P.of(s, fr) == 'final'
    return False


def move_args(c, P, fr):
    """(source, destination) of a rename, or (None, None)."""
    f = c.func
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('os', 'shutil') or isinstance(f, ast.Name):
        if len(c.args) >= 2:
            return c.args[0], c.args[1]
        kw = {k.arg: k.value for k in c.keywords}
        if 'src' in kw and 'dst' in kw:
            return kw['src'], kw['dst']
        if c.args and 'dst' in kw:
            return c.args[0], kw['dst']
        return None, None
    if isinstance(f, ast.Attribute) and len(c.args) == 1 and (P.of(f.value, fr) or P.of(c.args[0], fr)):
        return f.value, c.args[0]
    return None, None


def saver(p, ck, m):
    P = Paths(p)
    g = Graph(p, m, small)
    bad = None
    nodes = g.reachable()
    for n in nodes:
        for c in calls(n):
            if destroys(P, c, n.frame):
                bad = bad or (n, c)
    if bad:
        n, c = bad
        ck.bad('in-place', f'{m.qual}: {dotted(c.func)}', n.where,
               f'{m.qual} works on the saved path itself: {ast.unparse(c)[:80]}; an interruption leaves neither the old nor the new checkpoint',
               lines(g.path(g.entry, n) or [n]))
    else:
        ck.ok('in-place', f'{m.qual}', m.where, f'{len(nodes)} nodes')

    def transfer(n, s, label):
        out = set()
        cs = calls(n)
        nm = [name_of(c) for c in cs]
        for x in s:
            y = x
            if n.kind == 'entered' and isinstance(n.ast, ast.Call) and name_of(n.ast) in ('open', 'NamedTemporaryFile', 'fdopen'):
                y = 'open'
            elif n.kind == 'stmt' and isinstance(n.ast, ast.Assign) and any(k in ('open', 'NamedTemporaryFile', 'fdopen') for k in nm) and label != 'exc':
                y = 'open'
            elif any(k in ('write_bytes', 'write_text') for k in nm):
                y = 'closed' if label != 'exc' else 'partial'
            elif n.kind == 'exit-with' and isinstance(n.ast, ast.Call) and name_of(n.ast) in ('open', 'NamedTemporaryFile', 'fdopen'):
                y = {'dumped': 'closed', 'open': 'closed-empty', 'partial': 'partial'}.get(x, x)
            elif any(k in DUMP for k in nm) and any(self_dump(c) for c in cs):
                y = 'dumped' if label != 'exc' and x in ('open', 'dumped') else ('partial' if x in ('open', 'dumped', 'partial') else x)
            elif 'close' in nm and label != 'exc':
                y = {'dumped': 'closed', 'open': 'closed-empty'}.get(x, x)
            for c in cs:
                if name_of(c) in MOVE and label != 'exc':
                    a, b = move_args(c, P, n.frame)
                    if b is not None and P.of(b, n.frame) == 'final':
                        y = 'replaced'
            out.add(y)
        return frozenset(out)
    res = g.forward(frozenset(['none']), transfer, lambda a, b: a | b)
    moves = [(n, c) for n in nodes for c in calls(n) if name_of(c) in MOVE and move_args(c, P, n.frame)[1] is not None
             and P.of(move_args(c, P, n.frame)[1], n.frame) == 'final']
    for n, c in moves:
        src = P.of(move_args(c, P, n.frame)[0], n.frame)
        key = f'{m.qual}: {dotted(c.func) or name_of(c)}'
        s = res.get(n.id, frozenset())
        if src == 'far':
            ck.bad('complete', key, n.where, 'the temporary file may be on another file system, so the move copies into the saved path')
        elif s - {'closed'}:
            what = {'partial': 'only partly written', 'dumped': 'not closed yet', 'open': 'empty', 'none': 'not written', 'closed-empty': 'empty'}
            w = sorted(s - {'closed'})[0]
            ck.bad('complete', key, n.where, f'the saved path can be replaced by a file that is {what.get(w, w)}')
        elif src == 'near':
            ck.ok('complete', key, n.where)
        else:
            ck.unknown('complete', key, n.where, 'the source of the move is not known')
    end = res.get(g.exit.id, frozenset())
    if not moves:
        if not bad:
            ck.unknown('done', m.qual, m.where, 'no rename onto the saved path was found')
    elif end <= {'replaced'}:
        ck.ok('done', m.qual, m.where)
    else:
        ck.bad('done', m.qual, m.where, f'a save can return with the new file not in place ({", ".join(sorted(end - {"replaced"}))})')


def self_dump(c):
    return isinstance(c.func, (ast.Attribute, ast.Name))


def callers(p, ck, m):
    for f in p.functions():
        for c in ast.walk(f.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'to_file' and c.args and f is not m:
                g = Graph(p, f, small)
                P = Paths(p)
                target = [(n, x) for n in g.reachable() for x in calls(n) if x is c]
                if not target:
                    continue
                n0, _ = target[0]
                loc = ast.unparse(c.args[0])
                bad = None
                for n in g.reachable():
                    if n.frame.parent is not None and n.frame.info is m:
                        continue
                    for x in calls(n):
                        nm = name_of(x)
                        if nm in DESTROY | MOVE | {'open'} and isinstance(x.func, (ast.Attribute, ast.Name)):
                            if nm == 'open':
                                k = P.opened(x, n.frame)
                                if not (k and k[1]):
                                    continue
                            if nm == 'replace' and not (dotted(x.func) or '').startswith('os.'):
                                continue
                            if nm in ('remove', 'move', 'touch') and not (dotted(x.func) or '').startswith(('os.', 'shutil.')):
                                continue
                            args = [ast.unparse(a) for a in x.args] + ([ast.unparse(x.func.value)] if isinstance(x.func, ast.Attribute) else [])
                            if loc in args or g.path(n, n0):
                                bad = bad or (n, x)
                if bad:
                    ck.bad('callers', f'{f.qual}: {name_of(bad[1])}', bad[0].where, f'{f.qual} changes files itself around the save: {ast.unparse(bad[1])[:80]}')
                else:
                    ck.ok('callers', f.qual, f.where)
