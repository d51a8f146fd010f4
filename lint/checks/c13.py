"""C13: a downloaded model is installed only after its checksum matched."""
import ast
from ..cfg import Graph, dotted, lines, own_walk
from ..harness import *
from ..project import FuncInfo
from .c10 import calls, name_of
from .c11 import small, targets

TITLE = 'A downloaded model is used only after its checksum matched'

COPY = {'copytree', 'copy', 'copy2', 'copyfile', 'copyfileobj', 'extractall', 'extract', 'unpack_archive', 'write_bytes', 'write_text'}
MOVE = {'move', 'rename', 'replace', 'renames'}
GONE = {'unlink', 'remove', 'rmtree'}


class Tags:
    """What an expression is computed from: 'D' the digest of the downloaded
    archive, 'R' the published checksum, 'M' the model directory, 'V' the
    version marker's file name, 'L' the locally installed version, 'N' a network response."""

    def __init__(self, p):
        self.p, self.memo = p, {}

    def fn(self, info):
        k = id(info.node)
        if k not in self.memo:
            self.memo[k] = set()
            out = set()
            for n in ast.walk(info.node):
                d = dotted(n) if isinstance(n, (ast.Name, ast.Attribute)) else None
                if d and d.split('.')[0] == 'hashlib' or isinstance(n, ast.Attribute) and n.attr in ('hexdigest', 'digest'):
                    out.add('D')
                if isinstance(n, ast.Name) and n.id == 'CHECKSUM_FNAME' or isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.endswith('.sha256'):
                    out.add('R')
            self.memo[k] = out
        return self.memo[k]

    def of(self, e, g, fr, depth=0):
        """Tags of expression e in frame fr of graph g."""
        if e is None or depth > 8:
            return set()
        out = set()
        for n in own_walk(e):
            if isinstance(n, ast.Call):
                r = g.callee(n, fr, force=True)
                if r is not None:
                    out |= self.fn(r[0]) & {'D', 'R'}
                    if r[0].name == 'get_local_model_version':
                        out.add('L')
                nm = name_of(n)
                if nm in ('hexdigest', 'digest', 'sha256'):
                    out.add('D')
                if nm == 'get_local_model_version':
                    out.add('L')
            if isinstance(n, ast.Name) and n.id == 'CHECKSUM_FNAME':
                out.add('R')
            if isinstance(n, ast.Name) and n.id == 'VERSION_FNAME' or isinstance(n, ast.Constant) and n.value == 'version.txt':
                out.add('V')
            if isinstance(n, ast.Attribute) and n.attr == 'model_dir':
                out.add('M')
            if isinstance(n, ast.Attribute) and n.attr == 'remote_version':
                out.add('P')
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                f = fr
                while f.closure is not None and not f.is_local(n.id):
                    f = f.closure
                if n.id in f.binds and not f.count.get(n.id):
                    x, f2 = f.binds[n.id]
                    out |= self.of(x, g, f2, depth + 1)
                elif f.count.get(n.id):
                    for s in ast.walk(f.info.node):
                        for t, v in targets(s) if isinstance(s, (ast.Assign, ast.AnnAssign)) else ():
                            if isinstance(t, ast.Name) and t.id == n.id and v is not None:
                                out |= self.of(v, g, f, depth + 1)
                        if isinstance(s, (ast.With,)):
                            for i in s.items:
                                if isinstance(i.optional_vars, ast.Name) and i.optional_vars.id == n.id:
                                    out |= self.of(i.context_expr, g, f, depth + 1)
        return out


def implied(e, val, atom):
    """Does e evaluating to val imply some atom?  atom(expr, val) -> bool."""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return implied(e.operand, not val, atom)
    if isinstance(e, ast.BoolOp):
        parts = [implied(x, val, atom) for x in e.values]
        if isinstance(e.op, ast.And) == val:
            return any(parts)
        return all(parts)
    if isinstance(e, ast.Call) and dotted(e.func) == 'bool' and len(e.args) == 1:
        return implied(e.args[0], val, atom)
    if isinstance(e, ast.NamedExpr):
        return implied(e.value, val, atom)
    return atom(e, val)


def run(p, ck, tier):
    ck.rule('verified', 'The model directory is written only after the digest of the downloaded archive equalled the published checksum.')
    ck.rule('unpacked', 'Files are copied into the model directory only after the archive was unpacked without an error.')
    ck.rule('marker', 'The version marker is written after the files, and only if they were all copied.')
    ck.rule('unmarked', 'While the files are being replaced, no marker of an earlier installation is in place.')
    ck.rule('stale', 'An installation without a version marker, or with another one than the published version, is not up to date.')
    ck.rule('accepted', 'A cached model is used only if it was just installed, or has a version marker and is up to date or could not be updated.')
    D = p.cls('text2diagram.model_based_reader.model_downloader.ModelDownloader')
    m = D.find_method('download_model')
    download(p, ck, D, m)
    accepted(p, ck, stale(p, ck, D))
    ck.floor('verified', 1)
    ck.floor('stale', 3)
    ck.floor('accepted', 1)


class Facts:
    """Path facts of download_model as a set of fact sets."""

    def __init__(self, p, D, g):
        self.p, self.g, self.T = p, g, Tags(p)

    def equal(self, e, fr):
        def atom(x, val):
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                a, b = self.T.of(x.left, self.g, fr), self.T.of(x.comparators[0], self.g, fr)
                if isinstance(x.left, (ast.Subscript,)) and isinstance(x.left.slice, ast.Slice) \
                        or isinstance(x.comparators[0], ast.Subscript) and isinstance(x.comparators[0].slice, ast.Slice):
                    return False
                if ('D' in a and 'R' in b and 'R' not in a) or ('R' in a and 'D' in b and 'R' not in b):
                    return isinstance(x.ops[0], (ast.Eq, ast.Is)) == val
                return False
            if isinstance(x, ast.Call) and name_of(x) == 'compare_digest' and len(x.args) == 2:
                a, b = (self.T.of(y, self.g, fr) for y in x.args)
                return val and ('D' in a and 'R' in b or 'R' in a and 'D' in b)
            if isinstance(x, ast.Call):
                r = self.g.callee(x, fr, force=True)
                if r is not None:
                    rets = [n.value for n in ast.walk(r[0].node) if isinstance(n, ast.Return) and n.value is not None]
                    if len(rets) == 1:
                        from ..cfg import Frame
                        return implied(rets[0], val, lambda y, v: self.in_frame(y, v, Frame(r[0], r[1], fr, r[2], r[3])))
            if isinstance(x, ast.Name) and x.id in fr.single:
                return implied(fr.single[x.id], val, atom)
            return False
        return atom

    def in_frame(self, y, v, fr):
        return self.equal(y, fr)(y, v)

    def is_install(self, c, fr):
        """'copy' or 'move' if c writes files of the model directory."""
        nm = name_of(c)
        args = list(c.args) + [k.value for k in c.keywords]
        if nm in COPY | MOVE:
            if isinstance(c.func, ast.Attribute) and nm in ('write_bytes', 'write_text'):
                args = [c.func.value]
            elif isinstance(c.func, ast.Attribute) and nm in ('rename', 'replace') and not (dotted(c.func) or '').startswith(('os.', 'shutil.')):
                pass
            elif nm in COPY and len(args) > 1 and nm not in ('extractall', 'extract'):
                args = args[1:]
            elif nm in MOVE and len(args) > 1:
                args = args[1:]
            ts = [self.T.of(a, self.g, fr) for a in args]
            if any('M' in t and 'V' not in t for t in ts):
                return 'move' if nm in MOVE else 'copy'
        if nm == 'open' and self.writes(c):
            path = c.func.value if isinstance(c.func, ast.Attribute) else (c.args[0] if c.args else None)
            t = self.T.of(path, self.g, fr)
            if 'M' in t and 'V' not in t:
                return 'copy'
        return None

    def writes(self, c):
        args = c.args if isinstance(c.func, ast.Attribute) else c.args[1:]
        mode = next((k.value for k in c.keywords if k.arg == 'mode'), args[0] if args else None)
        return mode is not None and not (isinstance(mode, ast.Constant) and isinstance(mode.value, str) and not set(mode.value) & set('wax+'))

    def is_marker(self, c, fr):
        nm = name_of(c)
        if nm == 'open' and self.writes(c):
            path = c.func.value if isinstance(c.func, ast.Attribute) else (c.args[0] if c.args else None)
            return {'M', 'V'} <= self.T.of(path, self.g, fr)
        if nm in ('write_text', 'write_bytes') and isinstance(c.func, ast.Attribute):
            return {'M', 'V'} <= self.T.of(c.func.value, self.g, fr)
        return False

    def is_clear(self, c, fr):
        nm = name_of(c)
        if nm not in GONE:
            return False
        args = [c.args[0]] if c.args and (dotted(c.func) or '').startswith(('os.', 'shutil.')) or isinstance(c.func, ast.Name) and c.args else \
            ([c.func.value] if isinstance(c.func, ast.Attribute) else [])
        return any('M' in self.T.of(a, self.g, fr) for a in args)

    def opens(self, n):
        """Calls made at a node, including the context expressions of with."""
        return calls(n)

    def transfer(self, n, s, label):
        cs = self.opens(n)
        out = set()
        for f in s:
            f = set(f)
            normal = label != 'exc'
            if n.kind == 'test' and n.ast is not None:
                if label in ('t', 'f') and implied(n.ast, label == 't', self.equal(None, n.frame)) and 'digest' in f:
                    f.add('verified')
            assigned = [(t, v) for t, v in (targets(n.ast) if n.kind == 'stmt' else ())]
            for t, v in assigned:
                if v is not None and isinstance(t, ast.Name) and 'D' in self.T.of(v, self.g, n.frame) and normal:
                    f.add('digest')
            for c in cs:
                nm = name_of(c)
                if self.is_marker(c, n.frame):
                    if normal:
                        f.add('marked')
                    continue
                k = self.is_install(c, n.frame)
                if k and not normal:
                    f -= {'installed'}
                    f.add('failed')
                elif k:
                    f.add('installed')
                elif nm in ('extractall', 'unpack_archive'):
                    f.discard('unpacked')
                    if normal:
                        f.add('unpacked')
                elif self.is_clear(c, n.frame):
                    f.add('clear')
                elif nm in ('write', 'writelines', 'truncate') and 'M' not in self.T.of(c.func.value if isinstance(c.func, ast.Attribute) else c, self.g, n.frame):
                    f -= {'digest', 'verified'}
            # a digest computed inside the test itself
            if n.kind == 'test' and label in ('t', 'f') and 'verified' not in f and implied(n.ast, label == 't', self.equal(None, n.frame)) \
                    and any('D' in self.T.of(c, self.g, n.frame) for c in cs):
                f.add('verified')
            out.add(frozenset(f))
        return frozenset(out)


def download(p, ck, D, m):
    g = Graph(p, m, small, cls=D)
    F = Facts(p, D, g)
    res = g.forward(frozenset([frozenset()]), F.transfer, lambda a, b: a | b)
    k = {'verified': 0, 'marker': 0}
    for n in g.reachable():
        for c in calls(n):
            kind = F.is_install(c, n.frame)
            mark = F.is_marker(c, n.frame)
            s = res.get(n.id, frozenset())
            what = ast.unparse(c)[:70]
            path = lines(g.path(g.entry, n) or [n])
            if kind or mark:
                k['verified'] += 1
                key = f'{m.qual}: {name_of(c)}'
                if any('verified' not in f for f in s):
                    ck.bad('verified', key, n.where, f'{what} is reached without the checksum having matched', path)
                else:
                    ck.ok('verified', key, n.where)
            if kind == 'copy' and name_of(c) != 'extractall':
                if any('unpacked' not in f for f in s):
                    ck.bad('unpacked', f'{m.qual}: {name_of(c)}', n.where, f'{what} is reached though unpacking the archive may have failed', path)
                else:
                    ck.ok('unpacked', f'{m.qual}: {name_of(c)}', n.where)
            if kind:
                if kind == 'copy' and any('clear' not in f for f in s):
                    ck.bad('unmarked', f'{m.qual}: {name_of(c)}', n.where,
                           f'{what} replaces files while the marker of an earlier installation is still there: an interruption leaves a mixture that passes for the earlier version', path)
                elif any('marked' in f for f in s):
                    ck.bad('marker', f'{m.qual}: order', n.where, f'{what} is reached after the version marker was written', path)
                else:
                    ck.ok('unmarked', f'{m.qual}: {name_of(c)}', n.where)
            if mark:
                k['marker'] += 1
                if any('installed' not in f or 'failed' in f for f in s):
                    ck.bad('marker', f'{m.qual}: marker', n.where, f'{what} is reached though the files may not all be installed', path)
                else:
                    ck.ok('marker', f'{m.qual}: marker', n.where)
    if not k['verified']:
        ck.unknown('verified', m.qual, m.where, 'no installation step was recognised')
    if not k['marker']:
        ck.unknown('marker', m.qual, m.where, 'no version marker is written')
    # what is written into the marker
    for n in g.reachable():
        for c in calls(n):
            if name_of(c) == 'write' and isinstance(c.func, ast.Attribute) and c.args and 'V' in F.T.of(c.func.value, g, n.frame):
                t = F.T.of(c.args[0], g, n.frame)
                if 'P' in t:
                    ck.ok('marker', f'{m.qual}: content', n.where)
                else:
                    ck.bad('marker', f'{m.qual}: content', n.where, 'the marker does not hold the published version')


def stale(p, ck, D):
    b = Bench(p, ck)
    m = D.find_method('model_is_stale')
    q = D.find_method('get_local_model_version').qual
    cases = [('nothing installed', 'v2', None, True), ('another version installed', 'v2', 'v1', True), ('published version installed', 'v2', 'v2', False),
             ('nothing installed, published version unknown', None, None, None)]
    strict = []
    for name, remote, local, want in cases:
        e = b.engine('grammar', tyv=False, dg=False)
        e.intrinsics[q] = lambda eng, st, args, kw, node, local=local: K(local)

        def go(e, st, remote=remote):
            o = e.new(st, InstO(D, {'remote_version': K(remote), 'model': K('bobcat')}))
            return meth(e, o, 'model_is_stale', [], {}, st)

        def chk(e, v, st, path, want=want):
            if want is None:
                strict.append(isinstance(v, K) and bool(v.v))
                return True, ''
            if isinstance(v, K):
                return bool(v.v) == want, f'model_is_stale gives {v.v}, expected {want}'
            return None, show(v)
        b.run('stale', name, m.where, e, go, chk)
    return strict == [True]


def accepted(p, ck, strict):
    B = p.cls('text2diagram.model_based_reader.base.ModelBasedReader')
    m = B.find_method('_prepare_model_artifacts')
    g = Graph(p, m, lambda c, f: c.cls is B and small(c, f), cls=B)
    T = Tags(p)

    def of(e, fr):
        return name_of(e) if isinstance(e, ast.Call) else None

    def expand(x, fr, n=0):
        while isinstance(x, ast.Name) and x.id in fr.single and n < 5:
            x, n = fr.single[x.id], n + 1
        return x

    def facts_of(test, val, fr):
        got = set()

        def dirf(x, v):
            x = expand(x, fr)
            if isinstance(x, ast.BoolOp) or isinstance(x, ast.UnaryOp):
                return implied(x, v, dirf)
            return v and of(x, fr) in ('is_dir', 'exists', 'isdir')

        def stl(x, v):
            x = expand(x, fr)
            if isinstance(x, ast.BoolOp) or isinstance(x, ast.UnaryOp):
                return implied(x, v, stl)
            return not v and of(x, fr) == 'model_is_stale'

        def loc(x, v):
            x = expand(x, fr)
            if isinstance(x, (ast.BoolOp, ast.UnaryOp)):
                return implied(x, v, loc)
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.comparators[0], ast.Constant) and x.comparators[0].value is None:
                y = expand(x.left, fr)
                return of(y, fr) == 'get_local_model_version' and v == isinstance(x.ops[0], (ast.IsNot, ast.NotEq))
            return v and of(x, fr) == 'get_local_model_version'
        if implied(test, val, dirf):
            got.add('dir')
        if implied(test, val, stl):
            got.add('fresh')
        if implied(test, val, loc):
            got.add('marked')
        return got

    def transfer(n, s, label):
        out = set()
        for f in s:
            f = set(f)
            if n.kind == 'test' and n.ast is not None and label in ('t', 'f'):
                f |= facts_of(n.ast, label == 't', n.frame)
            for c in calls(n):
                if name_of(c) == 'ModelDownloader':
                    f = {'managed'}
                if name_of(c) == 'download_model':
                    f = {'managed'} | ({'installed'} if label != 'exc' else {'failed', 'dir'} & (f | {'failed'}))
            out.add(frozenset(f))
        return frozenset(out)
    if strict:              # then an installation that is not stale has a marker
        old = transfer

        def transfer(n, s, label):
            return frozenset(f | {'marked'} if 'fresh' in f else f for f in old(n, s, label))
    res = g.forward(frozenset([frozenset()]), transfer, lambda a, b: a | b)
    ends = [f for f in res.get(g.exit.id, ()) if 'managed' in f]
    if not ends:
        ck.unknown('accepted', m.qual, m.where, 'no use of ModelDownloader found')
    for f in ends:
        good = 'installed' in f or {'dir', 'marked'} <= f and ('fresh' in f or 'failed' in f)
        key = f'{m.qual}: {", ".join(sorted(f - {"managed"})) or "nothing known"}'
        if good:
            ck.ok('accepted', key, m.where)
        else:
            ck.bad('accepted', key, m.where, f'a cached model is used though it was not just installed, and is not known to be completely installed and up to date (known: {sorted(f - {"managed"})})')
