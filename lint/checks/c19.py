"""C19: the command line rejects bad options before working and honours good ones."""
import ast
import itertools
import os
from ..absint import Raised, Store, Unsupported
from ..harness import *
from ..project import Project
from ..values import ListO, DictO, InstO

TITLE = 'The command line rejects bad options before working and honours good ones'
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs')
STUBS = [('argparse', 'c19_argparse'), ('lambeq_cli_parts', 'c19_parts')]
CLI = 'cli'
PREGROUP = ('cups',)
DEFAULTS = {'dim_n': 2, 'dim_s': 2, 'n_layers': 2, 'n_single_qubit_params': 3, 'bond_dim': 3, 'max_order': 3}
MODES = ('string-diagram', 'pregroups', 'ccg')
FORMATS = ('text-unicode', 'text-ascii', 'json', 'pickle', 'image')
PARSERS = {'bobcat': 'BobcatParser', 'oncilla': 'OncillaParser'}
READERS = {'spiders': 'SpidersReader', 'stairs': 'LinearReader', 'cups': 'LinearReader', 'tree': 'TreeReader'}
ANSATZE = {'iqp': 'IQPAnsatz', 'tensor': 'TensorAnsatz', 'spider': 'SpiderAnsatz', 'mps': 'MPSAnsatz'}
TAKES = {'iqp': ('n_layers', 'n_single_qubit_params'), 'tensor': (), 'spider': ('max_order',), 'mps': ('bond_dim', 'max_order')}
LONG = {'m': 'mode', 'f': 'output_format', 'o': 'output_file', 'd': 'output_dir', 'p': 'parser', 'r': 'reader', 'c': 'root_categories', 'w': 'rewrite_rules', 'a': 'ansatz',
        'n': 'ansatz_options', 'u': 'output_options', 't': 'tokenise', 's': 'split_sentences', 'i': 'input_file', 'y': 'store_args', 'l': 'load_args', 'g': 'image_format'}
DOES = ('load', 'tokeniser', 'split', 'tokenise', 'parse', 'read', 'write', 'open', 'mkdir', 'draw', 'print', 'dump', 'input', 'rewriter', 'ansatz')


class Odd(Exception):
    """The run did something the bench has no account of."""


def project(p):
    return Project(repo=str(p.repo), stubs=[(n, os.path.join(HERE, f + '.py')) for n, f in STUBS])


class Run:
    """One run of `main` with given options; collects what it does."""

    def __init__(self, q, e, st, argv, files, text):
        self.q, self.e, self.st, self.files, self.text, self.argv = q, e, st, files, text, argv
        self.events, self.texts, self.labels = [], {}, {}
        self.parts = q.modules['lambeq_cli_parts']
        self.install()

    # values <-> Python
    def py(self, v, st=None):
        e, st = self.e, st or self.st
        v = e.res(v, st)
        if isinstance(v, Lin) and v.const is not None:
            return v.const
        if isinstance(v, K):
            return v.v
        if isinstance(v, Tup):
            return tuple(self.py(x, st) for x in v.items)
        if isinstance(v, Ref):
            o = e.obj(st, v)
            if isinstance(o, ListO):
                if o.kind != 'list':
                    return frozenset(self.py(x, st) for x in o.items)
                return [self.py(x, st) for x in o.items]
            if isinstance(o, DictO):
                if o.rest is not None:
                    raise Unsupported('dictionary with unknown entries')
                return {self.py(k, st): self.py(x, st) for k, x in o.d.items()}
            if isinstance(o, InstO):
                if o.cls.name in ('Diag', 'Tree') and 'steps' in o.fields:
                    return (o.cls.name, *self.py(o.fields['steps'], st))
                if o.cls.name == 'Path' and 'path' in o.fields:
                    return self.py(o.fields['path'], st)
                if o.cls.name == 'Dim':
                    return ('Dim', *self.py(e.getattr(v, 'dim', st), st))
                if o.cls.name == 'Ty':
                    return ('Ty', self.py(e.getattr(v, 'name', st), st))
                return 'instance of ' + o.cls.name
        if isinstance(v, ClsV):
            return 'class ' + v.cls.name
        if isinstance(v, (App, Ite)):
            raise Unsupported(f'unknown value {show(v)[:80]}')
        return show(v)

    def v(self, x):
        e, st = self.e, self.st
        if isinstance(x, bool) or x is None or isinstance(x, (str, float)):
            return K(x)
        if isinstance(x, int):
            return I(x)
        if isinstance(x, tuple):
            return Tup([self.v(y) for y in x])
        if isinstance(x, list):
            return e.new(st, ListO([self.v(y) for y in x]))
        if isinstance(x, dict):
            return e.new(st, DictO({K(k): self.v(y) for k, y in x.items()}))
        raise TypeError(x)

    def make(self, cls, **fields):
        c = self.q.modules['lambeq_cli_parts'].classes[cls]
        return self.e.new(self.st, InstO(c, {k: self.v(x) if not isinstance(x, V) else x for k, x in fields.items()}))

    def did(self, *what):
        self.events.append(what)

    def bound(self, info, args, kw, st, node):
        """The arguments as the function itself would see them (wrong ones raise TypeError)."""
        e = self.e
        fid = e.fresh('frm')
        e.bind_args(info, args, kw, fid, st, node, None, info.module)
        a = info.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])
        return {n: st.m[('v', fid, n)] for n in names}

    # stand-ins
    def install(self):
        e, q = self.e, self.q
        ins = e.intrinsics
        base = q.cls('text2diagram.base.Reader')
        rewriters = [q.cls('rewrite.base.Rewriter'), q.cls('rewrite.rewrite_diagram.DiagramRewriter')]
        ansatz = q.cls('ansatz.base.BaseAnsatz')
        tok = q.cls('tokeniser.base.Tokeniser') if 'lambeq.tokeniser.base' in q.modules else None
        classes = {c.qual: c for m in q.modules.values() for c in m.classes.values()}.values()

        def construct(c, kind):
            def f(e, st, args, kw, node):
                init = c.find_method('__init__')
                got = self.bound(init, [K(None)] + list(args), kw, st, node) if init is not None else {}
                given_ = {k: self.py(x, st) for k, x in got.items() if k != 'self'}
                dflt = self.bound_defaults(init, st, node)
                given_ = {k: x for k, x in given_.items() if k not in dflt or dflt[k] != x}
                self.did(kind, c.name, tuple(sorted(given_.items(), key=str)) if kind != 'ansatz' else c.name)
                self.labels[len(self.labels)] = given_
                return e.new(st, InstO(c, {'_spec': K(len(self.labels) - 1)}))
            return f

        def spec(st, obj):
            o = e.obj(st, e.res(obj, st)) if isinstance(e.res(obj, st), Ref) else None
            s = o.fields.get('_spec') if isinstance(o, InstO) else None
            return o.cls.name if o is not None else '?', self.labels[self.py(s)] if s is not None else {}

        def hashed(d):
            return tuple(sorted(((k, tuple(x) if isinstance(x, list) else tuple(sorted(x.items(), key=str)) if isinstance(x, dict) else x) for k, x in d.items()), key=str))

        def parse(info, many, tree):
            def f(e, st, args, kw, node):
                if not args:
                    raise Unsupported('reader called without self')
                got = self.bound(info, args, kw, st, node)
                cls, sp = spec(st, args[0])
                sents = got.get('sentences', got.get('sentence'))
                if sents is None:
                    raise Unsupported('names of the arguments of a reader')
                sents, tk = self.py(sents, st), self.py(got.get('tokenised', K(False)), st)
                if not many:
                    sents = [sents]
                out = []
                for s in sents:
                    s = tuple(s) if isinstance(s, list) else s
                    step = ('parse', cls, hashed(sp), s, tk)
                    self.did(*step)
                    out.append(self.make('Tree', steps=[step]) if tree else self.make('Diag', steps=[step], is_pregroup=self.which(args[0], st) in PREGROUP))
                return e.new(st, ListO(out)) if many else out[0]
            return f

        def step(name):
            def one(e, st, obj, d):
                cls, sp = spec(st, obj)
                dv = e.res(d, st)
                if isinstance(dv, Ref) and isinstance(e.obj(st, dv), ListO):
                    return e.new(st, ListO([one(e, st, obj, x) for x in e.obj(st, dv).items]))
                if not isinstance(dv, Ref) or getattr(e.obj(st, dv), 'cls', None) is None:
                    raise Unsupported(f'{name} applied to {show(dv)}')
                return meth(e, dv, 'then', [self.v((name, cls, hashed(sp))), K(False)], {}, st)
            return lambda e, st, args, kw, node: one(e, st, args[0], args[1])

        for c in classes:
            if c.is_sub(base):
                if c.name not in ('LinearReader', 'SpidersReader'):
                    ins['new:' + c.qual] = construct(c, 'load')
                for n in ('sentence2diagram', 'sentences2diagrams', 'sentence2tree', 'sentences2trees'):
                    m = c.methods.get(n)
                    if m is not None:
                        ins[m.qual] = parse(m, n.startswith('sentences'), 'tree' in n)
            elif any(c.is_sub(r) for r in rewriters):
                ins['new:' + c.qual] = construct(c, 'rewriter')
                if '__call__' in c.methods:
                    ins[c.methods['__call__'].qual] = step('rewrite')
            elif c.is_sub(ansatz):
                ins['new:' + c.qual] = construct(c, 'ansatz')
                if '__call__' in c.methods:
                    ins[c.methods['__call__'].qual] = step('ansatz')
            elif tok is not None and c.is_sub(tok):
                ins['new:' + c.qual] = construct(c, 'tokeniser')
                for n, m in c.methods.items():
                    if n in ('split_sentences', 'tokenise_sentences', 'tokenise_sentence'):
                        ins[m.qual] = self.tokeniser(n)
        ins['lambeq_cli_parts.log'] = self.log
        ins['lambeq_cli_parts.text_of'] = self.text_of
        ins['lambeq_cli_parts.join'] = lambda e, st, a, kw, n: K(os.path.join(*[self.py(x, st) for x in a]))
        ins['argparse.given'] = lambda e, st, a, kw, n: self.v([(k, list(v)) for k, v in self.argv])
        ins['builtins.open'] = self.open
        ins['builtins.print'] = self.print
        ins['builtins.input'] = self.input
        ins['builtins.vars'] = self.vars
        for x in ('join', 'splitext', 'basename', 'dirname', 'exists', 'isdir', 'abspath', 'expanduser', 'normpath'):
            ins['os.path.' + x] = self.ospath(x)
        ins['os.makedirs'] = lambda e, st, a, kw, n: self.did('mkdir', self.py(a[0], st), True, True) or K(None)
        ins['pathlib.Path'] = lambda e, st, a, kw, n: e.instantiate(ClsV(self.parts.classes['Path']), [self.v(self.ospath('join')(e, st, a, kw, n).v)] if len(a) > 1 else a, {}, st, n)
        for x in ('pickle', 'json'):
            ins[x + '.dump'] = self.dump(x)
            ins[x + '.dumps'] = self.dumps(x)
        for x in ('dump', 'safe_dump'):
            ins['yaml.' + x] = self.dump('yaml')
        for x in ('load', 'safe_load', 'full_load', 'unsafe_load'):
            ins['yaml.' + x] = self.yaml
        ins['inspect.getfullargspec'] = self.argspec
        ins['sys.exit'] = self.exit

    def bound_defaults(self, init, st, node):
        if init is None:
            return {}
        a = init.node.args
        out = {}
        for x, d in list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if d is not None:
                fid = self.e.fresh('frm')
                st.m[('v', fid, '<outer>')] = K(None)
                out[x.arg] = self.py(self.e.eval(d, fid, init.module, st), st)
        if a.kwarg:
            out[a.kwarg.arg] = {}
        return out

    def which(self, obj, st):
        """The name under which a ready reader is offered."""
        e = self.e
        table = e.res(e.module_value('AVAILABLE_READERS', self.q.modules['lambeq.cli'], st), st)
        for k, v in e.obj(st, table).d.items():
            if e.res(v, st) == e.res(obj, st):
                return k.v
        return None

    def tokeniser(self, n):
        def f(e, st, args, kw, node):
            x = self.py((list(args[1:]) + list(kw.values()))[0], st)
            if n == 'split_sentences':
                self.did('split', x)
                return self.v(split(x))
            self.did('tokenise', tuple(x) if isinstance(x, list) else x)
            return self.v(tokens(x) if n == 'tokenise_sentence' else [tokens(y) for y in x])
        return f

    def log(self, e, st, args, kw, node):
        kind, *what = [self.py(x, st) for x in args]
        if kind == 'read':
            self.did('read', what[0])
            if what[0] not in self.files or not isinstance(self.files[what[0]], str):
                raise Odd('a file is read that is not there')
            return K(self.files[what[0]])
        self.did(kind, *what)
        return K(None)

    def text_of(self, e, st, args, kw, node):
        steps, how = self.py(args[0], st), self.py(args[1], st)
        t = f'<{len(self.texts)}:{how}>'
        self.texts[t] = (steps, how)
        return K(t)

    def open(self, e, st, args, kw, node):
        got = dict(zip(('file', 'mode'), args), **kw)
        path, mode = self.py(got['file'], st), self.py(got.get('mode', K('r')), st)
        self.did('open', path, mode)
        return self.make('File', path=path, mode=mode)

    def print(self, e, st, args, kw, node):
        self.did('print', *[self.py(x, st) for x in args])
        return K(None)

    def input(self, e, st, args, kw, node):
        self.did('input')
        return K(self.text)

    def vars(self, e, st, args, kw, node):
        o = e.obj(st, e.res(args[0], st))
        return e.new(st, DictO({K(k): x for k, x in o.fields.items()}))

    def ospath(self, n):
        def f(e, st, args, kw, node):
            xs = [self.py(x, st) for x in args]
            if not all(isinstance(x, str) for x in xs):
                raise Raised(App('exc', K('TypeError'), K(f'os.path.{n} of {xs}')), e.where(node))
            if n in ('exists', 'isdir'):
                return K(False)
            return self.v(getattr(os.path, n)(*xs))
        return f

    def dump(self, how):
        def f(e, st, args, kw, node):
            stream = args[1] if len(args) > 1 else kw.get('fp', kw.get('file', kw.get('stream')))
            x = self.py(args[0], st)
            if stream is None:
                return K(self.keep(how, x))
            o = e.obj(st, e.res(stream, st))
            self.did('dump', how, self.py(o.fields['path'], st), self.py(o.fields['mode'], st), x)
            return K(None)
        return f

    def dumps(self, how):
        return lambda e, st, args, kw, node: K(self.keep(how, self.py(args[0], st)))

    def keep(self, how, x):
        t = f'<{len(self.texts)}:{how}>'
        self.texts[t] = (how, x)
        return t

    def yaml(self, e, st, args, kw, node):
        s = e.res(args[0], st)
        if isinstance(s, Ref) and isinstance(e.obj(st, s), InstO):
            path = self.py(e.obj(st, s).fields['path'], st)
            self.did('read', path)
        else:
            path = next((k for k, x in self.files.items() if x == self.py(s, st)), None)
        if not isinstance(self.files.get(path), dict):
            raise Odd('a file of options is read that is not there')
        return self.v(self.files[path])

    def argspec(self, e, st, args, kw, node):
        f = e.res(args[0], st)
        info = f.info if isinstance(f, FnV) else getattr(getattr(f, 'fn', None), 'info', None)
        if info is None:
            raise Unsupported(f'getfullargspec of {show(f)}')
        a = info.node.args
        return self.v(([x.arg for x in a.posonlyargs + a.args], a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None, None, [x.arg for x in a.kwonlyargs], None, {}))

    def exit(self, e, st, args, kw, node):
        raise Raised(App('exc', K('SystemExit')), e.where(node))

    def go(self):
        e, st = self.e, self.st
        main = e.module_value('main', self.q.modules['lambeq.cli'], st)
        return attempt(e, st, lambda: e.call(main, [], {}, st, None))


def split(text):
    return [s for line in text.split('\n') for s in (line + '|a', line + '|b')]


def tokens(s):
    return [s + '.1', s + '.2']


def words(argv):
    """'-f pickle -o x hello' -> [('-f', ['pickle']), ('-o', ['x']), ('input_sentence', ['hello'])]"""
    out = []
    for w in argv.split():
        if w.startswith('-'):
            out.append((w, []))
        elif w.startswith('@'):
            out.append(('input_sentence', [w[1:].replace('/', '\n')]))
        else:
            out[-1][1].append(w)
    return out


def options(argv, files):
    """The options as the documentation has them: name -> value; None if the line itself is wrong."""
    o = {}
    for k, v in words(argv):
        n = k if k == 'input_sentence' else k[2:] if k.startswith('--') else LONG[k[1:]]
        if n in ('tokenise', 'split_sentences'):
            o[n] = True
        elif n in ('root_categories', 'rewrite_rules'):
            o[n] = v
        elif n in ('ansatz_options', 'output_options'):
            o[n] = v
        else:
            o[n] = v[0]
    choices = {'mode': MODES, 'output_format': FORMATS, 'parser': PARSERS, 'reader': READERS, 'ansatz': ANSATZE}
    for n, c in choices.items():
        if n in o and o[n] not in c:
            return None
    if any(x.startswith('no-such') for n in ('rewrite_rules', 'image_format') for x in ([o[n]] if isinstance(o.get(n), str) else o.get(n, ()))):
        return None
    for n, keys in (('ansatz_options', DEFAULTS), ('output_options', ('fig_width', 'fig_height', 'fontsize'))):
        if n in o:
            pairs = [x.split('=') for x in o[n]]
            if any(len(x) != 2 or x[0] not in keys or not x[1].lstrip('-').isdigit() for x in pairs):
                return None
            o[n] = {k: int(x) for k, x in pairs}
    if 'output_file' in o and 'output_dir' in o:
        return None
    if 'load_args' in o:
        o = {**{k: x for k, x in files[o['load_args']].items() if x not in (None, False, '', {})}, **o}
    return o


def invalid(o):
    """Why the combination is not a valid one, by the documentation of the options; None if it is."""
    if o is None:
        return 'the command line itself is wrong'
    mode, fmt = o.get('mode', 'string-diagram'), o.get('output_format', 'text-unicode')
    if 'input_sentence' in o and 'input_file' in o:
        return 'two inputs'
    if 'output_file' not in o and 'output_dir' not in o and fmt not in ('text-ascii', 'text-unicode'):
        return 'no place for the output'
    if 'parser' in o and 'reader' in o:
        return 'parser and reader'
    if o.get('output_options') and fmt != 'image':
        return 'output options without image'
    if 'output_dir' in o and fmt != 'image':
        return 'directory for what is not an image'
    if mode == 'ccg':
        if 'ansatz' in o or 'reader' in o or 'rewrite_rules' in o:
            return 'ansatz, reader or rewriting of CCG trees'
        if fmt == 'image':
            return 'image of a CCG tree'
        if o.get('parser', 'bobcat') != 'bobcat':
            return 'CCG trees from a parser that is none for CCG'
    elif fmt in ('text-ascii', 'text-unicode', 'json'):
        if 'ansatz' in o or 'rewrite_rules' in o or o.get('reader') in ('spiders', 'stairs', 'tree'):
            return 'what is not a pregroup diagram as text'
        if fmt == 'json':
            return 'JSON of a diagram'
    return None


def expected(o, files, text):
    """(events of the work, final objects) a valid combination asks for."""
    ev = []
    if 'input_sentence' in o:
        text = o['input_sentence']
    elif 'input_file' in o:
        ev.append(('read', o['input_file']))
        text = files[o['input_file']]
    else:
        ev.append(('input',))
    text = text if 'input_sentence' in o else text.strip()
    if o.get('split_sentences'):
        ev.append(('split', text))
        sents = split(text)
    else:
        sents = text.split('\n')
    tk = bool(o.get('tokenise'))
    if tk:
        ev.append(('tokenise', tuple(sents)))
        sents = [tuple(tokens(s)) for s in sents]
    mode = o.get('mode', 'string-diagram')
    if 'reader' in o:
        cls, ctor = READERS[o['reader']], ()
        if o['reader'] == 'tree':
            ev.append(('load', cls))
    else:
        cls = PARSERS[o.get('parser', 'bobcat')]
        ctor = (('root_cats', tuple(o['root_categories'])),) if cls == 'BobcatParser' and 'root_categories' in o else ()
        ev.append(('load', cls))
    first = [('parse', cls, ctor, s, tk) for s in sents]
    ev += first
    out = []
    for f in first:
        steps = [f]
        if mode == 'ccg':
            out.append(('Tree', f, ('without_trivial_unary_rules',)))
            continue
        if mode == 'pregroups' and 'reader' not in o:
            steps += [('pregroup_normal_form',), ('rewrite', 'RemoveSwapsRewriter', ())]
        if 'rewrite_rules' in o:
            steps += [('rewrite', 'Rewriter', (('rules', tuple(o['rewrite_rules'])),)), ('normal_form',)]
        if 'ansatz' in o:
            a = o['ansatz']
            ao = {**DEFAULTS, **o.get('ansatz_options', {})}
            steps.append(('ansatz', ANSATZE[a], ao['dim_n'], ao['dim_s'], tuple((k, ao[k]) for k in TAKES[a])))
        out.append(('Diag', *steps))
    return ev, out


class Judge:
    def __init__(self, q, run, spec_defaults):
        self.q, self.run, self.defaults = q, run, spec_defaults

    def norm(self, obj):
        """Steps of an object that was produced, in the form `expected` gives them."""
        kind, *steps = obj
        out = []
        for s in steps:
            if s[0] == 'ansatz':
                cls, spec = s[1], dict(s[2])
                ob = dict(spec.pop('ob_map'))
                n, s_ = (ob.get(k) for k in self.defaults['types'])
                if len(ob) > 2:
                    raise Odd(f'types {sorted(ob)} given to the ansatz')
                n, s_ = (x[1] if isinstance(x, tuple) and x[0] == 'Dim' and len(x) == 2 else ('Dim', x) if cls != 'IQPAnsatz' else x for x in (n, s_))
                name = next(k for k, c in ANSATZE.items() if c == cls)
                kw = {k: spec.pop(k, self.defaults[cls].get(k)) for k in TAKES[name]}
                if spec:
                    raise Odd(f'{sorted(spec)} given to the ansatz')
                s = ('ansatz', cls, n, s_, tuple(kw.items()))
            elif s[0] == 'rewrite':
                s = ('rewrite', s[1], tuple((k, x) for k, x in s[2] if x is not None))
            elif s[0] == 'parse':
                s = (*s[:2], tuple((k, x) for k, x in s[2] if x is not None), *s[3:]) if s[1] != 'TreeReader' else (*s[:2], (), *s[3:])
            out.append(s)
        return (kind, *out)

    def same(self, got, want, nf=False, pnf=False):
        got = self.norm(got) if isinstance(got, tuple) and got and got[0] in ('Diag', 'Tree') else got
        want = tuple(want)
        if not isinstance(got, tuple):
            return False
        g = list(got)
        for extra, allowed in ((('normal_form',), nf), (('pregroup_normal_form',), pnf)):
            if allowed and g and g[-1] == extra and tuple(g) != want:
                g.pop()
        return tuple(g) == want


def check(q, run, o, files, text, ok, x, defaults):
    ev = run.events
    work = [w for w in ev if w[0] in DOES]
    store, load = o.get('store_args') if o else None, o.get('load_args') if o else None
    why = invalid(o)
    if why:
        if ok:
            return False, f'accepted, although invalid ({why})'
        name = show(x.exc.args[0]) if isinstance(x.exc, App) and x.exc.args else ''
        early = [w for w in work if not (w[0] in ('open', 'read') and w[1] == load)]
        if early:
            return False, f'refused ({why}) only after {early[0][0]} {early[0][1] if len(early[0]) > 1 else ""}'
        return True, f'refused: {why}'
    if o.get('output_format') == 'image' and 'output_file' in o and len(expected(o, files, text)[1]) > 1:
        if not any(w[0] in ('draw', 'write', 'dump') for w in ev):
            return (False, 'several images for one file') if ok else (True, 'refused: several images for one file')
        return False, 'several images drawn to one file'
    if not ok:
        return False, f'{show(x.exc)} although the options are valid'
    j = Judge(q, run, defaults)
    want, objs = expected(o, files, text)
    # the input
    for kind in ('input', 'split', 'tokenise'):
        a, b = [w for w in ev if w[0] == kind], [w for w in want if w[0] == kind]
        if kind == 'tokenise':
            a, b = [y for w in a for y in ([w[1]] if isinstance(w[1], str) else w[1])], [y for w in b for y in w[1]]
        if a != b:
            return False, f'{kind}: {a}, expected {b}'
    a, b = [w[1] for w in ev if w[0] == 'read' and w[1] != load], [w[1] for w in want if w[0] == 'read']
    if a != b:
        return False, f'reads {a}, expected {b}'
    a = [w[1] for w in ev if w[0] == 'load' and not (o.get('reader') == 'tree' and w[1] == 'BobcatParser')]
    b = [w[1] for w in want if w[0] == 'load']
    if sorted(set(a)) != sorted(set(b)):
        return False, f'loads {a}, expected {b}'
    a = [j.norm(('Diag', w))[1] for w in ev if w[0] == 'parse']
    b = [w for w in want if w[0] == 'parse']
    if a != b:
        return False, f'reads {a}, expected {b}'
    # the output
    fmt = o.get('output_format', 'text-unicode')
    dumps = [w for w in ev if w[0] == 'dump' and w[2] != store]
    if any(w[1] == 'yaml' for w in dumps):
        return False, 'options stored without being asked to'
    dumped = {w[2]: w[4] for w in ev if w[0] == 'dump' and w[2] == store}
    if store and not (len(dumped) == 1 and isinstance(dumped[store], dict)):
        return False, f'options not stored in {store}'
    texts = [w for w in ev if w[0] == 'write']
    prints = [w[1:] for w in ev if w[0] == 'print']
    draws = [w for w in ev if w[0] == 'draw']
    dirs = [w[1:] for w in ev if w[0] == 'mkdir']
    out = o.get('output_file')
    mode = o.get('mode', 'string-diagram')
    if fmt == 'pickle' or fmt == 'json':
        if texts and len(texts) == 1 and texts[0][3] in run.texts and not dumps:
            how, val = run.texts[texts[0][3]]
            dumps, texts = [('dump', how, texts[0][1], texts[0][2], val)], []
        if prints or draws or texts or dirs or len(dumps) != 1:
            return False, f'{fmt}: {len(dumps)} objects stored, {len(prints)} texts printed, {len(draws)} images'
        _, how, path, m, val = dumps[0]
        if how != fmt or path != out or m not in (('wb',) if fmt == 'pickle' else ('w',)):
            return False, f'{how} stored in {path} ({m}), expected {fmt} in {out}'
        if fmt == 'json':
            val = [('Tree', *x['steps']) if isinstance(x, dict) and 'steps' in x else x for x in val]
        if not isinstance(val, list) or len(val) != len(objs) or not all(j.same(x, y) for x, y in zip(val, objs)):
            return False, f'stores {val}, expected {objs}'
    elif fmt.startswith('text'):
        if draws or dumps or dirs or (prints and texts):
            return False, f'{fmt}: {len(dumps)} objects stored, {len(prints)} texts printed, {len(draws)} images'
        if out is not None:
            if prints or any(w[1] != out or w[2] != 'w' for w in texts):
                return False, f'text not in {out}: {texts or prints}'
            if len([w for w in ev if w[0] == 'open' and w[1] == out]) != 1:
                return False, f'{out} opened several times'
            body = ''.join(w[3] for w in texts)
        else:
            if texts:
                return False, f'text in a file without being asked to: {texts}'
            body = '\n'.join('\n'.join(str(x) for x in w) for w in prints)
        parts = body.rstrip('\n').split('\n')
        if len(parts) != len(objs) or any(t not in run.texts for t in parts):
            return False, f'writes {body!r} for {len(objs)} sentences'
        for t, want_ in zip(parts, objs):
            steps, how = run.texts[t]
            if how is not (fmt == 'text-ascii'):
                return False, f'{fmt} written with use_ascii={how}'
            if not j.same((want_[0], *steps), want_, pnf=True):
                return False, f'writes {steps}, expected {want_[1:]}'
            if mode != 'ccg' and o.get('reader') != 'cups' and not any(s[0] == 'pregroup_normal_form' for s in steps):
                return False, 'text of a diagram that is no pregroup diagram'
    else:
        if texts or prints or dumps:
            return False, f'image: {len(dumps)} objects stored, {len(prints)} texts printed'
        if len(draws) != len(objs):
            return False, f'{len(draws)} images of {len(objs)} sentences'
        ext = o.get('image_format', 'png')
        paths = [w[2].get('path') for w in draws]
        if 'output_dir' in o:
            d = o['output_dir']
            if len(set(paths)) != len(paths) or any(not isinstance(x, str) or os.path.dirname(x) != d for x in paths):
                return False, f'images in {paths}, expected in {d}'
            if (d, True, True) not in dirs:
                return False, f'{d} is not made when needed'
            if paths != sorted(paths):
                return False, f'names {paths} are not in the order of the sentences'
            if any(os.path.splitext(x)[1] != '.' + ext for x in paths):
                return False, f'{paths}: the format is {ext}'
        else:
            base, e0 = os.path.splitext(out)
            good = {base + '.' + ext, out + '.' + ext} | ({out} if e0[1:] and 'image_format' not in o else set())
            if len(paths) != 1 or paths[0] not in good or dirs:
                return False, f'image in {paths}, expected {sorted(good)}'
        uo = o.get('output_options', {})
        for w, want_ in zip(draws, objs):
            if not j.same(('Diag', *w[1]), want_, nf=True):
                return False, f'draws {w[1]}, expected {want_[1:]}'
            rest = {k: x for k, x in w[2].items() if k != 'path' and x is not None}
            exp = {'fontsize': uo['fontsize']} if 'fontsize' in uo else {}
            if 'fig_width' in uo and 'fig_height' in uo:
                if len(objs) == 1:
                    exp['figsize'] = (uo['fig_width'], uo['fig_height'])
                elif 'figsize' in rest:
                    rest.pop('figsize')
            elif 'figsize' in rest:
                rest.pop('figsize')
            if rest != exp:
                return False, f'draws with {rest}, expected {exp}'
    return True, f'{len(objs)} outputs'


class Bench19:
    def __init__(self, q, b):
        self.q, self.b, self.known, self.warm = q, b, None, None
        self.where = q.func('cli.main').where

    def engine(self):
        """The engine, and a state in which the modules have been loaded."""
        if self.warm is None:
            e, st = self.b.engine('grammar', tyv=False, dg=False), Store()
            e.repr_on = True
            e.MAXSTEPS *= 4
            try:
                r = Run(self.q, e, st, [], {}, '')
                e.call(e.module_value('prepare_parser', self.q.modules['lambeq.cli'], st), [], {}, st, None)
                r.which(K(None), st)
            except (Raised, Unsupported):
                st = Store()
            self.warm = e, st
        e = self.warm[0]
        e.obls, e.steps = [], 0
        return e

    def once(self, e, st, argv, files, text):
        if not st.m:
            st.become(self.warm[1].fork())
        r = Run(self.q, e, st, words(argv), files, text)
        ok, x = r.go()
        return r, ok, x

    def constants(self, e, st):
        if self.known is None:
            self.known = self.evaluated(e, st)
        return self.known

    def evaluated(self, e, st):
        d, r = {}, Run(self.q, e, st, [], {}, '')
        for name, cls in ANSATZE.items():
            c = next(k for m in self.q.modules.values() for k in m.classes.values() if k.name == cls and m.name.startswith('lambeq.ansatz'))
            init = c.find_method('__init__')
            d[cls] = r.bound_defaults(init, st, None)
        ty = self.q.cls('core.types.AtomicType')
        d['types'] = [r.py(e.getattr(ClsV(ty), n, st, None)) for n in ('NOUN', 'SENTENCE')]
        return d

    def one(self, argv, files=None, text=' one/two '.replace('/', '\n'), rule='run', label=None):
        files = dict(files or {})
        files.setdefault('in.txt', 'left\nright\n')
        got = {}

        def go(e, st):
            try:
                r, ok, x = self.once(e, st, argv, files, text)
            except Odd as o:
                raise Unsupported(str(o))
            got['run'] = r
            got['defaults'] = self.constants(e, st)
            got['res'] = ok, x
            return K(None)

        def chk(e, v, st, path):
            ok, x = got['res']
            try:
                if not ok and 'AttributeError' in show(x.exc) and not invalid(options(argv, files)):
                    raise Unsupported(show(x.exc))
                return check(self.q, got['run'], options(argv, files), files, text, ok, x, got['defaults'])
            except Odd as o:
                raise Unsupported(str(o))
        e = self.engine()
        self.b.run(rule, label or argv or '(none)', self.where, e, go, chk)
        return got.get('run')

    def stored(self, argv, also=''):
        """Options stored in one run and loaded in another do the same work."""
        files = {'in.txt': 'left\nright\n'}
        got = {}

        def go(e, st):
            try:
                r, ok, x = self.once(e, st, argv + ' -y conf.yaml', files, 'one')
                if not ok:
                    raise Raised(x.exc, x.where)
                d = [w[4] for w in r.events if w[0] == 'dump' and w[1] == 'yaml']
                if len(d) != 1:
                    raise Unsupported('options not stored with yaml.dump')
                f2 = {**files, 'conf.yaml': d[0]}
                got['two'] = self.once(e, st, (also + ' -l conf.yaml').strip(), f2, 'one')
            except Odd as o:
                raise Unsupported(str(o))
            got['defaults'], got['files'] = self.constants(e, st), f2
            return K(None)

        def chk(e, v, st, path):
            r, ok, x = got['two']
            o = {**options(argv, files), **(options(also, files) if also else {}), 'load_args': 'conf.yaml'}
            try:
                return check(self.q, r, o, got['files'], 'one', ok, x, got['defaults'])
            except Odd as o:
                raise Unsupported(str(o))
        e = self.engine()
        self.b.run('stored', f'{argv} + {also}' if also else argv, self.where, e, go, chk)


def jobs(tier):
    """Command lines."""
    out = []
    # which combinations are refused
    fmts = [''] + ['-f ' + f for f in FORMATS]
    modes = [''] + ['-m ' + m for m in MODES]
    sources = [''] + ['-p ' + x for x in PARSERS] + ['-r ' + x for x in READERS]
    work = ['', '-w determiner auxiliary', '-w', '-a iqp', '-w connector -a tensor', '-a spider', '-a mps']
    sinks = ['', '-o out.x', '-d dir']
    full = list(itertools.product(modes, sources, work, fmts, sinks))
    if tier == 'quick':
        pick = [c for i, c in enumerate(full) if i % 3 == (i // 3) % 3]
    else:
        pick = full
    for c in pick:
        out.append(' '.join(x for x in c if x) + ' @Hello/you')
    # the other options
    ways = ['-o out.pkl -f pickle', '-f text-ascii', '', '-f image -d dir', '-m ccg', '-m ccg -f json -o t.json', '-m ccg -f pickle -o t.pkl', '-m ccg -f text-ascii -o t.txt', '-m pregroups', '-m pregroups -f pickle -o p.pkl',
            '-r cups', '-r tree -f pickle -o t.pkl', '-r spiders -f image -d pics', '-p bobcat', '-p oncilla', '-p oncilla -f pickle -o t.pkl', '-r stairs -f pickle -o s.pkl -a iqp']
    rest = ['-t', '-s', '-t -s', '-c NP', '-c NP S -t', '-i in.txt', '-i in.txt -s -t', '-i in.txt -c N', '', '--tokenise --input_file in.txt', '-y conf.yaml', '-i in.txt @Hello']
    for w, x in itertools.product(ways, rest):
        out.append(f'{w} {x}'.strip() + ('' if '-i' in x or x == '' else ' @One/Two/Three'))
    for a in ANSATZE:
        for n in ('', '-n dim_n=3', '-n dim_s=4 n_layers=5', '-n dim_n=5 dim_s=7 n_layers=1 n_single_qubit_params=0 bond_dim=9 max_order=6', '-n', '-n bond_dim=4 max_order=8', '-n n_single_qubit_params=1',
                  '-n what=3', '-n dim_n', '-n dim_n=x', '-n dim_n=1=2'):
            out.append(f'-a {a} {n} -f pickle -o a.pkl @A'.replace('  ', ' '))
    out.append('-a none -f pickle -o a.pkl @A')
    out += ['-f gif @A', '-m tree @A', '-p depccg @A', '-r bag @A', '-w connector no-such-rule -f pickle -o a.pkl @A', '-f image -o a -g no-such-format @A', '-o a -d b -f image @A']
    for u in ('', '-u fontsize=3', '-u fig_width=4 fig_height=5', '-u fig_width=4', '-u fig_height=5 fontsize=8', '-u fig_width=4 fig_height=5 fontsize=6', '-u size=3', '-u fontsize=a', '-u'):
        for g in ('', '-g pdf', '-g svg'):
            for s in ('-o pic.png', '-o pic', '-o a.b/pic.svg', '-d dir'):
                out.append(f'-f image {u} {g} {s} @One'.replace('  ', ' ').replace('  ', ' '))
        out.append(f'-f image {u} -d dir @One/Two'.replace('  ', ' '))
        out.append(f'{u} @One' if u else '-f pickle -u fontsize=3 -o x @One')
    for x in ('-f pickle', '-f json -o j', '-p bobcat -r cups', '-u fontsize=3', '-d dir', '-m ccg -r cups', '-m ccg -f image -d dir', '-m ccg -p oncilla', '-a iqp', '-w curry', '-r spiders', '-m ccg -a iqp -f pickle -o x'):
        out += [f'{x} -i in.txt', x, f'{x} -i in.txt -y conf.yaml', f'{x} -s -t @A/B']
    many = '/'.join(f's{i}' for i in range(12))
    out += [f'-f image -d dir @{many}', f'-f pickle -o x @{many}', f'-f text-ascii @{many}']
    return list(dict.fromkeys(out))


STORED = ['-m ccg -f pickle -o t.pkl @A/B', '-m pregroups -f text-ascii @A', '-f image -d dir -g pdf -u fontsize=5 @A', '-f pickle -o x -a iqp -n dim_n=3 @A', '-f pickle -o x -a mps @A', '-r cups -t @A', '-p oncilla -s @A',
          '-c NP S @A', '-w determiner curry -f pickle -o x @A', '-i in.txt', '-m ccg -f json -o j -t -s @A', '', '-f image -o pic -u fig_width=3 fig_height=4 @A', '-r tree -a spider -n max_order=7 bond_dim=2 -f pickle -o x @A']
ALSO = [('-m ccg -f pickle -o t.pkl @A', '-m pregroups'), ('-m pregroups -f pickle -o t.pkl @A', '-m string-diagram'), ('-f text-ascii @A', '-f text-unicode'), ('-f image -d dir -g pdf @A', '-g svg'), ('-r cups @A', '-t'),
        ('-a iqp -n dim_n=3 -f pickle -o x @A', '-n dim_s=4'), ('-p bobcat -c NP @A', '-c S'), ('-f text-ascii @A', '@B'), ('-f pickle -o x -r spiders @A', '-r cups'), ('-f pickle -o x @A', '-o y')]


def run(p, ck, tier):
    q = project(p)
    b = Bench19(q, Bench(q, ck))
    ck.rule('run', 'A combination of options that the documentation excludes is refused before a model is loaded, a sentence read or a file written; any other reads the given input with the given tokeniser settings, parser or '
            'reader and categories, applies the given rules and ansatz with the given numbers, and writes every sentence in the given format to the given place.')
    ck.rule('stored', 'Options stored in a file and loaded again do the same work; those on the command line come before those in the file.')
    lines = jobs(tier)
    todo = []
    n = 40
    for i in range(0, len(lines), n):
        todo.append((f'run {i}', lambda part=lines[i:i + n]: [b.one(x) for x in part]))
    todo.append(('stored', lambda: [b.stored(x) for x in STORED]))
    todo.append(('also', lambda: [b.stored(x, y) for x, y in ALSO]))
    fork_map(ck, todo)
    ck.floor('run', 200)
