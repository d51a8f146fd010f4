"""C12: batch parsing keeps positions and hides errors only when asked."""
import ast
import itertools
from ..absint import Raised, Unsupported
from ..cfg import Frame, Graph
from ..harness import *
from .c11 import small

TITLE = 'Batch parsing keeps positions and hides errors only when asked'

FLAG = 'suppress_exceptions'


# ---------------------------------------------------------------- values

def wd(i):
    """The word that stands for sentence i: neither the order of the words nor the length of the sentences is that of the batch."""
    return f'w{9 - i}'


def tail(i):
    return ['v'] * (1, 3, 0, 2)[i % 4] + ['.' if i % 2 else 'v']


def words_of(v, e, st, out, depth=0):
    """The sentence numbers mentioned in a value."""
    v = e.res(v, st)
    if depth > 8:
        return out
    if isinstance(v, K) and isinstance(v.v, str):
        for w in v.v.split():
            if w[:1] == 'w' and w[1:].isdigit():
                out.add(9 - int(w[1:]))
    elif isinstance(v, App):
        for a in v.args:
            if isinstance(a, V):
                words_of(a, e, st, out, depth + 1)
    elif isinstance(v, Tup):
        for a in v.items:
            words_of(a, e, st, out, depth + 1)
    elif isinstance(v, Ref):
        o = e.obj(st, v)
        if isinstance(o, ListO):
            for a in o.items:
                words_of(a, e, st, out, depth + 1)
        elif isinstance(o, InstO):
            for a in o.fields.values():
                if isinstance(a, V):
                    words_of(a, e, st, out, depth + 1)
        elif isinstance(o, DictO):
            for k, a in o.d.items():
                for x in (k, a):
                    if isinstance(x, V):
                        words_of(x, e, st, out, depth + 1)
    return out


def which(e, st, args):
    out = set()
    for a in args:
        words_of(a, e, st, out)
    if len(out) != 1:
        raise Unsupported(f'a call about {len(out)} sentences')
    return out.pop()


def boom(name='ParserFailure'):
    raise Raised(App('exc', K(name)), '')


class Case:
    """The outcomes of the sentences of one batch."""

    def __init__(self, outcomes, stage):
        self.outcomes, self.stage = outcomes, stage

    def fails(self, i, stage):
        return self.outcomes[i] == 'fail' and self.stage == stage


def stub(case, stage, result=None, exc='ParserFailure', skip=1):
    """A call about one sentence: it fails if the case says so, else mentions the sentence."""
    def f(e, st, args, kw, node):
        i = which(e, st, list(args)[skip:] + list(kw.values()) if skip and len(args) > skip else list(args) + list(kw.values()))
        if case.fails(i, stage):
            boom(exc)
        return result(e, st, i) if result else App(stage, K(wd(i)))
    return f


def inst(e, st, cls, **kw):
    return e.new(st, InstO(cls, kw))


def lst(e, st, *xs):
    return e.new(st, ListO(xs))


def first(e, st, args, kw, node):
    return args[0]


PROGRESS = ('tqdm.tqdm', 'tqdm.auto.tqdm', 'tqdm.notebook.tqdm', 'tqdm.std.tqdm')


def engine(b):
    e = b.engine('grammar', tyv=False, dg=False)
    e.MAXSTEPS = 200000
    for n in PROGRESS:
        e.intrinsics[n] = first
    e.intrinsics['sys.stderr'] = first
    return e


# ---------------------------------------------------------------- the parsers

def bobcat(p, e, st, case):
    B = p.cls('text2diagram.model_based_reader.bobcat_parser.BobcatParser')
    T, S = p.cls('bobcat.tagger.TaggerOutput'), p.cls('bobcat.tagger.TaggerOutputSentence')

    def tagger(e, st, args, kw, node):
        out = []
        for s in e.items(args[1], st, node):
            ws = e.items(s, st, node)
            out.append(inst(e, st, S, words=lst(e, st, *ws), tags=lst(e, st), spans=lst(e, st)))
        return inst(e, st, T, tags=lst(e, st), cats=lst(e, st), sentences=lst(e, st, *out))
    q = lambda c, m: p.cls(c).find_method(m).qual
    e.intrinsics[q('bobcat.tagger.Tagger', '__call__')] = tagger
    e.intrinsics[q('bobcat.parser.ChartParser', '__call__')] = stub(case, 'parse', lambda e, st, i: lst(e, st, App('parse', K(wd(i)))))
    e.intrinsics[B.find_method('_prepare_sentence').qual] = stub(case, 'prepare', skip=0)
    e.intrinsics[B.find_method('_build_ccgtree').qual] = stub(case, 'tree', tree(p), skip=0)
    return inst(e, st, B, verbose=K('suppress'), tagger=inst(e, st, p.cls('bobcat.tagger.Tagger')),
                parser=inst(e, st, p.cls('bobcat.parser.ChartParser')), root_cats=K(None)), 'sentences2trees', {}


def tree(p):
    return lambda e, st, i: inst(e, st, p.cls('text2diagram.ccg_tree.CCGTree'), _text=K(wd(i)))


def depccg(p, e, st, case):
    D = p.cls('text2diagram.depccg_parser.DepCCGParser')
    X = p.cls('text2diagram.ccg_tree.CCGTree')

    def parse(e, st, args, kw, node):
        out = []
        for s in e.items(args[-1], st, node):
            i = which(e, st, [s])
            out.append(lst(e, st, inst(e, st, X, tree=App('depccg', K(wd(i))), score=K(float('-inf')) if case.fails(i, 'parse') else K(-1.5))))
        return lst(e, st, *out)
    e.intrinsics[D.find_method('_depccg_parse').qual] = parse
    e.intrinsics[D.find_method('_build_ccgtree').qual] = stub(case, 'tree', tree(p), skip=0)
    return inst(e, st, D, verbose=K('progress'), _last_trees=lst(e, st)), 'sentences2trees', {}


def web(p, e, st, case):
    W = p.cls('text2diagram.web_parser.WebParser')
    X = p.cls('text2diagram.ccg_tree.CCGTree')

    def get(e, st, args, kw, node):
        i = which(e, st, list(args) + list(kw.values()))
        if case.fails(i, 'request'):
            boom('RequestException')
        return inst(e, st, X, _text=K(wd(i)))

    def js(e, st, args, kw, node):
        i = which(e, st, args)
        if case.fails(i, 'json'):
            boom('JSONDecodeError')
        return App('json', K(wd(i)))
    e.intrinsics['requests.get'] = get
    e.intrinsics['requests.post'] = get
    e.intrinsics['host:json'] = js
    e.EXC_PARENTS = {**e.EXC_PARENTS, 'JSONDecodeError': {'RequestException', 'ValueError', 'OSError', 'Exception'}, 'RequestException': {'OSError', 'Exception'}}
    orig = e.getattr

    def getattr_(v, name, st, node=None):
        if name == 'json':
            o = e.obj(st, e.res(v, st)) if isinstance(e.res(v, st), Ref) else None
            if isinstance(o, InstO) and o.cls is X:
                return PartialV(ExtV('host:json'), (v,), {})
        return orig(v, name, st, node)
    e.getattr = getattr_
    e.intrinsics[X.find_method('from_json').qual] = stub(case, 'tree', tree(p), exc='KeyError')
    return inst(e, st, W, verbose=K('suppress'), service_url=K('http://localhost')), 'sentences2trees', {}


def ccgbank(p, e, st, case):
    C = p.cls('text2diagram.ccgbank_parser.CCGBankParser')

    def build(e, st, args, kw, node):
        i = which(e, st, args)
        if case.fails(i, 'tree'):
            boom('CCGBankParseError')
        if case.fails(i, 'inner'):
            boom('IndexError')
        s = e.res(args[0], st)
        n = len(s.v) - (2 if case.fails(i, 'extra') else 0)
        return Tup([tree(p)(e, st, i), I(n)])
    e.intrinsics[C.find_method('_build_ccgtree').qual] = build
    return inst(e, st, C, verbose=K('suppress')), 'sentences2trees', {}


def ccg(p, e, st, case, cq='text2diagram.model_based_reader.bobcat_parser.BobcatParser'):
    """Trees to diagrams, in the common base class."""
    B = p.cls(cq)
    X = p.cls('text2diagram.ccg_tree.CCGTree')

    def trees(e, st, args, kw, node):
        f = B.find_method('sentences2trees')
        names = f.params()
        sup = kw.get(FLAG, args[names.index(FLAG)] if len(args) > names.index(FLAG) else K(False))
        sup = e.res(sup, st)
        if not isinstance(sup, K):
            raise Unsupported('unknown flag')
        out = []
        for s in e.items(args[1] if len(args) > 1 else kw['sentences'], st, node):
            s = e.res(s, st)
            empty = isinstance(s, K) and not s.v.strip() or isinstance(s, Ref) and not e.items(s, st, node)
            i = None if empty else which(e, st, [s])
            if empty or case.fails(i, 'parse'):
                if not sup.v:
                    boom()
                out.append(K(None))
            else:
                out.append(tree(p)(e, st, i))
        return lst(e, st, *out)
    e.intrinsics[B.find_method('sentences2trees').qual] = trees
    e.intrinsics[X.find_method('to_diagram').qual] = stub(case, 'diagram', skip=0)
    return inst(e, st, B, verbose=K('progress' if 'depccg' in cq else 'suppress')), 'sentences2diagrams', {}


def oncilla(method):
    def make(p, e, st, case):
        O = p.cls('text2diagram.model_based_reader.oncilla_parser.OncillaParser')
        M = p.resolve_name('BertForSentenceToTree', O.module)
        N = p.cls('text2diagram.pregroup_tree.PregroupTreeNode')

        def predict(e, st, args, kw, node):
            i = which(e, st, args[1:2])
            if case.fails(i, 'predict'):
                boom()
            w = App('predicted', K(wd(i)))
            return inst(e, st, N, words=w, types=w, parents=w)

        def generate(e, st, args, kw, node):
            i = which(e, st, list(args) + list(kw.values()))
            if case.fails(i, 'tree'):
                boom()
            k = 0 if case.fails(i, 'no root') else 2 if case.fails(i, 'two roots') else 1
            return Tup([lst(e, st, *[inst(e, st, N, word=K(wd(i))) for _ in range(k)]), lst(e, st)])
        e.intrinsics[M.find_method('_sentence2pred').qual] = predict
        g = p.resolve_name('generate_tree', O.module)
        e.intrinsics[g.qual] = generate
        r = p.resolve_name('remove_cycles', O.module)
        e.intrinsics[r.qual] = lambda e, st, args, kw, node: K(None)
        e.intrinsics[N.find_method('get_words').qual] = lambda e, st, args, kw, node: lst(e, st, K(wd(which(e, st, args))))
        e.intrinsics[N.find_method('to_diagram').qual] = stub(case, 'diagram', skip=0)
        return inst(e, st, O, verbose=K('suppress'), model=inst(e, st, M), tokenizer=K('tokenizer')), method, {}
    return make


PARSERS = [
    ('BobcatParser.sentences2trees', 'text2diagram.model_based_reader.bobcat_parser.BobcatParser', 'sentences2trees', bobcat, ('parse', 'prepare', 'tree'), (False, True)),
    ('DepCCGParser.sentences2trees', 'text2diagram.depccg_parser.DepCCGParser', 'sentences2trees', depccg, ('parse', 'tree'), (False, True)),
    ('WebParser.sentences2trees', 'text2diagram.web_parser.WebParser', 'sentences2trees', web, ('request', 'json', 'tree'), (False, True)),
    ('CCGBankParser.sentences2trees', 'text2diagram.ccgbank_parser.CCGBankParser', 'sentences2trees', ccgbank, ('tree', 'inner', 'extra'), (False,)),
    ('CCGParser.sentences2diagrams', 'text2diagram.ccg_parser.CCGParser', 'sentences2diagrams', ccg, ('parse', 'diagram'), (False, True)),
    ('OncillaParser._sentences2pregrouptrees', 'text2diagram.model_based_reader.oncilla_parser.OncillaParser', '_sentences2pregrouptrees', oncilla('_sentences2pregrouptrees'), ('predict', 'tree', 'no root', 'two roots'), (False, True)),
    ('OncillaParser.sentences2diagrams', 'text2diagram.model_based_reader.oncilla_parser.OncillaParser', 'sentences2diagrams', oncilla('sentences2diagrams'), ('predict', 'diagram', 'two roots'), (False, True)),
]


def run(p, ck, tier):
    ck.rule('position', 'With exceptions suppressed a batch gives one result per sentence: its own, or None at its place if it fails or is blank.')
    ck.rule('raised', 'Without suppression a failing or blank sentence raises; a batch without one gives every result in order.')
    ck.rule('given', 'The batch handed in is left as it was.')
    ck.rule('single', 'The one-sentence form gives what the batch form gives for that sentence, under the same options.')
    ck.rule('tagged', 'The tagger processes a batch in slices and returns the sentences in order, whatever the slice size.')
    ck.rule('swallowed', 'Without suppression, an exception caught while a batch is processed is raised again.')
    ck.rule('passed', 'The choice to suppress exceptions is handed on to every call that offers it.')
    b = Bench(p, ck)
    n = 3 if tier == 'quick' else 4
    for name, cq, meth_, make, stages, toks in PARSERS:
        C = p.cls(cq)
        where = C.find_method(meth_).where
        for stage in stages:
            for tok in toks:
                batch(p, b, ck, name, where, make, stage, tok, n)
    single(p, b, ck)
    plain(p, b, ck, n)
    tagged(p, b, ck)
    escapes(p, ck)
    passed(p, ck)
    ck.floor('position', 30)
    ck.floor('swallowed', 3)
    ck.floor('passed', 4)


def sentences(e, st, outcomes, tok):
    out = []
    for i, o in enumerate(outcomes):
        if tok:
            out.append(lst(e, st) if o == 'blank' else lst(e, st, K(wd(i)), *[K(x) for x in tail(i)]))
        else:
            out.append(K('' if i % 2 else '  ') if o == 'blank' else K(' '.join([wd(i), *tail(i)])))
    return lst(e, st, *out)


def contents(e, x, st):
    x = e.res(x, st)
    return Tup([x, *e.items(x, st, None)]) if isinstance(x, Ref) else x


def batch(p, b, ck, name, where, make, stage, tok, n):
    blanks = () if 'CCGBank' in name else ('blank',)
    for suppress in (True, False):
        seen = set()
        for outcomes in itertools.chain.from_iterable(itertools.product(('ok', 'fail') + blanks, repeat=k) for k in ((n, 1) if n == 3 else (n, 3, 2, 1))):
            if not suppress and sum(o != 'ok' for o in outcomes) > 1:
                continue
            sig = tuple(outcomes)
            if sig in seen:
                continue
            seen.add(sig)
            one(p, b, ck, name, where, make, Case(outcomes, stage), stage, tok, suppress)


def one(p, b, ck, name, where, make, case, stage, tok, suppress):
    outcomes = case.outcomes
    key = f'{name}: {", ".join(outcomes)}; failing in {stage}' + (', tokenised' if tok else '') + (', suppressed' if suppress else '')
    bad = any(o != 'ok' for o in outcomes)
    e = engine(b)
    box = {}

    def go(e, st):
        o, m, kw = make(p, e, st, case)
        ss = sentences(e, st, outcomes, tok)
        before = [contents(e, x, st) for x in e.obj(st, ss).items]
        box['raised'] = False
        try:
            r = meth(e, o, m, [ss], {FLAG: K(suppress), **({'tokenised': K(True)} if tok else {}), **kw}, st)
        except Raised as x:
            if suppress:
                raise
            box['raised'] = True
            r = K(None)
        return Tup([r, ss, Tup(before)])

    def results(e, v, st, path):
        r, ss, before = v.items
        if not suppress and bad:
            if box['raised']:
                return True, ''
            return False, 'a failing sentence does not raise although exceptions are not suppressed'
        if box['raised']:
            return False, 'raises although no sentence fails'
        rr = e.res(r, st)
        items = e.items(rr, st, None)
        if any(isinstance(x, Spread) for x in items):
            return None, 'result of unknown length'
        if len(items) != len(outcomes):
            return False, f'{len(items)} results for {len(outcomes)} sentences'
        for i, (x, o) in enumerate(zip(items, outcomes)):
            x = e.res(x, st)
            if o == 'ok':
                w = words_of(x, e, st, set())
                if w == {i}:
                    continue
                if isinstance(x, K) and x.v is None or w:
                    return False, f'the result of sentence {i} is ' + ('missing' if not w else f'that of sentence {min(w)}')
                return None, f'unknown result {show(x)}'
            if isinstance(x, K) and x.v is None:
                continue
            w = words_of(x, e, st, set())
            return (False if w else None), f'the failing sentence {i} gets {"the result of sentence " + str(min(w)) if w else show(x)}'
        return True, ''

    def given(e, v, st, path):
        r, ss, before = v.items
        now = [contents(e, x, st) for x in e.obj(st, e.res(ss, st)).items]
        if len(now) == len(before.items) and now != list(before.items):
            return False, 'a sentence of the list that was handed in has changed'
        if now != list(before.items):
            return False, f'the list of {len(before.items)} sentences that was handed in has changed' + (f'; it now has {len(now)}' if len(now) != len(before.items) else '')
        return True, ''
    b.run('position' if suppress else 'raised', key, where, e, go, results)
    if suppress and bad or not bad and not suppress:
        b.run('given', key, where, engine(b), go, given)


def treereader(p, e, st, case):
    T = p.cls('text2diagram.tree_reader.TreeReader')
    o, _, _ = ccg(p, e, st, case)
    e.intrinsics[T.find_method('_tree2diagram').qual] = stub(case, 'diagram', skip=0)
    X = p.cls('text2diagram.ccg_tree.CCGTree')
    for m in ('_resolved', 'collapse_noun_phrases'):
        if X.find_method(m):
            e.intrinsics[X.find_method(m).qual] = first
    return inst(e, st, T, ccg_parser=o, mode=e.getattr(ClsV(p.cls('text2diagram.tree_reader.TreeReaderMode')), 'NO_TYPE', st), word_type=K('s')), 'sentence2diagram', {}


SINGLE = [
    ('sentence2tree', 'text2diagram.model_based_reader.bobcat_parser.BobcatParser', bobcat, ('parse', 'tree')),
    ('sentence2tree', 'text2diagram.depccg_parser.DepCCGParser', depccg, ('parse', 'tree')),
    ('sentence2tree', 'text2diagram.web_parser.WebParser', web, ('request', 'tree')),
    ('sentence2diagram', 'text2diagram.model_based_reader.bobcat_parser.BobcatParser', ccg, ('parse', 'diagram')),
    ('sentence2diagram', 'text2diagram.model_based_reader.oncilla_parser.OncillaParser', oncilla('sentence2diagram'), ('predict', 'diagram')),
    ('_sentence2pregrouptree', 'text2diagram.model_based_reader.oncilla_parser.OncillaParser', oncilla('_sentence2pregrouptree'), ('predict', 'tree')),
    ('sentence2diagram', 'text2diagram.tree_reader.TreeReader', treereader, ('parse', 'diagram')),
]


def single(p, b, ck):
    for name, cq, make, stages in SINGLE:
        C = p.cls(cq)
        m = C.find_method(name)
        for stage, outcome, tok, suppress in itertools.product(stages, ('ok', 'fail', 'blank'), (False, True), (False, True)):
            case = Case([outcome], stage)
            box = {}

            def go(e, st):
                o, _, kw = make(p, e, st, case)
                s = e.obj(st, sentences(e, st, [outcome], tok)).items[0]
                box['raised'] = False
                try:
                    return meth(e, o, name, [s], {FLAG: K(suppress), **({'tokenised': K(True)} if tok else {})}, st)
                except Raised:
                    box['raised'] = True
                    return K(None)

            def chk(e, v, st, path):
                if box['raised']:
                    return outcome != 'ok' and not suppress, 'raises'
                v = e.res(v, st)
                if outcome == 'ok':
                    w = words_of(v, e, st, set())
                    if w == {0}:
                        return True, ''
                    return (False if isinstance(v, K) and v.v is None else None), f'gives {show(v)}'
                if not suppress:
                    return False, 'a failing sentence does not raise although exceptions are not suppressed'
                if isinstance(v, K) and v.v is None:
                    return True, ''
                return (False if words_of(v, e, st, set()) else None), f'the failing sentence gives {show(v)}'
            b.run('single', f'{C.name}.{name}: {outcome} in {stage}{", tokenised" if tok else ""}{", suppressed" if suppress else ""}', m.where, engine(b), go, chk)
    # the sections of a corpus, where a key takes the place of a position
    C = p.cls('text2diagram.ccgbank_parser.CCGBankParser')
    X = p.cls('text2diagram.ccg_tree.CCGTree')
    for name in ('section2diagrams', 'section2diagrams_gen'):
        m = C.find_method(name)
        for outcomes, suppress in itertools.product(itertools.product(('ok', 'fail', 'blank'), repeat=2), (False, True)):
            case = Case(outcomes, 'diagram')
            box = {}

            def go(e, st):
                def trees(e, st, args, kw, node):
                    return lst(e, st, *[Tup([K(wd(i)), K(None) if o == 'blank' else tree(p)(e, st, i)]) for i, o in enumerate(outcomes)])
                e.intrinsics[C.find_method('section2trees_gen').qual] = trees
                e.intrinsics[X.find_method('to_diagram').qual] = stub(case, 'diagram', skip=0)
                o = inst(e, st, C, verbose=K('suppress'))
                box['raised'] = False
                try:
                    return meth(e, o, name, [I(0)], {FLAG: K(suppress)}, st)
                except Raised:
                    box['raised'] = True
                    return K(None)

            def chk(e, v, st, path):
                if box['raised']:
                    return 'fail' in outcomes and not suppress, 'raises'
                v = e.res(v, st)
                d = e.obj(st, v)
                pairs = list(d.d.items()) if isinstance(d, DictO) else [e.items(x, st, None) for x in e.items(v, st, None)]
                if 'fail' in outcomes and not suppress:
                    return False, 'a failing sentence does not raise although exceptions are not suppressed'
                if len(pairs) != len(outcomes):
                    return False, f'{len(pairs)} results for {len(outcomes)} sentences'
                for (k, x), (i, o) in zip(pairs, enumerate(outcomes)):
                    if words_of(k, e, st, set()) != {i}:
                        return False, f'sentence {i} is filed under {show(k)}'
                    x = e.res(x, st)
                    w = words_of(x, e, st, set())
                    if (w != {i}) if o == 'ok' else not (isinstance(x, K) and x.v is None):
                        return (False if w or isinstance(x, K) else None), f'sentence {i} ({o}) gives {show(x)}'
                return True, ''
            b.run('single', f'CCGBankParser.{name}: {", ".join(outcomes)}{", suppressed" if suppress else ""}', m.where, engine(b), go, chk)
    # options of the diagrams
    for cq, make in (('text2diagram.model_based_reader.bobcat_parser.BobcatParser', ccg), ('text2diagram.depccg_parser.DepCCGParser', ccg)):
        C = p.cls(cq)
        X = p.cls('text2diagram.ccg_tree.CCGTree')
        names = X.find_method('to_diagram').params()
        for name in ('sentence2diagram', 'sentences2diagrams'):
            m = C.find_method(name)
            opts = [o for o in ('planar', 'collapse_noun_phrases') if o in m.params() and o in names]
            for vals in itertools.product((False, True), repeat=len(opts)):
                case = Case(['ok'], 'diagram')
                given = dict(zip(opts, vals))

                def go(e, st):
                    o, _, _ = make(p, e, st, case, cq)

                    def to_diagram(e, st, args, kw, node):
                        full = {n: a for n, a in zip(names, args)}
                        full.update(kw)
                        return App('diagram', *[full.get(x, K('default')) for x in opts])
                    e.intrinsics[X.find_method('to_diagram').qual] = to_diagram
                    s = K(wd(0) + ' v')
                    return meth(e, o, name, [s if name == 'sentence2diagram' else lst(e, st, s)], {k: K(x) for k, x in given.items()}, st)

                def chk(e, v, st, path):
                    v = e.res(v, st)
                    if name != 'sentence2diagram':
                        v = e.res(e.items(v, st, None)[0], st)
                    if not isinstance(v, App) or v.op != 'diagram':
                        return None, f'gives {show(v)}'
                    got = [e.res(x, st) for x in v.args]
                    return got == [K(x) for x in vals], f'the diagram is made with {", ".join(f"{o}={show(x)}" for o, x in zip(opts, got))}'
                b.run('single', f'{C.name}.{name}: {", ".join(f"{o}={x}" for o, x in given.items())}', m.where, engine(b), go, chk)


def plain(p, b, ck, n):
    """Readers without suppression: the generic batch method."""
    R = p.cls('text2diagram.base.Reader')
    where = R.find_method('sentences2diagrams').where
    for C in sorted(R.all_subclasses(), key=lambda c: c.name):
        m = C.find_method('sentences2diagrams')
        if m is None or m.cls is not R or C.find_method('sentence2diagram').is_abstract:
            continue
        for outcomes in itertools.product(('ok', 'fail'), repeat=n):
            if sum(o == 'fail' for o in outcomes) > 1:
                continue
            case = Case(outcomes, 'diagram')

            def make(p, e, st, case, C=C):
                e.intrinsics[C.find_method('sentence2diagram').qual] = stub(case, 'diagram')
                return inst(e, st, C, verbose=K('suppress')), 'sentences2diagrams', {}
            e = engine(b)
            key = f'{C.name}.sentences2diagrams: {", ".join(outcomes)}'

            def go(e, st):
                o, mm, kw = make(p, e, st, case)
                ss = sentences(e, st, outcomes, False)
                try:
                    return meth(e, o, mm, [ss], {}, st)
                except Raised:
                    return K('raised')

            def chk(e, v, st, path):
                if isinstance(v, K):
                    return ('fail' in outcomes) == (v.v == 'raised'), 'a failing sentence must raise, and only that'
                its = e.items(v, st, None)
                got = [words_of(x, e, st, set()) for x in its]
                return got == [{i} for i in range(n)], f'results of sentences {got}'
            b.run('raised', key, m.where, e, go, chk)


def tagged(p, b, ck):
    T = p.cls('bobcat.tagger.Tagger')
    call = T.find_method('__call__')
    S = p.cls('bobcat.tagger.TaggerOutputSentence')
    G = p.cls('bobcat.grammar.Grammar')
    for n in (1, 2, 3, 5):
        for size in (1, 2, 3, 7):
            e = engine(b)

            def parse(e, st, args, kw, node):
                out = []
                for s in e.items(args[1], st, node):
                    out.append(inst(e, st, S, words=lst(e, st, *e.items(s, st, node)), tags=lst(e, st), spans=lst(e, st)))
                return lst(e, st, *out)
            e.intrinsics[T.find_method('parse').qual] = parse
            for t in ('tqdm.auto.trange', 'tqdm.trange'):
                e.intrinsics[t] = lambda e, st, args, kw, node: e.x_range(args, {}, st, node)

            def go(e, st):
                cfg = inst(e, st, G, tags=lst(e, st), cats=lst(e, st))
                o = inst(e, st, T, batch_size=I(size), model=inst(e, st, G, config=cfg))
                r = meth(e, o, '__call__', [sentences(e, st, ['ok'] * n, True)], {'verbose': K('suppress')}, st)
                return e.getattr(r, 'sentences', st)

            def chk(e, v, st, path):
                got = [words_of(x, e, st, set()) for x in e.items(v, st, None)]
                return got == [{i} for i in range(n)], f'tagged sentences {got}'
            b.run('tagged', f'{n} sentences, {size} at a time', call.where, e, go, chk)


# ---------------------------------------------------------------- exceptions

def value_of(e, fr, given):
    """Value of a test when the flags are given; None if unknown."""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        v = value_of(e.operand, fr, given)
        return None if v is None else not v
    if isinstance(e, ast.BoolOp):
        vs = [value_of(x, fr, given) for x in e.values]
        stop = isinstance(e.op, ast.Or)
        if stop in vs:
            return stop
        return None if None in vs else not stop
    if isinstance(e, ast.Constant) and isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and isinstance(e.comparators[0].value, bool) \
            and isinstance(e.ops[0], (ast.Is, ast.Eq)):
        v = value_of(e.left, fr, given)
        return None if v is None else v == e.comparators[0].value
    if isinstance(e, ast.Name):
        f = fr
        while f.closure is not None and not f.is_local(e.id):
            f = f.closure
        if f.parent is None and e.id in given and not f.count.get(e.id):
            return given[e.id]
        if e.id in f.binds and not f.count.get(e.id):
            x, f2 = f.binds[e.id]
            return value_of(x, f2, given) if x is not None else None
        if e.id in f.single:
            return value_of(f.single[e.id], f, given)
        # a default that was not overridden
        if f.parent is not None and not f.count.get(e.id):
            a = f.info.node.args
            ps = a.posonlyargs + a.args
            for x, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if x.arg == e.id:
                    return value_of(d, f, given)
    return None


def succ(n, given, exc=True):
    for m, lab in n.succ:
        if lab == 'exc' and not exc:
            continue
        if n.kind == 'test' and lab in ('t', 'f') and n.ast is not None:
            v = value_of(n.ast, n.frame, given)
            if v is not None and v != (lab == 't'):
                continue
        yield m, lab


def reached(start, given, exc=True, stop=()):
    seen, todo = {start.id: start}, [start]
    while todo:
        n = todo.pop()
        if n in stop and n is not start:
            continue
        for m, lab in succ(n, given, exc):
            if m.id not in seen:
                seen[m.id] = m
                todo.append(m)
    return seen


def batch_functions(p):
    """Functions of readers that offer suppression and loop over a batch."""
    R = p.cls('text2diagram.base.Reader')
    out = []
    for C in sorted([R] + list(R.all_subclasses()), key=lambda c: c.name):
        for name, f in sorted(C.methods.items()):
            if FLAG in f.params() + [a.arg for a in f.node.args.kwonlyargs] and not f.is_abstract:
                out.append((C, f))
    return out


def inline_for(C):
    def ok(callee, fr):
        if callee.name in ('sentences2trees', '_sentences2pregrouptrees', 'sentences2diagrams', 'to_diagram', 'from_json', '_build_ccgtree', 'infer_rule'):
            return False
        return small(callee, fr) and callee.cls is not None and (callee.cls in C.mro())
    return ok


def escapes(p, ck):
    for C, f in batch_functions(p):
        g = Graph(p, f, inline_for(C), cls=C)
        given = {FLAG: False}
        live = reached(g.entry, given)
        for n in g.nodes:
            if n.kind != 'except' or n.id not in live:
                continue
            fl = flagged(n.frame)
            if not fl:
                continue
            key = f'{C.name}.{f.name}: handler for {ast.unparse(n.ast.type) if n.ast.type is not None else "everything"}'
            ok = settles(g, n, given)
            if ok:
                ck.ok('swallowed', key, n.where)
            elif ok is None:
                ck.unknown('swallowed', key, n.where, 'whether the exception is raised later is not decided')
            else:
                ck.bad('swallowed', key, n.where, f'{C.name}.{f.name} without suppression: the handler can end normally, which hides the failure')


def flagged(fr):
    """Does the frame's function know about suppression?"""
    while fr is not None:
        if FLAG in fr.info.params() + [a.arg for a in fr.info.node.args.kwonlyargs]:
            return True
        fr = fr.closure
    return False


def settles(g, n, given):
    """Every way on from a handler raises."""
    seen, todo = set(), [m for m, lab in succ(n, given) if n.ast.body and inside(m, n)]
    ok = True
    starts = todo or [m for m, _ in succ(n, given)]
    todo = list(starts)
    while todo:
        m = todo.pop()
        if m.id in seen:
            continue
        seen.add(m.id)
        if m.kind == 'raise' or isinstance(m.ast, ast.Raise):
            continue
        if not inside(m, n):
            # the handler ended: fine if it only remembers the exception for later
            return None if remembers(n) or later_raise(m, given) else False
        for x, lab in succ(m, given):
            if lab != 'exc':
                todo.append(x)
    return ok


def later_raise(m, given):
    """May code after the handler, before the next round, still raise?"""
    seen, todo = set(), [m]
    while todo:
        n = todo.pop()
        if n.id in seen or n.kind == 'iter':
            continue
        seen.add(n.id)
        if n.kind == 'raise' or isinstance(n.ast, ast.Raise):
            return True
        todo += [x for x, lab in succ(n, given) if lab != 'exc']
    return False


def inside(m, n):
    """Is m's code in the body of handler n, or called from it?"""
    fr, a = m.frame, m.ast
    if m.ast is None:
        return False
    if m.frame is n.frame:
        return any(x is m.ast for s in n.ast.body for x in ast.walk(s))
    f = m.frame
    while f is not None and f.parent is not None and f.parent is not n.frame:
        f = f.parent
    return f is not None and f.parent is n.frame


def remembers(n):
    return bool(n.ast.name) and any(isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == n.ast.name for x in ast.walk(s.value)) for s in n.ast.body)


# ---------------------------------------------------------------- handing on

def passed(p, ck):
    """Calls of functions that offer suppression hand the caller's choice on."""
    for C, f in batch_functions(p):
        fr = Frame(f, {}, None, C)
        g = Graph(p, f, lambda c, x: False, cls=C)
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
                continue
            cal = None
            try:
                r = g.callee(n, g.frame, force=True)
                cal = r[0] if r else None
            except Exception:
                cal = None
            if cal is None:
                # attributes such as self.ccg_parser: any reader method of that name
                cands = [c.methods[n.func.attr] for c in [p.cls('text2diagram.base.Reader')] + list(p.cls('text2diagram.base.Reader').all_subclasses()) if n.func.attr in c.methods]
                if not cands or not all(FLAG in c.params() for c in cands):
                    continue
                cal = cands[0]
            ps = cal.params() + [a.arg for a in cal.node.args.kwonlyargs]
            if FLAG not in ps:
                continue
            key = f'{C.name}.{f.name} -> {cal.name}'
            arg = next((k.value for k in n.keywords if k.arg == FLAG), None)
            if arg is None and any(k.arg is None for k in n.keywords):
                ck.unknown('passed', key, f'{f.module.rel}:{n.lineno}', 'arguments handed on with **')
                continue
            off = 0 if cal.is_static else 1
            if arg is None and FLAG in cal.params():
                i = cal.params().index(FLAG) - off
                if 0 <= i < len(n.args) and not any(isinstance(a, ast.Starred) for a in n.args):
                    arg = n.args[i]
            where = f'{f.module.rel}:{n.lineno}'
            if arg is None:
                if caught(f, n):
                    ck.ok('passed', key, where)
                else:
                    ck.bad('passed', key, where, f'{C.name}.{f.name} does not hand {FLAG} on to {cal.name}')
            else:
                v = [value_of(arg, g.frame, {FLAG: t}) for t in (True, False)]
                if v == [True, False]:
                    ck.ok('passed', key, where)
                elif v[1] is True or v[0] is False and not caught(f, n):
                    ck.bad('passed', key, where, f'{C.name}.{f.name} hands {ast.unparse(arg)} on to {cal.name} as {FLAG}')
                else:
                    ck.unknown('passed', key, where, ast.unparse(arg))


def caught(f, call):
    """Is the call in a try statement, which deals with its exceptions?"""
    for t in ast.walk(f.node):
        if isinstance(t, ast.Try) and t.handlers and any(x is call for s in t.body for x in ast.walk(s)):
            return True
    return False
