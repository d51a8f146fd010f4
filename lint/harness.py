"""Shared driver code of the E1 checks."""
from __future__ import annotations
import os
from .absint import Raised, Store, Unsupported
from .engine import Engine
from .project import AnalysisBroken, ClassInfo, FuncInfo
from .values import *


class Stop(Exception):
    pass


def leaves(e, v, st, path=()):
    """(value, facts) of every branch of a gated value."""
    v = e.res(v, st)
    if isinstance(v, Ite):
        for c, b, x in ((v.c, True, v.a), (v.c, False, v.b)):
            s2 = st.fork()
            s2 = e.assume(s2, c, b) or s2
            yield from leaves(e, x, s2, path + ((c, b),))
    else:
        yield v, st, path


def is_id_facts(path):
    for c, b in path:
        s = show(c)
        if b and ('is_id' in s) or (not b and ('layers' in s and 'len' not in s)):
            return True
    return False


def ground(v):
    """No unknown inside: a condition over it should have been decided."""
    if isinstance(v, (Sym, Ref, DgV, Spread)):
        return False
    if isinstance(v, (list, tuple)):
        return all(ground(x) for x in v)
    if isinstance(v, App):
        return ground(v.args)
    if isinstance(v, Tup):
        return ground(v.items)
    if isinstance(v, Lin):
        return all(ground(a) for a, _ in v.t)
    if isinstance(v, Ite):
        return ground(v.c) and ground(v.a) and ground(v.b)
    if isinstance(v, TyV):
        return v.length.const is not None
    return True


class Bench:
    """Runs one scenario and files its obligations."""

    def __init__(self, p, ck):
        self.p, self.ck = p, ck

    def engine(self, cat='grammar', tyv=True, dg=True, raw=(), **kw):
        e = Engine(self.p, category=cat, tyv=tyv, dg=dg)
        for r in raw:
            e.intrinsics['raw:' + r] = True
        return e

    def run(self, rule, key, where, e, fn, check, strict=True):
        """fn(e, st) -> value; check(e, v, st) -> (ok, msg).  Files one
        obligation for the result plus one per primitive use inside."""
        st = Store()
        try:
            v = fn(e, st)
        except Raised as x:
            self.ck.functions |= e.analysed
            self.ck.add(rule, key, False if strict else None, x.where or where,
                        f'raises {show(x.exc) if isinstance(x.exc, V) else x.exc} on admissible input')
            return None
        except Exception as x:
            if not isinstance(x, (Unsupported, RecursionError)) and os.environ.get('LINT_STRICT'):
                raise
            self.ck.functions |= e.analysed
            self.ck.unknown(rule, key, where, f'not analysable: {x}')
            return None
        self.ck.functions |= e.analysed
        bad = [o for o in e.obls if o.ok is False]
        unk = [o for o in e.obls if o.ok is None]
        if bad:
            o = bad[0]
            self.ck.add(rule, key, False if strict else None, o.where, f'{o.kind}: {o.msg}', o.ctx)
            return v
        try:
            oks = []
            for leaf, s2, path in leaves(e, v, st):
                ok, msg = check(e, leaf, s2, path)
                if ok is False and any(ground(c) for c, _ in path):
                    ok = None
                oks.append((ok, msg))
        except Exception as x:
            if not isinstance(x, (Unsupported, Raised)) and os.environ.get('LINT_STRICT'):
                raise
            self.ck.unknown(rule, key, where, f'not analysable: {x}')
            return v
        f = [m for ok, m in oks if ok is False]
        u = [m for ok, m in oks if ok is None]
        if f:
            self.ck.add(rule, key, False if strict else None, where, f[0])
        elif u or unk:
            self.ck.unknown(rule, key, where, u[0] if u else repr(unk[0]))
        else:
            self.ck.ok(rule, key, where, oks[0][1] if oks else '')
        return v

    def boundary(self, rule, key, where, e, fn, dom, cod, strict=True, need=True):
        def chk(e, v, st, path):
            d = e.as_dg(v, st, None)
            if d is None:
                return None, f'result {show(v)} has no known boundary'
            a, b = d.dom, d.cod
            msg = f'{show(a)} -> {show(b)}'
            if a == dom and b == cod:
                return True, msg
            if has_opaque_ty(a) or has_opaque_ty(b):
                return None, msg
            if path and is_id_facts(path):
                if a.f == b.f or True:
                    return (None if not (a in (dom, cod) and b in (dom, cod)) else True), msg
            return False, f'gives {msg}, expected {show(dom)} -> {show(cod)}'
        return self.run(rule, key, where, e, fn, chk, strict)


def meth(e, recv, name, args, kw, st):
    return e.call(e.getattr(recv, name, st, None), list(args), dict(kw), st, None)


def attempt(e, st, fn):
    """(True, value) or (False, exception): run fn, resuming after an exception with the state it left."""
    g, n, k, w = st.guards, len(e.stack), len(e.cond_raises), len(e.where_stack)
    c = len(e.cond_raises[-1])
    try:
        v = fn()
    except Raised as r:
        del e.stack[n:], e.cond_raises[k:], e.where_stack[w:]
        if r.store is not None and r.store is not st:
            st.become(r.store)
        st.guards, st.live = g, True
        if len(e.cond_raises[-1]) > c:
            raise Unsupported('conditional exception')
        return False, r
    if len(e.cond_raises[-1]) > c:
        raise Unsupported('conditional exception')
    return True, v


def fork_map(ck, jobs, deadline=780):
    """Run jobs (label, function) in parallel processes; what they file in `ck` is merged in job order.
    A job that does not finish in time is filed as undecided."""
    import pickle
    import selectors
    import signal
    import time
    n = min(len(os.sched_getaffinity(0)), 8)
    end = ck.t0 + deadline
    out, todo, live = {}, list(enumerate(jobs)), {}
    sel = selectors.DefaultSelector()
    while todo or live:
        while todo and len(live) < n:
            i, (label, fn) = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    ck.rows, ck.functions, ck.seen = [], set(), set()
                    try:
                        val = fn()
                    except AnalysisBroken as x:
                        val = x
                    data = pickle.dumps((ck.rows, ck.functions, ck.seen, ck.notes, val if isinstance(val, AnalysisBroken) else None))
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                    code = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = [i, pid, label, []]
            sel.register(r, selectors.EVENT_READ)
        for key, _ in sel.select(timeout=1):
            r = key.fd
            b = os.read(r, 1 << 20)
            if b:
                live[r][3].append(b)
                continue
            i, pid, label, buf = live.pop(r)
            sel.unregister(r)
            os.close(r)
            os.waitpid(pid, 0)
            out[i] = b''.join(buf)
        if time.time() > end:
            for r, (i, pid, label, buf) in live.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                out[i] = None
            break
    for i, (label, _) in enumerate(jobs):
        data = out.get(i)
        if data:
            rows, fns, seen, notes, err = pickle.loads(data)
            if err is not None:
                raise err
            ck.rows += rows
            ck.functions |= fns
            ck.seen |= seen
            ck.notes += [x for x in notes if x not in ck.notes]
        elif data is None:
            ck.unknown('time', str(label), '', 'not finished in time')
        else:
            raise AnalysisBroken(f'{label}: internal error')
