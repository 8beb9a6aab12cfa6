"""Rule toolkit: analysis of entry points of the current source tree, and the
decision of obligations about the derived value graphs."""
import itertools
import json
import os
import random
import zlib
import sys
import time
import traceback
import warnings

from . import terms as X
from . import evalm
from .evalm import Ev, EvalErr, Cannot, Model, Nd, close
from .run import Machine, ExcV
from .terms import T, tt, TRUE, FALSE
from .values import *  # noqa
from .world import World

warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)

DEBUG = bool(os.environ.get('VG_DEBUG'))


class AnchorGone(Exception):
    """a public name that a property is about does not exist any more"""


class EPath(object):
    def __init__(self, cond, out, state, asserts, effects):
        self.cond = cond
        self.out = out
        self.state = state
        self.asserts = asserts
        self.low = None
        self.effects = effects


class Sess(object):
    """analysis session: modules of the tree plus driver snippets"""

    def __init__(self, src='', hooks=None, config=None, extra=None):
        ex = dict(extra or {})
        ex['drv'] = src
        X.BOX[0] = (config or {}).get('box')
        self.w = World(extra=ex)
        self.I = Machine(self.w, hooks, config)
        self.I.config.pop('grng', None)
        self.I.np.grng()
        for k in sorted(ex):
            if k == 'vfs':
                self.w.module(k)
        self.m = self.w.module('drv')
        for l, e in self.m.failed:
            raise AnchorGone('%s: %s %s' % (l, e.name(), e.eargs))
        for k, v in self.m.ns.items():
            if isinstance(v, Unknown):
                raise Unsupported(v.why)

    # ---- symbolic inputs ----------------------------------------------
    def int(self, name, pos=True):
        t = X.sym(name, 'i')
        if pos:
            X.NONNEG.add(t)
        return t

    def real(self, name):
        return X.sym(name, 'f')

    def str(self, name):
        return X.sym(name, 's')

    def bool(self, name):
        return X.sym(name, 'b')

    def arr(self, name, dims, sort='f', dt=None):
        dims = tuple(tt(d) for d in dims)
        A = X.asym(name, len(dims), sort)
        X.DIMS[A.id] = dims
        return self.I.arr(dims, lambda *ix: X.elem(A, *ix), dt or sort)

    def list(self, items):
        return self.I.newlist(list(items))

    def dict(self, items):
        return self.I.newdict(items)

    def tab(self, vals, dt='i'):
        w = X.iv(len(vals))
        return self.I.new(AV((X.num(len(vals)),), (w,),
                             X.elem(X.tab(vals), w), dt))

    # ---- runs ------------------------------------------------------------
    def fn(self, name):
        if isinstance(name, str):
            return self.m.ns[name]
        return name

    def run(self, name, *args, **kw):
        """every path of a call from the current state; the state is left as
        it was"""
        I = self.I
        f = self.fn(name)
        keep = kw.pop('_keep', False)
        base = I.save()
        nb, ne = len(I.asserts), len(I.effects)
        snap, paths = I.explore(lambda: I.call(f, list(args), dict(kw)))
        out = []
        for p in paths:
            st = p.state if p.state is not None else I.save()
            out.append(EPath(p.cond, p.out, st, st[3][nb:], st[4][ne:]))
        if not (keep and len(out) == 1):
            I.restore(base)
        return out

    def do(self, name, *args, **kw):
        """run with a single normal outcome, keeping the state"""
        ps = self.run(name, *args, _keep=True, **kw)
        if len(ps) != 1 or ps[0].out[0] == 'raise':
            raise Unsupported('setup %s: %s' % (
                name, [p.out for p in ps][:3]))
        return ps[0].out[1]

    def functions(self):
        return sorted(k for k in self.I.analysed
                      if not k.startswith((
                          'drv:', 'sklearn', 'vgpoly', '<vgpoly')))


# ---------------------------------------------------------------------------
def shape(I, v, seen=None):
    """structural form of a value; equal forms mean equal values"""
    seen = seen or {}
    if isinstance(v, T):
        return ('t', v.id)
    if isinstance(v, (bool, int, float, str, bytes)) or v is None:
        return ('t', tt(v).id) if not isinstance(v, bytes) else v
    if isinstance(v, tuple):
        return ('tuple',) + tuple(shape(I, x, seen) for x in v)
    if isinstance(v, (Arr,)):
        c = I.heap[v.cid]
        if isinstance(c, CArrCell):
            return ('oarr', c.shape) + tuple(shape(I, x, seen)
                                             for x in c.vals)
        if isinstance(c, SegCell) and v.whole():
            return ('seg',) + tuple(shape(I, a, seen) for a in c.segs)
        return shape(I, I.read(v), seen)
    if isinstance(v, AV):
        return ('arr', tuple(d.id for d in v.dims), v.term().id,
                v.dt if isinstance(v.dt, str) else repr(v.dt))
    if isinstance(v, Ref):
        if v.id in seen:
            return ('seen', seen[v.id])
        seen = dict(seen)
        seen[v.id] = len(seen)
        c = I.cell(v)
        if isinstance(c, ListC) and c.base is None:
            return ('list',) + tuple(shape(I, x, seen) for x in c.items)
        if isinstance(c, DictC) and c.base is None:
            return ('dict',) + tuple(
                (shape(I, k, seen), shape(I, x, seen)) for k, x in c.items)
        if isinstance(c, DictS):
            return ('dicts', c.term.id)
        if isinstance(c, SetC):
            return ('set',) + tuple(sorted(
                (shape(I, x, seen) for x in c.items), key=repr))
        if isinstance(c, SeqC):
            it = c.item
            if isinstance(it, T) or isinstance(it, (int, float, str)):
                return ('seq', c.n.id, X.lam([c.v], [c.n], tt(it)).id)
            if isinstance(it, Arr):
                a = I.read(it)
                return ('seq', c.n.id, X.lam([c.v], [c.n], a.term()).id)
            raise Cannot('sequence of objects')
        if isinstance(c, Inst):
            return ('inst', c.cls.name if isinstance(c.cls, ClassV)
                    else repr(c.cls)) + tuple(
                (k, shape(I, c.attrs[k], seen)) for k in sorted(c.attrs))
        if isinstance(c, RNGCell):
            return ('rng', tt(c.key).id, tt(c.ctr).id)
        if isinstance(c, SpCell):
            return ('sparse', c.fmt, shape(I, c.av, seen))
        if isinstance(c, IterC):
            return ('iter',) + tuple(shape(I, x, seen)
                                     for x in c.items[c.pos:])
        raise Cannot('value %s' % type(c).__name__)
    if isinstance(v, Opq):
        return ('opq', v.cls, v.term.id)
    if isinstance(v, (Ext, DtypeV)):
        return ('x', repr(v))
    if isinstance(v, (Func, Bound, ClassV)):
        return ('f', repr(v))
    if isinstance(v, ExcV):
        return ('exc', v.exc if isinstance(v.exc, str) else v.exc.name)
    if isinstance(v, (RangeV, DictView)):
        it = I.iterate(v)
        if it[0] == 'list':
            return ('list',) + tuple(shape(I, x, seen) for x in it[1])
    raise Cannot('value %r' % (v,))


def lower(I, v, depth=0):
    """closed form of a value in the current heap"""
    if depth > 12:
        return ('cannot', 'deep value')
    go = lambda x: lower(I, x, depth + 1)
    if isinstance(v, T):
        return ('t', v)
    if isinstance(v, (bool, int, float, str, bytes)) or v is None:
        return ('c', v)
    if isinstance(v, tuple):
        return ('tuple', [go(x) for x in v])
    if isinstance(v, Arr):
        c = I.heap[v.cid]
        if isinstance(c, CArrCell):
            return ('list', [('c', 'oarr')] + [go(x) for x in c.vals])
        if isinstance(c, SegCell) and v.whole():
            return ('segs', [go(a) for a in c.segs])
        return go(I.read(v))
    if isinstance(v, AV):
        if isinstance(v.dt, DtypeV):
            return ('cannot', 'structured array')
        if not v.dims:
            return ('t', v.body)
        return ('arr', v.dims, v.term())
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c, ListC) and c.base is None:
            return ('list', [go(x) for x in c.items])
        if isinstance(c, DictC) and c.base is None:
            return ('dict', [(go(k), go(x)) for k, x in c.items])
        if isinstance(c, DictS):
            return ('t', c.term)
        if isinstance(c, SetC):
            return ('set', [go(x) for x in c.items])
        if isinstance(c, SeqC):
            return ('seq', c.n, c.v, go(c.item))
        if isinstance(c, Inst):
            return ('inst', c.cls.name if isinstance(c.cls, ClassV) else
                    repr(c.cls), [(k, go(x)) for k, x in c.attrs.items()])
        if isinstance(c, RNGCell):
            return ('rng', tt(c.key), tt(c.ctr))
        if isinstance(c, SpCell):
            return ('tuple', [('c', 'sparse'), go(c.av)])
        if isinstance(c, IterC):
            return ('list', [go(x) for x in c.items[c.pos:]])
        return ('cannot', 'value %s' % type(c).__name__)
    if isinstance(v, Opq):
        return ('opq', v.term)
    if isinstance(v, (Ext, DtypeV)):
        return ('c', ('x', repr(v)))
    if isinstance(v, (Func, Bound, ClassV)):
        return ('c', ('f', repr(v)))
    if isinstance(v, (RangeV, DictView)):
        it = I.iterate(v)
        if it[0] == 'list':
            return ('list', [go(x) for x in it[1]])
    return ('cannot', 'value %r' % (v,))


def evaluate(t, ev):
    """the value of a closed form in a model"""
    k = t[0]
    if k == 't':
        return ev.term(t[1])
    if k == 'c':
        return t[1]
    if k == 'cannot':
        raise Cannot(t[1])
    if k == 'tuple':
        return tuple(evaluate(x, ev) for x in t[1])
    if k == 'list':
        return [evaluate(x, ev) for x in t[1]]
    if k == 'segs':
        fl = []
        for a in t[1]:
            x = evaluate(a, ev)
            fl.extend(x.flat)
        return Nd((len(fl),), fl)
    if k == 'arr':
        r = ev.term(t[2])
        # the declared dimensions are authoritative
        ns = tuple(ev.dim(d) for d in t[1])
        if isinstance(r, Nd) and ns == r.shape:
            return r
        if isinstance(r, Nd) and len(ns) != len(r.shape):
            raise Cannot('shape')
        fl = []
        for ix in itertools.product(*[range(n) for n in ns]):
            try:
                fl.append(r.get(ix))
            except EvalErr as e:
                fl.append(e)
        return Nd(ns, fl)
    if k == 'dict':
        return {freeze_key(evaluate(a, ev)): evaluate(b, ev)
                for a, b in t[1]}
    if k == 'set':
        return ('set', frozenset(freeze_key(evaluate(x, ev)) for x in t[1]))
    if k == 'seq':
        n = ev.dim(t[1])
        out = []
        old = ev.env.get(t[2].id)
        try:
            for i in range(n):
                ev.env[t[2].id] = i
                out.append(evaluate(t[3], ev))
        finally:
            if old is None:
                ev.env.pop(t[2].id, None)
            else:
                ev.env[t[2].id] = old
        return out
    if k == 'inst':
        return {'$class': t[1],
                '$attrs': {a: evaluate(x, ev) for a, x in t[2]}}
    if k == 'rng':
        return ('rng', evalm.freeze(ev.term(t[1])), ev.term(t[2]))
    if k == 'opq':
        return ('opq', evalm.freeze(ev.term(t[1])))
    raise Cannot(k)


def value(I, v, ev):
    return evaluate(lower(I, v), ev)


def freeze_key(v):
    return evalm.freeze(v)


def outcome(I, paths, ev, trust=True):
    """what happens in a model: ('ok', value, path) or ('raise', name, loc)"""
    hit = None
    for p in paths:
        try:
            if ev.b(p.cond):
                hit = p
                break
        except EvalErr as e:
            if e.exc == 'NameError':
                return ('raise', 'NameError', None, p)
            # evaluation of a later condition under an earlier failure: an
            # assertion of some path must explain it
            for q in paths:
                r = failing(q, ev)
                if r is not None:
                    return r
            raise Cannot('condition: %s' % e)
    if hit is None:
        raise Cannot('no path')
    r = failing(hit, ev)
    if r is not None:
        return r
    if hit.out[0] == 'raise':
        e = hit.out[1]
        return ('raise', e.name(), e.loc, hit)
    if hit.low is None:
        old = I.heap
        I.heap = hit.state[0]
        try:
            hit.low = lower(I, hit.out[1])
        finally:
            I.heap = old
    try:
        v = evaluate(hit.low, ev)
    except EvalErr as e:
        if e.exc == 'NameError':
            return ('raise', 'NameError', None, hit)
        raise Cannot('value: %s' % e)
    return ('ok', v, None, hit)


def failing(p, ev):
    for (c, exc, loc) in p.asserts:
        try:
            ok = ev.b(c)
        except EvalErr as e:
            if e.exc == 'NameError':
                return ('raise', 'NameError', loc, p)
            continue
        if not ok:
            return ('raise', exc, loc, p)
    return None


def has_err(v):
    if isinstance(v, EvalErr):
        return v
    if isinstance(v, Nd):
        for x in v.flat:
            if isinstance(x, EvalErr):
                return x
        return None
    if isinstance(v, (list, tuple)):
        for x in v:
            r = has_err(x)
            if r:
                return r
        return None
    if isinstance(v, dict):
        for x in v.values():
            r = has_err(x)
            if r:
                return r
    return None


def brief(v, n=400):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


EXC_OK = ('ValueError', 'TypeError', 'KeyError', 'IndexError')


class Frames(object):
    """results of a worker process as they arrive"""

    def __init__(self):
        self.buf = b''
        self.obl, self.viol, self.end = [], [], None

    def feed(self, x):
        import pickle
        self.buf += x
        while len(self.buf) >= 8:
            n = int.from_bytes(self.buf[:8], 'big')
            if len(self.buf) < 8 + n:
                break
            kind, d = pickle.loads(self.buf[8:8 + n])
            self.buf = self.buf[8 + n:]
            if kind == 'end':
                self.end = d
            else:
                getattr(self, kind).append(d)


class Report(object):
    def __init__(self, pid, title, tier='quick', seed=1):
        self.pid = pid
        self.title = title
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obl = []            # (name, status, detail)
        self.viol = []
        self.functions = set()
        self.sites = 0
        self.paths = 0
        self.assume = []
        self.rules = []
        self.nmodels = 40 if tier == 'thorough' else 14
        self.models_used = 0
        self.pipe = None
        self.budget = 3000 if tier == 'thorough' else 420

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assumes(self, text):
        if text not in self.assume:
            self.assume.append(text)

    def send(self, kind, data):
        """report to the parent process, if any"""
        if self.pipe is not None:
            import pickle
            x = pickle.dumps((kind, data))
            self.pipe.write(len(x).to_bytes(8, 'big') + x)
            self.pipe.flush()

    def add(self, name, status, detail=None):
        self.obl.append((name, status, detail))
        self.send('obl', (name, status,
                          None if detail is None else str(detail)[:6000]))
        if DEBUG:
            print('  [%s] %s %s' % (status, name, brief(detail, 3000)
                                    if detail else ''))

    def violation(self, name, where, detail, **kw):
        d = {'obligation': name, 'where': where, 'detail': detail}
        d.update(kw)
        self.viol.append(d)
        self.send('viol', {x: str(y) for x, y in d.items()})
        self.add(name, 'violated', detail)

    def late(self):
        return time.time() - self.t0 > self.budget

    def guard(self, name, fn):
        """run one group of obligations; the analysis giving up is not an
        alarm"""
        if self.late():
            self.add(name, 'undecided', 'time budget')
            return
        try:
            fn()
        except Unsupported as e:
            self.add(name, 'undecided', 'not modelled: %s at %s' % (
                e.msg, e.loc))
        except AnchorGone:
            raise
        except Cannot as e:
            self.add(name, 'undecided', 'cannot: %s' % e)
        except PyRaise as e:
            self.add(name, 'undecided', 'raise %s at %s %s' % (
                e.name(), e.loc, e.eargs))
        except Exception as e:    # noqa
            if DEBUG:
                traceback.print_exc()
            self.add(name, 'undecided', 'analysis: %s: %s %s' % (
                type(e).__name__, e, traceback.format_exc()[-600:]))

    def fan(self, jobs, workers=8):
        """run independent groups of obligations in parallel processes"""
        jobs = list(jobs)
        if os.environ.get('VG_SERIAL') or len(jobs) < 2:
            for j in jobs:
                j()
            return
        import pickle
        import select
        import signal
        limit = 900 if self.tier == 'thorough' else 240
        wait = float(os.environ.get('VG_WAIT', '30'))
        workers = int(os.environ.get('VG_WORKERS', workers))
        found = None
        pend = list(enumerate(jobs))
        run = {}
        done = {}
        sys.stdout.flush()
        sys.stderr.flush()
        while pend or run:
            while pend and len(run) < workers:
                k, j = pend.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        self.obl, self.viol = [], []
                        self.functions = set()
                        self.paths = self.models_used = 0
                        self.rules, self.assume = [], []
                        self.pipe = os.fdopen(w, 'wb')
                        err = None
                        try:
                            self.guard('group %d' % k, j)
                        except AnchorGone as e:
                            err = ('anchor', str(e))
                        except BaseException as e:   # noqa
                            err = ('crash', traceback.format_exc())
                        self.send('end', (
                            self.functions, self.paths, self.models_used,
                            self.rules, self.assume, err))
                        self.pipe.close()
                        sys.stdout.flush()
                    except BaseException:   # noqa
                        code = 3
                    os._exit(code)
                os.close(w)
                run[r] = (pid, Frames(), k, time.time())
            rd, _, _ = select.select(list(run), [], [], 5)
            now = time.time()
            for r in list(run):
                pid, fr, k, t0 = run[r]
                if r in rd or not (
                        now - t0 > limit or found and now - found > wait or
                        now - self.t0 > self.budget + 120):
                    continue
                # this group takes too long: no verdict about it
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del run[r]
                done[k] = fr
                self.add('group %d' % k, 'undecided', 'time limit')
            if found and now - found > wait or \
                    now - self.t0 > self.budget + 120:
                for k, j in pend:
                    self.add('group %d' % k, 'undecided', 'time limit')
                pend = []
            for r in rd:
                x = os.read(r, 1 << 20)
                if x:
                    fr = run[r][1]
                    fr.feed(x)
                    if fr.viol and not found:
                        found = time.time()
                    continue
                pid, fr, k, t0 = run.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                done[k] = fr
                if fr.end is None:
                    self.add('group %d' % k, 'undecided', 'worker died')
        bad = None
        for k in sorted(done):
            fr = done[k]
            self.obl += fr.obl
            self.viol += fr.viol
            for x in fr.obl:
                self.send('obl', x)
            for x in fr.viol:
                self.send('viol', x)
            if fr.end is None:
                continue
            f, p, m, ru, asu, err = fr.end
            self.functions |= f
            self.paths += p
            self.models_used += m
            for x in ru:
                self.rule(x)
            for x in asu:
                self.assumes(x)
            if err and bad is None:
                bad = err
        if bad is not None:
            if bad[0] == 'anchor':
                raise AnchorGone(bad[1])
            raise RuntimeError(bad[1])

    # ------------------------------------------------------------------
    def models(self, gen, n=None, salt=0):
        n = n or self.nmodels
        for k in range(n):
            rng = random.Random(self.seed * 1000003 + k * 7919 + salt)
            r = gen(rng, k)
            if r is None:
                continue
            if isinstance(r, Model):
                yield r
            else:
                yield Model(r)

    def note(self, S, paths):
        self.functions.update(S.functions())
        self.paths += len(paths)

    def same(self, name, S, impl, spec, gen, where='', tol=1e-7, n=None,
             exc=True, args=(), pre=None):
        """the analysed entry behaves as the reference for every input"""
        def go():
            a = S.run(impl, *args)
            b = S.run(spec, *args)
            self.decide(name, S, a, S, b, gen, where, tol, n, exc, pre)
        self.guard(name, go)

    def decide_pair(self, name, S, a, gen, where='', tol=1e-7, n=None,
                    pre=None, may_raise=False):
        """every path returns a pair; both members must be equal"""
        parts = []
        for k in (0, 1):
            out = []
            for p in a:
                if p.out[0] == 'raise':
                    # the driver computes both members, so a call that
                    # raises is a call without the required result
                    out.append(p if k == 0 or may_raise else EPath(
                        p.cond, ('ok', 'a result'), p.state, [],
                        p.effects))
                    continue
                t = p.out[1]
                if not isinstance(t, tuple):
                    raise Cannot('no pair')
                out.append(EPath(p.cond, ('ok', t[k]), p.state,
                                 p.asserts if k == 0 else [], p.effects))
            parts.append(out)
        return self.decide(name, S, parts[0], S, parts[1], gen, where, tol,
                           n, True, pre)

    def decide(self, name, S, a, S2, b, gen, where='', tol=1e-7, n=None,
               exc=True, pre=None):
        self.note(S, a)
        I = S.I
        where = where or name
        # 1. identical value graphs
        if len(a) == 1 and len(b) == 1 and a[0].out[0] == b[0].out[0]:
            try:
                ok = (a[0].cond is b[0].cond or a[0].cond is TRUE)
                if ok and not a[0].asserts:
                    if a[0].out[0] == 'raise':
                        ok = a[0].out[1].name() == b[0].out[1].name()
                    else:
                        old, old2 = I.heap, S2.I.heap
                        try:
                            I.heap = a[0].state[0]
                            x = shape(I, a[0].out[1])
                            S2.I.heap = b[0].state[0]
                            y = shape(S2.I, b[0].out[1])
                        finally:
                            I.heap, S2.I.heap = old, old2
                        ok = x == y
                    if ok:
                        self.add(name, 'proved')
                        return True
            except Cannot:
                pass
        # 2. random interpretation
        used = 0
        why = unsure = None
        for m in self.models(gen, n, zlib.crc32(name.encode('utf8'))):
            if self.late():
                why = 'time budget'
                break
            ev = Ev(m)
            try:
                if pre is not None and not pre(ev):
                    continue
                ob = outcome(S2.I, b, ev)
                opq0 = set(ev.opaque)
                if ob[0] == 'ok' and has_err(ob[1]):
                    raise Cannot('reference: %r' % has_err(ob[1]))
                oa = outcome(I, a, ev)
            except Cannot as e:
                why = str(e)
                continue
            except EvalErr as e:
                why = str(e)
                continue
            self.models_used += 1
            if oa[0] == ob[0]:
                if oa[0] == 'raise':
                    if not exc or oa[1] == ob[1] or \
                            isa(S.I, oa[1], ob[1]):
                        used += 1
                        continue
                elif close(oa[1], ob[1], tol):
                    used += 1
                    continue
                elif has_err(oa[1]) and not ev.undef:
                    e = has_err(oa[1])
                    if e.exc != 'NameError':
                        why = unsure = 'derived: %r' % e
                        continue
            if ev.opaque:
                why = unsure = 'opaque functions %s' % sorted(ev.opaque)
                continue
            if exc == 'any' and ob[0] == 'raise':
                used += 1
                continue
            loc = oa[2] or where
            self.violation(name, loc, 'derived %s; required %s' % (
                show_out(oa), show_out(ob)), model=m.show(),
                entry=where)
            return False
        if used and not unsure:
            self.add(name, 'agrees', 'equal in %d random models' % used)
            return True
        self.add(name, 'undecided', why)
        return None


def isa(I, a, b):
    from .interp import exc_isa
    return exc_isa(a, b)


def show_out(o):
    if o[0] == 'raise':
        return 'raises %s (%s)' % (o[1], o[2])
    return brief(o[1])
