"""Abstract interpreter: derives the value graph of every output of an entry
point from the syntax tree of the analysed program.

Data sizes, array contents and numbers stay symbolic; control flow that only
depends on the configuration is followed exactly, symbolic branches are joined
with conditional values, symbolic loops are analysed once per loop body and
summarised (last values, sums, indexed stores, built sequences, or a recurrence
term).
"""
import ast
import math
from fractions import Fraction

from . import terms as X
from .terms import (T, tt, num, iv, subst, numval, elem, ite, and_, or_, not_,
                    eq, lt, le, add, sub, mul, div, app, ZERO, ONE, TRUE,
                    FALSE, mk, ops_in, replace)
from .values import *  # noqa

MAXPATHS = 200
MAXUNROLL = 400


class Return_(Exception):
    def __init__(self, value):
        self.value = value


class Break_(Exception):
    pass


class Continue_(Exception):
    pass


class NoMerge(Exception):
    pass


class Poison(object):
    """value that a loop may have changed in a way not summarised"""
    def __init__(self, why):
        self.why = why


class Frame(object):
    def __init__(self, env, func, module):
        self.env = env
        self.func = func
        self.module = module
        self.globals_decl = set()
        self.yields = None


class Oracle(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.alts = []


class Path(object):
    __slots__ = ('pcs', 'out', 'state')

    def __init__(self, pcs, out, state):
        self.pcs = pcs
        self.out = out
        self.state = state

    @property
    def cond(self):
        return and_(*self.pcs)


class Effect(object):
    def __init__(self, kind, loc, data, pc=TRUE, func=None):
        self.kind = kind
        self.loc = loc
        self.data = data
        self.pc = pc
        self.func = func

    def __repr__(self):
        return '<%s at %s %r>' % (self.kind, self.loc, self.data)


EXC_PARENT = {
    'KeyError': 'LookupError', 'IndexError': 'LookupError',
    'LookupError': 'Exception', 'ValueError': 'Exception',
    'TypeError': 'Exception', 'AttributeError': 'Exception',
    'NameError': 'Exception', 'UnboundLocalError': 'NameError',
    'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
    'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'IOError': 'Exception', 'OSError': 'Exception', 'AssertionError':
    'Exception', 'StopIteration': 'Exception', 'ImportError': 'Exception',
    'UnicodeDecodeError': 'ValueError', 'OverflowError': 'ArithmeticError',
    'FloatingPointError': 'ArithmeticError', 'MemoryError': 'Exception',
    'Exception': 'BaseException', 'Warning': 'Exception',
    'UserWarning': 'Warning', 'DeprecationWarning': 'Warning',
    'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'FileNotFoundError': 'OSError', 'NotFittedError': 'ValueError',
    'EOFError': 'Exception', 'ModuleNotFoundError': 'ImportError',
}
BUILTINS = {
    'len', 'range', 'xrange', 'enumerate', 'zip', 'sorted', 'isinstance',
    'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'max',
    'min', 'sum', 'abs', 'any', 'all', 'print', 'iter', 'next', 'super',
    'type', 'getattr', 'setattr', 'hasattr', 'map', 'filter', 'reversed',
    'round', 'open', 'object', 'vars', 'repr', 'callable', 'id', 'bytes',
    'issubclass', 'staticmethod', 'classmethod', 'property', 'complex',
    'frozenset', 'slice', 'divmod', 'pow', 'hash', 'delattr', 'unicode',
    'input', 'ord', 'chr', 'format', 'globals', 'locals', 'memoryview',
    'bytearray', 'dir', 'eval', 'exec', 'compile', '__import__',
} | set(EXC_PARENT) | {'BaseException'}


def exc_isa(name, target):
    while name is not None:
        if name == target:
            return True
        if name in ('IOError', 'OSError') and target in ('IOError',
                                                         'OSError'):
            return True
        name = EXC_PARENT.get(name)
    return False


def is_num(x):
    return isinstance(x, (int, float, bool)) or (
        isinstance(x, T) and x.sort in 'ifb')


def is_scalar(x):
    return isinstance(x, (int, float, bool, str, bytes)) or \
        isinstance(x, T) or x is None


def fix(t):
    """constants go back to python values"""
    if isinstance(t, T):
        if t.op == 'num' and t.args[0].denominator == 1:
            return int(t.args[0])
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.op == 'str':
            return t.args[0]
        if t.op == 'none':
            return None
        if t.op == 'fconst':
            return float(t.args[0])
    return t


def const(x):
    """python number/bool of a constant, else None"""
    if isinstance(x, (bool, int, float)):
        return x
    if isinstance(x, T):
        return numval(x)
    return None


class Interp(object):
    def __init__(self, world, hooks=None, config=None):
        self.world = world
        self.hooks = hooks or {}
        self.config = config or {}
        self.heap = {}
        self.frames = []
        self.pc = []
        self.asserts = []
        self.effects = []
        self.oracles = []
        self.handlers = []
        self.nid = 1
        self.loc = '?'
        self.active = {}
        self.loops_of = {}
        self.analysed = {}
        self.calls = 0
        self.depth = 0
        self.facts = {}
        self.steps = 0
        self.nbranch = 0
        self.nloop = 0
        from . import npmodel
        self.np = npmodel.NP(self)
        world.interp = self

    # ==================================================================
    # state
    def save(self):
        return (dict(self.heap), [(f, dict(f.env)) for f in self.frames],
                list(self.pc), list(self.asserts), list(self.effects))

    def restore(self, s):
        self.heap = dict(s[0])
        self.frames[:] = [f for f, e in s[1]]
        for f, e in s[1]:
            f.env.clear()
            f.env.update(e)
        self.pc = list(s[2])
        self.asserts = list(s[3])
        self.effects = list(s[4])

    def alloc(self, cell):
        i = self.nid
        self.nid += 1
        self.heap[i] = cell
        return i

    def ref(self, cell):
        return Ref(self.alloc(cell))

    def new(self, av):
        return Arr(self.alloc(ArrCell(self.boxed(av))))

    @staticmethod
    def boxed(av):
        if X.BOX[0] and av.dims and isinstance(av.dt, str) and \
                av.body.op != 'elem' and X.heavy(av.body, X.BOX[0]):
            L = av.term()
            if L.op == 'lam':
                B = X.box(L)
                av = AV(av.dims, av.ivs, X.elem(B, *av.ivs), av.dt, av.mat)
        return av

    def arr(self, dims, f, dt, mat=False):
        return self.new(mkav(dims, f, dt, mat))

    def newlist(self, items):
        return self.ref(ListC(items))

    def newdict(self, items):
        return self.ref(DictC(list(items.items()) if isinstance(items, dict)
                              else items))

    def cell(self, r):
        return self.heap[r.id if isinstance(r, Ref) else r.cid]

    def effect(self, kind, data):
        f = self.frames[-1].func if self.frames else None
        self.effects.append(Effect(kind, self.loc, data,
                                   and_(*self.pc), f))

    def unsup(self, msg):
        raise Unsupported(msg, self.loc)

    def raise_(self, exc, *args, **kw):
        raise PyRaise(exc, args, self.loc, kw.get('implicit', True))

    # ---- path conditions ----------------------------------------------
    def known(self, c):
        """simplify a boolean under the path condition"""
        c = tt(c)
        if c is TRUE or c is FALSE:
            return c
        f = {}
        for p in self.pc:
            for q in (p.args[0] if p.op == 'and' else (p,)):
                f[q.id] = True
        if c.id in f:
            return TRUE
        if not_(c).id in f:
            return FALSE
        if c.op == 'and':
            return and_(*[self.known(x) for x in c.args[0]])
        if c.op == 'or':
            r = [self.known(x) for x in c.args[0]]
            return or_(*r)
        if c.op == 'not':
            return not_(self.known(c.args[0]))
        return c

    def decide(self, c):
        """truth of a condition; explores both when it is symbolic"""
        if isinstance(c, bool):
            return c
        c = self.known(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if not self.oracles:
            self.unsup('symbolic branch outside of an exploration')
        o = self.oracles[-1]
        k = len(o.taken)
        if k < len(o.prefix):
            ch = o.prefix[k]
        else:
            ch = True
            o.alts.append(o.taken + [False])
        o.taken.append(ch)
        self.pc.append(c if ch else not_(c))
        self.nbranch += 1
        return ch

    def explore(self, fn):
        """all paths of fn from the current state"""
        snap = self.save()
        nh = list(self.handlers)
        depth = self.depth
        act = dict(self.active)
        work = [[]]
        paths = []
        base = len(self.pc)
        first = True
        while work:
            prefix = work.pop()
            if not first:
                self.restore(snap)
            self.handlers = list(nh)
            self.depth = depth
            self.active = dict(act)
            o = Oracle(prefix)
            self.oracles.append(o)
            try:
                try:
                    out = ('normal', fn())
                except Return_ as e:
                    out = ('return', e.value)
                except Break_:
                    out = ('break', None)
                except Continue_:
                    out = ('continue', None)
                except PyRaise as e:
                    out = ('raise', e)
            finally:
                self.oracles.pop()
            # frames entered by fn are left
            del self.frames[len(snap[1]):]
            if first and not o.alts:
                return snap, [Path(self.pc[base:], out, None)]
            first = False
            paths.append(Path(self.pc[base:], out, self.save()))
            work.extend(o.alts)
            if len(paths) > MAXPATHS:
                self.unsup('too many paths')
        return snap, paths

    def branch(self, fn):
        """run fn; its paths are joined where possible; outcomes other than
        normal completion are re-raised"""
        snap, paths = self.explore(fn)
        return self.join(snap, paths)

    def join(self, snap, paths):
        if len(paths) == 1:
            p = paths[0]
            if p.state is not None:
                self.restore(p.state)
            return self.finish(p.out)
        groups = {}
        for p in paths:
            k = p.out[0]
            if k == 'raise':
                k = ('raise', p.out[1].name())
            if k == 'continue':
                pass
            groups.setdefault(k, []).append(p)
        alts = []
        for k, ps in groups.items():
            alts.extend(self.try_merge(snap, ps))
        if len(alts) > 1:
            # raise alternatives are decided first
            alts.sort(key=lambda a: 0 if a[2][0] == 'raise' else 1)
        self.restore(snap)
        for i, (cond, state, out) in enumerate(alts):
            if i == len(alts) - 1 or self.decide(cond):
                pc = list(self.pc)
                self.restore(state)
                self.pc = pc
                if i == len(alts) - 1 and len(alts) == 1 and \
                        cond is not TRUE:
                    self.pc.append(cond)
                return self.finish(out)

    def finish(self, out):
        if out[0] == 'normal':
            return out[1]
        if out[0] == 'return':
            raise Return_(out[1])
        if out[0] == 'break':
            raise Break_()
        if out[0] == 'continue':
            raise Continue_()
        raise out[1]

    def try_merge(self, snap, ps):
        """[(cond, state, out)] with as few alternatives as possible"""
        if len(ps) == 1:
            return [(ps[0].cond, ps[0].state, ps[0].out)]
        try:
            return [self.merge(snap, ps)]
        except NoMerge:
            # merge pairwise what can be merged
            out = [ps[0]]
            res = []
            cur = [ps[0]]
            for p in ps[1:]:
                try:
                    self.merge(snap, cur + [p])
                    cur.append(p)
                except NoMerge:
                    res.append(cur)
                    cur = [p]
            res.append(cur)
            r = []
            for c in res:
                if len(c) == 1:
                    r.append((c[0].cond, c[0].state, c[0].out))
                else:
                    r.append(self.merge(snap, c))
            return r

    def merge(self, snap, ps):
        conds = [p.cond for p in ps]
        base = snap[0]
        self._mheap = {}
        heaps = [p.state[0] for p in ps]
        for h in heaps:
            for k, c in h.items():
                if k not in base:
                    self._mheap[k] = c
        nfr = len(snap[1])
        frames = []
        for i in range(nfr):
            f = snap[1][i][0]
            envs = [p.state[1][i][1] for p in ps]
            names = []
            for e in envs:
                for n in e:
                    if n not in names:
                        names.append(n)
            env = {}
            for n in names:
                vs = [e.get(n, UNDEF) for e in envs]
                env[n] = self.merge_env(conds, vs, heaps, base)
            frames.append((f, env))
        heap = dict(base)
        for k in base:
            cs = [h[k] for h in heaps]
            c0 = cs[0]
            if all(c is c0 for c in cs[1:]):
                heap[k] = c0
                continue
            heap[k] = self.merge_cells(conds, cs, heaps, base)
        val = None
        kind = ps[0].out[0]
        if kind in ('normal', 'return'):
            val = self.merge_values(conds, [p.out[1] for p in ps], heaps,
                                    base)
        elif kind == 'raise':
            val = ps[0].out[1]
        heap.update(self._mheap)
        nb = len(snap[3])
        asserts = list(snap[3])
        for p, c in zip(ps, conds):
            for (a, e, l) in p.state[3][nb:]:
                asserts.append((or_(not_(c), a), e, l))
        ne = len(snap[4])
        effects = list(snap[4])
        for p in ps:
            effects.extend(p.state[4][ne:])
        state = (heap, frames, list(snap[2]), asserts, effects)
        return (or_(*conds), state, (kind, val))

    softmerge = False

    def merge_env(self, conds, vs, heaps, base):
        if any(v is UNDEF for v in vs):
            if all(v is UNDEF for v in vs):
                return UNDEF
            # unbound on some path
            d = [v for v in vs if v is not UNDEF]
            if all(is_num(v) for v in d):
                vs = [mk('unbound', sort=tt(d[0]).sort) if v is UNDEF else v
                      for v in vs]
                return self.merge_values(conds, vs, heaps, base)
            return Poison('bound on some paths only')
        try:
            return self.merge_values(conds, vs, heaps, base)
        except NoMerge:
            if self.softmerge:
                # the paths of a loop body are joined whatever happens
                return Poison('values of different kinds')
            raise

    def merge_values(self, conds, vs, heaps, base):
        v0 = vs[0]
        if all(v is v0 for v in vs[1:]):
            return v0
        if all(type(v) is type(v0) for v in vs) and \
                isinstance(v0, (bool, int, float, str, Ext, Ref, Arr, Bound,
                                DtypeV, Opq)):
            if all(v == v0 for v in vs[1:]):
                return v0
        if any(isinstance(v, Poison) for v in vs):
            return Poison('on some path')
        if all(is_num(v) for v in vs) or all(
                isinstance(v, str) or (isinstance(v, T) and v.sort == 's')
                for v in vs):
            r = tt(vs[-1])
            for c, v in zip(reversed(conds[:-1]), reversed(vs[:-1])):
                r = ite(c, tt(v), r)
            return fix(r)
        if all(isinstance(v, tuple) for v in vs) and \
                len(set(len(v) for v in vs)) == 1:
            return tuple(self.merge_values(conds, list(x), heaps, base)
                         for x in zip(*vs))
        if all(isinstance(v, Arr) for v in vs):
            avs = []
            for v, h in zip(vs, heaps):
                if v.cid in base and not (v.view is None and False):
                    raise NoMerge()
                if isinstance(h[v.cid], CArrCell):
                    cs = [g[w.cid] for w, g in zip(vs, heaps)]
                    if any(not isinstance(c, CArrCell) or c.shape !=
                           cs[0].shape for c in cs) or any(
                               w.view is not None for w in vs):
                        raise NoMerge()
                    return Arr(self._madd(self.merge_cells(
                        conds, cs, heaps, base)))
                avs.append(self.read_in(v, h))
            return Arr(self._madd(ArrCell(self.merge_av(conds, avs))))
        if all(isinstance(v, Ref) for v in vs):
            if any(v.id in base for v in vs):
                raise NoMerge()
            cs = [h[v.id] for v, h in zip(vs, heaps)]
            return Ref(self._madd(self.merge_cells(conds, cs, heaps, base)))
        raise NoMerge()

    def _madd(self, cell):
        i = self.nid
        self.nid += 1
        self._mheap[i] = cell
        return i

    def read_in(self, a, heap):
        old = self.heap
        self.heap = heap
        try:
            return self.read(a)
        finally:
            self.heap = old

    def merge_av(self, conds, avs):
        a0 = avs[0]
        for a in avs[1:]:
            if a.dims != a0.dims or a.mat != a0.mat or \
                    (a.dt != a0.dt and not (a.dt in 'ifb' and
                                            a0.dt in 'ifb')):
                raise NoMerge()
        dt = a0.dt
        for a in avs:
            dt = join_dt(dt, a.dt)
        r = avs[-1].at(*a0.ivs)
        for c, a in zip(reversed(conds[:-1]), reversed(avs[:-1])):
            r = ite(c, a.at(*a0.ivs), r)
        return AV(a0.dims, a0.ivs, r, dt, a0.mat)

    def merge_cells(self, conds, cs, heaps, base):
        c0 = cs[0]
        t = type(c0)
        if any(type(c) is not t for c in cs):
            raise NoMerge()
        mv = lambda vs: self.merge_values(conds, vs, heaps, base)  # noqa
        if t is ArrCell:
            return ArrCell(self.merge_av(conds, [c.av for c in cs]))
        if t is SegCell:
            if len(set(len(c.segs) for c in cs)) != 1:
                raise NoMerge()
            return SegCell([self.merge_av(conds, list(x))
                            for x in zip(*[c.segs for c in cs])])
        if t is CArrCell:
            if any(c.shape != c0.shape for c in cs):
                raise NoMerge()
            return CArrCell(c0.shape, [mv(list(x)) for x in
                                       zip(*[c.vals for c in cs])])
        if t is ListC:
            if len(set(len(c.items) for c in cs)) != 1 or \
                    any(c.base is not c0.base for c in cs):
                raise NoMerge()
            return ListC([mv(list(x)) for x in zip(*[c.items for c in cs])],
                         c0.base)
        if t is DictC:
            ks = [k for k, v in c0.items]
            for c in cs[1:]:
                if [k for k, v in c.items] != ks or c.base is not c0.base:
                    raise NoMerge()
            return DictC([(k, mv([c.items[i][1] for c in cs]))
                          for i, k in enumerate(ks)], c0.base)
        if t is Inst:
            if any(c.cls is not c0.cls for c in cs):
                raise NoMerge()
            ks = list(c0.attrs)
            if any(set(c.attrs) != set(ks) for c in cs):
                raise NoMerge()
            return Inst(c0.cls, {k: mv([c.attrs[k] for c in cs])
                                 for k in ks})
        if t is RNGCell:
            return RNGCell(mv([c.key for c in cs]), mv([c.ctr for c in cs]))
        if t is DictS:
            if all(c.term is c0.term for c in cs):
                return c0
        raise NoMerge()

    # ==================================================================
    # conditions under which an operation is defined
    def partial(self, cond, exc, msg=''):
        cond = self.known(cond)
        if cond is TRUE:
            return
        if cond is FALSE:
            self.raise_(exc, msg)
        for hs in self.handlers:
            if any(exc_isa(exc, h) for h in hs):
                closed = self.close(cond)
                if not self.decide(closed):
                    self.raise_(exc, msg)
                return
        c = or_(not_(and_(*self.pc)), self.close(cond))
        if c is not TRUE:
            self.asserts.append((c, exc, self.loc + ': ' + msg))

    def close(self, cond):
        """universally quantify over array indexes"""
        for i in sorted(cond.fv):
            if i in self.active:
                continue
            d = X.IVDIM.get(i)
            if d is None:
                continue
            v = ivterm(cond, i)
            cond = X.all_(v, d, cond)
        return cond

    # ---- ranges of integer terms ----------------------------------------
    def upper(self, e):
        """an exclusive upper bound of an index term, if one is known; only
        for terms known to be non-negative"""
        op = e.op
        if op == 'iv':
            return X.IVDIM.get(e.id)
        if op == 'num':
            return add(e, ONE) if e.args[0] >= 0 else None
        if op == 'elem':
            A = e.args[0]
            r = X_RANGE.get(A.id)
            if r is not None:
                if callable(r):
                    return r(e.args[1])
                return r
            if A.op == 'sel':
                return X.dims_of(A.args[0])[0]
            if A.op == 'draw' and A.args[2] in ('permutation', 'shuffle'):
                return A.args[3][0]
            if A.op in ('uniq', 'sortv'):
                r = X_RANGE.get(A.args[0].id)
                if r is not None and not callable(r):
                    return r
                L = A.args[0]
                if L.op == 'lam':
                    return self.upper(open_lam(L))
            if A.op == 'argsort':
                d = X.dims_of(A.args[0])
                return d[0] if d else None
            if A.op == 'uniqrow' and A.args[0].op == 'lam':
                L = A.args[0]
                c = e.args[1][1]
                vs = [iv(d) for d in L.args[1]]
                m = {X.bv(l).id: v for l, v in zip(L.args[0], vs)}
                m[X.bv(L.args[0][1]).id] = c
                return self.upper(subst(L.args[2], m))
        if op == 'dget' and e.args[0].op == 'dmap':
            D = e.args[0]
            v = iv(D.args[1])
            return self.upper(subst(D.args[3], {X.bv(D.args[0]).id: v}))
        if op == 'rank':
            d = X.DIMS.get(X.sel(e.args[0]).id)
            return None if d is None else d[0]
        if op == 'pos':
            d = X.dims_of(e.args[0])
            return d[0] if d else None
        if op == 'lastw':
            w = iv(e.args[1])
            a = self.upper(subst(e.args[3], {X.bv(e.args[0]).id: w}))
            b = self.upper(e.args[4])
            if a is None or b is None:
                return None
            if a is b or X.nonneg(sub(b, a)):
                return b
            if X.nonneg(sub(a, b)):
                return a
            return None
        if op == 'ite':
            a = self.upper(e.args[1])
            b = self.upper(e.args[2])
            if a is None or b is None:
                return None
            if a is b:
                return a
            if X.nonneg(sub(a, b)):
                return a
            if X.nonneg(sub(b, a)):
                return b
            return None
        if e.sort == 'i' and X.nonneg(e):
            return add(e, ONE)
        return None

    def nidx(self, e, dim, shape=()):
        """index normalised to be non-negative; bounds are obligations"""
        e = tt(e)
        if any(numval(d) == 0 for d in shape):
            return e        # no index at all
        dim = tt(dim)
        k = numval(e)
        if e.sort == 'f' and k is None:
            self.raise_('IndexError', 'float index')
        if e.sort == 'b':
            self.unsup('boolean scalar index')
        if k is not None:
            if isinstance(k, float) and k != int(k):
                self.raise_('IndexError', 'float index')
            if k < 0:
                e = add(e, dim)
                self.partial(le(ZERO, e), 'IndexError',
                             'index %s out of range' % k)
                return e
            if not X.nonneg(sub(sub(dim, e), ONE)):
                self.partial(lt(e, dim), 'IndexError',
                             'index %s out of range' % k)
            return e
        u = self.upper(e)
        if u is not None:
            if u is not dim and not X.nonneg(sub(dim, u)):
                self.partial(lt(e, dim), 'IndexError', 'index out of range')
            return e
        f = ite(lt(e, ZERO), add(e, dim), e)
        self.partial(and_(le(ZERO, f), lt(f, dim)), 'IndexError',
                     'index out of range')
        return f

    # ==================================================================
    # arrays
    def read(self, a):
        """AV of an array reference"""
        c = self.heap[a.cid]
        if isinstance(c, SegCell):
            base = self.flat(c) if a.seg is None else c.segs[a.seg]
        elif isinstance(c, ArrCell):
            base = c.av
        elif isinstance(c, CArrCell):
            vals = c.vals
            if not all(is_scalar(v) for v in vals):
                self.unsup('object array used as numbers')
            if len(c.shape) == 1:
                t = X.tab([tt(v) for v in vals]) if vals else None
                v = iv(c.shape[0])
                base = AV((num(c.shape[0]),), (v,),
                          elem(t, v) if t is not None else ZERO,
                          t.sort if t is not None else 'o')
            else:
                self.unsup('object array of several dimensions')
        else:
            self.unsup('array expected')
        if a.fld is not None:
            base = fieldof(base, a.fld)
        if a.view is not None:
            w = a.view
            return AV(w.dims, w.ivs, base.at(*w.idx), base.dt, base.mat)
        return base

    def flat(self, c):
        """flat array of segments"""
        offs = [ZERO]
        for s in c.segs:
            n = ONE
            for d in s.dims:
                n = mul(n, d)
            offs.append(add(offs[-1], n))
        v = iv(offs[-1])
        body = None
        for k in reversed(range(len(c.segs))):
            s = c.segs[k]
            r = sub(v, offs[k])
            idx = []
            for j in range(len(s.dims)):
                inner = ONE
                for d in s.dims[j + 1:]:
                    inner = mul(inner, d)
                q = r if numval(inner) == 1 else app('floordiv', r, inner)
                if j > 0:
                    q = app('mod', q, s.dims[j])
                idx.append(q)
            b = s.at(*idx)
            body = b if body is None else ite(lt(v, offs[k + 1]), b, body)
        return AV((offs[-1],), (v,), body, 'f')

    def seg(self, c, layout):
        """split a flat array into segments with the given dimensions"""
        if isinstance(c, SegCell):
            if len(c.segs) == len(layout) and all(
                    tuple(s.dims) == tuple(l)
                    for s, l in zip(c.segs, layout)):
                return c
            av = self.flat(c)
        else:
            av = c.av
        tot = ZERO
        segs = []
        for dims in layout:
            off = tot
            n = ONE
            for d in dims:
                n = mul(n, d)

            def f(*ix):
                p = ZERO
                for i, d in zip(ix, dims):
                    p = add(mul(p, d), i)
                return av.at(add(off, p))
            segs.append(mkav(dims, f, av.dt))
            tot = add(tot, n)
        self.partial(eq(av.dims[0], tot), 'ValueError',
                     'size of the array does not match the dtype')
        return SegCell(segs)

    def dims(self, a):
        return self.read(a).dims

    def cast(self, body, dt):
        nw = getattr(dt, 'narrow', None)
        if nw is not None:
            return app('narrow:' + nw, self.cast(body, str(dt)),
                       sort=str(dt))
        body = tt(body)
        if dt == 'i' and body.sort == 'f':
            return app('trunc', body)
        if dt == 'b' and body.sort != 'b':
            return X.truth(body)
        if dt == 's' and body.sort in 'ifb':
            return app('str', body)
        if dt in 'if' and body.sort == 's':
            return app('tonum', body, sort=dt)
        return body

    def write(self, a, f):
        """replace the content of an array reference: f(indexes) -> body"""
        c = self.heap[a.cid]
        if isinstance(c, CArrCell):
            if a.view is not None:
                self.unsup('write through a view of an object array')
            if len(c.shape) == 1:
                self.heap[a.cid] = CArrCell(
                    c.shape, [fix(f(num(i))) for i in range(c.shape[0])])
                return
            self.unsup('object array')
        if isinstance(c, SegCell) and a.seg is None:
            if a.view is None:
                fl = self.flat(c)
                nb = AV(fl.dims, fl.ivs, self.cast(f(*fl.ivs), 'f'), 'f')
                self.heap[a.cid] = self.seg(ArrCell(nb),
                                            [s.dims for s in c.segs])
                return
            fl = self.flat(c)
            n = self.through(fl, a.view, f)
            self.heap[a.cid] = self.seg(ArrCell(n),
                                        [s.dims for s in c.segs])
            return
        base = c.segs[a.seg] if isinstance(c, SegCell) else c.av
        if a.fld is not None:
            self.unsup('write to a field')
        if a.view is None:
            vs = [iv(d) for d in base.dims]
            n = AV(base.dims, vs, self.cast(f(*vs), base.dt), base.dt,
                   base.mat)
        else:
            n = self.through(base, a.view, f)
        n = canon(n)
        if isinstance(c, SegCell):
            segs = list(c.segs)
            segs[a.seg] = n
            self.heap[a.cid] = SegCell(segs)
        else:
            if X.BOX[0] and a.view is None and not (
                    base.body.op == 'elem' and
                    base.body.args[0].op == 'phi'):
                n = self.boxed(n)
            self.heap[a.cid] = ArrCell(n)

    def through(self, base, w, f):
        """content of base after the view w of it gets f"""
        ps = [iv(d) for d in base.dims]
        conds = []
        m = {}
        for p, d, e in zip(ps, base.dims, w.idx):
            used = [v for v in w.ivs if v.id in e.fv]
            if not used:
                conds.append(eq(p, e))
                continue
            if len(used) > 1:
                self.unsup('write through a complicated view')
            v = used[0]
            if e is v:
                m[v.id] = p
                if w.dims[w.ivs.index(v)] is not d:
                    conds.append(lt(p, w.dims[w.ivs.index(v)]))
                continue
            k = sub(e, v)
            if v.id not in k.fv:       # v + start
                m[v.id] = sub(p, k)
                conds.append(le(k, p))
                conds.append(lt(p, add(k, w.dims[w.ivs.index(v)])))
                continue
            pl = X.to_poly(e)
            c = None
            for mo, co in pl.items():
                if len(mo) == 1 and mo[0][0] is v and mo[0][1] == 1:
                    c = co
            if c is None or c.denominator != 1:
                self.unsup('write through a complicated view')
            rest = sub(e, mul(num(c), v))
            if v.id in rest.fv:
                self.unsup('write through a complicated view')
            q = app('floordiv', sub(p, rest), num(c))
            m[v.id] = q
            conds.append(eq(app('mod', sub(p, rest), num(c)), ZERO))
            conds.append(and_(le(ZERO, q),
                              lt(q, w.dims[w.ivs.index(v)])))
        idx = [m.get(v.id, ZERO) for v in w.ivs]
        new = self.cast(f(*idx), base.dt)
        return AV(base.dims, ps, ite(and_(*conds), new, base.at(*ps)),
                  base.dt, base.mat)

    def is_arr(self, x):
        return isinstance(x, Arr)

    def av(self, x):
        """array value of anything array-like"""
        if isinstance(x, Arr):
            return self.read(x)
        if isinstance(x, AV):
            return x
        if is_scalar(x):
            t = tt(x)
            dt = t.sort
            if isinstance(x, float):
                dt = 'f'
            return AV((), (), t, dt)
        if isinstance(x, tuple):
            return self.av_list(list(x))
        if isinstance(x, Ref):
            c = self.cell(x)
            if isinstance(c, ListC):
                if c.base is not None:
                    self.unsup('partial list')
                return self.av_list(c.items)
            if isinstance(c, SeqC):
                if is_scalar(c.item):
                    d = tt(c.item)
                    w = iv(c.n)
                    return canon(AV((tt(c.n),), (w,),
                                    subst(d, {c.v.id: w}), d.sort))
                a = self.av(c.item)
                w = iv(c.n)
                return AV((tt(c.n),) + a.dims, (w,) + a.ivs,
                          subst(a.body, {c.v.id: w}), a.dt)
            if isinstance(c, SpCell):
                self.unsup('sparse matrix as an array')
            if isinstance(c, IterC):
                return self.av_list(list(c.items))
        if isinstance(x, RangeV):
            n, f = self.seq(x)
            return mkav((n,), lambda i: tt(f(i)), 'i')
        if isinstance(x, Opq):
            return AV((), (), x.term, 'o')
        if isinstance(x, Ref) and isinstance(self.cell(x), DictC):
            # no number: conversions of dictionaries fail
            self.raise_('TypeError', 'array value of a dictionary')
        self.unsup('array value of %r' % (x,))

    def av_list(self, items):
        if not items:
            v = iv(0)
            return AV((ZERO,), (v,), ZERO, 'f')
        if all(is_scalar(i) for i in items):
            t = X.tab(items)
            v = iv(len(items))
            dt = t.sort
            if any(isinstance(i, float) for i in items) and dt in 'ib':
                dt = 'f'
            return AV((num(len(items)),), (v,), elem(t, v), dt)
        avs = [self.av(i) for i in items]
        d0 = avs[0].dims
        for a in avs[1:]:
            if len(a.dims) != len(d0):
                self.unsup('ragged array')
            for p, q in zip(a.dims, d0):
                self.partial(eq(p, q), 'ValueError', 'inhomogeneous shape')
        v = iv(len(items))
        ivs = [iv(d) for d in d0]
        dt = avs[0].dt
        for a in avs:
            dt = join_dt(dt, a.dt)
        r = avs[-1].at(*ivs)
        for i in range(len(avs) - 2, -1, -1):
            r = ite(eq(v, num(i)), avs[i].at(*ivs), r)
        return AV((num(len(items)),) + tuple(d0), (v,) + tuple(ivs), r, dt)

    def bcast(self, avs):
        """common dims, fresh indexes, bodies"""
        nd = max(len(a.dims) for a in avs)
        dims = []
        for k in range(nd):
            d = ONE
            for a in avs:
                j = k - (nd - len(a.dims))
                if j < 0:
                    continue
                x = a.dims[j]
                if numval(x) == 1 or x is d:
                    continue
                if numval(d) == 1:
                    d = x
                else:
                    self.partial(eq(d, x), 'ValueError',
                                 'operands could not be broadcast together')
            dims.append(d)
        ivs = [iv(d) for d in dims]
        bodies = []
        for a in avs:
            idx = []
            for j in range(len(a.dims)):
                k = j + nd - len(a.dims)
                if numval(a.dims[j]) == 1 and numval(dims[k]) != 1:
                    idx.append(ZERO)
                else:
                    idx.append(ivs[k])
            bodies.append(a.at(*idx))
        return dims, ivs, bodies

    def map_av(self, f, args, dt=None):
        """elementwise function of array-likes"""
        avs = [self.av(a) for a in args]
        dims, ivs, bodies = self.bcast(avs)
        body = tt(f(*bodies))
        if dt is None:
            dt = avs[0].dt
            for a in avs[1:]:
                dt = join_dt(dt, a.dt)
            if body.sort == 'b' and dt not in 'b':
                dt = 'b'
            elif body.sort == 'f' and dt in 'ib':
                dt = 'f'
        if not dims:
            return fix(body)
        return self.new(canon(AV(dims, ivs, body, dt,
                                 any(a.mat for a in avs))))

    def emap(self, f, args, dt=None):
        """elementwise; keeps the segments of flat parameter arrays"""
        segs = [a for a in args if isinstance(a, Arr) and a.whole() and
                isinstance(self.heap[a.cid], SegCell)]
        if segs:
            lay = [s.dims for s in self.heap[segs[0].cid].segs]
            ok = True
            for a in args:
                if isinstance(a, Arr) and a.whole():
                    c = self.heap[a.cid]
                    if isinstance(c, SegCell):
                        if [s.dims for s in c.segs] != lay:
                            ok = False
                    elif a.cid and len(self.read(a).dims) == 1:
                        pass
                    else:
                        ok = False
                elif not is_num(a):
                    ok = False
            if ok:
                out = []
                cs = []
                for a in args:
                    if isinstance(a, Arr):
                        cs.append(self.seg(self.heap[a.cid], lay))
                    else:
                        cs.append(a)
                for k in range(len(lay)):
                    xs = [c.segs[k] if isinstance(c, SegCell) else c
                          for c in cs]
                    r = self.map_av(f, xs, dt)
                    out.append(self.read(r) if isinstance(r, Arr)
                               else self.av(r))
                return Arr(self.alloc(SegCell(out)))
        return self.map_av(f, args, dt)

    # ---- indexing -------------------------------------------------------
    def index_parts(self, a, key):
        """normalise an index to a list of components covering all axes"""
        if isinstance(key, Ref) and isinstance(self.cell(key), (ListC, SeqC)):
            key = self.new(self.av(key))
        parts = list(key) if isinstance(key, tuple) else [key]
        nd = len(a.dims)
        out = []
        used = 0
        for p in parts:
            if isinstance(p, Ref) and isinstance(self.cell(p),
                                                 (ListC, SeqC)):
                p = self.new(self.av(p))
            if isinstance(p, tuple) or isinstance(p, RangeV):
                p = self.new(self.av(p))
            if isinstance(p, Arr):
                q = self.av(p)
                if not q.dims:
                    p = fix(q.body)
                else:
                    used += len(q.dims) if q.dt == 'b' else 1
                    out.append(q)
                    continue
            if p is None:
                out.append(None)
            elif p is Ellipsis:
                out.append(Ellipsis)
            elif isinstance(p, slice):
                out.append(p)
                used += 1
            elif is_num(p):
                out.append(p)
                used += 1
            else:
                self.unsup('index %r' % (p,))
        if Ellipsis in [o for o in out if o is Ellipsis]:
            i = [k for k, o in enumerate(out) if o is Ellipsis][0]
            out[i:i + 1] = [slice(None)] * (nd - used)
        else:
            out += [slice(None)] * (nd - used)
        if used > nd:
            self.raise_('IndexError', 'too many indices for array')
        return out

    def slice_of(self, s, dim):
        """(start, step, length) of a slice over a dimension"""
        st = s.step
        if isinstance(st, T):
            st = numval(st)
            if st is None:
                self.unsup('symbolic slice step')
        st = 1 if st is None else st
        dim = tt(dim)

        def lim(x, default):
            if x is None:
                return default
            k = const(x)
            if k is not None:
                if k < 0:
                    r = add(dim, num(k))
                    return r if X.nonneg(r) else app('max2', r, ZERO)
                d = numval(dim)
                if d is not None:
                    return num(min(k, d))
                if X.nonneg(sub(dim, num(k))):
                    return num(k)
                return app('min2', num(k), dim)
            x = tt(x)
            if X.nonneg(x) and X.nonneg(sub(dim, x)):
                return x
            y = x if X.nonneg(x) else ite(lt(x, ZERO), app(
                'max2', add(x, dim), ZERO), x)
            return app('min2', y, dim)
        if st > 0:
            a = lim(s.start, ZERO)
            b = lim(s.stop, dim)
            n = sub(b, a)
            if st != 1:
                n = app('floordiv', add(n, num(st - 1)), num(st))
            if not X.nonneg(n):
                n = app('max2', n, ZERO)
            return a, st, n
        if s.start is None and s.stop is None and st == -1:
            return sub(dim, ONE), -1, dim
        self.unsup('negative slice step')

    def getitem(self, a, key):
        av = self.read(a)
        parts = self.index_parts(av, key)
        if len(parts) == 1 and isinstance(parts[0], AV) and \
                parts[0].dt == 'b' and len(av.dims) > 1 and \
                len(parts[0].dims) == len(av.dims):
            m = parts[0]
            for d, e in zip(m.dims, av.dims):
                self.partial(eq(d, e), 'IndexError',
                             'boolean index did not match')
            m = AV(av.dims, m.ivs, m.body, 'b')
            a = self.np.np_ravel([self.new(av)], {})
            return self.getitem(a, self.np.np_ravel([self.new(m)], {}))
        parts = self.expand_masks(av, parts)
        if not any(isinstance(p, AV) for p in parts):
            return self.basic(a, av, parts)
        return self.gather(av, parts)

    def expand_masks(self, av, parts):
        out = []
        ax = 0
        for p in parts:
            if isinstance(p, AV) and p.dt == 'b':
                if len(p.dims) == 1:
                    self.partial(eq(p.dims[0], av.dims[ax]), 'IndexError',
                                 'boolean index did not match')
                    out.append(self.nonzero1(p))
                    ax += 1
                else:
                    out.append(p)
                    ax += len(p.dims)
                continue
            if p is not None:
                ax += 1
            out.append(p)
        return out

    def nonzero1(self, p):
        """indexes of the true entries of a one dimensional mask"""
        n = numval(p.dims[0])
        if isinstance(n, int) and n <= 40:
            vals = [p.at(i) for i in range(n)]
            vals = [v if v.sort == 'b' else X.truth(v) for v in vals]
            if all(v is TRUE or v is FALSE for v in vals):
                ix = [i for i, v in enumerate(vals) if v is TRUE]
                return self.av_int(ix)
        v = iv(p.dims[0])
        M = X.lam([v], [p.dims[0]], X.truth(p.at(v)))
        s = X.sel(M)
        d = X.DIMS[s.id][0]
        w = iv(d)
        return AV((d,), (w,), elem(s, w), 'i')

    def av_int(self, ix):
        if not ix:
            w = iv(0)
            return AV((ZERO,), (w,), w, 'i')
        w = iv(len(ix))
        return AV((num(len(ix)),), (w,), elem(X.tab(ix), w), 'i')

    def basic(self, a, av, parts):
        dims = []
        ivs = []
        idx = []
        ax = 0
        scalar = True
        for p in parts:
            if p is None:
                dims.append(ONE)
                ivs.append(iv(1))
                scalar = False
                continue
            d = av.dims[ax]
            if isinstance(p, slice):
                st, step, n = self.slice_of(p, d)
                v = iv(n)
                dims.append(n)
                ivs.append(v)
                idx.append(add(st, mul(num(step), v)))
                scalar = False
            else:
                idx.append(self.nidx(p, d))
            ax += 1
        if scalar:
            return self.element(a, av, idx)
        w = View(dims, ivs, idx)
        if a.view is not None:
            o = a.view
            m = {v.id: e for v, e in zip(o.ivs, idx)}
            w = View(dims, ivs, [subst(e, m) for e in o.idx])
        return Arr(a.cid, a.seg, w, a.fld)

    def element(self, a, av, idx):
        if isinstance(av.dt, DtypeV):
            return Opq('numpy.void', av.at(*idx), (av.dt,))
        return fix(av.at(*idx))

    def gather(self, av, parts):
        # multi dimensional masks
        for p in parts:
            if isinstance(p, AV) and p.dt == 'b':
                self.unsup('mask of several dimensions')
        advs = [p for p in parts if isinstance(p, AV)]
        ints = [p for p in parts if not isinstance(p, (AV, slice)) and
                p is not None]
        bd, bi, bb = self.bcast(advs)
        pos = [i for i, p in enumerate(parts) if isinstance(p, AV) or
               (p is not None and not isinstance(p, slice))]
        adjacent = pos == list(range(pos[0], pos[-1] + 1))
        dims = []
        ivs = []
        idx = []
        ax = 0
        k = 0
        placed = False
        if not adjacent:
            dims.extend(bd)
            ivs.extend(bi)
            placed = True
        for i, p in enumerate(parts):
            if p is None:
                dims.append(ONE)
                ivs.append(iv(1))
                continue
            d = av.dims[ax]
            if isinstance(p, slice):
                st, step, n = self.slice_of(p, d)
                v = iv(n)
                dims.append(n)
                ivs.append(v)
                idx.append(add(st, mul(num(step), v)))
            else:
                if not placed:
                    dims.extend(bd)
                    ivs.extend(bi)
                    placed = True
                if isinstance(p, AV):
                    if p.dt == 'f' and numval(p.dims[0]) != 0:
                        self.raise_('IndexError',
                                    'arrays used as indices must be of '
                                    'integer type')
                    idx.append(self.nidx(bb[k], d, bd))
                    k += 1
                else:
                    idx.append(self.nidx(p, d))
            ax += 1
        return self.new(canon(AV(dims, ivs, av.at(*idx), av.dt)))

    def setitem(self, a, key, value):
        c = self.heap[a.cid]
        if isinstance(c, CArrCell) and a.view is None:
            return self.set_obj(a, c, key, value)
        av = self.read(a)
        parts = self.expand_masks(av, self.index_parts(av, key))
        if not any(isinstance(p, AV) for p in parts):
            if not any(isinstance(p, slice) or p is None for p in parts):
                # single element
                idx = []
                for p, d in zip(parts, av.dims):
                    idx.append(self.nidx(p, d))
                if isinstance(value, Arr) or (isinstance(value, Ref)):
                    w = self.av(value)
                    if w.dims and not all(numval(d) == 1 for d in w.dims):
                        self.raise_('ValueError', 'setting an array element '
                                    'with a sequence')
                    value = w.at(*[ZERO] * len(w.dims))
                val = tt(value)
                self.write(a, lambda *ps: ite(and_(*[
                    eq(p, i) for p, i in zip(ps, idx)]), val, av.at(*ps)))
                return
            if parts and all(isinstance(p, slice) and p.start is None and
                             p.stop is None and p.step is None
                             for p in parts) and a.whole() and \
                    isinstance(c, SegCell):
                return self.assign_flat(a, c, value)
            w = self.basic(a, av, parts)
            return self.assign(w, value)
        return self.scatter(a, av, parts, value)

    def assign_flat(self, a, c, value):
        lay = [s.dims for s in c.segs]
        if isinstance(value, Arr) and value.whole() and isinstance(
                self.heap[value.cid], (SegCell, ArrCell)):
            if len(self.read(value).dims) == 1:
                s = self.seg(self.heap[value.cid], lay)
                self.heap[a.cid] = SegCell(s.segs)
                return
        return self.assign(a, value)

    def assign(self, w, value):
        """w[...] = value for a view w"""
        tgt = self.read(w)
        v = self.av(value)
        vd = list(v.dims)
        lead = len(vd) - len(tgt.dims)
        if lead > 0:
            for d in vd[:lead]:
                self.partial(eq(d, ONE), 'ValueError',
                             'could not broadcast input array')
        for j, d in enumerate(tgt.dims):
            k = j + lead
            if k < 0:
                continue
            x = vd[k]
            if numval(x) == 1 or x is d:
                continue
            self.partial(eq(x, d), 'ValueError',
                         'could not broadcast input array from shape')

        def f(*ps):
            idx = []
            for k in range(len(vd)):
                j = k - lead
                if j < 0 or (numval(vd[k]) == 1 and
                             numval(tgt.dims[j]) != 1):
                    idx.append(ZERO)
                else:
                    idx.append(ps[j])
            return v.at(*idx)
        self.write(w, f)

    def scatter(self, a, av, parts, value):
        v = self.av(value)
        # boolean mask of the full shape
        if len(parts) == 1 and isinstance(parts[0], AV) and \
                parts[0].dt == 'b':
            m = parts[0]
            for d, e in zip(m.dims, av.dims):
                self.partial(eq(d, e), 'IndexError', 'boolean index')
            if not v.dims:
                self.write(a, lambda *ps: ite(m.at(*ps), v.body,
                                              av.at(*ps)))
                return
            self.unsup('masked assignment of an array')
        advs = [p for p in parts if isinstance(p, AV)]
        bd, bi, bb = self.bcast(advs)
        pos = [i for i, p in enumerate(parts) if isinstance(p, AV) or
               (p is not None and not isinstance(p, slice))]
        adjacent = pos == list(range(pos[0], pos[-1] + 1))
        rdims = []
        what = []
        placed = False
        if not adjacent:
            rdims.extend(bd)
            what.extend(('b', j) for j in range(len(bd)))
            placed = True
        ax = 0
        ps = [iv(d) for d in av.dims]
        conds = []
        sl = []
        k = 0
        selinfo = None
        for i, p in enumerate(parts):
            if p is None:
                rdims.append(ONE)
                what.append(('z', 0))
                continue
            d = av.dims[ax]
            if isinstance(p, slice):
                st, step, n = self.slice_of(p, d)
                if step != 1:
                    self.unsup('stepped slice in a scatter')
                rdims.append(n)
                what.append(('s', len(sl)))
                sl.append(sub(ps[ax], st))
                if st is not ZERO:
                    conds.append(le(st, ps[ax]))
                if not (st is ZERO and n is d):
                    conds.append(lt(ps[ax], add(st, n)))
            else:
                if not placed:
                    rdims.extend(bd)
                    what.extend(('b', j) for j in range(len(bd)))
                    placed = True
                if isinstance(p, AV):
                    if p.dt == 'f':
                        self.raise_('IndexError', 'float index array')
                    e = self.nidx(bb[k], d, bd)
                    k += 1
                    if len(advs) == 1 and len(bd) == 1 and \
                            e.op == 'elem' and e.args[0].op == 'sel' and \
                            e.args[1][0] is bi[0]:
                        selinfo = (e.args[0].args[0], ps[ax])
                    else:
                        conds.append(eq(ps[ax], e))
                else:
                    conds.append(eq(ps[ax], self.nidx(p, d)))
            ax += 1
        # broadcast the value to the shape of the result
        lead = len(v.dims) - len(rdims)
        for q in range(max(0, lead)):
            self.partial(eq(v.dims[q], ONE), 'ValueError', 'shape mismatch')
        idx = []
        for q in range(len(v.dims)):
            j = q - lead
            if j < 0:
                idx.append(ZERO)
                continue
            if numval(v.dims[q]) == 1 and numval(rdims[j]) != 1:
                idx.append(ZERO)
                continue
            self.partial(eq(v.dims[q], rdims[j]), 'ValueError',
                         'shape mismatch')
            kind, z = what[j]
            idx.append(bi[z] if kind == 'b' else sl[z] if kind == 's'
                       else ZERO)
        val = v.at(*idx)
        old = av.at(*ps)
        cond = and_(*conds)
        if selinfo is not None:
            M, p = selinfo
            r = X.rank(M, p)
            m = {bi[0].id: r}
            val = subst(self.cast(val, av.dt), m)
            cond = and_(elem(M, p), subst(cond, m))
            body = ite(cond, val, old)
        else:
            val = self.cast(val, av.dt)
            body = None
            if len(bd) == 0:
                body = ite(cond, val, old)
            elif len(bd) == 1:
                body = X.lastw(bi[0], bd[0], cond, val, old)
            elif len(bd) == 2:
                u = mk('undef', sort=val.sort)
                inner = X.lastw(bi[1], bd[1], cond, val, u)
                body = X.lastw(bi[0], bd[0], X.any_(bi[1], bd[1], cond),
                               inner, old)
            else:
                self.unsup('scatter of rank %d' % len(bd))

        self.write(a, lambda *qs: subst(body, {
            p.id: q for p, q in zip(ps, qs)}))

    def set_obj(self, a, c, key, value):
        if isinstance(key, Arr):
            q = self.av(key)
            if not q.dims:
                key = fix(q.body)
        k = const(key)
        if k is not None and len(c.shape) == 1:
            n = c.shape[0]
            if not -n <= k < n:
                self.raise_('IndexError', 'index out of range')
            vals = list(c.vals)
            vals[int(k)] = value
            self.heap[a.cid] = CArrCell(c.shape, vals)
            return
        if isinstance(key, slice) and key.start is None and \
                key.stop is None and key.step is None:
            if isinstance(value, Arr) and isinstance(
                    self.heap[value.cid], CArrCell):
                self.heap[a.cid] = CArrCell(c.shape,
                                            self.heap[value.cid].vals)
            else:
                self.heap[a.cid] = CArrCell(c.shape, [value] * len(c.vals))
            return
        self.unsup('store into an object array')

    def get_obj(self, a, c, key):
        if isinstance(key, Arr):
            q = self.av(key)
            if not q.dims:
                key = fix(q.body)
        k = const(key)
        if k is not None and not isinstance(key, bool) and \
                len(c.shape) == 1:
            n = c.shape[0]
            if not -n <= k < n:
                self.raise_('IndexError', 'index out of range')
            return c.vals[int(k)]
        if isinstance(key, slice):
            vals = c.vals[key]
            return Arr(self.alloc(CArrCell((len(vals),), vals)))
        if isinstance(key, (T,)):
            # symbolic index into a table of objects: explore each
            n = c.shape[0]
            for i in range(n - 1):
                if self.decide(eq(key, num(i))):
                    return c.vals[i]
            self.partial(eq(key, num(n - 1)), 'IndexError',
                         'index out of range')
            return c.vals[n - 1]
        av = self.av(key) if isinstance(key, (Arr, Ref, tuple)) else None
        if av is not None and len(av.dims) == 1:
            if av.dt == 'b':
                av = self.nonzero1(av)
            l = scalar_list(av)
            if l is not None and all(numval(x) is not None for x in l):
                vals = [c.vals[int(numval(x))] for x in l]
                return Arr(self.alloc(CArrCell((len(vals),), vals)))
        self.unsup('index of an object array')


def open_lam(L):
    vs = [iv(d) for d in L.args[1]]
    return subst(L.args[2], {X.bv(l).id: v for l, v in zip(L.args[0], vs)})


X_RANGE = {}       # array term id -> exclusive upper bound of its elements


def ivterm(t, i):
    """the variable with id i occurring in t"""
    for v in ops_in(t, lambda x: x.id == i):
        return v
    raise KeyError(i)


def join_dt(a, b):
    if a == b:
        return a
    if isinstance(a, DtypeV) or isinstance(b, DtypeV):
        return a if isinstance(a, DtypeV) else b
    if a in 'ifb' and b in 'ifb':
        return 'f' if 'f' in (a, b) else 'i'
    if 's' in (a, b) and 'o' not in (a, b):
        return 's'
    return 'o'


def fieldof(av, name):
    if not isinstance(av.dt, DtypeV) or not av.dt.fields:
        raise PyRaise('IndexError', ('only integers are valid',), None, True)
    for (n, kind, dims) in av.dt.fields:
        if n == name:
            if isinstance(kind, DtypeV):
                return AV(av.dims, av.ivs, app('fld:' + name, av.body,
                                               sort='o'), kind)
            if dims:
                return mkav(tuple(av.dims) + tuple(dims), lambda *ix: app(
                    'fld:' + name, av.at(*ix[:len(av.dims)]),
                    *ix[len(av.dims):], sort=kind), kind)
            return AV(av.dims, av.ivs, app('fld:' + name, av.body,
                                           sort=kind), kind)
    raise PyRaise('ValueError', ('no field of name ' + str(name),), None,
                  True)
