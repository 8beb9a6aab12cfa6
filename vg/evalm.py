"""Random interpretation of value-graph terms.

A value graph is interpreted in small random finite models (in the sense of
Gulwani and Necula's random interpretation): symbols of the analysed entry
state get random values, every operator its mathematical meaning.  Two terms
that differ in some model are not equal; terms that agree in many random
models are equal with overwhelming probability.  No code of the analysed
program is run: only terms derived from its source are interpreted.
"""
import hashlib
import itertools
import math
from fractions import Fraction

from . import terms as X
from .terms import T


class EvalErr(Exception):
    """the modelled operation raises"""
    def __init__(self, exc, msg=''):
        Exception.__init__(self, exc, msg)
        self.exc = exc
        self.msg = msg


class Cannot(Exception):
    """the interpretation is not able to tell"""


class Nd(object):
    __slots__ = ('shape', 'flat')

    def __init__(self, shape, flat):
        self.shape = tuple(shape)
        self.flat = flat

    def get(self, idx):
        o = 0
        if len(idx) != len(self.shape):
            raise EvalErr('IndexError', 'number of indexes')
        for i, n in zip(idx, self.shape):
            if isinstance(i, float):
                if i != int(i):
                    raise EvalErr('IndexError', 'float index')
                i = int(i)
            if i < 0:
                i += n
            if not 0 <= i < n:
                raise EvalErr('IndexError', 'index out of range')
            o = o * n + i
        return self.flat[o]

    def __repr__(self):
        if len(self.shape) == 2:
            r, c = self.shape
            return repr([self.flat[i * c:(i + 1) * c] for i in range(r)])
        if len(self.shape) == 1:
            return repr(list(self.flat))
        return 'Nd%r%r' % (self.shape, self.flat)


class Cls(object):
    """a lazily defined array (draws)"""
    def __init__(self, f):
        self.f = f

    def get(self, idx):
        return self.f(idx)


def hashnum(*key):
    h = hashlib.md5(repr(key).encode()).digest()
    return int.from_bytes(h[:6], 'big') / float(1 << 48)


MAXN = 4000


class Model(object):
    def __init__(self, values, jitter=0.0, label=''):
        self.values = values          # symbol name -> value
        self.jitter = jitter
        self._seed = None
        self.label = label

    def seed(self):
        if self._seed is None:
            self._seed = hashnum(sorted(
                (k, freeze(v)) for k, v in self.values.items()
                if not isinstance(v, Cls)))
        return self._seed

    def show(self, names=None):
        out = []
        for k in sorted(self.values):
            if names is not None and k not in names:
                continue
            out.append('%s=%r' % (k, self.values[k]))
        s = ', '.join(out)
        return s if len(s) < 1500 else s[:1500] + '...'


class Ev(object):
    def __init__(self, model):
        self.m = model
        self.memo = {}
        self.env = {}
        self.opaque = set()
        self.steps = 0
        self.undef = False

    # ------------------------------------------------------------------
    def term(self, t):
        if not isinstance(t, T):
            return t
        op = t.op
        if op == 'num':
            x = t.args[0]
            return int(x) if x.denominator == 1 else float(x)
        if op == 'bv' or op == 'iv' or op == 'phi':
            if t.id not in self.env:
                raise Cannot('unbound %r' % (t,))
            return self.env[t.id]
        if op == 'true':
            return True
        if op == 'false':
            return False
        if t.fv:
            key = (t.id,) + tuple((i, _k(self.env.get(i)))
                                  for i in sorted(t.fv))
        else:
            key = t.id
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r, Exception):
                raise r
            return r
        self.steps += 1
        if self.steps > 3000000:
            raise Cannot('too many steps')
        try:
            r = getattr(self, 'e_' + op)(t, *t.args)
        except (EvalErr,) as e:
            self.memo[key] = e
            raise
        except OverflowError:
            r = float('inf')
        except AttributeError as e:
            if "'e_" in str(e):
                raise Cannot('operator ' + op)
            raise
        except (TypeError, ValueError, RecursionError) as e:
            raise Cannot('%s in %s: %s' % (type(e).__name__, op, e))
        self.memo[key] = r
        return r

    def dim(self, d):
        n = self.term(d)
        if isinstance(n, float):
            if n != int(n):
                raise EvalErr('TypeError', 'float dimension')
            n = int(n)
        n = int(n)
        if n > MAXN:
            raise Cannot('large dimension')
        return max(0, n)

    def b(self, t):
        v = self.term(t)
        if isinstance(v, Nd):
            raise Cannot('array truth')
        return bool(v)

    # ---- leaves -------------------------------------------------------
    def e_none(self, t):
        return None

    def e_str(self, t, s):
        return s

    def e_cplx(self, t, s):
        return complex(s)

    def e_fconst(self, t, s):
        return float(s)

    def e_tup(self, t, xs):
        return tuple(self.term(x) for x in xs)

    def e_sym(self, t, name):
        if name not in self.m.values:
            return self.default(t, name)
        return self.m.values[name]

    def e_asym(self, t, name, rank):
        if name not in self.m.values:
            return self.default(t, name)
        return self.m.values[name]

    def default(self, t, name):
        """results of external calls have arbitrary but fixed values"""
        if not name.startswith('opt'):
            raise Cannot('no value of ' + name)
        seed = self.m.seed()
        if t.op == 'asym':
            return Cls(lambda ix: hashnum(seed, name, freeze(ix)) * 2 - 1)
        h = hashnum(seed, name)
        if t.sort == 'b':
            return h < 0.5
        if t.sort == 'i':
            return int(h * 50)
        if t.sort == 'f':
            return h * 8
        return 'o:%s:%.6f' % (name, h)

    # ---- arithmetic ---------------------------------------------------
    def e_poly(self, t, items):
        tot = 0
        for m, c in items:
            c = int(c) if c.denominator == 1 else float(c)
            fs = sorted(m, key=lambda ae: ae[0].sort != 'b')
            r = c
            zero = False
            for a, e in fs:
                x = self.term(a)
                if x is None or isinstance(x, (str, Nd, tuple, dict)):
                    raise Cannot('arithmetic on %s' % type(x).__name__)
                if a.sort == 'b':
                    if not x:
                        zero = True
                        break
                    continue
                if e < 0:
                    x = self.inverse(x)
                    e = -e
                r = r * (x ** e if e != 1 else x)
            if not zero:
                tot = tot + r
        return tot

    def e_mulx(self, t, a, b):
        return self.term(a) * self.term(b)

    def inverse(self, x):
        if x == 0:
            return float('inf')
        r = 1.0 / x
        if self.m.jitter and abs(x) not in (1, 2, 4, 0.5, 0.25):
            r *= 1 + self.m.jitter
        return r

    def e_inv(self, t, a):
        return self.inverse(self.term(a))

    def e_app(self, t, name, args):
        f = getattr(self, 'f_' + name, None)
        if f is not None:
            return f(*args)
        if name == 'gtext':
            # what genfromtxt makes of a text
            x = self.term(args[0])
            try:
                return int(x) if t.sort == 'i' else float(x)
            except ValueError:
                return -1 if t.sort == 'i' else float('nan')
        if name == 'tonum':
            return tonum(self.term(args[0]), t.sort)
        if ':' in name and name.split(':')[0] in ('fld', 'attr', 'meth',
                                                  'obj'):
            # an unknown but fixed function of its arguments
            xs = []
            for a in args:
                try:
                    xs.append(freeze(self.term(a)))
                except EvalErr as e:
                    xs.append('err')
            return typed(t.sort, name, hashnum(name, tuple(xs)))
        xs = [self.term(a) for a in args]
        return apply_fun(name, xs, self)

    def e_uf(self, t, name, args):
        self.opaque.add(name)
        xs = []
        for a in args:
            try:
                xs.append(freeze(self.term(a)))
            except EvalErr:
                xs.append('err')
        h = hashnum(name, tuple(xs))
        if t.sort == 'b':
            return h < 0.5
        if t.sort == 'i':
            return int(h * 5)
        if t.sort == 'f':
            return h * 2 - 1
        return 'uf:%s:%.9f' % (name, h)

    # ---- booleans -----------------------------------------------------
    def e_eq(self, t, a, b):
        return same(self.term(a), self.term(b))

    def e_lt(self, t, a, b):
        return less(self.term(a), self.term(b))

    def e_le(self, t, a, b):
        x, y = self.term(a), self.term(b)
        return less(x, y) or same(x, y)

    def e_not(self, t, a):
        return not self.b(a)

    def e_and(self, t, xs):
        # order does not matter for the meaning; try cheap ones first and let
        # a false conjunct win over an erroneous one
        err = None
        for x in xs:
            try:
                if not self.b(x):
                    return False
            except EvalErr as e:
                err = e
        if err:
            raise err
        return True

    def e_or(self, t, xs):
        err = None
        for x in xs:
            try:
                if self.b(x):
                    return True
            except EvalErr as e:
                err = e
        if err:
            raise err
        return False

    def e_ite(self, t, c, a, b):
        return self.term(a) if self.b(c) else self.term(b)

    # ---- binders ------------------------------------------------------
    def each(self, lv, n, body):
        k = X.bv(lv).id
        old = self.env.get(k)
        try:
            for i in range(n):
                self.env[k] = i
                yield i, self.term(body)
        finally:
            if old is None:
                self.env.pop(k, None)
            else:
                self.env[k] = old

    def e_sum(self, t, lv, dim, body):
        s = 0
        for i, x in self.each(lv, self.dim(dim), body):
            s = s + x
        return s

    def e_any(self, t, lv, dim, body):
        r = False
        for i, x in self.each(lv, self.dim(dim), body):
            if x:
                r = True
                break
        return r

    def e_prod(self, t, lv, dim, body):
        s = 1
        for i, x in self.each(lv, self.dim(dim), body):
            s = s * x
        return s

    def ext(self, lv, dim, body, sign, arg):
        best = None
        bi = 0
        for i, x in self.each(lv, self.dim(dim), body):
            if best is None or (less(best, x) if sign > 0 else less(x, best)):
                best = x
                bi = i
        if best is None:
            raise EvalErr('ValueError', 'reduction of an empty array')
        return bi if arg else best

    def e_amax(self, t, lv, dim, body):
        return self.ext(lv, dim, body, 1, False)

    def e_amin(self, t, lv, dim, body):
        return self.ext(lv, dim, body, -1, False)

    def e_argmax(self, t, lv, dim, body):
        return self.ext(lv, dim, body, 1, True)

    def e_argmin(self, t, lv, dim, body):
        return self.ext(lv, dim, body, -1, True)

    def e_lam(self, t, lvs, dims, body):
        ns = [self.dim(d) for d in dims]
        tot = 1
        for n in ns:
            tot *= n
        if tot > MAXN:
            raise Cannot('large array')
        ks = [X.bv(l).id for l in lvs]
        old = [self.env.get(k) for k in ks]
        flat = []
        try:
            for idx in itertools.product(*[range(n) for n in ns]):
                for k, i in zip(ks, idx):
                    self.env[k] = i
                try:
                    flat.append(self.term(body))
                except EvalErr as e:
                    flat.append(e)
        finally:
            for k, o in zip(ks, old):
                if o is None:
                    self.env.pop(k, None)
                else:
                    self.env[k] = o
        return Nd(ns, flat)

    def e_box(self, t, L, ps, xs):
        vs = [self.term(x) for x in xs]
        old = [self.env.get(p.id) for p in ps]
        try:
            for p, x in zip(ps, vs):
                self.env[p.id] = x
            return self.term(L)
        finally:
            for p, o in zip(ps, old):
                if o is None:
                    self.env.pop(p.id, None)
                else:
                    self.env[p.id] = o

    def e_dmap(self, t, lv, dim, k, val):
        d = {}
        kk = X.bv(lv).id
        old = self.env.get(kk)
        try:
            for i in range(self.dim(dim)):
                self.env[kk] = i
                d[keyof(self.term(k))] = self.term(val)
        finally:
            if old is None:
                self.env.pop(kk, None)
            else:
                self.env[kk] = old
        return d

    def e_dupd(self, t, D, k, v):
        d = dict(self.term(D))
        d[keyof(self.term(k))] = self.term(v)
        return d

    def e_dlit(self, t, items):
        return {keyof(self.term(k)): self.term(v) for k, v in items}

    def e_dlen(self, t, D):
        return len(self.term(D))

    def e_dhas(self, t, D, k):
        return keyof(self.term(k)) in self.term(D)

    def e_dget(self, t, D, k):
        d = self.term(D)
        k = keyof(self.term(k))
        if k not in d:
            raise EvalErr('KeyError', repr(k))
        return d[k]

    def e_lastw(self, t, lv, dim, cond, val, init):
        kk = X.bv(lv).id
        old = self.env.get(kk)
        try:
            for i in range(self.dim(dim) - 1, -1, -1):
                self.env[kk] = i
                if self.b(cond):
                    return self.term(val)
        finally:
            if old is None:
                self.env.pop(kk, None)
            else:
                self.env[kk] = old
        return self.term(init)

    # ---- arrays -------------------------------------------------------
    def e_elem(self, t, A, idx):
        if A.op == 'sel' or A.op == 'uniq' or True:
            a = self.term(A)
        ix = tuple(self.term(i) for i in idx)
        if isinstance(a, (Nd, Cls)):
            r = a.get(ix)
            if isinstance(r, EvalErr):
                raise r
            return r
        raise Cannot('element of %s' % type(a).__name__)

    def e_tab(self, t, xs):
        return Nd((len(xs),), [self.term(x) for x in xs])

    def e_sel(self, t, M):
        m = self.term(M)
        return_ = [i for i, x in enumerate(m.flat) if x]
        return Nd((len(return_),), return_)

    def e_uniq(self, t, A):
        a = self.arr(A)
        s = sort_distinct(a.flat)
        return Nd((len(s),), s)

    def e_uniqrow(self, t, A):
        a = self.arr(A)
        r, c = a.shape
        rows = sort_distinct([tuple(a.flat[i * c:(i + 1) * c])
                              for i in range(r)])
        return Nd((len(rows), c), [x for row in rows for x in row])

    def e_nuniqrow(self, t, A):
        a = self.arr(A)
        r, c = a.shape
        return len(set(tuple(a.flat[i * c:(i + 1) * c]) for i in range(r)))

    def e_nuniq(self, t, A):
        return len(sort_distinct(self.arr(A).flat))

    def e_sortv(self, t, A):
        a = self.arr(A)
        return Nd(a.shape, sorted(a.flat, key=sortkey))

    def e_argsort(self, t, A):
        a = self.arr(A)
        return Nd(a.shape, sorted(range(len(a.flat)),
                                  key=lambda i: sortkey(a.flat[i])))

    def arr(self, A):
        a = self.term(A)
        if not isinstance(a, Nd):
            raise Cannot('array expected')
        for x in a.flat:
            if isinstance(x, EvalErr):
                raise x
        return a

    def e_pos(self, t, A, x):
        a = self.arr(A)
        v = self.term(x)
        for i, y in enumerate(a.flat):
            if same(y, v):
                return i
        raise EvalErr('KeyError', 'not found')

    def e_lastpos(self, t, A, x):
        a = self.arr(A)
        v = self.term(x)
        for i in range(len(a.flat) - 1, -1, -1):
            if same(a.flat[i], v):
                return i
        raise EvalErr('KeyError', 'not found')

    def e_rank(self, t, M, j):
        m = self.term(M)
        j = self.term(j)
        return sum(1 for x in m.flat[:int(j)] if x)

    def e_isin(self, t, x, A):
        v = self.term(x)
        return any(same(v, y) for y in self.arr(A).flat)

    # ---- loops --------------------------------------------------------
    def e_rec(self, t, phis, inits, nexts, v, n, stop, which):
        key = ('rec', phis, inits, nexts, v, n, stop) + tuple(
            (i, _k(self.env.get(i))) for i in sorted(t.fv))
        if key in self.memo:
            res = self.memo[key]
        else:
            vals = [self.term(i) for i in inits]
            lim = self.term(n) if n.op != 'none' else None
            if lim is not None:
                lim = int(lim)
            old = {p.id: self.env.get(p.id) for p in phis}
            oldv = self.env.get(v.id)
            it = 0
            broke = False
            try:
                while lim is None or it < lim:
                    if it > 300:
                        raise Cannot('loop does not stop')
                    for p, x in zip(phis, vals):
                        self.env[p.id] = x
                    self.env[v.id] = it
                    if self.term(stop):
                        broke = True
                        break
                    vals = [self.term(x) for x in nexts]
                    it += 1
            finally:
                for p in phis:
                    if old[p.id] is None:
                        self.env.pop(p.id, None)
                    else:
                        self.env[p.id] = old[p.id]
                if oldv is None:
                    self.env.pop(v.id, None)
                else:
                    self.env[v.id] = oldv
            res = (vals, broke, it)
            self.memo[key] = res
        if which == -1:
            return res[1]
        if which == -2:
            return res[2]
        return res[0][which]

    # ---- random draws -------------------------------------------------
    def e_draw(self, t, key, ctr, dist, params, dims):
        k = freeze(self.term(key))
        c = freeze(self.term(ctr))
        ps = [self.term(p) for p in params]
        if dist == 'permutation':
            n = int(ps[0])
            perm = sorted(range(n), key=lambda i: hashnum(k, c, dist, i))
            return Nd((n,), perm)
        if dist == 'normal':
            return Cls(lambda idx: hashnum(k, c, dist, freeze(idx)) * 4 - 2)
        if dist == 'randint':
            lo, hi = ps
            w = max(1, hi - lo)
            return Cls(lambda idx: lo + int(hashnum(k, c, dist,
                                                    freeze(idx)) * w))
        if dist == 'dirichlet':
            m = int(self.term(dims[-1]))
            rows = {}

            def row(pre):
                if pre not in rows:
                    w = [float(ps[0].get((j,))) * (
                        0.05 + hashnum(k, c, dist, freeze(pre + (j,))))
                        for j in range(m)]
                    s = sum(w)
                    rows[pre] = [x / s if s else float('nan') for x in w]
                return rows[pre]
            return Cls(lambda idx: row(tuple(idx)[:-1])[int(idx[-1])])
        return Cls(lambda idx: hashnum(k, c, dist, freeze(idx)))

    # ---- values that do not exist ---------------------------------------
    def e_unbound(self, t, *a):
        raise EvalErr('NameError', 'unbound variable')

    def e_undef(self, t, *a):
        self.undef = True
        h = hashnum('undef', t.id, tuple(freeze(self.term(x)) for x in a))
        return typed(t.sort, 'undef', h * 997)


def typed(sort, name, h):
    if sort == 'b':
        return (h * 7919) % 1.0 < 0.5
    if sort == 'i':
        return int((h * 7919) % 1.0 * 5)
    if sort == 'f':
        return h * 2 - 1
    return 'o:%s:%.9f' % (name, h)


def _k(v):
    return v


def keyof(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, float) and v == int(v):
        return int(v)
    if isinstance(v, Nd):
        raise EvalErr('TypeError', 'unhashable')
    return v


def freeze(v):
    if isinstance(v, Nd):
        return ('nd', v.shape, tuple(freeze(x) for x in v.flat))
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted(((freeze(a), freeze(b)) for a, b in v.items()),
                            key=repr))
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float):
        return int(v) if v == v and abs(v) != float('inf') and v == int(v) \
            else float('%.9g' % v)
    if isinstance(v, EvalErr):
        return v.exc
    return v


def same(a, b):
    if isinstance(a, Nd) or isinstance(b, Nd):
        raise Cannot('comparison of arrays')
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, float) or isinstance(b, float):
            if a == b:
                return True
            if math.isfinite(a) and math.isfinite(b):
                return abs(a - b) <= 1e-11 * max(1.0, abs(a), abs(b))
            return False
        return a == b
    return a == b


def less(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a < b and not same(a, b)
    if isinstance(a, str) and isinstance(b, str):
        return a < b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a < b
    raise EvalErr('TypeError', 'unorderable')


def sortkey(x):
    if isinstance(x, tuple):
        return tuple(sortkey(y) for y in x)
    if isinstance(x, str):
        return (1, 0, x)
    return (0, x, '')


def sort_distinct(xs):
    s = sorted(xs, key=sortkey)
    out = []
    for x in s:
        if not out or not same(out[-1], x):
            out.append(x)
    return out


def pyround(x):
    return float(round(x)) if math.isfinite(x) else x


def expit(x):
    if x >= 0:
        return 1 / (1 + math.exp(-x)) if x < 700 else 1.0
    return math.exp(x) / (1 + math.exp(x)) if x > -700 else 0.0


def recode(s, src, dst):
    return s.encode(src, 'replace').decode(dst, 'replace')


def narrow(k, x):
    """value in a type that does not hold every number; the models are
    small, so the small types are taken smaller than they are"""
    if k[0] == 'U':
        return x[:int(k[1:])]
    if k[0] == 'f':
        if not x or not math.isfinite(x):
            return x
        m, e = math.frexp(x)
        return math.ldexp(round(m * 4096) / 4096.0, e)
    x = int(x)
    if k in ('i1', 'i2'):
        return (x + 2) % 4 - 2
    if k in ('u1', 'u2'):
        return x % 4
    return x % (1 << (32 if k == 'u4' else 64))


def apply_fun(name, xs, ev=None):
    for x in xs:
        if x is None and name not in ('str', 'fmt', 'tuple'):
            raise EvalErr('TypeError', 'None operand')
    if name == 'abs':
        return abs(xs[0])
    if name.startswith('narrow:'):
        return narrow(name[7:], xs[0])
    if name == 'sqrt':
        if -1e-9 < xs[0] < 0:
            return 0.0        # rounding of an expanded square
        return math.sqrt(xs[0]) if xs[0] >= 0 else float('nan')
    if name == 'log':
        return math.log(xs[0]) if xs[0] > 0 else (
            float('-inf') if xs[0] == 0 else float('nan'))
    if name == 'log2':
        return math.log2(xs[0]) if xs[0] > 0 else float('nan')
    if name == 'log10':
        return math.log10(xs[0]) if xs[0] > 0 else float('nan')
    if name == 'log1p':
        return math.log1p(xs[0]) if xs[0] > -1 else float('nan')
    if name == 'exp':
        return math.exp(xs[0]) if xs[0] < 709 else float('inf')
    if name == 'expm1':
        return math.expm1(xs[0]) if xs[0] < 709 else float('inf')
    if name == 'tanh':
        return math.tanh(xs[0])
    if name == 'expit':
        return expit(xs[0])
    if name == 'logaddexp':
        m = max(xs)
        return m + math.log(sum(math.exp(x - m) for x in xs))
    if name == 'sign':
        return (xs[0] > 0) - (xs[0] < 0)
    if name == 'max2':
        return max(xs)
    if name == 'min2':
        return min(xs)
    if name == 'clip':
        return min(max(xs[0], xs[1]), xs[2])
    if name in ('floor', 'ceil', 'trunc'):
        if not math.isfinite(xs[0]):
            raise EvalErr('ValueError', 'cannot convert')
        return int(getattr(math, name)(xs[0]))
    if name in ('round', 'rint'):
        if not math.isfinite(xs[0]):
            return xs[0]
        return round(xs[0])
    if name == 'mod':
        if xs[1] == 0:
            raise EvalErr('ZeroDivisionError')
        return xs[0] % xs[1]
    if name == 'floordiv':
        if xs[1] == 0:
            raise EvalErr('ZeroDivisionError')
        r = xs[0] // xs[1]
        return int(r)
    if name == 'pow':
        try:
            r = xs[0] ** xs[1]
        except ZeroDivisionError:
            return float('inf')
        return r if not isinstance(r, complex) else float('nan')
    if name == 'isfinite':
        return math.isfinite(xs[0])
    if name == 'isnan':
        return xs[0] != xs[0]
    if name == 'isinf':
        return math.isinf(xs[0])
    if name == 'str':
        x = xs[0]
        return x if isinstance(x, str) else str(x)
    if name == 'strcat':
        return ''.join(str(x) for x in xs)
    if name == 'cut':
        return str(xs[0])[:int(xs[1])]
    if name == 'recode':
        return recode(*[str(x) for x in xs])
    if name == 'latin1':
        return str(xs[0]).encode('utf8').decode('latin1')
    if name == 'fmt':
        try:
            return xs[0].format(*xs[1:])
        except Exception:
            raise EvalErr('ValueError', 'format')
    if name == 'toint':
        return int(xs[0])
    if name == 'erf':
        return math.erf(xs[0])
    if name == 'sin':
        return math.sin(xs[0])
    if name == 'cos':
        return math.cos(xs[0])
    if name == 'str:index':
        try:
            k = xs[1]
            return xs[0][slice(*k) if isinstance(k, tuple) else k]
        except IndexError:
            raise EvalErr('IndexError', 'string index')
    if name == 'len':
        return len(xs[0])
    if name == 'isnumstr':
        if not isinstance(xs[0], str):
            return True
        try:
            float(xs[0])
            return True
        except ValueError:
            return False
    if name == 'pct':
        try:
            return xs[0] % (xs[1] if len(xs) == 2 else tuple(xs[1:]))
        except (TypeError, ValueError):
            raise EvalErr('ValueError', 'format')
    if name == 'bit&':
        return xs[0] & xs[1]
    if name == 'bit|':
        return xs[0] | xs[1]
    if name == 'bit^':
        return xs[0] ^ xs[1]
    if name == 'bit<<':
        return xs[0] << xs[1]
    if name == 'bit>>':
        return xs[0] >> xs[1]
    raise Cannot('function ' + name)


def tonum(x, sort):
    if isinstance(x, str):
        try:
            return int(x) if sort == 'i' else float(x)
        except ValueError:
            try:
                if sort == 'i':
                    raise EvalErr('ValueError', 'int of ' + x)
                return float(x)
            except ValueError:
                raise EvalErr('ValueError', 'number of ' + x)
    if isinstance(x, (int, float)):
        return x
    raise Cannot('number of %r' % (x,))


def close(a, b, tol=1e-7):
    """are two evaluated results the same value?"""
    if isinstance(a, Nd) and isinstance(b, Nd):
        return a.shape == b.shape and all(
            close(x, y, tol) for x, y in zip(a.flat, b.flat))
    if isinstance(a, EvalErr) or isinstance(b, EvalErr):
        return isinstance(a, EvalErr) and isinstance(b, EvalErr) and \
            a.exc == b.exc
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        if a == b:
            return True
        if math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(close(x, y, tol)
                                        for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k], tol) for k in a)
    return type(a) == type(b) and a == b
