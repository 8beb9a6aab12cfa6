"""Value-graph terms.

Terms are hash-consed, so structural identity is object identity (global value
numbering).  Numeric terms are kept in a polynomial normal form over atoms
(array elements, bound sums, uninterpreted or known functions, truth values);
bound index variables are named by binder height, which makes alpha-equivalent
terms identical.
"""
from fractions import Fraction

_TABLE = {}
_NEXT = [0]
MAXMONO = 600


class T(object):
    __slots__ = ('op', 'args', 'id', 'fv', 'h', 'sort', 'opq', 'syms')

    def __repr__(self):
        return show(self)

    # terms are never used as python truth values by accident
    def __bool__(self):
        raise TypeError('symbolic truth value: %s' % show(self))

    def __lt__(self, o):
        return self.id < o.id


EMPTY = frozenset()


def _scan(x, acc):
    if isinstance(x, T):
        acc.append(x)
    elif isinstance(x, tuple):
        for y in x:
            _scan(y, acc)


def mk(op, *args, **kw):
    sort = kw.get('sort', 'f')
    key = (op, args)
    t = _TABLE.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.id = _NEXT[0]
    _NEXT[0] += 1
    t.sort = sort
    ch = []
    _scan(args[2] if op == 'box' else args, ch)
    fv = EMPTY
    sy = EMPTY
    h = 0
    opq = kw.get('opq', False)
    for c in ch:
        if c.fv:
            fv = fv | c.fv if fv else c.fv
        if c.syms:
            sy = sy | c.syms if sy else c.syms
        if c.h > h:
            h = c.h
        opq = opq or c.opq
    if op in ('iv', 'bv', 'phi'):
        fv = frozenset([t.id])
    if op in ('sym', 'asym'):
        sy = frozenset([args[0]])
    if op == 'box':
        sy = sy | args[0].syms
        opq = opq or args[0].opq
    if op in BINDERS:
        lv = args[0] if isinstance(args[0], tuple) else (args[0],)
        drop = set()
        for l in lv:
            drop.add(bv(l).id)
        fv = fv - drop
        h = max(h, max(lv) + 1 if lv else 0)
    if op == 'rec':
        # args: phis, inits, nexts, v, n, stop, which: see mk_rec
        fv = fv - set(p.id for p in args[0]) - {args[3].id}
        h = max(h, args[3].args[0] + 1)
    t.fv = fv
    t.h = h
    t.opq = opq
    t.syms = sy
    _TABLE[key] = t
    return t


BINDERS = {'sum', 'prod', 'amax', 'amin', 'any', 'argmax', 'argmin', 'lam',
           'dmap', 'lastw'}


def bv(level):
    key = ('bv', (level,))
    t = _TABLE.get(key)
    if t is None:
        t = mk('bv', level, sort='i')
    return t


_IV = [0]
IVDIM = {}


def iv(dim=None):
    _IV[0] += 1
    t = mk('iv', _IV[0], sort='i')
    if dim is not None:
        IVDIM[t.id] = tt(dim)
    return t


_PHI = [0]


def phi(sort, rank=None):
    """placeholder of a loop-carried value; rank is not None for arrays"""
    _PHI[0] += 1
    return mk('phi', _PHI[0], rank, sort, sort=sort)


def heavy(t, limit):
    """more than limit distinct subterms?"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if len(seen) > limit:
            return True
        _scan(x.args[2] if x.op == 'box' else x.args, st)
    return False


def sym(name, sort='f'):
    return mk('sym', name, sort=sort)


def asym(name, rank, sort='f'):
    return mk('asym', name, rank, sort=sort)


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return mk('fconst', repr(x), sort='f')
        x = Fraction(repr(x))
    elif not isinstance(x, Fraction):
        x = Fraction(int(x))
    return mk('num', x, sort='i' if x.denominator == 1 else 'f')


def tt(x):
    """to term"""
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, float, Fraction)):
        return num(x)
    if x is None:
        return mk('none', sort='o')
    if isinstance(x, str):
        return mk('str', x, sort='s')
    if isinstance(x, bytes):
        return mk('str', x.decode('latin1'), sort='s')
    if isinstance(x, complex):
        return mk('cplx', repr(x), sort='o')
    if isinstance(x, tuple):
        return mk('tup', tuple(tt(y) for y in x), sort='o')
    raise TypeError('cannot make a term of %r' % (x,))


TRUE = mk('true', sort='b')
FALSE = mk('false', sort='b')
ZERO = num(0)
ONE = num(1)


def isnum(t):
    return t.op == 'num'


def numval(t):
    """python number of a constant term, or None"""
    if t.op == 'num':
        x = t.args[0]
        return int(x) if x.denominator == 1 else float(x)
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t.op == 'fconst':
        return float(t.args[0])
    return None


# ---- polynomials ----------------------------------------------------------
def to_poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def from_poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    srt = 'i'
    for m, c in items:
        if c.denominator != 1:
            srt = 'f'
        for a, e in m:
            if a.sort not in ('i', 'b') or e < 0:
                srt = 'f'
    return mk('poly', tuple(items), sort=srt)


def mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    r = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.sort == 'b' and e > 1:
            e = 1
        r.append((a, e))
    r.sort(key=lambda x: x[0].id)
    return tuple(r)


def add(*ts):
    d = {}
    for t in ts:
        for m, c in to_poly(tt(t)).items():
            d[m] = d.get(m, 0) + c
    return from_poly(d)


def neg(a):
    return from_poly({m: -c for m, c in to_poly(tt(a)).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    pa = to_poly(tt(a))
    pb = to_poly(tt(b))
    if len(pa) * len(pb) > MAXMONO:
        a, b = sorted([tt(a), tt(b)], key=lambda x: x.id)
        return mk('mulx', a, b)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def inv(b):
    b = tt(b)
    p = to_poly(b)
    if not p:
        return mk('inv', ZERO)
    if len(p) == 1:
        (m, c), = p.items()
        if not any(a.sort == 'b' for a, e in m):
            return from_poly({tuple((a, -e) for a, e in m): 1 / c})
        return mk('inv', b)
    # normalise the leading coefficient
    lead = sorted(p.items(), key=lambda mc: tuple(
        (a.id, e) for a, e in mc[0]))[-1][1]
    q = from_poly({m: c / lead for m, c in p.items()})
    return from_poly({((mk('inv', q), 1),): 1 / lead})


def div(a, b):
    return mul(a, inv(b))


def power(a, n):
    a = tt(a)
    n = tt(n)
    k = numval(n)
    if isinstance(k, int) and not isinstance(k, bool) and 0 <= k <= 6:
        r = ONE
        for _ in range(k):
            r = mul(r, a)
        return r
    if k == -1:
        return inv(a)
    if k == 0.5:
        return app('sqrt', a)
    va = numval(a)
    if va is not None and k is not None:
        try:
            return num(va ** k)
        except Exception:
            pass
    return mk('app', 'pow', (a, n))


# ---- functions ------------------------------------------------------------
import math  # noqa: E402


def _r(f):
    return f


FOLD = {
    'abs': abs, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
    'round': lambda x: round(x),
}
SORTS = {'abs': None, 'floor': 'i', 'ceil': 'i', 'trunc': 'i', 'round': 'i',
         'rint': 'f', 'mod': None, 'floordiv': 'i', 'max2': None,
         'min2': None, 'isfinite': 'b', 'isnan': 'b', 'isinf': 'b',
         'str': 's', 'strcat': 's', 'fmt': 's', 'sign': None, 'len': 'i'}


FIELD = [None]


def app(name, *args, **kw):
    args = tuple(tt(a) for a in args)
    if name == 'tonum' and args[0].op == 'app' and \
            args[0].args[0] == 'str' and args[0].args[1][0].sort in (
                'i' if kw.get('sort') == 'i' else 'if'):
        return args[0].args[1][0]
    if name == 'fmt' and args[0].op == 'str' and args[0].args[0] == '{:d}' \
            and args[1].sort == 'i':
        return app('str', args[1], sort='s')
    if name.startswith('fld:'):
        a = args[0]
        if a.op == 'ite':
            return ite(a.args[0], app(name, a.args[1], *args[1:], **kw),
                       app(name, a.args[2], *args[1:], **kw))
        if a.op == 'elem' and a.args[0].op == 'tab' and all(
                x.op == 'app' and x.args[0] == 'row'
                for x in a.args[0].args[0]):
            return elem(tab([app(name, x, *args[1:], **kw)
                             for x in a.args[0].args[0]]), *a.args[1])
        if a.op == 'app' and a.args[0] == 'row':
            r = FIELD[0](name[4:], a, args[1:])
            if r is not None:
                return r
    vals = [numval(a) for a in args]
    if name.startswith('narrow:'):
        if vals[0] is not None and vals[0] in (0, 1) or args[0].sort == 'b':
            return args[0]
        if args[0].op == 'app' and args[0].args[0] == name:
            return args[0]
    if all(v is not None for v in vals):
        try:
            if name in FOLD:
                x = args[0].args[0] if args[0].op == 'num' else vals[0]
                return num(FOLD[name](x))
            if name == 'mod' and vals[1] != 0:
                return num(Fraction(args[0].args[0]) % args[1].args[0])
            if name == 'floordiv' and vals[1] != 0:
                return num(Fraction(args[0].args[0]) // args[1].args[0])
            if name == 'max2':
                return args[0] if vals[0] >= vals[1] else args[1]
            if name == 'min2':
                return args[0] if vals[0] <= vals[1] else args[1]
            if name in ('isfinite',):
                return TRUE if math.isfinite(vals[0]) else FALSE
            if name == 'isnan':
                return TRUE if vals[0] != vals[0] else FALSE
            if name == 'log' and vals[0] > 0:
                return ZERO if vals[0] == 1 else mk('app', 'log', args)
            if name == 'exp' and vals[0] == 0:
                return ONE
            if name == 'sqrt' and vals[0] in (0, 1):
                return args[0]
            if name == 'sqrt' and vals[0] > 0:
                rt = math.sqrt(vals[0])
                if rt == int(rt):
                    return num(int(rt))
        except Exception:
            pass
    if name in ('floor', 'ceil', 'trunc', 'round', 'rint') and \
            args[0].sort in ('i', 'b'):
        return args[0] if args[0].sort == 'i' else add(args[0], ZERO)
    if name == 'isfinite' and args[0].sort in ('i', 'b'):
        return TRUE
    if name in ('isnan', 'isinf') and args[0].sort in ('i', 'b'):
        return FALSE
    if name in ('max2', 'min2'):
        if args[0] is args[1]:
            return args[0]
        args = tuple(sorted(args, key=lambda a: a.id))
    if name == 'abs':
        # |x| = |-x| : canonical sign
        n = neg(args[0])
        if n.op == 'poly' and args[0].op == 'poly':
            if args[0].args[0][0][1] < 0:
                args = (n,)
        elif args[0].op == 'poly':
            args = (n,) if n.op != 'poly' else args
    s = SORTS.get(name, 'f')
    if s is None:
        s = 'i' if all(a.sort in ('i', 'b') for a in args) else 'f'
    if 'sort' in kw:
        s = kw['sort']
    return mk('app', name, args, sort=s)


def uf(name, *args, **kw):
    """an uninterpreted function: the analysis knows nothing about it"""
    return mk('uf', name, tuple(tt(a) for a in args), sort=kw.get('sort', 'f'),
              opq=True)


# ---- booleans -------------------------------------------------------------
def isbool(t):
    return t.sort == 'b'


def truth(t):
    """python truthiness of a scalar term"""
    t = tt(t)
    if t.sort == 'b':
        return t
    if t.sort in ('i', 'f'):
        return not_(eq(t, ZERO))
    if t.op == 'str':
        return TRUE if t.args[0] else FALSE
    if t.op == 'none':
        return FALSE
    if t.op == 'tup':
        return TRUE if t.args[0] else FALSE
    return mk('uf', 'truth', (t,), sort='b', opq=True)


def eq(a, b):
    a = tt(a)
    b = tt(b)
    if a is b:
        if a.sort in ('f',) and a.op != 'num':
            return TRUE
        return TRUE
    if a.sort in ('i', 'f', 'b') and b.sort in ('i', 'f', 'b'):
        if a.sort == 'b' and b.sort == 'b':
            if b is TRUE:
                return a
            if b is FALSE:
                return not_(a)
            if a is TRUE:
                return b
            if a is FALSE:
                return not_(b)
        d = sub(a, b)
        if d.op == 'num':
            return TRUE if d.args[0] == 0 else FALSE
        if b is ZERO or a is ZERO:
            x = a if b is ZERO else b
            if x.op == 'sum' and x.args[2].sort == 'b':
                return not_(lt(ZERO, x))
        # solve for a lone index variable to get a canonical form
        p = to_poly(d)
        for m, c in sorted(p.items(), key=lambda mc: tuple(
                (x.id, e) for x, e in mc[0])):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('iv', 'bv') \
                    and abs(c) == 1:
                v = m[0][0]
                rest = sub(v, d) if c == 1 else add(v, d)
                if v.id not in rest.fv:
                    if rest.op in ('iv', 'bv'):
                        x, y = sorted([v, rest], key=lambda z: z.id)
                        return mk('eq', x, y, sort='b')
                    return mk('eq', v, rest, sort='b')
        # canonical sign
        lead = d.args[0][0][1] if d.op == 'poly' else 1
        if lead < 0:
            a, b = b, a
        elif lead > 0 and a.id > b.id and d.op != 'poly':
            a, b = b, a
        x, y = sorted([a, b], key=lambda z: z.id)
        return mk('eq', x, y, sort='b')
    consts = ('str', 'none', 'num', 'true', 'false')
    if a.op in consts and b.op in consts:
        return FALSE
    x, y = sorted([a, b], key=lambda z: z.id)
    return mk('eq', x, y, sort='b')


def lt(a, b):
    a = tt(a)
    b = tt(b)
    va, vb = numval(a), numval(b)
    if va is not None and vb is not None:
        return TRUE if va < vb else FALSE
    if a is b:
        return FALSE
    if a.sort in ('i', 'f', 'b') and b.sort in ('i', 'f', 'b') and \
            va is None or vb is None:
        d = sub(a, b)
        if d.op == 'num':
            return TRUE if d.args[0] < 0 else FALSE
    if nonneg(sub(a, b)):
        return FALSE
    if a is ZERO and b.op == 'sum' and b.args[2].sort == 'b':
        w = iv(b.args[1])
        return any_(w, b.args[1], open_(b, w))
    if a.sort == 'i' and b.sort == 'i' and nonneg(sub(sub(b, a), ONE)):
        return TRUE
    return mk('lt', a, b, sort='b')


def le(a, b):
    a = tt(a)
    b = tt(b)
    if a.sort == 'i' and b.sort == 'i':
        return not_(lt(b, a))
    va, vb = numval(a), numval(b)
    if va is not None and vb is not None:
        return TRUE if va <= vb else FALSE
    d = sub(a, b)
    if d.op == 'num':
        return TRUE if d.args[0] <= 0 else FALSE
    return mk('le', a, b, sort='b')


def nonneg(t):
    """a cheap sufficient test of t >= 0: nonnegative combination of
    quantities known to be nonnegative (dimensions, indexes, counts)"""
    t = tt(t)
    for m, c in to_poly(t).items():
        if c < 0:
            return False
        for a, e in m:
            if a.op in ('iv', 'bv') or a.sort == 'b' or a in NONNEG or \
                    a.op in ('pos', 'lastpos', 'rank', 'ndim_of'):
                continue
            if a.op == 'sum' and nonneg(a.args[2]):
                continue
            if a.op == 'elem' and a.args[0].op == 'box' and \
                    nonneg(a.args[0].args[0].args[2]):
                continue
            if e % 2 == 0:
                continue
            return False
    return True


NONNEG = set()


def not_(a):
    a = tt(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args[0]])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args[0]])
    return mk('not', a, sort='b')


def and_(*xs):
    s = []
    seen = set()
    for x in xs:
        x = tt(x)
        ys = x.args[0] if x.op == 'and' else (x,)
        for y in ys:
            if y is FALSE:
                return FALSE
            if y is TRUE or y.id in seen:
                continue
            seen.add(y.id)
            s.append(y)
    for y in s:
        n = y.args[0] if y.op == 'not' else None
        if n is not None and n.id in seen:
            return FALSE
        if y.op == 'or':
            for z in y.args[0]:
                pass
    # unit propagation: drop disjuncts contradicted by other conjuncts
    r = []
    for y in s:
        if y.op == 'or':
            ds = []
            sat = False
            for z in y.args[0]:
                if z.id in seen:
                    sat = True
                    break
                if not_(z).id in seen:
                    continue
                ds.append(z)
            if sat:
                continue
            if len(ds) != len(y.args[0]):
                y2 = or_(*ds)
                return and_(*([q for q in s if q is not y] + [y2]))
        r.append(y)
    s = r
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda x: x.id)
    return mk('and', tuple(s), sort='b')


def or_(*xs):
    s = []
    seen = set()
    for x in xs:
        x = tt(x)
        ys = x.args[0] if x.op == 'or' else (x,)
        for y in ys:
            if y is TRUE:
                return TRUE
            if y is FALSE or y.id in seen:
                continue
            seen.add(y.id)
            s.append(y)
    for y in s:
        if not_(y).id in seen if y.op in ('not',) else False:
            return TRUE
    # absorption and resolution on conjunctions
    r = []
    changed = False
    for y in s:
        if y.op == 'and':
            cs = []
            absorbed = False
            for z in y.args[0]:
                if z.id in seen:
                    absorbed = True
                    break
                if not_(z).id in seen:
                    changed = True
                    continue
                cs.append(z)
            if absorbed:
                changed = True
                continue
            y = and_(*cs)
        r.append(y)
    if changed:
        return or_(*r)
    s = r
    # (a & c) | (b & !c) with the rest equal
    for i in range(len(s)):
        for j in range(i + 1, len(s)):
            a = set(x.id for x in (s[i].args[0] if s[i].op == 'and'
                                   else (s[i],)))
            b = set(x.id for x in (s[j].args[0] if s[j].op == 'and'
                                   else (s[j],)))
            da = a - b
            db = b - a
            if len(da) == 1 and len(db) == 1:
                xa = [x for x in (s[i].args[0] if s[i].op == 'and'
                                  else (s[i],)) if x.id in da][0]
                xb = [x for x in (s[j].args[0] if s[j].op == 'and'
                                  else (s[j],)) if x.id in db][0]
                if not_(xa) is xb:
                    com = [x for x in (s[i].args[0] if s[i].op == 'and'
                                       else (s[i],)) if x.id not in da]
                    rest = [x for k, x in enumerate(s) if k not in (i, j)]
                    return or_(and_(*com), *rest)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda x: x.id)
    return mk('or', tuple(s), sort='b')


def ite(c, a, b):
    c = tt(c)
    a = tt(a)
    b = tt(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    if a.sort == 'b' and b.sort == 'b':
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    s = a.sort if a.sort == b.sort else (
        'f' if a.sort in 'ifb' and b.sort in 'ifb' else 'o')
    if a.sort in 'ib' and b.sort in 'ib':
        s = 'i'
    return mk('ite', c, a, b, sort=s)


def assume(t, c, val):
    """simplify t under the assumption that the atom c has the value val"""
    d = {}
    if c.op == 'and' and val:
        for x in c.args[0]:
            d[x.id] = TRUE
            n = not_(x)
            d[n.id] = FALSE
    elif c.op == 'or' and not val:
        for x in c.args[0]:
            d[x.id] = FALSE
            d[not_(x).id] = TRUE
    d[c.id] = TRUE if val else FALSE
    n = not_(c)
    d[n.id] = FALSE if val else TRUE
    ks = [c, n]
    if len(d) > 2:
        ks += [x for x in c.args[0]] + [not_(x) for x in c.args[0]]
    return replace(t, d, ks)


# ---- binders --------------------------------------------------------------
def bind(op, v, dim, body, sort):
    lv = max(body.h, 0)
    b = bv(lv)
    return mk(op, lv, tt(dim), rename(body, {v.id: b}), sort=sort)


def open_(t, e):
    lv = t.args[0]
    return subst(t.args[2], {bv(lv).id: tt(e)})


def sel(M, dim=None):
    """indexes of the true entries of the one dimensional mask M"""
    t = mk('sel', M, sort='i')
    if t.id not in DIMS:
        d = dims_of(M)[0]
        v = iv(d)
        DIMS[t.id] = (sum_(v, d, elem(M, v)),)
        NONNEG.add(DIMS[t.id][0])
    return t


def unsel(v, dim, *bodies):
    """when v only occurs in elem(sel(M), v) and ranges over all of sel(M),
    quantify over the selected indexes themselves"""
    for b in bodies:
        for c in ops_in(b, lambda x: x.op == 'elem' and x.args[0].op == 'sel'
                        and x.args[1][0] is v):
            S = c.args[0]
            if v.id in S.fv or DIMS.get(S.id) is None or \
                    DIMS[S.id][0] is not dim:
                continue
            d = dims_of(S.args[0])[0]
            w = iv(d)
            nb = [replace(x, {c.id: w}) for x in bodies]
            if any(v.id in x.fv for x in nb):
                continue
            return w, d, elem(S.args[0], w), nb
    return None


def sum_(v, dim, body):
    dim = tt(dim)
    body = tt(body)
    n = numval(dim)
    if v.id in body.fv and n is None:
        u = unsel(v, dim, body)
        if u is not None:
            return sum_(u[0], u[1], ite(u[2], u[3][0], ZERO)
                        if u[3][0].op == 'ite' else mul(u[2], u[3][0]))
    if n is not None and n <= 0:
        return ZERO
    if n is not None and n <= 4 and v.id in body.fv:
        return add(*[subst(body, {v.id: num(i)}) for i in range(int(n))])
    if body.op == 'ite' and body.args[1].sort in 'ifb' and \
            v.id not in body.args[0].fv:
        return ite(body.args[0], sum_(v, dim, body.args[1]),
                   sum_(v, dim, body.args[2]))
    out = []
    for m, c in to_poly(body).items():
        free = tuple((a, e) for a, e in m if v.id not in a.fv)
        dep = tuple((a, e) for a, e in m if v.id in a.fv)
        f = from_poly({free: c})
        if not dep:
            out.append(mul(f, dim))
            continue
        # delta elimination
        hit = None
        for a, e in dep:
            if a.op == 'eq' and e == 1:
                x, y = a.args
                if x is v and v.id not in y.fv and y.sort == 'i':
                    hit = (a, y)
                elif y is v and v.id not in x.fv and x.sort == 'i':
                    hit = (a, x)
                if hit:
                    break
        if hit:
            a0, e0 = hit
            rest = from_poly({tuple((a, e) for a, e in dep if a is not a0):
                              Fraction(1)})
            r = subst(rest, {v.id: e0})
            g = in_range(e0, dim)
            out.append(mul(mul(f, r), g))
            continue
        d = from_poly({dep: Fraction(1)})
        if d.sort == 'b' and d.op in ('iv', 'bv'):
            pass
        s = 'i' if d.sort in 'ib' else 'f'
        out.append(mul(f, bind('sum', v, dim, d, s)))
    return add(*out) if out else ZERO


def in_range(e, dim):
    e = tt(e)
    if e.op == 'iv' and IVDIM.get(e.id) is dim:
        return TRUE
    va, vd = numval(e), numval(dim)
    if va is not None and vd is not None:
        return TRUE if 0 <= va < vd else FALSE
    return and_(le(ZERO, e), lt(e, dim))


def any_(v, dim, body):
    body = truth(body)
    if body is FALSE:
        return FALSE
    dim = tt(dim)
    n = numval(dim)
    if n is None and v.id in body.fv:
        u = unsel(v, dim, body)
        if u is not None:
            return any_(u[0], u[1], and_(u[2], u[3][0]))
    if n is not None and n <= 0:
        return FALSE
    if n is not None and n <= 6:
        return or_(*[subst(body, {v.id: num(i)}) for i in range(int(n))])
    if v.id not in body.fv:
        return and_(body, lt(ZERO, dim))
    if body.op == 'or':
        return or_(*[any_(v, dim, x) for x in body.args[0]])
    cs = body.args[0] if body.op == 'and' else (body,)
    free = [c for c in cs if v.id not in c.fv]
    dep = [c for c in cs if v.id in c.fv]
    for c in dep:
        if c.op == 'eq':
            x, y = c.args
            e = None
            if x is v and v.id not in y.fv and y.sort == 'i':
                e = y
            elif y is v and v.id not in x.fv and x.sort == 'i':
                e = x
            if e is not None:
                r = subst(and_(*[d for d in dep if d is not c]), {v.id: e})
                return and_(r, in_range(e, tt(dim)), *free)
    return and_(bind('any', v, dim, and_(*dep), 'b'), *free)


def all_(v, dim, body):
    return not_(any_(v, dim, not_(truth(body))))


def red(op, v, dim, body):
    """prod, amax, amin, argmax, argmin over one index"""
    body = tt(body)
    n = numval(tt(dim))
    if n is not None and op in ('amax', 'amin') and 1 <= n <= 6:
        r = subst(body, {v.id: num(0)})
        for i in range(1, int(n)):
            r = app('max2' if op == 'amax' else 'min2', r,
                    subst(body, {v.id: num(i)}))
        return r
    if v.id not in body.fv and op in ('amax', 'amin'):
        return body
    s = 'i' if op.startswith('arg') or body.sort in 'ib' else 'f'
    return bind(op, v, dim, body, s)


def lam(vs, dims, body):
    """array as a term"""
    body = tt(body)
    dims = tuple(tt(d) for d in dims)
    # eta
    if body.op == 'elem' and len(body.args[1]) == len(vs) and \
            all(a is b for a, b in zip(body.args[1], vs)) and \
            not any(v.id in body.args[0].fv for v in vs):
        d = DIMS.get(body.args[0].id)
        if d is None or tuple(d) == dims:
            return body.args[0]
    lv = body.h
    lvs = tuple(range(lv, lv + len(vs)))
    m = {v.id: bv(l) for v, l in zip(vs, lvs)}
    return mk('lam', lvs, dims, rename(body, m), sort=body.sort)


DIMS = {}
BOX = [None]


_FV = {}


def free_vars(t):
    """the free variables of a term, in order of occurrence"""
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen or not x.fv:
            continue
        seen.add(x.id)
        if x.op in ('iv', 'bv', 'phi'):
            if x.id in t.fv:
                out.append(x)
            continue
        ch = []
        _scan(x.args[2] if x.op == 'box' else x.args, ch)
        st.extend(reversed(ch))
    return out


def box(L):
    """an array term that is not expanded where it is read: a definition
    with its free variables as parameters"""
    fvs = free_vars(L)
    m = {}
    ps = []
    for k, x in enumerate(fvs):
        if x.op == 'phi':
            p = mk('phi', -1 - k, x.args[1], x.args[2], sort=x.sort)
        else:
            p = mk('phi', -1 - k, None, 'i', sort='i')
        ps.append(p)
        m[x.id] = p
    t = mk('box', rename(L, m), tuple(ps), tuple(fvs), sort=L.sort)
    if L.op == 'lam':
        DIMS[t.id] = tuple(L.args[1])
    return t


def rebox(t, go):
    r = mk('box', t.args[0], t.args[1], tuple(go(x) for x in t.args[2]),
           sort=t.sort)
    if r.id not in DIMS and t.id in DIMS:
        DIMS[r.id] = tuple(go(d) for d in DIMS[t.id])
    return r


def unbox(t):
    return subst(t.args[0], {p.id: x for p, x in zip(t.args[1], t.args[2])})


def dims_of(A):
    if A.op == 'lam':
        return A.args[1]
    return DIMS.get(A.id)


def elem(A, *idx):
    idx = tuple(tt(i) for i in idx)
    if A.op == 'lam':
        return subst(A.args[2], {bv(l).id: i
                                 for l, i in zip(A.args[0], idx)})
    if A.op == 'ite':
        return ite(A.args[0], elem(A.args[1], *idx), elem(A.args[2], *idx))
    if A.op == 'sel' and idx[0].op == 'rank' and idx[0].args[0] is A.args[0]:
        return idx[0].args[1]
    if A.op == 'uniq' and idx[0].op == 'pos' and idx[0].args[0] is A:
        return idx[0].args[1]
    if A.op == 'tab':
        k = numval(idx[0])
        if k is not None and -len(A.args[0]) <= k < len(A.args[0]):
            return A.args[0][int(k)]
    return mk('elem', A, idx, sort=A.sort)


def tab(vals):
    vals = tuple(tt(v) for v in vals)
    ss = set(v.sort for v in vals)
    s = ss.pop() if len(ss) == 1 else (
        'i' if ss <= set('ib') else 'f' if ss <= set('ifb') else 'o')
    t = mk('tab', vals, sort=s)
    DIMS[t.id] = (num(len(vals)),)
    return t


def arrop(op, *args, **kw):
    """array valued operator; dims recorded"""
    t = mk(op, *args, sort=kw.get('sort', 'f'), opq=kw.get('opq', False))
    if 'dims' in kw:
        DIMS[t.id] = tuple(tt(d) for d in kw['dims'])
    return t


def dmap(v, dim, k, val):
    """dictionary {k(v): val(v)}"""
    k = tt(k)
    val = tt(val)
    lv = max(k.h, val.h)
    m = {v.id: bv(lv)}
    return mk('dmap', lv, tt(dim), rename(k, m), rename(val, m), sort='o')


def dhas(D, k):
    k = tt(k)
    if D.op == 'dlit':
        return or_(*[eq(k, a) for a, b in D.args[0]])
    if D.op == 'dupd':
        return or_(eq(k, D.args[1]), dhas(D.args[0], k))
    if D.op == 'dmap':
        kk = D.args[2]
        if kk.op == 'elem' and kk.args[0].op == 'uniq' and \
                kk.args[1][0] is bv(D.args[0]) and \
                DIMS[kk.args[0].id][0] is D.args[1]:
            return isin(k, kk.args[0])
    return mk('dhas', D, k, sort='b')


def dget(D, k, sort=None):
    k = tt(k)
    if D.op == 'dupd':
        return ite(eq(k, D.args[1]), D.args[2], dget(D.args[0], k))
    s = sort or (D.args[3].sort if D.op == 'dmap' else 'o')
    if D.op == 'asym_dict':
        s = 'i'
    if D.op == 'dinv':
        s = 'i'
    return mk('dget', D, k, sort=s)


def lastw(v, dim, cond, val, init):
    """value of the last v in [0, dim) for which cond, else init"""
    cond = tt(cond)
    val = tt(val)
    init = tt(init)
    if cond is FALSE:
        return init
    # unique solution v == e
    cs = cond.args[0] if cond.op == 'and' else (cond,)
    for c in cs:
        if c.op == 'eq':
            x, y = c.args
            e = None
            if x is v and v.id not in y.fv and y.sort == 'i':
                e = y
            elif y is v and v.id not in x.fv and x.sort == 'i':
                e = x
            if e is not None:
                rest = subst(and_(*[d for d in cs if d is not c]), {v.id: e})
                return ite(and_(in_range(e, tt(dim)), rest),
                           subst(val, {v.id: e}), init)
    if v.id not in val.fv:
        return ite(any_(v, dim, cond), val, init)
    lv = max(cond.h, val.h)
    m = {v.id: bv(lv)}
    return mk('lastw', lv, tt(dim), rename(cond, m), rename(val, m), init,
              sort=val.sort if val.sort == init.sort else
              ('i' if val.sort in 'ib' and init.sort in 'ib' else
               'f' if val.sort in 'ifb' and init.sort in 'ifb' else 'o'))


def mk_rec(phis, inits, nexts, v, n, stop, which):
    """value of the loop-carried quantity number which at the start of
    iteration n (or of the first iteration for which stop holds); which == -1:
    stopped before n; which == -2: number of completed iterations"""
    ck = (tuple(p.id for p in phis), tuple(x.id for x in nexts), v.id,
          stop.id)
    hit = _RECC.get(ck)
    if hit is None:
        hit = _RECC[ck] = _rec_parts(phis, nexts, v, stop)
    cps, nx, w, st = hit
    if which == -1:
        s = 'b'
    elif which == -2:
        s = 'i'
    else:
        s = phis[which].sort
    t = mk('rec', cps, tuple(inits), nx, w, tt(n), st, which, sort=s)
    if which >= 0 and phis[which].id in DIMS:
        DIMS[t.id] = DIMS[phis[which].id]
    if which == -2:
        NONNEG.add(t)
    return t


_RECC = {}


def _rec_parts(phis, nexts, v, stop):
    lv = max([x.h for x in nexts] + [stop.h])
    m = {v.id: bv(lv)}
    cps = []
    for k, p in enumerate(phis):
        q = mk('phi', ('c', lv, k), p.args[1], p.args[2], sort=p.sort)
        if p.id in DIMS and q.id not in DIMS:
            DIMS[q.id] = DIMS[p.id]
        cps.append(q)
        m[p.id] = q
    return (tuple(cps), tuple(subst(x, m) for x in nexts), bv(lv),
            subst(stop, m))


# ---- substitution ---------------------------------------------------------
def subst(t, m):
    """m : var id -> term.  Free variables only."""
    if not isinstance(t, T):
        return t
    keys = frozenset(m)
    if not (t.fv & keys):
        return t
    return _subst(t, m, keys, {})


def _subst(t, m, keys, memo):
    if not (t.fv & keys):
        return t
    r = m.get(t.id)
    if r is not None:
        return r
    r = memo.get(t.id)
    if r is not None:
        return r

    def go(x):
        if isinstance(x, T):
            return _subst(x, m, keys, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    if t.op in BINDERS:
        r = _open_subst(t, m, keys, go)
    elif t.op == 'rec' and not (_rec_fv(t) & keys):
        r = relimit(t, tuple(go(x) for x in t.args[1]), go(t.args[4]), go)
    else:
        r = rebuild(t, go)
    memo[t.id] = r
    return r


_RECFV = {}


def _rec_fv(t):
    r = _RECFV.get(t.id)
    if r is None:
        a = t.args
        r = a[5].fv
        for x in a[2]:
            r = r | x.fv
        r = r - set(p.id for p in a[0]) - {a[3].id}
        _RECFV[t.id] = r
    return r


def relimit(t, inits, n, go):
    """the same recurrence with another start and limit"""
    a = t.args
    r = mk('rec', a[0], inits, a[2], a[3], n, a[5], a[6], sort=t.sort)
    if r is not t:
        if t.id in DIMS and r.id not in DIMS:
            DIMS[r.id] = tuple(go(d) for d in DIMS[t.id])
        if t in NONNEG:
            NONNEG.add(r)
    return r


def rename(t, m):
    """replace variables by other variables, keeping the structure (no capture
    is possible: the new names are not bound inside t)"""
    if not isinstance(t, T):
        return t
    keys = frozenset(m)
    if not (t.fv & keys):
        return t
    memo = dict(m)

    def go(x):
        if not x.fv or not (x.fv & keys):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        op = x.op
        a = x.args
        if op == 'poly':
            d = {}
            for mo, c in a[0]:
                nm = sorted([(go(at), e) for at, e in mo],
                            key=lambda z: z[0].id)
                nm = tuple(nm)
                d[nm] = d.get(nm, 0) + c
            r = from_poly(d)
        elif op == 'eq':
            r = eq(go(a[0]), go(a[1]))
        elif op == 'inv':
            r = inv(go(a[0]))
        elif op == 'lt':
            r = lt(go(a[0]), go(a[1]))
        elif op == 'le':
            r = le(go(a[0]), go(a[1]))
        elif op == 'not':
            r = not_(go(a[0]))
        elif op in ('and', 'or'):
            xs = [go(y) for y in a[0]]
            if len(set(y.id for y in xs)) != len(xs) or any(
                    y.op in ('true', 'false', op) for y in xs):
                r = and_(*xs) if op == 'and' else or_(*xs)
            else:
                xs.sort(key=lambda y: y.id)
                r = mk(op, tuple(xs), sort='b')
        elif op == 'mulx':
            r = mul(go(a[0]), go(a[1]))
        elif op == 'box':
            r = rebox(x, go)
        else:
            r = mk(op, *[gg(y) for y in a], sort=x.sort,
                   opq=x.opq and op in ('uf', 'ufarr'))
        if r is not x:
            if x.id in DIMS and r.id not in DIMS:
                DIMS[r.id] = tuple(go(d) for d in DIMS[x.id])
            if x in NONNEG:
                NONNEG.add(r)
        memo[x.id] = r
        return r

    def gg(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(gg(z) for z in y)
        return y
    return go(t)


_OV = {}


def openvar(l, dim, *avoid):
    """index variable for a binder of level l that is being rebuilt; the same
    one each time, so that rebuilt terms are shared"""
    k = (l, dim.id if dim is not None else None)
    v = _OV.get(k)
    if v is None:
        v = _OV[k] = iv(dim)
    for a in avoid:
        if v.id in a:
            return iv(dim)
    return v


def _open_subst(t, m, keys, go):
    """substitution below a binder: one pass opens it and substitutes"""
    op = t.op
    a = t.args
    fvs = [t.fv] + [x.fv for x in m.values()]
    if op == 'lam':
        dims = tuple(go(d) for d in a[1])
        vs = []
        used = set()
        for l, d in zip(a[0], dims):
            v = openvar(l, d, used, *fvs)
            used.add(v.id)
            vs.append(v)
        m2 = dict(m)
        for l, v in zip(a[0], vs):
            m2[bv(l).id] = v
        return lam(vs, dims, _subst(a[2], m2, frozenset(m2), {}))
    dim = go(a[1])
    v = openvar(a[0], dim, *fvs)
    m2 = dict(m)
    m2[bv(a[0]).id] = v
    k2 = frozenset(m2)
    memo = {}
    if op == 'dmap':
        return dmap(v, dim, _subst(a[2], m2, k2, memo),
                    _subst(a[3], m2, k2, memo))
    if op == 'lastw':
        return lastw(v, dim, _subst(a[2], m2, k2, memo),
                     _subst(a[3], m2, k2, memo), go(a[4]))
    body = _subst(a[2], m2, k2, memo)
    if op == 'sum':
        return sum_(v, dim, body)
    if op == 'any':
        return any_(v, dim, body)
    return red(op, v, dim, body)


def replace(t, d, keys=None):
    """replace whole subterms (by id); not under binders that capture"""
    memo = {}
    kk = None
    if keys is not None:
        kk = [(k.id, k.fv, k.syms) for k in keys]

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = d.get(x.id)
        if r is not None:
            return r
        r = memo.get(x.id)
        if r is None:
            if kk is not None:
                # a term is created after its subterms
                xi = x.id
                for (i, fv, sy) in kk:
                    if i < xi and fv <= x.fv and sy <= x.syms:
                        break
                else:
                    return x
            if not x.args or x.op in ('num', 'sym', 'asym', 'iv', 'bv', 'str'):
                r = x
            else:
                changed = []

                def g2(y):
                    z = go(y)
                    if z is not y and z != y:
                        changed.append(1)
                    return z
                na = tuple(g2(a) if isinstance(a, (T, tuple)) else a
                           for a in x.args)
                if changed:
                    r = rebuild(x, go)
                else:
                    r = x
            memo[x.id] = r
        return r
    return go(t)


def rebuild(t, go):
    """rebuild a node with children mapped by go, renormalising"""
    op = t.op
    a = t.args
    if op == 'poly':
        out = []
        for m, c in a[0]:
            r = num(c)
            for atom, e in m:
                x = go(atom)
                if e >= 0:
                    for _ in range(e):
                        r = mul(r, x)
                else:
                    y = inv(x)
                    for _ in range(-e):
                        r = mul(r, y)
            out.append(r)
        return add(*out)
    if op == 'mulx':
        return mul(go(a[0]), go(a[1]))
    if op == 'inv':
        return inv(go(a[0]))
    if op == 'app':
        if a[0] == 'pow':
            return power(go(a[1][0]), go(a[1][1]))
        return app(a[0], *[go(x) for x in a[1]], sort=t.sort) \
            if a[0] not in SORTS or SORTS[a[0]] is not None \
            else app(a[0], *[go(x) for x in a[1]])
    if op == 'uf':
        return mk('uf', a[0], tuple(go(x) for x in a[1]), sort=t.sort,
                  opq=True)
    if op == 'eq':
        return eq(go(a[0]), go(a[1]))
    if op == 'lt':
        return lt(go(a[0]), go(a[1]))
    if op == 'le':
        return le(go(a[0]), go(a[1]))
    if op == 'not':
        return not_(go(a[0]))
    if op == 'and':
        return and_(*[go(x) for x in a[0]])
    if op == 'or':
        return or_(*[go(x) for x in a[0]])
    if op == 'ite':
        return ite(go(a[0]), go(a[1]), go(a[2]))
    if op in ('sum', 'any', 'prod', 'amax', 'amin', 'argmax', 'argmin'):
        dim = go(a[1])
        v = iv(dim)
        body = go(subst(a[2], {bv(a[0]).id: v}))
        if op == 'sum':
            return sum_(v, dim, body)
        if op == 'any':
            return any_(v, dim, body)
        return red(op, v, dim, body)
    if op == 'lam':
        dims = tuple(go(d) for d in a[1])
        vs = [iv(d) for d in dims]
        body = go(subst(a[2], {bv(l).id: v for l, v in zip(a[0], vs)}))
        return lam(vs, dims, body)
    if op == 'dmap':
        dim = go(a[1])
        v = iv(dim)
        m = {bv(a[0]).id: v}
        return dmap(v, dim, go(subst(a[2], m)), go(subst(a[3], m)))
    if op == 'lastw':
        dim = go(a[1])
        v = iv(dim)
        m = {bv(a[0]).id: v}
        return lastw(v, dim, go(subst(a[2], m)), go(subst(a[3], m)), go(a[4]))
    if op == 'rec':
        m = {a[3].id: iv()}
        v = m[a[3].id]
        ps = []
        for q in a[0]:
            p = phi(q.args[2], q.args[1])
            if q.id in DIMS:
                DIMS[p.id] = tuple(go(d) for d in DIMS[q.id])
            m[q.id] = p
            ps.append(p)
        return mk_rec(ps, [go(x) for x in a[1]],
                      [go(subst(x, m)) for x in a[2]], v, go(a[4]),
                      go(subst(a[5], m)), a[6])
    if op == 'box':
        return rebox(t, go)
    if op == 'elem':
        return elem(go(a[0]), *[go(x) for x in a[1]])
    if op == 'tab':
        return tab([go(x) for x in a[0]])
    if op == 'dhas':
        return dhas(go(a[0]), go(a[1]))
    if op == 'dget':
        return dget(go(a[0]), go(a[1]), t.sort)
    if op == 'pos':
        return pos(go(a[0]), go(a[1]))
    if op == 'isin':
        return isin(go(a[0]), go(a[1]))
    if op == 'sel':
        return sel(go(a[0]))
    if op == 'rank':
        return rank(go(a[0]), go(a[1]))

    def gg(x):
        if isinstance(x, T):
            return go(x)
        if isinstance(x, tuple):
            return tuple(gg(y) for y in x)
        return x
    na = tuple(gg(x) for x in a)
    r = mk(op, *na, sort=t.sort, opq=t.opq and op in ('uf', 'ufarr'))
    if t.id in DIMS and r.id not in DIMS:
        DIMS[r.id] = tuple(go(d) for d in DIMS[t.id])
    return r


def pos(A, x):
    """index of x in the one dimensional array A (first occurrence)"""
    x = tt(x)
    if A.op in ('uniq',) and x.op == 'elem' and x.args[0] is A:
        return x.args[1][0]
    return mk('pos', A, x, sort='i')


def lastpos(A, x):
    x = tt(x)
    if A.op in ('uniq', 'sel'):
        if A.op == 'sel':
            return mk('rank', A.args[0], x, sort='i')
        return pos(A, x)
    return mk('lastpos', A, x, sort='i')


def rank(M, j):
    j = tt(j)
    if j.op == 'elem' and j.args[0].op == 'sel' and j.args[0].args[0] is M:
        return j.args[1][0]
    return mk('rank', M, j, sort='i')


def isin(x, A):
    """x is an element of the array A"""
    x = tt(x)
    if A.op == 'uniq':
        if x.op == 'elem' and x.args[0] is A:
            return TRUE
        A = A.args[0]
    if A.op == 'sel':
        return and_(in_range(x, dims_of(A.args[0])[0]),
                    elem(A.args[0], x))
    if A.op == 'tab':
        return or_(*[eq(x, y) for y in A.args[0]])
    if A.op == 'lam':
        m = match(A.args[2], x, {bv(l).id: None for l in A.args[0]})
        if m is not None:
            rs = [TRUE if m[bv(l).id] is None else
                  in_range(m[bv(l).id], d)
                  for l, d in zip(A.args[0], A.args[1])]
            # an unused index needs a non-empty dimension
            rs += [lt(ZERO, d) for l, d in zip(A.args[0], A.args[1])
                   if m[bv(l).id] is None]
            if and_(*rs) is TRUE:
                return TRUE
    elif A.op == 'asym' and x.op == 'elem' and x.args[0] is A and \
            dims_of(A) is not None:
        if and_(*[in_range(e, d) for e, d in zip(x.args[1],
                                                 dims_of(A))]) is TRUE:
            return TRUE
    return mk('isin', x, A, sort='b')


def match(pat, t, m):
    """substitution of the variables in m that makes pat equal to t"""
    m = dict(m)

    def go(p, t):
        if p is t:
            return True
        if isinstance(p, T):
            if p.id in m:
                if m[p.id] is None:
                    m[p.id] = t
                    return isinstance(t, T)
                return m[p.id] is t
            if not isinstance(t, T) or p.op != t.op or \
                    len(p.args) != len(t.args) or not p.fv:
                return False
            return all(go(a, b) for a, b in zip(p.args, t.args))
        if isinstance(p, tuple):
            return isinstance(t, tuple) and len(p) == len(t) and \
                all(go(a, b) for a, b in zip(p, t))
        return p == t
    return m if go(pat, t) else None


# ---- differentiation ------------------------------------------------------
class NotDifferentiable(Exception):
    pass


def diff(t, A, idx):
    """derivative of the scalar t with respect to A[idx]"""
    if not _mentions(t, A):
        return ZERO
    op = t.op
    if op == 'box':
        return diff(unbox(t), A, idx)
    if op == 'poly':
        out = []
        for m, c in t.args[0]:
            for k in range(len(m)):
                a, e = m[k]
                if not _mentions(a, A):
                    continue
                da = diff(a, A, idx)
                rest = list(m)
                rest[k] = (a, e - 1)
                r = num(c * e)
                for b, f in rest:
                    if f >= 0:
                        r = mul(r, power(b, f))
                    else:
                        r = mul(r, power(inv(b), -f))
                out.append(mul(r, da))
        return add(*out) if out else ZERO
    if op == 'mulx':
        return add(mul(diff(t.args[0], A, idx), t.args[1]),
                   mul(t.args[0], diff(t.args[1], A, idx)))
    if op == 'elem' and t.args[0].op == 'box':
        return diff(elem(unbox(t.args[0]), *t.args[1]), A, idx)
    if op == 'elem':
        if t.args[0] is A:
            return and_(*[eq(i, j) for i, j in zip(t.args[1], idx)])
        raise NotDifferentiable(show(t))
    if op == 'inv':
        return neg(mul(mul(t, t), diff(t.args[0], A, idx)))
    if op == 'sum':
        v = iv(t.args[1])
        body = open_(t, v)
        return sum_(v, t.args[1], diff(body, A, idx))
    if op == 'ite':
        if _mentions(t.args[0], A):
            # piecewise: the derivative almost everywhere
            pass
        return ite(t.args[0], diff(t.args[1], A, idx),
                   diff(t.args[2], A, idx))
    if op == 'app':
        f = t.args[0]
        xs = t.args[1]
        if f in ('min2', 'max2'):
            x, y = xs
            c = le(x, y) if f == 'min2' else le(y, x)
            return ite(c, diff(x, A, idx), diff(y, A, idx))
        d = diff(xs[0], A, idx)
        x = xs[0]
        if f == 'log':
            return mul(inv(x), d)
        if f == 'exp':
            return mul(t, d)
        if f == 'expit':
            return mul(mul(t, sub(ONE, t)), d)
        if f == 'sqrt':
            return mul(mul(num(Fraction(1, 2)), inv(t)), d)
        if f == 'log1p':
            return mul(inv(add(ONE, x)), d)
        if f == 'tanh':
            return mul(sub(ONE, mul(t, t)), d)
        if f == 'clip':
            lo, hi = xs[1], xs[2]
            return mul(and_(le(lo, x), le(x, hi)), d)
        if f == 'logaddexp':
            # d log(e^x + e^y)
            y = xs[1]
            w = app('expit', sub(x, y))
            return add(mul(w, d), mul(sub(ONE, w), diff(y, A, idx)))
        if f == 'pow' and not _mentions(xs[1], A):
            return mul(mul(xs[1], power(x, sub(xs[1], ONE))), d)
        if f == 'abs':
            return mul(app('sign', x), d)
        raise NotDifferentiable(f)
    raise NotDifferentiable(op)


def _mentions(t, A):
    if isinstance(t, T):
        if t is A:
            return True
        if not (A.syms <= t.syms):
            return False
        return any(_mentions(x, A) for x in t.args)
    if isinstance(t, tuple):
        return any(_mentions(x, A) for x in t)
    return False


mentions = _mentions


def ops_in(t, pred, seen=None):
    """all subterms satisfying pred"""
    seen = set() if seen is None else seen
    out = []
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if pred(x):
                out.append(x)
            stack.extend(x.args[2:] if x.op == 'box' else x.args)
    return out


# ---- printing -------------------------------------------------------------
def show(t, depth=0, lim=14):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth, lim) for x in t) + ')'
        return str(t)
    if depth > lim:
        return '...'
    s = lambda x: show(x, depth + 1, lim)  # noqa
    op = t.op
    a = t.args
    if op == 'num':
        return str(a[0])
    if op in ('sym', 'asym'):
        return a[0]
    if op == 'iv':
        return 'i%d' % a[0]
    if op == 'bv':
        return 'b%d' % a[0]
    if op == 'phi':
        return 'phi%s' % (a[0],)
    if op in ('true', 'false', 'none'):
        return op
    if op == 'str':
        return repr(a[0])
    if op == 'fconst':
        return a[0]
    if op == 'poly':
        out = []
        for m, c in a[0]:
            fs = [s(x) + ('' if e == 1 else '^%d' % e) for x, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append('*'.join(fs))
        return '(' + ' + '.join(out) + ')'
    if op == 'elem':
        return s(a[0]) + '[' + ', '.join(s(x) for x in a[1]) + ']'
    if op in ('app', 'uf'):
        return a[0] + '(' + ', '.join(s(x) for x in a[1]) + ')'
    if op in ('eq', 'lt', 'le'):
        return '[%s %s %s]' % (s(a[0]), {'eq': '==', 'lt': '<',
                                         'le': '<='}[op], s(a[1]))
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(s(x) for x in a[0]) + ')'
    if op == 'not':
        return 'not ' + s(a[0])
    if op == 'ite':
        return '(%s if %s else %s)' % (s(a[1]), s(a[0]), s(a[2]))
    if op in ('sum', 'any', 'prod', 'amax', 'amin', 'argmax', 'argmin'):
        return '%s{b%d<%s}(%s)' % (op, a[0], s(a[1]), s(a[2]))
    if op == 'lam':
        return 'lam{%s}(%s)' % (', '.join(
            'b%d<%s' % (l, s(d)) for l, d in zip(a[0], a[1])), s(a[2]))
    return op + '(' + ', '.join(s(x) for x in a) + ')'


# ---- construction is memoised ----------------------------------------------
def _memo(f, nargs=None):
    cache = {}

    def g(*ts):
        try:
            k = tuple([t.id if isinstance(t, T) else tt(t).id for t in ts])
        except TypeError:
            return f(*ts)
        r = cache.get(k)
        if r is None:
            r = cache[k] = f(*ts)
        return r
    g.__name__ = f.__name__
    g.__doc__ = f.__doc__
    return g


for _n in ('add', 'neg', 'sub', 'mul', 'inv', 'eq', 'lt', 'le', 'not_',
           'and_', 'or_', 'ite'):
    globals()[_n] = _memo(globals()[_n])
