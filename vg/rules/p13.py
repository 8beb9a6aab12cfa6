import math

from .mf import *
from ..rt import Ev, outcome, Cannot, EvalErr, Nd

EXTRA = '''
from kamrecsys.utils import safe_sigmoid


def sig(x):
    return safe_sigmoid(x)


def sig_ref(x):
    return 1.0 / (1.0 + np.exp(-x))


def pred(kind, d, ix, C, k, seed, kw, ev):
    return fit(kind, d, ix, C, k, seed, kw).raw_predict(ev)


def pred_loss(kind, d, ix, C, k, seed, kw):
    m = fit(kind, d, ix, C, k, seed, kw)
    return REC['loss']
'''

POINTS = [0.0, 1e-300, 1e-16, 0.5, 1.0, 5.0, 20.0, 30.0, 33.0, 34.0, 34.5,
          34.538776394910684, 34.54, 34.6, 35.0, 35.5, 36.0, 36.5, 36.7,
          36.74, 36.8, 37.0, 37.5, 38.0, 40.0, 50.0, 100.0, 700.0, 709.0,
          710.0, 744.0, 746.0, 1000.0, 1e5, 1e15, 1e100, 1e300, 1e308]
POINTS = POINTS + [-x for x in POINTS]


def inside(v):
    vs = v.flat if isinstance(v, Nd) else [v]
    for p in vs:
        if isinstance(p, EvalErr):
            raise Cannot(str(p))
        p = float(p)
        if not 0.0 < p < 1.0:
            return 'probability %r' % p
        if not (math.isfinite(math.log(p)) and
                math.isfinite(math.log(1.0 - p))):
            return 'logarithm of %r' % p
    return None


def finite(v):
    return None if math.isfinite(float(v)) else 'loss %r' % v


def holds(R, name, S, ps, models, pred, where):
    """a predicate of the value graph at every model, in binary64"""
    R.note(S, ps)
    used, why = 0, 'no model'
    for m in models:
        ev = Ev(m)
        try:
            o = outcome(S.I, ps, ev)
        except (Cannot, EvalErr) as e:
            why = str(e)
            continue
        if o[0] == 'raise':
            if ev.opaque:
                why = 'opaque'
                continue
            R.violation(name, o[2] or where, 'raises %s' % o[1],
                        model=m.show())
            return
        try:
            bad = pred(o[1])
        except (Cannot, EvalErr, TypeError) as e:
            why = str(e)
            continue
        if ev.opaque:
            why = 'opaque functions'
            continue
        used += 1
        R.models_used += 1
        if bad:
            R.violation(name, where, bad, model=m.show())
            return
    if used:
        R.add(name, 'agrees', '%d points' % used)
    else:
        R.add(name, 'undecided', why)


INF = float('inf')


class NoRange(Exception):
    pass


def up(x):
    return math.nextafter(x, INF) if math.isfinite(x) else x


def down(x):
    return math.nextafter(x, -INF) if math.isfinite(x) else x


def expo(x):
    if x == INF or x > 709.7:
        return INF
    return math.exp(x)


def rng(t):
    """interval of a term for all values of its inputs"""
    op = t.op
    if op in ('sym', 'elem'):
        return -INF, INF
    if op == 'num':
        v = float(t.args[0])
        return v, v
    if op == 'ite':
        a, b = rng(t.args[1]), rng(t.args[2])
        return min(a[0], b[0]), max(a[1], b[1])
    if op == 'inv':
        lo, hi = rng(t.args[0])
        if lo > 0:
            return (0.0 if hi == INF else down(1.0 / hi)), up(1.0 / lo)
        raise NoRange(op)
    if op == 'poly':
        lo = hi = 0.0
        for m, c in t.args[0]:
            a = b = float(c)
            for f, e in m:
                if e != 1:
                    raise NoRange('power')
                x, y = rng(f)
                q = [0.0 if 0.0 in (u, v) else u * v
                     for u in (a, b) for v in (x, y)]
                a, b = down(min(q)), up(max(q))
            if not m:
                pass
            lo, hi = lo + a, hi + b
        return lo, hi
    if op == 'app':
        f, xs = t.args[0], t.args[1]
        r = [rng(x) for x in xs]
        if f == 'min2':
            return min(r[0][0], r[1][0]), min(r[0][1], r[1][1])
        if f == 'max2':
            return max(r[0][0], r[1][0]), max(r[0][1], r[1][1])
        if f == 'clip':
            (a, b), (l, _), (_, h) = r
            return min(max(a, l), h), max(min(b, h), l)
        if f == 'exp':
            return max(0.0, down(down(expo(r[0][0])))), \
                up(up(expo(r[0][1])))
        if f == 'expit':
            # increasing; evaluated at both ends, two ulp outwards is less
            # than the distance of the clipped ends from 0 and 1
            a, b = r[0]
            lo = 0.0 if a < -745 else 1.0 / (1.0 + expo(-a))
            hi = 1.0 if b > 36.04 else up(up(1.0 / (1.0 + expo(-b))))
            return max(0.0, down(down(lo))), min(1.0, hi)
    raise NoRange(op)


def proved(R, name, S, ps):
    """interval analysis of the result over all inputs"""
    if len(ps) != 1 or ps[0].out[0] == 'raise':
        return
    base = S.I.save()
    S.I.restore(ps[0].state)
    try:
        v = ps[0].out[1]
        body = tt(S.I.scalarize(v)) if not hasattr(v, 'cid') else \
            S.I.read(v).body
        lo, hi = rng(body)
    except Exception:
        return
    finally:
        S.I.restore(base)
    if 0.0 < lo and hi < 1.0:
        R.add(name + ' (interval analysis: [%.3g, 1 - %.3g])' % (
            lo, 1.0 - hi), 'proved')


def check(R):
    R.rule('the value graph of the sigmoid is evaluated in binary64 over '
           'all ranges of its argument (clipping thresholds, saturation, '
           'overflow): the result and its complement are positive; within '
           '|x| <= 30 it is the logistic function')
    where = 'kamrecsys/utils/kammath.py:safe_sigmoid'
    mods = [Model({'x': x}) for x in POINTS]

    def scalar():
        S = Sess(SRC + EXTRA)
        I = Inp(S)
        x = I.real('x')
        ps = S.run('sig', x)
        proved(R, 'range of the sigmoid', S, ps)
        holds(R, 'sigmoid strictly inside (0, 1)', S, ps, mods, inside,
              where)

    def array():
        for dims in (('n',), ('n', 'm')):
            S = Sess(SRC + EXTRA)
            I = Inp(S)
            ds = tuple(I.int(d, 1, 6) for d in dims)
            x = I.arr('X', ds, 'f')
            vals = []
            for a in range(0, len(POINTS), 6):
                p = (POINTS + POINTS)[a:a + 6]
                sh = (6,) if len(dims) == 1 else (3, 2)
                v = {'X': Nd(sh, p), 'n': sh[0]}
                if len(dims) == 2:
                    v['m'] = sh[1]
                vals.append(Model(v))
            proved(R, 'range of the sigmoid of an array of %d dimensions' %
                   len(dims), S, S.run('sig', x))
            holds(R, 'sigmoid of an array of %d dimensions strictly inside '
                  '(0, 1)' % len(dims), S, S.run('sig', x), vals, inside,
                  where)
            I.arr('X', ds, 'f', lambda r, v, ix: r.uniform(-30, 30))
            R.decide('sigmoid of an array of %d dimensions is the logistic '
                     'function' % len(dims), S, S.run('sig', x), S,
                     S.run('sig_ref', x), I.gen, where, tol=1e-12)

    def ref():
        S = Sess(SRC + EXTRA)
        I = Inp(S)
        x = I.realf('x', lambda r, v: r.choice([
            r.uniform(-30, 30), r.uniform(-2, 2), -25.0, 25.0, 0.0]))
        R.decide('sigmoid is the logistic function', S, S.run('sig', x), S,
                 S.run('sig_ref', x), I.gen, where, n=40, tol=1e-12)

    def model(conf):
        def go():
            C = Case(conf, EXTRA, small=True)
            S = C.S
            C.I.int('$scale', 0, 5)
            m = C.I.int('m', 2, 4)
            V = C.I.arr('V', (m, 2), 'i', lambda r, v, x: r.randint(0, 1))
            eo, ix = C.eo, C.ix

            def ext(r, v):
                # sizes of the parameter blocks
                sz = []
                for e in ix:
                    cols = [c for c in range(len(eo)) if eo[c] == eo[e]]
                    sz.append(len(set(v['E'].get((a, c))
                                      for a in range(v['n'])
                                      for c in cols)))
                k = v.get('k', C.k if isinstance(C.k, int) else 1)
                s = [1.0, 20.0, 40.0, 800.0, 1e6, 1e100][v['$k'] % 6]
                nu, ni = sz
                for j, sh in enumerate([(1,), (nu,), (ni,), (nu, k),
                                        (ni, k)]):
                    n = 1
                    for d in sh:
                        n *= d
                    v['opt.x%d' % j] = Nd(sh, [
                        s * r.choice([-1, 1]) * r.random()
                        for _ in range(n)])
                n = 1 + nu + ni + k * (nu + ni)
                v['opt.x'] = Nd((n,), [y for j in range(5)
                                       for y in v['opt.x%d' % j].flat])
            C.I.post(ext)
            gen = list(R.models(C.I.gen, 24))
            nm = 'strictly inside (0, 1) for parameters of any size; '
            holds(R, 'predictions ' + nm + C.tag, S,
                  S.run('pred', *(C.args() + (V,))), gen, inside,
                  C.where + 'raw_predict')
            small = [x for x in gen if max(
                abs(y) for j in range(5)
                for y in x.values['opt.x%d' % j].flat) < 1e7]
            holds(R, 'loss finite for parameters of any size; ' + C.tag, S,
                  S.run('pred_loss', *C.args()), small, finite,
                  C.where + 'loss')
        R.guard('%s' % (conf,), go)
    jobs = [lambda: R.guard('sigmoid', scalar),
            lambda: R.guard('sigmoid of arrays', array),
            lambda: R.guard('logistic function', ref)]
    jobs += [lambda c=c: model(c) for c in CONF if c[0] != 'PMF']
    R.fan(jobs)
