from .common import *

SRC = '''
import numpy as np
from kamrecsys.metrics import score_histogram


def impl(x, dom):
    return score_histogram(x, score_domain=dom)


def impl_default(x):
    return score_histogram(x)


def spec(x, dom, m):
    lev = np.array([dom[0] + i * dom[2] for i in range(m + 1)])
    h = np.zeros(m + 1, dtype=int)
    for v in x:
        k = 0
        for i in range(m):
            if v - dom[0] >= (i + 0.5) * dom[2]:
                k += 1
        h[k] += 1
    return h, lev


def total(x, dom):
    h, lev = score_histogram(x, score_domain=dom)
    return (np.sum(h), len(h)), (len(x), len(lev))


def total_int(x, b):
    h, lev = score_histogram(x, score_domain=b)
    return (np.sum(h), len(h), len(lev)), (len(x), b, b)


def spec_int(x, b):
    lo = np.min(x)
    hi = np.max(x)
    if lo == hi:
        lo = lo - 0.5
        hi = hi + 0.5
    w = (hi - lo) / b
    e = [lo + i * w for i in range(b + 1)]
    h = np.zeros(b, dtype=int)
    for v in x:
        for i in range(b):
            if e[i] <= v and (v < e[i + 1] or (i == b - 1 and v <= hi)):
                h[i] += 1
    return h, np.array([lo + (i + 0.5) * w for i in range(b)])


def rejects(x, dom):
    try:
        score_histogram(x, score_domain=dom)
    except ValueError:
        return 'rejected', 'rejected'
    return 'accepted', 'rejected'
'''
ANCHOR = 'kamrecsys/metrics/real.py:score_histogram'
DOMS = [([1, 5, 1], 4), ([0.0, 1.0, 0.5], 2), ([-2.0, 2.0, 2.0], 2),
        ([0.5, 5.0, 0.5], 9), ([0, 1, 1], 1), ([2.0, 8.0, 1.5], 4),
        ([0.0, 0.3, 0.1], 3)]


def check(R):
    R.rule('histogram equals counts of the nearest level, half-way scores '
           'at the upper one; domains symbolic in position and stride, and '
           'listed; numbers of bins listed')
    inf = float('inf')

    def dom(d, m, sort):
        S = Sess(SRC)
        I = Inp(S)
        n = I.intf('n', lambda r, v: r.randint(1, 12))

        def score(r, v, ix):
            k = r.random()
            q = r.randint(-1, 2 * m + 1)
            if sort == 'i':
                return r.randint(int(d[0]) - 1, int(d[1]) + 1)
            if k < 0.6:
                # levels and half-way scores, away from rounding
                x = d[0] + q * d[2] / 2
                if d[2] == 0.1:
                    x = d[0] + (q + 0.3) * d[2] / 2
                return float(x)
            return d[0] + r.uniform(-1, m + 1) * d[2]
        x = I.arr('x', (n,), sort, score)
        for how in ('list', 'tuple', 'array'):
            if how == 'list':
                D = S.list(d)
            elif how == 'tuple':
                D = tuple(d)
            else:
                D = S.tab([float(q) for q in d], 'f')
            tag = ' of %s scores, domain %s as %s' % (sort, d, how)
            R.decide('histogram' + tag, S, S.run('impl', x, D), S,
                     S.run('spec', x, D, m), I.gen, ANCHOR)
            R.decide_pair('counts sum to the number of scores' + tag, S,
                          S.run('total', x, D), I.gen, ANCHOR)
        if d == [1, 5, 1]:
            R.decide('default domain', S, S.run('impl_default', x), S,
                     S.run('spec', x, S.list(d), m), I.gen, ANCHOR)
        if sort == 'f':
            def spoil(r, v):
                f = list(v['x'].flat)
                f[r.randrange(len(f))] = r.choice([inf, -inf, float('nan')])
                v['x'] = Nd(v['x'].shape, f)
            I.post(spoil)
            R.decide_pair('non-finite scores rejected; domain %s' % (d,), S,
                          S.run('rejects', x, S.list(d)), I.gen, ANCHOR)

    def symdom(m):
        S = Sess(SRC)
        I = Inp(S)
        n = I.intf('n', lambda r, v: r.randint(1, 10))
        lo = I.realf('lo', lambda r, v: r.randint(-16, 16) / 8.0)
        st = I.realf('st', lambda r, v: r.randint(1, 12) / 4.0)
        x = I.arr('x', (n,), 'f', lambda r, v, ix: v['lo'] + v['st'] *
                  r.randint(-2, 2 * m + 2) / 2.0)
        hi = I.realf('hi', lambda r, v: v['lo'] + m * v['st'])
        D = S.list([lo, hi, st])
        R.decide('histogram of any domain with %d levels' % (m + 1), S,
                 S.run('impl', x, D), S, S.run('spec', x, D, m), I.gen,
                 ANCHOR)

    def ints(b, sort, np_int=False):
        S = Sess(SRC, config={'numpy_scalars': True} if np_int else {})
        I = Inp(S)
        n = I.intf('n', lambda r, v: r.randint(1, 10))
        x = I.arr('x', (n,), sort, (lambda r, v, ix: r.randint(-3, 9))
                  if sort == 'i' else dyadic(-3, 6))

        def apart(r, v):
            # edges between the values, no rounding in comparisons
            f = [float(q) for q in v['x'].flat]
            lo, hi = min(f), max(f)
            w = (hi - lo) / b or 1.0
            for q in f:
                k = (q - lo) / w
                if abs(k - round(k)) < 1e-6 and 0 < round(k) < b and \
                        b & (b - 1):
                    return False
        I.post(apart)
        tag = ' of %s scores in %d bins%s' % (
            sort, b, ', as numpy integer' if np_int else '')
        nb = X.num(b) if np_int else b
        R.decide('histogram' + tag, S, S.run('impl', x, nb), S,
                 S.run('spec_int', x, b), I.gen, ANCHOR)
        R.decide_pair('counts sum to the number of scores' + tag, S,
                      S.run('total_int', x, nb), I.gen, ANCHOR)

    jobs = [lambda a=a, b=b, s=s: R.guard('domain %s' % a,
                                          lambda: dom(a, b, s))
            for a, b in DOMS for s in ('f', 'i')
            if s == 'f' or all(isinstance(q, int) for q in a)]
    jobs += [lambda b=b, s=s: R.guard('%d bins' % b, lambda: ints(b, s))
             for b in (1, 2, 3, 4) for s in ('f', 'i')]
    jobs += [lambda b=b: R.guard('%d bins' % b, lambda: ints(b, 'f', True))
             for b in (2, 3)]
    jobs += [lambda m=m: R.guard('any domain %d' % m, lambda: symdom(m))
             for m in (1, 2, 4)]
    R.fan(jobs)
