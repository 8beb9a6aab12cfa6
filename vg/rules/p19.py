from .common import *

SRC = '''
import numpy as np
from kamrecsys.metrics import (
    mean_absolute_error, mean_squared_error, score_predictor_report,
    score_predictor_statistics, item_finder_report, item_finder_statistics)


def mae(a, b):
    return mean_absolute_error(a, b)


def mse(a, b):
    return mean_squared_error(a, b)


def spec_mae(a, b):
    n = a.shape[0]
    e = np.abs(a - b)
    m = np.sum(e) / n
    return m, np.sqrt(np.sum((e - m) ** 2) / n)


def spec_mse(a, b):
    n = a.shape[0]
    e = (a - b) ** 2
    m = np.sum(e) / n
    return np.sqrt(m), m, np.sqrt(np.sum((e - m) ** 2) / n)


def lists(f, n, v, w):
    a = [v + i for i in range(3)]
    b = [w * i for i in range(3)]
    return f(a, b), f(np.array(a), np.array(b))


def lists_mae(v, w):
    return lists(mae, 3, v, w)


def lists_mse(v, w):
    return lists(mse, 3, v, w)


def sp_report(a, b):
    return score_predictor_report(a, b, disp=False)


def sp_stats(a, b):
    return score_predictor_statistics(a, b, score_domain=(1, 5, 1))


def if_report(a, b):
    return item_finder_report(a, b, disp=False)


def if_stats(a, b):
    return item_finder_statistics(a, b)


def rejects(f, a, b):
    try:
        f(a, b)
    except ValueError:
        return 'rejected'
    return 'accepted'


def bad(name, a, b):
    fs = {'mae': mae, 'mse': mse, 'sp_report': sp_report,
          'sp_stats': sp_stats, 'if_report': if_report,
          'if_stats': if_stats}
    return rejects(fs[name], a, b), 'rejected'


def good(name, a, b):
    fs = {'mae': mae, 'mse': mse, 'sp_report': sp_report,
          'sp_stats': sp_stats, 'if_report': if_report,
          'if_stats': if_stats}
    return rejects(fs[name], a, b), 'accepted'
'''

SPOT = {'mae': 'kamrecsys/metrics/real.py:mean_absolute_error',
        'mse': 'kamrecsys/metrics/real.py:mean_squared_error',
        'sp_report':
        'kamrecsys/metrics/score_predictor.py:score_predictor_report',
        'sp_stats':
        'kamrecsys/metrics/score_predictor.py:score_predictor_statistics',
        'if_report': 'kamrecsys/metrics/item_finder.py:item_finder_report',
        'if_stats': 'kamrecsys/metrics/item_finder.py:item_finder_statistics'}


def value(sort, binary):
    if sort == 'i' or binary:
        return lambda r, v, ix: r.randint(0, 1) if binary else \
            r.randint(-4, 6)
    return dyadic(-3, 6)


def check(R):
    R.rule('error statistics equal their definition over symbolic arrays; '
           'arrays with one non-finite entry, or of different lengths, '
           'reach a ValueError on every path')
    inf = float('inf')

    def stat(name, sa, sb):
        S = Sess(SRC)
        I = Inp(S)
        n = I.intf('n', pow2)
        a = I.arr('a', (n,), sa, value(sa, False))
        b = I.arr('b', (n,), sb, value(sb, False))
        R.same('%s of %s and %s scores' % (name, sa, sb), S, name,
               'spec_' + name, I.gen, SPOT[name], args=(a, b))

    def lists(name):
        S = Sess(SRC)
        I = Inp(S)
        v, w = I.real('v'), I.real('w')
        R.decide_pair(name + ' of lists', S, S.run('lists_' + name, v, w),
                      I.gen, SPOT[name])

    def bad(name, which, sort='f'):
        S = Sess(SRC)
        I = Inp(S)
        n = I.int('n', 1, 6)
        m = I.int('m', 1, 6)
        bi = name.startswith('if')

        def spoil(r, v):
            if which == 'length':
                return v['n'] != v['m']
            if which == 'none':
                return
            x = r.choice([inf, -inf, float('nan')])
            nd = v[which]
            f = list(nd.flat)
            f[r.randrange(len(f))] = x
            v[which] = Nd(nd.shape, f)
        a = I.arr('a', (n,), sort, value(sort, bi))
        b = I.arr('b', (m if which == 'length' else n,), sort,
                  value(sort, False))
        I.post(spoil)
        R.decide_pair('%s %s %s' % (
            name, {'a': 'rejects non-finite true scores',
                   'b': 'rejects non-finite predicted scores',
                   'length': 'rejects different lengths',
                   'none': 'accepts scores'}[which], sort), S, S.run(
            'good' if which == 'none' else 'bad', name, a, b), I.gen,
            SPOT[name], n=30)
    jobs = []
    for name in ('mae', 'mse'):
        for sa in 'fi':
            for sb in 'fi':
                jobs.append(lambda n=name, a=sa, b=sb: R.guard(
                    n, lambda: stat(n, a, b)))
        jobs.append(lambda n=name: R.guard(n, lambda: lists(n)))
    for name in SPOT:
        for which in ('a', 'b', 'length', 'none'):
            jobs.append(lambda n=name, w=which: R.guard(
                n + w, lambda: bad(n, w)))
        jobs.append(lambda n=name: R.guard(
            n, lambda: bad(n, 'length', 'i')))
        jobs.append(lambda n=name: R.guard(
            n, lambda: bad(n, 'none', 'i')))
    R.fan(jobs)
