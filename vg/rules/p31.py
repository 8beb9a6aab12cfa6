from .common import *

SRC = '''
import numpy as np
from kamrecsys.metrics import (
    score_predictor_report, score_predictor_statistics,
    item_finder_report, item_finder_statistics)


def mean(x):
    return np.sum(x) / x.shape[0]


def std(x):
    d = x - mean(x)
    return np.sqrt(np.sum(d * d) / x.shape[0])


def desc(st):
    return (st['n_samples'], st['true']['mean'], st['true']['stdev'],
            st['predicted']['mean'], st['predicted']['stdev'])


def spec_desc(a, b):
    return (a.shape[0], mean(a), std(a), mean(b), std(b))


def sp_report(a, b):
    st = score_predictor_report(a, b, disp=False)
    return desc(st), st['mean absolute error'], st['root mean squared error']


def spec_sp_report(a, b):
    return (spec_desc(a, b), mean(np.abs(a - b)),
            np.sqrt(mean((a - b) * (a - b))))


def sp_stats(a, b, dom):
    st = score_predictor_statistics(a, b, score_domain=dom)
    e = st['mean absolute error']
    q = st['mean squared error']
    return (desc(st), e['mean'], e['stdev'], q['rmse'], q['mean'],
            q['stdev'], st['score levels'])


def spec_sp_stats(a, b, dom, m):
    e = np.abs(a - b)
    q = (a - b) * (a - b)
    return (spec_desc(a, b), mean(e), std(e), np.sqrt(mean(q)), mean(q),
            std(q), np.array([dom[0] + i * dom[2] for i in range(m + 1)]))


def hists(a, b, dom):
    st = score_predictor_statistics(a, b, score_domain=dom)
    out = []
    for k in ('true', 'predicted'):
        out.append(st[k]['histogram'])
        out.append(st[k]['histogram density'])
        out.append(np.sum(st[k]['histogram density']))
    return out


def hist(x, dom, m):
    h = np.zeros(m + 1, dtype=int)
    for v in x:
        k = 0
        for i in range(m):
            if v - dom[0] >= (i + 0.5) * dom[2]:
                k += 1
        h[k] += 1
    return h


def spec_hists(a, b, dom, m):
    out = []
    for x in (a, b):
        h = hist(x, dom, m)
        out.append(h)
        out.append(h / x.shape[0])
        out.append(1.0)
    return out


def default_hists(a, b):
    st = score_predictor_statistics(a, b)
    return st['true']['histogram'], st['predicted']['histogram']


def spec_default_hists(a, b):
    d = (1, 5, 1)
    return hist(a, d, 4), hist(b, d, 4)


def common(x, y):
    """entries of both dictionaries"""
    p = []
    q = []
    for k in ('n_samples', 'area under the curve'):
        p.append(x[k] if k in x else None)
        q.append(y[k] if k in y else None)
    for k in ('true', 'predicted'):
        for j in ('mean', 'stdev'):
            p.append(x[k][j])
            q.append(y[k][j])
    return p, q


def sp_agree(a, b, dom):
    x = score_predictor_report(a, b, disp=False)
    y = score_predictor_statistics(a, b, score_domain=dom)
    p, q = common(x, y)
    p.append(x['mean absolute error'])
    q.append(y['mean absolute error']['mean'])
    p.append(x['root mean squared error'])
    q.append(y['mean squared error']['rmse'])
    return p, q


def if_agree(a, b):
    return common(item_finder_report(a, b, disp=False),
                  item_finder_statistics(a, b))


def if_report(a, b):
    st = item_finder_report(a, b, disp=False)
    return desc(st), st.get('area under the curve', 'none')


def if_stats(a, b):
    st = item_finder_statistics(a, b)
    return desc(st), st.get('area under the curve', 'none')


def spec_if(a, b):
    n = a.shape[0]
    pos = np.sum(a == 1)
    neg = np.sum(a == 0)
    if pos == 0 or neg == 0:
        return spec_desc(a, b), 'none'
    w = 0.0
    for i in range(n):
        for j in range(n):
            if a[i] == 1 and a[j] == 0:
                if b[i] > b[j]:
                    w += 1.0
                elif b[i] == b[j]:
                    w += 0.5
    return spec_desc(a, b), w / (pos * neg)


def outcome(f, a, b):
    try:
        f(a, b)
    except ValueError:
        return 'rejected'
    return 'accepted'


def binary(a, b):
    ok = 'accepted'
    if np.sum(a == 0) + np.sum(a == 1) < a.shape[0]:
        ok = 'rejected'
    return ((outcome(if_report, a, b), outcome(if_stats, a, b)), (ok, ok))


def shown(which, a, b, disp):
    if which == 'sp':
        return score_predictor_report(a, b, disp=disp)
    return item_finder_report(a, b, disp=disp)


def kept(a, b, ca, cb, dom):
    score_predictor_report(a, b, disp=False)
    score_predictor_statistics(a, b, score_domain=dom)
    return (a, b), (ca, cb)
'''
SP = 'kamrecsys/metrics/score_predictor.py:score_predictor_'
IF = 'kamrecsys/metrics/item_finder.py:item_finder_'
DOMS = [([1, 5, 1], 4), ([0.0, 1.0, 0.5], 2), ([-2.0, 4.0, 1.5], 4)]


def check(R):
    R.rule('every entry of reports and statistics equals its definition '
           'over symbolic true and predicted scores; entries of both agree')

    def inputs(S, sa, sb, dom=None):
        I = Inp(S)
        n = I.intf('n', pow2)
        lo, hi = -1, 6

        def el(sort):
            if sort == 'i':
                return lambda r, v, ix: r.randint(lo, hi)
            if sort == 'b':
                return lambda r, v, ix: r.random() < 0.5
            return dyadic(lo, hi)
        a = I.arr('a', (n,), sa, el(sa))
        b = I.arr('b', (n,), sb, el(sb))
        return I, a, b

    def sp(sa, sb, d, m):
        S = Sess(SRC)
        I, a, b = inputs(S, sa, sb)
        D = S.list(d)
        tag = '; %s true, %s predicted scores, domain %s' % (sa, sb, d)
        run = S.run
        if d == [1, 5, 1]:
            R.decide('report' + tag, S, run('sp_report', a, b), S,
                     run('spec_sp_report', a, b), I.gen, SP + 'report')
            R.decide('default domain' + tag, S, run('default_hists', a, b),
                     S, run('spec_default_hists', a, b), I.gen,
                     SP + 'statistics')
        R.decide('statistics' + tag, S, run('sp_stats', a, b, D), S,
                 run('spec_sp_stats', a, b, D, m), I.gen, SP + 'statistics')
        R.decide('histograms' + tag, S, run('hists', a, b, D), S,
                 run('spec_hists', a, b, D, m), I.gen, SP + 'statistics')
        R.decide_pair('report and statistics agree' + tag, S,
                      run('sp_agree', a, b, D), I.gen, SP + 'report')

    def itf(sa, sb, uniform):
        S = Sess(SRC)
        I, a, b = inputs(S, sa, sb)
        one = {'i': 1, 'f': 1.0, 'b': True}[sa]

        def bits(r, v):
            n = v['n']
            k = r.choice([0, 1]) if uniform else None
            f = [one * (r.randint(0, 1) if k is None else k)
                 for _ in range(n)]
            if sa == 'b':
                f = [bool(q) for q in f]
            if k is None:
                if n == 1:
                    return False
                f[0], f[1] = [one * 0, one] if sa != 'b' else [True, False]
                r.shuffle(f)
            v['a'] = Nd((n,), f)
        I.post(bits)
        tag = '; %s true, %s predicted scores%s' % (
            sa, sb, ', one class' if uniform else '')
        b_spec = S.run('spec_if', a, b)
        for nm in ('report', 'stats'):
            R.decide('item finder %s' % nm + tag, S, S.run(
                'if_' + nm, a, b), S, b_spec, I.gen,
                IF + {'stats': 'statistics'}.get(nm, nm), n=24)
        R.decide_pair('report and statistics agree' + tag, S,
                      S.run('if_agree', a, b), I.gen, IF + 'report')

    def nonbin(sa):
        S = Sess(SRC)
        I, a, b = inputs(S, sa, 'f')
        one = 1 if sa == 'i' else 1.0

        def bits(r, v):
            f = [one * r.randint(0, 1) for _ in range(v['n'])]
            if r.random() < 0.7:
                f[r.randrange(v['n'])] = r.choice(
                    [2 * one, -one] + ([0.5] if sa == 'f' else []))
            v['a'] = Nd((v['n'],), f)
        I.post(bits)
        R.decide_pair('true scores must be binary; %s' % sa, S,
                      S.run('binary', a, b), I.gen, IF + 'report', n=40)

    jobs = []
    for sa in 'fi':
        for sb in 'fi':
            for d, m in DOMS:
                jobs.append(lambda a=(sa, sb, d, m): R.guard(
                    str(a), lambda: sp(*a)))
    for sa in 'fib':
        for sb in 'fi':
            for u in (False, True):
                jobs.append(lambda a=(sa, sb, u): R.guard(
                    str(a), lambda: itf(*a)))
        if sa != 'b':
            jobs.append(lambda a=sa: R.guard(a, lambda: nonbin(a)))
    R.fan(jobs)
