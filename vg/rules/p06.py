from .common import *

SRC = '''
import numpy as np
from kamrecsys.data import EventWithScoreData
from kamrecsys.metrics import generate_score_bins, generate_score_levels


def mk(score, dom):
    n = score.shape[0]
    event = np.zeros((n, 2), dtype=int)
    d = EventWithScoreData()
    if dom is None:
        d.set_event(event, score)
    else:
        d.set_event(event, score, dom)
    return d


def impl_levels(score, dom):
    d = mk(score, dom)
    return (d.get_score_levels(), d.n_score_levels, len(d.score_domain),
            d.score_domain[0], d.score_domain[1], d.score_domain[2])


def spec_levels(score, dom, m):
    lv = np.array([dom[0] + i * dom[2] for i in range(m + 1)])
    return lv, m + 1, 3, dom[0], dom[1], dom[2]


def impl_gen(score, dom):
    return generate_score_levels(dom)


def spec_gen(score, dom, m):
    return np.array([dom[0] + i * dom[2] for i in range(m + 1)])


def impl_bins(score, dom):
    return generate_score_bins(dom), mk(score, dom).generate_score_bins()


def spec_bins(score, dom, m):
    b = np.empty(m + 2)
    b[0] = -np.inf
    b[m + 1] = np.inf
    for i in range(1, m + 1):
        b[i] = dom[0] + (i - 0.5) * dom[2]
    return b, b


def impl_dig_levels(score, dom):
    d = mk(score, dom)
    lv = np.array([dom[0] + i * dom[2] for i in range(d.n_score_levels)])
    return d.digitize_score(lv)


def spec_dig_levels(score, dom, m):
    return np.arange(m + 1)


def impl_dig(score, dom, x):
    d = mk(score, dom)
    return (d.digitize_score(x), d.digitize_score(), d.score,
            d.digitize_score(x[0]))


def nearest(x, dom, m):
    out = np.empty(x.shape[0], dtype=int)
    for i in range(x.shape[0]):
        out[i] = np.minimum(m, np.maximum(
            0, np.floor((x[i] - dom[0]) / dom[2] + 0.5)))
    return out


def spec_dig(score, dom, m, x):
    return (nearest(x, dom, m), nearest(score, dom, m), score,
            nearest(x[:1], dom, m)[0])


def impl_auto(score):
    d = mk(score, None)
    return d.score_domain[0], d.score_domain[1], d.score_domain[2]


def spec_auto(score):
    u = np.unique(score)
    return np.min(score), np.max(score), np.min(u[1:] - u[:-1])


def impl_auto_n(score):
    d = mk(score, None)
    return d.n_score_levels, d.get_score_levels(), d.digitize_score()


def spec_auto_n(score, dom, m, lev):
    return m + 1, np.array([dom[0] + i * dom[2] for i in range(m + 1)]), lev


def impl_bin(score, dom, th, feat):
    d = mk(score, dom)
    if th is None:
        d.binarize_score()
    else:
        d.binarize_score(th)
    return (d.score, d.score_domain[0], d.score_domain[1],
            d.score_domain[2], len(d.score_domain), d.n_score_levels,
            d.get_score_levels(), d.digitize_score())


def spec_bin(score, dom, th, feat):
    if th is None:
        th = (dom[0] + dom[1]) / 2
    s = np.array([1 if x > th else 0 for x in score])
    return s, 0, 1, 1, 3, 2, np.array([0, 1]), s


def impl_bin_refilter(score, dom, sel):
    d = mk(score, dom)
    d.binarize_score()
    e = d.filter_event(sel)
    return e.score, e.n_score_levels, e.score_domain[0], e.score_domain[1]


def spec_bin_refilter(score, dom, sel):
    th = (dom[0] + dom[1]) / 2
    s = np.array([1 if x > th else 0 for x in score])[sel]
    return s, 2, 0, 1
'''


def check(R):
    R.rule('levels, bins, digitizing and binarizing against their '
           'definitions, with rounding errors of quotients in either '
           'direction')
    base = 'kamrecsys/data/event_with_score.py:'

    def job(kind):
        S = Sess(SRC)
        I = Inp(S)
        n = I.int('n', 2, 7)
        k = I.int('k', 1, 5)
        m = I.int('m', 1, 9)
        ints = kind in ('integer', 'integer array')
        srt = 'i' if ints else 'f'
        STEPS = {'int': [1, 2, 3], 'integer': [1, 2, 3],
                 'integer array': [1, 2, 3, 4], 'array': [0.5, 0.2, 1, 2],
                 'dec': [0.1, 0.2, 0.3, 0.05, 0.7],
                 'half': [0.5, 0.25, 2.5]}[kind]
        new = (lambda a, f: I.intf(a, f, False)) if ints else I.realf
        lo = new('lo', lambda r, v: r.choice(
            [0, 1, -2, 5, -5, -3] if kind[:3] == 'int' else [0.0, 1.0, 0.5, -1.5]))
        st = new('st', lambda r, v: r.choice(STEPS))
        hi = new('hi', lambda r, v: v['lo'] + v['m'] * v['st'])
        dom = S.list([lo, hi, st])
        if kind[-5:] == 'array':
            # in a numpy array, as the attribute of a dataset
            dom = I.arr('dom', (3,), srt, lambda r, v, x: (
                v['lo'], v['hi'], v['st'])[x[0]])

        def inner(r, v, x):
            # away from ties, and outside the domain as well
            if v.setdefault('$zero', r.random() < 0.3):
                v['lo'] = 0
                v['hi'] = v['m'] * v['st']
                if 'dom' in v:
                    v['dom'] = Nd([3], [0, v['hi'], v['st']])
                return 0.0
            j = r.randint(-2, v['m'] + 2)
            return v['lo'] + (j + r.choice([0, 0.31, -0.27, 0.44])) * v['st']
        X1 = I.arr('x', (k,), 'f', inner)
        SC = I.arr('SC', (n,), srt, (lambda r, v, x: v['lo'] + r.randint(
            -1, v['m'] * v['st'] + 1)) if ints else inner)
        tag = '; %s strides' % kind

        def two(name, impl, spec, a, b, where, gen=None):
            nm = name + tag

            def go():
                p = S.run(impl, *a)
                q = S.run(spec, *b)
                R.decide(nm, S, p, S, q, gen or I.jgen(), where,
                         n=24 if ints else None)
            R.guard(nm, go)
        two('score levels and their number', 'impl_levels', 'spec_levels',
            (SC, dom), (SC, dom, m), base + 'ScoreUtilMixin.get_score_levels')
        two('generate_score_levels', 'impl_gen', 'spec_gen', (SC, dom),
            (SC, dom, m), 'kamrecsys/metrics/base.py:generate_score_levels')
        two('generate_score_bins', 'impl_bins', 'spec_bins', (SC, dom),
            (SC, dom, m), 'kamrecsys/metrics/base.py:generate_score_bins')
        two('level i is digitized to i', 'impl_dig_levels',
            'spec_dig_levels', (SC, dom), (SC, dom, m),
            base + 'EventWithScoreData.digitize_score')
        two('scores are digitized to the nearest level', 'impl_dig',
            'spec_dig', (SC, dom, X1), (SC, dom, m, X1),
            base + 'EventWithScoreData.digitize_score')
        two('domain derived from scores', 'impl_auto', 'spec_auto', (SC,),
            (SC,), base + 'EventWithScoreData.set_event', auto(I, 'SC'))
        for nm, th in (('default threshold', None),
                       ('given threshold', I.realf(
                           'th', lambda r, v: v['lo'] + r.randint(
                               0, 2 * v['m']) * v['st'] / 2)),
                       ('threshold zero', 0)):
            two('binarize with ' + nm, 'impl_bin', 'spec_bin',
                (SC, dom, th, None), (SC, dom, th, None),
                base + 'EventWithScoreData.binarize_score', I.gen)
        sel = I.arr('sel', (n,), 'b')
        I.post(lambda r, v: any(v['sel'].flat))
        two('binarized data can be filtered', 'impl_bin_refilter',
            'spec_bin_refilter', (SC, dom, sel), (SC, dom, sel),
            base + 'EventWithScoreData.binarize_score', I.gen)

        # a domain from scores on a grid that are all present or not
        S2 = Sess(SRC)
        J = Inp(S2)
        n = J.int('n', 3, 7)
        m = J.int('m', 1, 6)
        lo = J.realf('lo', lambda r, v: r.choice([0.0, 1.0, -2.0]))
        st = J.realf('st', lambda r, v: r.choice([1.0, 0.5, 2.0]))

        def lev(r, v, x):
            # minimum, maximum and one gap of one step are present
            i = x[0]
            return 0 if i == 0 else v['m'] if i == 1 else \
                1 if i == 2 else r.randint(0, v['m'])
        L = J.arr('lev', (n,), 'i', lev)
        A = S2.I.read(L).term()
        SC2 = S2.I.arr((n,), lambda i: X.add(lo, X.mul(st, X.elem(A, i))),
                       'f')
        name = 'levels of a derived domain' + tag

        def go():
            p = S2.run('impl_auto_n', SC2)
            q = S2.run('spec_auto_n', SC2, S2.list(
                [lo, X.add(lo, X.mul(m, st)), st]), m, L)
            R.decide(name, S2, p, S2, q, J.gen,
                     base + 'EventWithScoreData.set_event')
        R.guard(name, go)
    R.fan([lambda k=k: job(k) for k in (
        'int', 'dec', 'half', 'integer', 'integer array', 'array')])


def auto(I, name):
    """scores with at least two distinct values"""
    def g(rng, k):
        m = I.gen(rng, k)
        if m is None or len(set(m.values[name].flat)) < 2:
            return None
        return m
    return g
