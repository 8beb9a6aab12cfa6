from .mf import *

EXTRA = '''
from kamrecsys.item_finder import BaseExplicitItemFinder
from kamrecsys.utils import is_binary_score


class Probe(BaseExplicitItemFinder):

    def fit(self, data, event_index=(0, 1)):
        super(Probe, self).fit(data, event_index=event_index)

    def raw_predict(self, ev):
        return ev


def target(which, C, k, seed):
    if which == 'probe':
        return Probe(random_state=seed)
    return LogisticPMF(C=C, k=k, random_state=seed)


def attempt(which, d, ix, C, k, seed):
    m = target(which, C, k, seed)
    try:
        m.fit(d, event_index=ix)
    except ValueError:
        return 'ValueError'
    except TypeError:
        return 'TypeError'
    return 'fitted'


def binary(score, dom):
    n = score.shape[0]
    zeros = np.sum(score == 0)
    ones = np.sum(score == 1)
    return (dom[0] == 0 and dom[1] == 1 and dom[2] == 1 and
            zeros + ones == n and zeros > 0 and ones > 0)


def scores(which, E, no, eo, ix, score, dom, C, k, seed):
    d = data('score', E, no, eo, score, dom)
    return (attempt(which, d, ix, C, k, seed),
            'fitted' if binary(score, dom) else 'ValueError')


def binarized(which, E, no, eo, ix, score, dom, C, k, seed):
    """after binarization only uniform scores are rejected"""
    d = data('score', E, no, eo, score, dom)
    d.binarize_score()
    th = (dom[0] + dom[1]) / 2
    hi = np.sum(score > th)
    return (attempt(which, d, ix, C, k, seed),
            'fitted' if 0 < hi and hi < score.shape[0] else 'ValueError')


def levels(which, E, no, eo, ix, score, n_levels, C, k, seed):
    d = data('score', E, no, eo, score, (0, 1, 1))
    d.n_score_levels = n_levels
    return (attempt(which, d, ix, C, k, seed),
            'fitted' if binary(score, (0, 1, 1)) and n_levels == 2
            else 'ValueError')


def no_scores(which, E, no, eo, ix, C, k, seed):
    d = data('plain', E, no, eo, None, None)
    return attempt(which, d, ix, C, k, seed), 'TypeError'


def no_data(which, E, ix, C, k, seed):
    return ([attempt(which, x, ix, C, k, seed) for x in
             (E, [[0, 1], [1, 0]], {'event': E}, None, 3)],
            ['TypeError'] * 5)


def only(score):
    n = 0
    zeros = np.sum(score == 0)
    ones = np.sum(score == 1)
    return zeros, ones, zeros + ones == np.size(score)


def is_bin(score, as_list):
    zeros, ones, all01 = only(score)
    x = score
    if as_list:
        x = [score[0], score[1], score[2]]
    return ((bool(is_binary_score(x)),
             bool(is_binary_score(x, allow_uniform=True)),
             bool(is_binary_score(x, allow_uniform=False)),
             bool(is_binary_score(x, False))),
            (bool(all01), bool(all01),
             bool(all01 and zeros > 0 and ones > 0),
             bool(all01 and zeros > 0 and ones > 0)))
'''

CASES = [(2, [0, 1], [0, 1]), (3, [2, 0, 1], [2, 0]),
         (2, [0, 1, 0], [0, 1])]


def some(sort):
    """mostly zeros and ones, often uniform, sometimes something else"""
    def f(r, v, ix):
        m = v.setdefault('$mode', r.choice('mmmuuxxx'))
        if m == 'u':
            x = v.setdefault('$u', r.randint(0, 1))
        elif m == 'x' and r.random() < 0.4:
            x = r.choice([2, -1, 0.5 if sort == 'f' else 2, 1, 0])
            x = x if sort == 'f' else int(x)
        else:
            x = r.randint(0, 1)
        return float(x) if sort == 'f' else bool(x) if sort == 'b' else x
    return f


def check(R):
    R.rule('fitting ends in an error exactly when scores, domain or number '
           'of levels are not binary, on every path')
    base = 'kamrecsys/item_finder/base.py:BaseExplicitItemFinder.fit'
    N = 40

    def job(which, no, eo, ix, sort):
        S = Sess(SRC + EXTRA, config={'minimize': 'on_min'})
        I = Inp(S)
        n = I.int('n', 1, 5)
        E = I.arr('E', (n, len(eo)), 'i', ids_int)
        SC = I.arr('SC', (n,), sort, some(sort))
        C = I.real('C', 0.1, 2)
        seed = I.int('seed', 0, 99)
        L = S.list
        k = 2
        tag = '; %s, event_otypes=%s, event_index=%s, %s scores' % (
            'BaseExplicitItemFinder' if which == 'probe' else
            'LogisticPMF', eo, ix, sort)

        def pair(name, *a):
            R.guard(name + tag, lambda: R.decide_pair(
                name + tag, S, S.run(*a), I.gen, base, n=N))
        rest = (C, k, seed)
        doms = [(0, 1, 1), (0.0, 1.0, 1.0), (0, 1, 0.5), (0, 1, 0.8), (0, 2, 1),
                (-1, 1, 1), (1, 5, 1), (0, 1, 0.25)]
        for dom in doms:
            pair('scores, domain %s' % (dom,), 'scores', which, E, no,
                 L(eo), L(ix), SC, L(list(dom)), *rest)
        pair('scores, domain as an array', 'scores', which, E, no, L(eo),
             L(ix), SC, S.tab([0, 1, 1], 'i'), *rest)
        pair('any domain', 'scores', which, E, no, L(eo), L(ix), SC,
             L([I.realf('d0', lambda r, v: r.choice([0.0, 0.0, -1.0])),
                1, I.realf('d2', lambda r, v: r.choice([1.0, 1.0, 0.5]))]),
             *rest)
        for q in (1, 3, 5):
            pair('%d score levels' % q, 'levels', which, E, no, L(eo),
                 L(ix), SC, q, *rest)
        if sort == 'i':
            pair('data without scores', 'no_scores', which, E, no, L(eo),
                 L(ix), *rest)
            pair('no event data', 'no_data', which, E, L(ix), *rest)
            I.arr('SC', (n,), 'i', lambda r, v, x: r.choice(
                [1, 2, 3, 4, 5, 5]))
            for dom in ((1, 5, 1), (1, 4, 1)):
                pair('binarized scores, domain %s' % (dom,), 'binarized',
                     which, E, no, L(eo), L(ix), SC, L(list(dom)), *rest)

    def isb(nd, sort, as_list=False):
        S = Sess(SRC + EXTRA)
        I = Inp(S)
        n = I.int('n', 1, 6)
        dims = (3,) if as_list else (n,) if nd == 1 else (
            n, I.int('m', 1, 2))
        x = I.arr('x', dims, sort, some(sort))
        name = 'is_binary_score of %s %s' % (
            sort, 'list' if as_list else '%d-d array' % nd)
        R.guard(name, lambda: R.decide_pair(
            name, S, S.run('is_bin', x, as_list), I.gen,
            'kamrecsys/utils/base.py:is_binary_score', n=60))
    jobs = [lambda w=w, c=c, s=s: job(w, *(c + (s,)))
            for w in ('probe', 'lpmf') for c in CASES for s in 'ifb'
            if w == 'probe' or R.tier == 'thorough' or
            c is CASES[0] and s != 'b']
    jobs += [lambda d=d, s=s: isb(d, s) for d in (1, 2) for s in 'ifb']
    jobs += [lambda s=s: isb(1, s, True) for s in 'ifb']
    R.fan(jobs)
