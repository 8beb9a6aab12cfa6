from .mf import *

EXTRA = '''
from kamrecsys.score_predictor import MultinomialPLSA
from kamrecsys.metrics import score_histogram, score_predictor_statistics
from kamrecsys.metrics.real import variance_with_gamma_prior
from kamrecsys.utils import is_binary_score
from kamrecsys.model_selection import (
    ShuffleSplitWithinGroups, KFoldWithinGroups, InterlacedKFold)


def problem_of(kind, d, kw, ix):
    REC.clear()
    m = MODELS[kind](**kw)
    if ix is None:
        m.fit(d)
    else:
        m.fit(d, event_index=ix)
    return [REC['size'], REC['loss0'], REC['method'], REC['options'],
            REC['tol'], m.k]


def factor(kind, d, given, full, ix):
    """the problem with arguments left out, and with their defaults"""
    return problem_of(kind, d, given, ix), problem_of(kind, d, full, ix)


def columns(kind, d, kw):
    return problem_of(kind, d, kw, None), problem_of(kind, d, kw, (0, 1))


def plsa_of(d, kw, ix):
    m = MultinomialPLSA(**kw)
    if ix is None:
        m.fit(d)
    else:
        m.fit(d, event_index=ix)
    return m.pZ_, m.pRgZ_, m.pXgZ_, m.pYgZ_


def plsa(d, given, full, ix):
    return plsa_of(d, given, ix), plsa_of(d, full, ix)


def plsa_columns(d, kw):
    return plsa_of(d, kw, None), plsa_of(d, kw, (0, 1))


def plsa_predict(d, given, full, ev):
    a = MultinomialPLSA(**given)
    b = MultinomialPLSA(**full)
    a.fit(d)
    b.fit(d)
    return a.predict(ev), b.predict(ev)


def limits(given, need):
    o = getattr(MultinomialPLSA(**given), 'optimizer_kwargs', None)
    if o is None:
        return 0, 0
    return (o['tol'], o['maxiter']), need


def look(d):
    return (d.n_otypes, d.s_event, d.n_events,
            [d.n_objects[o] for o in range(d.n_otypes)],
            [d.event_otypes[e] for e in range(d.s_event)],
            d.event, d.to_eid_event(d.event))


def box(cls, E, SC, given, full):
    out = []
    for kw in (given, full):
        d = cls(**kw)
        if SC is None:
            d.set_event(E)
        else:
            d.set_event(E, SC, (1, 5, 1))
        out.append(look(d))
    return out[0], out[1]


def plain_box(E, given, full):
    return box(EventData, E, None, given, full)


def score_box(E, SC, given, full):
    return box(EventWithScoreData, E, SC, given, full)


def hist(x):
    return score_histogram(x), score_histogram(x, score_domain=(1, 5, 1))


def stats_of(t, p, **kw):
    st = score_predictor_statistics(t, p, **kw)
    return (st['score levels'], st['true']['histogram'],
            st['predicted']['histogram'])


def stats(t, p):
    return stats_of(t, p), stats_of(t, p, score_domain=(1, 5, 1))


def gamma(x, given, full):
    return (variance_with_gamma_prior(x, **given),
            variance_with_gamma_prior(x, **full))


def binary(x):
    return is_binary_score(x), is_binary_score(x, allow_uniform=True)


SPLIT = {'shuffle': ShuffleSplitWithinGroups, 'kfold': KFoldWithinGroups,
         'interlaced': InterlacedKFold}


def split_of(kind, kw, X, groups):
    np.random.seed(7)
    cv = SPLIT[kind](**kw)
    out = []
    for tr, te in cv.split(X, groups=groups):
        out.append((tr, te))
    return cv.get_n_splits(), len(out), out


def split(kind, given, full, X, groups):
    return split_of(kind, given, X, groups), split_of(kind, full, X, groups)


def folds(kind, given, K):
    return SPLIT[kind](**given).get_n_splits(), K
'''

SP = 'kamrecsys/score_predictor/topic_model.py:MultinomialPLSA.'
CV = 'kamrecsys/model_selection/split.py:'
PL = [('k', 1), ('alpha', 1.0), ('use_expectation', True)]
MF = [('C', 1.0), ('k', 1)]


def check(R):
    R.rule('for every documented default: the result of leaving the '
           'argument out equals the result of passing the documented '
           'value, on symbolic data and for every choice of the other '
           'arguments from a few')

    def drops(defaults, others):
        """(arguments given, the same with every default spelled out)"""
        out = [([], defaults)]
        for a, v in defaults:
            out.append(([x for x in others if x[0] != a],
                        [x if x[0] != a else (a, v) for x in others]))
        return out

    def factor(conf, plain=False):
        def go(given, full, tag):
            C = Case(conf, EXTRA, plain=plain)
            S = C.S
            s = [('random_state', C.seed)]
            C.pair(R, '%s left out' % tag, 'factor', C.kind, C.d,
                   S.dict(given + s), S.dict(full + s), S.list(C.ix),
                   where='__init__')

        def cols():
            C = Case(conf, EXTRA, plain=plain)
            C.pair(R, 'event_index left out', 'columns', C.kind, C.d,
                   C.S.dict([('random_state', C.seed), ('k', 2)]))
        for given, full in drops(MF, [('C', 0.25), ('k', 2)]):
            t = 'every option' if not given else ', '.join(
                a for a, v in full if a not in [g[0] for g in given])
            R.guard('%s %s' % (conf[0], t),
                    lambda g=given, f=full, t=t: go(g, f, t))
        R.guard('%s event_index' % conf[0], cols)

    def base(sort='i', cols=2, lo=2):
        S = Sess(SRC + EXTRA, config={'minimize': 'on_min'})
        I = Inp(S)
        n = I.int('n', lo, 6)
        E = I.arr('E', (n, cols), sort, IDS[sort])
        SC = I.arr('SC', (n,), 'f', lambda r, v, x:
                   r.randint(1, 5) * 1.0)
        return S, I, n, E, SC

    def plsa(given, full, tag):
        S, I, n, E, SC = base()
        d = S.do('data', 'score', E, 2, S.list([0, 1]), SC,
                 S.list([1, 5, 1]))
        s = [('random_state', I.int('seed', 0, 99)), ('maxiter', 1)]
        ps = S.run('plsa', d, S.dict(given + s), S.dict(full + s),
                   S.list([0, 1]))
        R.decide_pair('MultinomialPLSA: %s left out' % tag, S, ps, I.gen,
                      SP + '__init__', tol=1e-9)

    def expectation():
        S, I, n, E, SC = base()
        d = S.do('data', 'score', E, 2, S.list([0, 1]), SC,
                 S.list([1, 5, 1]))
        s = [('random_state', I.int('seed', 0, 99)), ('maxiter', 1),
             ('k', 2)]
        m = I.int('m', 1, 4)
        V = I.arr('V', (m, 2), 'i', ids_int)
        ps = S.run('plsa_predict', d, S.dict(s), S.dict(
            s + [('use_expectation', True)]), V)
        R.decide_pair('MultinomialPLSA: use_expectation left out, '
                      'predictions', S, ps, I.gen, SP + '__init__',
                      tol=1e-9)

    def plsa_cols():
        S, I, n, E, SC = base(cols=3)
        d = S.do('data', 'score', E, 3, S.list([2, 0, 1]), SC,
                 S.list([1, 5, 1]))
        ps = S.run('plsa_columns', d, S.dict([
            ('random_state', I.int('seed', 0, 99)), ('maxiter', 1),
            ('k', 2)]))
        R.decide_pair('MultinomialPLSA: event_index left out', S, ps,
                      I.gen, SP + 'fit', tol=1e-9)

    def limits(given, need, tag):
        S = Sess(SRC + EXTRA)
        ps = S.run('limits', S.dict(given), need)
        R.decide_pair('MultinomialPLSA: %s left out' % tag, S, ps,
                      Inp(S).gen, SP + '__init__', tol=1e-13)

    def boxes(given, full, cols, sort, scored):
        S, I, n, E, SC = base(sort, cols)
        L = [(a, S.list(v) if isinstance(v, list) else v)
             for a, v in full]
        G = [(a, v) for a, v in L if a in given]
        if scored:
            ps = S.run('score_box', E, SC, S.dict(G), S.dict(L))
        else:
            ps = S.run('plain_box', E, S.dict(G), S.dict(L))
        R.decide_pair('%s: %s left out, %s ids' % (
            'EventWithScoreData' if scored else 'EventData', ', '.join(
                a for a, v in full if a not in given), sort), S, ps, I.gen,
            'kamrecsys/data/event%s.py' % ('_with_score' * scored))

    def values(fn, name, where, f, *args, **kw):
        S = Sess(SRC + EXTRA)
        I = Inp(S)
        n = I.int('n', 2, 7)
        X1 = I.arr('A', (n,), 'f', f)
        ins = [X1] + ([I.arr('B', (n,), 'f', f)] if kw.get('two') else [])
        ps = S.run(fn, *(ins + [S.dict(a) for a in args]))
        R.decide_pair(name + ' left out', S, ps, I.gen, where, tol=1e-9,
                      n=30)

    def split(kind, given, full, tag, n):
        S = Sess(SRC + EXTRA)
        I = Inp(S)
        D = I.arr('D', (n, 2), 'f')
        G = S.arr_of([k % 2 for k in range(n)]) if hasattr(
            S, 'arr_of') else S.list([k % 2 for k in range(n)])
        if kind == 'interlaced':
            G = None
        seed = [('random_state', I.int('seed', 0, 99))] if kind != \
            'interlaced' and ('random_state' not in dict(full)) else []
        ps = S.run('split', kind, S.dict(given + seed),
                   S.dict(full + seed), D, G)
        R.decide_pair('%s: %s left out' % (kind, tag), S, ps, I.gen,
                      CV + kind, n=20)

    def folds(kind, K):
        S = Sess(SRC + EXTRA)
        ps = S.run('folds', kind, S.dict([]), K)
        R.decide_pair('%s: number of folds left out' % kind, S, ps,
                      Inp(S).gen, CV + kind)

    jobs = []

    def job(name, f, *a, **k):
        jobs.append(lambda: R.guard(name, lambda: f(*a, **k)))
    for kind in ('PMF', 'LogisticPMF', 'ImplicitLogisticPMF'):
        for eo, no in (([0, 1], 2), ([2, 0, 1], 3)):
            jobs.append(lambda c=(kind, no, eo, [0, 1], 1): factor(c))
    for given, full in drops(PL, [('k', 2), ('alpha', 0.5),
                                  ('use_expectation', False)]):
        t = 'every option' if not given else ', '.join(
            a for a, v in full if a not in [g[0] for g in given])
        job('plsa ' + t, plsa, given, full, t)
    job('plsa expectation', expectation)
    job('plsa event_index', plsa_cols)
    job('plsa tol', limits, [('maxiter', 7)], (1e-10, 7), 'tol')
    job('plsa maxiter', limits, [('tol', 0.5)], (0.5, 100), 'maxiter')
    job('plsa limits', limits, [], (1e-10, 100), 'tol, maxiter')
    for scored in (False, True):
        for sort in 'is':
            job('box', boxes, (), [('n_otypes', 2),
                                   ('event_otypes', [0, 1])], 2, sort,
                scored)
            job('box', boxes, ('n_otypes',), [
                ('n_otypes', 3), ('event_otypes', [0, 1, 2])], 3, sort,
                scored)
            job('box', boxes, ('event_otypes',), [
                ('n_otypes', 2), ('event_otypes', [1, 0, 1])], 3, sort,
                scored)
    M = 'kamrecsys/metrics/'
    lev = lambda r, v, x: r.choice((1, 1.4, 2, 2.6, 3, 4, 5, 5)) + 0.0
    job('hist', values, 'hist', 'score_histogram: score_domain',
        M + 'real.py:score_histogram', lev)
    job('stats', values, 'stats', 'score_predictor_statistics: '
        'score_domain', M + 'score_predictor.py', lev, two=True)
    V = [('a', 1e-8), ('b', 1e-8), ('full_output', False),
         ('force_all_finite', False)]
    small = lambda r, v, x: r.choice(
        (1e-4, -2e-4, 3e-5, 2e-8, 1.0, -0.5, 1e-4))
    holes = lambda r, v, x: r.choice(
        (1e-4, -2e-4, 2e-8, 1.0) + ((float('inf'),) if any(x) else ()))
    for given, full in drops(V, [('a', 0.5), ('b', 0.25),
                                 ('full_output', True),
                                 ('force_all_finite', True)]):
        t = 'every option' if not given else ', '.join(
            a for a, v in full if a not in [g[0] for g in given])
        job('gamma ' + t, values, 'gamma', 'variance_with_gamma_prior: '
            + t, M + 'real.py:variance_with_gamma_prior',
            small if ('force_all_finite', True) in given else holes, given,
            full)
    job('binary', values, 'binary', 'is_binary_score: allow_uniform',
        'kamrecsys/utils/base.py:is_binary_score',
        lambda r, v, x: float(x[0] < v.setdefault('$c', r.randint(0, 9))))
    SH = [('n_splits', 10), ('test_size', 0.1), ('train_size', None),
          ('shuffle', True)]
    for given, full in (
            ([('n_splits', 2)], [('n_splits', 2)] + SH[1:]),
            ([('n_splits', 2), ('test_size', 3)],
             [('n_splits', 2), ('test_size', 3)] + SH[2:]),
            ([('n_splits', 2), ('train_size', 3), ('test_size', 2)],
             [('n_splits', 2), ('train_size', 3), ('test_size', 2),
              ('shuffle', True)])):
        t = ', '.join(a for a, v in full if a not in dict(given))
        job('shuffle ' + t, split, 'shuffle', given, full, t, 24)
    KF = [('n_splits', 3), ('shuffle', False)]
    job('kfold', split, 'kfold', [('random_state', None)],
        KF + [('random_state', None)], 'every option', 12)
    job('kfold', split, 'kfold', [('shuffle', True)],
        [('n_splits', 3), ('shuffle', True)], 'n_splits', 12)
    job('interlaced', split, 'interlaced', [], [('n_splits', 3)],
        'n_splits', 7)
    for kind, K in (('shuffle', 10), ('kfold', 3), ('interlaced', 3)):
        job('folds ' + kind, folds, kind, K)
    R.fan(jobs)
