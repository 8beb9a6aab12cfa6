import ast
import os

from .mf import *
from ..world import REPO

EXTRA = '''
from kamrecsys.score_predictor import MultinomialPLSA
from kamrecsys.model_selection import (
    ShuffleSplitWithinGroups, KFoldWithinGroups, InterlacedKFold)
from kamrecsys.metrics import (
    mean_absolute_error, mean_squared_error, score_histogram,
    variance_with_gamma_prior, score_predictor_report,
    score_predictor_statistics, item_finder_report, item_finder_statistics)


def build(kind, k, seed):
    if kind == 'MultinomialPLSA':
        return MultinomialPLSA(k=k, random_state=seed, maxiter=1)
    return MODELS[kind](k=k, random_state=seed)


def do_fit(kind, d, ix, k, seed):
    m = build(kind, k, seed)
    m.fit(d, event_index=ix)
    return m


def do_fit_inst(kind, d, ix, k, seed):
    return do_fit(kind, d, ix, k, np.random.RandomState(seed))


def start(m, kind):
    if kind == 'MultinomialPLSA':
        return m.pZ_, m.pXgZ_, m.pYgZ_, m.pRgZ_
    return REC['x0']


def twice(kind, d, ix, k, seed):
    """the same object fitted twice"""
    m = do_fit(kind, d, ix, k, seed)
    a = start(m, kind)
    m.fit(d, event_index=ix)
    return a, start(m, kind)


def fresh(kind, d, ix, k, seed):
    """two objects with equal settings"""
    a = start(do_fit(kind, d, ix, k, seed), kind)
    b = start(do_fit(kind, d, ix, k, seed), kind)
    return a, b


def between(kind, d, ix, k, seed):
    """draws of others in between change nothing"""
    m = do_fit(kind, d, ix, k, seed)
    a = start(m, kind)
    np.random.normal(0.0, 1.0, 7)
    o = do_fit(kind, d, ix, k, seed + 1)
    m.fit(d, event_index=ix)
    return a, start(m, kind)


def do_pred(m, V):
    return m.predict(V)


def do_split(kind, K, seed, X, G):
    if kind == 'shuffle':
        cv = ShuffleSplitWithinGroups(n_splits=K, test_size=0.5,
                                      random_state=seed)
    elif kind == 'inter':
        cv = InterlacedKFold(n_splits=K)
    else:
        cv = KFoldWithinGroups(n_splits=K, shuffle=(kind != 'kfold'),
                               random_state=seed)
    return cv


def collect(cv, X, G):
    out = []
    for tr, te in cv.split(X, groups=G):
        out.append((tr, te))
    return out


def split_once(kind, K, seed, X, G):
    return collect(do_split(kind, K, seed, X, G), X, G)


def split_inst(kind, K, seed, X, G):
    return split_once(kind, K, np.random.RandomState(seed), X, G)


def split_twice(kind, K, seed, X, G):
    cv = do_split(kind, K, seed, X, G)
    a = collect(cv, X, G)
    b = collect(cv, X, G)
    return a, b


def split_fresh(kind, K, seed, X, G):
    a = split_once(kind, K, seed, X, G)
    np.random.normal(0.0, 1.0, 3)
    return a, split_once(kind, K, seed, X, G)


def m_mae(a, b):
    return mean_absolute_error(a, b)


def m_mse(a, b):
    return mean_squared_error(a, b)


def m_hist(a, b):
    return score_histogram(a)


def m_var(a, b):
    return variance_with_gamma_prior(a)


def m_sps(a, b):
    return score_predictor_statistics(a, b, score_domain=(1, 5, 1))
'''


def check_effects(R, name, S, ps, seeded, where):
    """no draw from or seeding of the global generator; every draw comes
    from a generator derived from the seed"""
    R.note(S, ps)
    n = 0
    for p in ps:
        for e in p.effects:
            if e.kind == 'globalrng':
                R.violation(name, e.loc or where,
                            'global generator used: %s' % (e.data,))
                return
            if e.kind == 'draw':
                n += 1
                key = tt(e.data[2])
                if not seeded:
                    R.violation(name, e.loc or where,
                                'random draw: %s' % (e.data[1],))
                    return
                if not X.mentions(key, X.sym('seed', 'i')):
                    R.violation(name, e.loc or where, 'draw from a '
                                'generator that does not depend on the '
                                'random_state: %s' % X.show(key))
                    return
    R.add(name, 'proved', '%d draws' % n)


BAD = {'seed', 'set_state', 'rand', 'randn', 'randint', 'random',
       'random_sample', 'ranf', 'sample', 'choice', 'bytes', 'shuffle',
       'permutation', 'normal', 'uniform', 'standard_normal', 'dirichlet',
       'beta', 'binomial', 'poisson', 'gamma', 'exponential', 'multinomial',
       'multivariate_normal', 'random_integers', 'laplace', 'default_rng'}


def lint(R):
    """every call through numpy.random or random in library code"""
    n = 0
    for top, ds, fs in os.walk(os.path.join(REPO, 'kamrecsys')):
        ds[:] = sorted(d for d in ds if d not in ('tests', '__pycache__'))
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            path = os.path.join(top, f)
            rel = os.path.relpath(path, REPO)
            try:
                tree = ast.parse(open(path, 'rb').read())
            except SyntaxError:
                continue
            alias = {}
            for x in ast.walk(tree):
                if isinstance(x, ast.Import):
                    for a in x.names:
                        if a.asname:
                            alias[a.asname] = a.name
                        else:
                            alias[a.name.split('.')[0]] = \
                                a.name.split('.')[0]
                elif isinstance(x, ast.ImportFrom) and x.module and \
                        not x.level:
                    for a in x.names:
                        alias[a.asname or a.name] = x.module + '.' + a.name
            for x in ast.walk(tree):
                if not isinstance(x, ast.Call):
                    continue
                parts = []
                e = x.func
                while isinstance(e, ast.Attribute):
                    parts.append(e.attr)
                    e = e.value
                if not isinstance(e, ast.Name) or e.id not in alias:
                    continue
                q = '.'.join([alias[e.id]] + parts[::-1])
                n += 1
                m = None
                if q.startswith('numpy.random.'):
                    m = q[13:]
                elif q.startswith('random.'):
                    m = q[7:]
                if m is None:
                    continue
                if m.split('.')[-1] in BAD and not (
                        m == 'default_rng' and x.args):
                    R.violation('no use of the global generator in %s' % rel,
                                '%s:%d' % (rel, x.lineno),
                                'call of %s' % q)
                    return
    R.add('no call of the global generator in library source', 'proved',
          '%d resolved calls' % n)


def check(R):
    R.rule('effect analysis: every random draw reached from fit and split '
           'comes from a generator keyed by random_state, none from the '
           'global one; repeated fits and splits have identical draws')
    sp = 'kamrecsys/model_selection/split.py:'

    def model(conf):
        kind, no, eo, ix, k = conf
        plsa = kind == 'MultinomialPLSA'
        where = WHERE.get(kind, 'kamrecsys/score_predictor/topic_model.py:'
                          'MultinomialPLSA.') + 'fit'
        S = Sess(SRC + EXTRA, config={'minimize': 'on_min',
                                      'box': 100 if plsa else None})
        I = Inp(S)
        n = I.int('n', 2, 6)
        E = I.arr('E', (n, len(eo)), 'i', ids_int)
        SC = I.arr('SC', (n,), 'i', lambda r, v, x:
                   x[0] if x[0] < 2 else r.randint(0, 1))
        seed = I.int('seed', 0, 99)
        V = I.arr('V', (I.int('m', 1, 3), len(eo)), 'i', ids_int)
        tag = '; %s, event_index=%s, k=%s' % (kind, ix, k)
        d = S.do('data', 'score', E, no, S.list(eo), SC, S.list([0, 1, 1]))
        a = (kind, d, S.list(ix), k, seed)

        def eff(name, fn, args, seeded):
            def go():
                check_effects(R, name + tag, S, S.run(fn, *args), seeded,
                              where)
            R.guard(name + tag, go)

        def pair(name, fn):
            def go():
                R.decide_pair(name + tag, S, S.run(fn, *a), I.gen, where)
            R.guard(name + tag, go)
        eff('draws of fit with an integer random_state', 'do_fit', a, True)
        eff('draws of fit with a RandomState', 'do_fit_inst', a, True)
        pair('fitting twice draws the same', 'twice')
        pair('two equal objects draw the same', 'fresh')
        pair('draws of others have no influence', 'between')
        ps = S.run('do_fit', *a)
        if len(ps) == 1 and ps[0].out[0] != 'raise':
            m = S.do('do_fit', *a)
            eff('predict draws nothing', 'do_pred', (m, V), False)

    def split(kind, K, labels):
        cfg = {'nonempty': True, 'known_uniq': {}}
        S = Sess(SRC + EXTRA, config=cfg)
        I = Inp(S)
        n = I.int('n', 7, 12)
        x = I.arr('X', (n, 2), 'f')
        seed = I.int('seed', 0, 99)
        G = None
        if labels:
            G = I.arr('G', (n,), 'i', lambda r, v, ix:
                      labels[ix[0] % len(labels)])
            cfg['known_uniq'][S.I.read(G).term().id] = X.tab(sorted(labels))
        where = sp + {'shuffle': 'ShuffleSplitWithinGroups',
                      'inter': 'InterlacedKFold'}.get(
                          kind, 'KFoldWithinGroups') + '.split'
        tag = '; %s, n_splits=%d, groups %s' % (kind, K, labels)
        s = seed if kind in ('shuffle', 'kfold_shuffled') else None

        def eff(name, fn):
            def go():
                check_effects(R, name + tag, S, S.run(
                    fn, kind, K, seed, x, G), True, where)
            R.guard(name + tag, go)

        def pair(name, fn):
            def go():
                R.decide_pair(name + tag, S, S.run(fn, kind, K, s, x, G),
                              I.gen, where)
            R.guard(name + tag, go)
        if s is not None:
            eff('draws of split with an integer random_state', 'split_once')
            eff('draws of split with a RandomState', 'split_inst')
        pair('splitting twice gives the same', 'split_twice')
        pair('two equal validators split the same', 'split_fresh')

    def metrics():
        S = Sess(SRC + EXTRA)
        I = Inp(S)
        n = I.int('n', 2, 6)
        A = I.arr('A', (n,), 'f', lambda r, v, x: r.uniform(1, 5))
        B = I.arr('B', (n,), 'f', lambda r, v, x: r.uniform(1, 5))
        for fn in ('m_mae', 'm_mse', 'm_hist', 'm_var', 'm_sps'):
            def go():
                check_effects(R, 'metric %s draws nothing' % fn[2:], S,
                              S.run(fn, A, B), False,
                              'kamrecsys/metrics')
            R.guard('metric ' + fn, go)
    jobs = [lambda: lint(R), metrics]
    for kind in ('PMF', 'LogisticPMF', 'ImplicitLogisticPMF',
                 'MultinomialPLSA'):
        for no, eo, ix, k in ((2, [0, 1], [0, 1], 2),
                              (3, [2, 0, 1], [2, 0], 1)):
            jobs.append(lambda c=(kind, no, eo, ix, k): model(c))
    for kind in ('kfold', 'kfold_shuffled', 'shuffle', 'inter'):
        jobs.append(lambda k=kind: split(k, 2, None))
        if kind != 'inter':
            jobs.append(lambda k=kind: split(k, 3, [5, 2]))
    R.fan(jobs)
