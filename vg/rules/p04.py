from .mf import *
from ..values import *   # noqa

EXTRA = '''
from kamrecsys.score_predictor import MultinomialPLSA
from kamrecsys.model_selection import (
    ShuffleSplitWithinGroups, KFoldWithinGroups, InterlacedKFold)
from kamrecsys.metrics import (
    mean_absolute_error, mean_squared_error, score_histogram,
    variance_with_gamma_prior, score_predictor_report,
    score_predictor_statistics, item_finder_report, item_finder_statistics,
    generate_score_bins, generate_score_levels)
from kamrecsys.utils import safe_sigmoid, is_binary_score


def make(kind, C, k, seed, kw):
    if kind == 'MultinomialPLSA':
        return MultinomialPLSA(k=k, alpha=C, random_state=seed, maxiter=1,
                               tol=0.5)
    return MODELS[kind](C=C, k=k, random_state=seed, **kw)


def dup(x):
    if x is None:
        return None
    if isinstance(x, list):
        return [y for y in x]
    return np.array(x)


def snap(d):
    """copy of everything a data object holds"""
    out = [d.n_otypes, d.s_event, d.n_events, dup(d.n_objects),
           dup(d.event_otypes), dup(d.event), dup(d.event_feature)]
    for i in range(d.n_otypes):
        t = {}
        for x in d.iid[i]:
            t[x] = d.iid[i][x]
        out += [dup(d.eid[i]), t, dup(d.feature[i])]
    if isinstance(d, EventWithScoreData):
        out += [dup(d.score), dup(d.score_domain), d.n_score_levels]
    return out


def full(kind, E, no, eo, SC, dom, EF, F):
    if kind == 'plain':
        d = EventData(n_otypes=no, event_otypes=eo)
        d.set_event(E, EF)
    else:
        d = EventWithScoreData(n_otypes=no, event_otypes=eo)
        d.set_event(E, SC, dom, EF)
    if F is not None:
        d.set_feature(0, d.eid[0].copy(), F[:d.n_objects[0]])
    return d


# arguments stay as they were ------------------------------------------------
def in_set(kind, E, no, eo, SC, dom, EF, F):
    c = [dup(E), dup(eo), dup(SC), dup(dom), dup(EF), dup(F)]
    full(kind, E, no, eo, SC, dom, EF, F)
    return [E, eo, SC, dom, EF, F], c


def in_feature(kind, E, no, eo, SC, dom, EF, F):
    d = full(kind, E, no, eo, SC, dom, EF, None)
    k = d.eid[0][::-1].copy()
    f = F[:d.n_objects[0]].copy()
    c = (dup(k), dup(f))
    d.set_feature(0, k, f)
    return (k, f), c


def in_filter(d, sel):
    a, c = snap(d), dup(sel)
    d.filter_event(sel)
    return (snap(d), sel), (a, c)


def in_fit(kind, d, ix, C, k, seed, kw):
    a, c = snap(d), dup(ix)
    o = {}
    for x in kw:
        o[x] = kw[x]
    oo = {}
    if 'options' in kw:
        for x in kw['options']:
            oo[x] = kw['options'][x]
    m = make(kind, C, k, seed, kw)
    m.fit(d, event_index=ix)
    r = {}
    for x in kw:
        if x != 'options':
            r[x] = kw[x]
    q = {}
    if 'options' in kw:
        for x in kw['options']:
            q[x] = kw['options'][x]
        del o['options']
    return (snap(d), ix, r, q), (a, c, o, oo)


def in_predict(kind, d, ix, C, k, seed, kw, V):
    m = make(kind, C, k, seed, kw)
    m.fit(d, event_index=ix)
    p = pars(m, kind)
    a = ([dup(x) for x in p], snap(d), dup(V))
    m.predict(V)
    m.predict(V[0])
    m.raw_predict(m.to_iid_event(V)[:, m.event_index])
    return (pars(m, kind), snap(d), V), a


def pars(m, kind):
    if kind == 'MultinomialPLSA':
        return [m.pZ_, m.pXgZ_, m.pYgZ_, m.pRgZ_]
    return [m.mu_, m.bu_, m.bi_, m.p_, m.q_]


def in_ids(d, V, miss):
    a = (snap(d), dup(V), dup(miss))
    x = d.to_iid_event(V, missing_values=miss)
    y = d.to_iid_event(V[0])
    w = dup(d.event)
    d.to_eid_event(d.event)
    d.to_eid_event(w)
    d.to_eid_event(d.event[0])
    return (snap(d), V, miss), a


def in_scores(d, x):
    a = (snap(d), dup(x))
    d.digitize_score(x)
    d.digitize_score()
    d.get_score_levels()
    d.generate_score_bins()
    return (snap(d), x), a


def in_split(cv, X, G):
    a = (dup(X), dup(G))
    for tr, te in cv.split(X, groups=G):
        pass
    return (X, G), a


def in_metric(f, a, b, D):
    c = (dup(a), dup(b), dup(D))
    if f == 'errors':
        mean_absolute_error(a, b)
        mean_squared_error(a, b)
        score_predictor_report(a, b, disp=False)
        score_predictor_statistics(a, b, score_domain=D)
    elif f == 'finder':
        item_finder_report(a, b, disp=False)
        item_finder_statistics(a, b)
        is_binary_score(a)
    elif f == 'hist':
        score_histogram(a, score_domain=D)
        score_histogram(a, score_domain=3)
        generate_score_bins(D)
        generate_score_levels(D)
        safe_sigmoid(a)
    else:
        variance_with_gamma_prior(a)
        variance_with_gamma_prior(a, force_all_finite=True)
    return (a, b, D), c


# later changes of others ----------------------------------------------------
def spoil(d, E2, SC2, EF2, F2):
    """other contents through the methods of the class"""
    if isinstance(d, EventWithScoreData):
        d.binarize_score()
        d.set_event(E2, SC2, (0, 4, 2), EF2)
    else:
        d.set_event(E2, EF2)
    d.set_feature(0, d.eid[0].copy(), F2[:d.n_objects[0]])


def scribble(d):
    """in-place changes of the arrays of a data object"""
    d.event[:] = 0
    if d.event_feature is not None:
        d.event_feature[:] = -9.0
    if d.feature[0] is not None:
        d.feature[0][:] = -9.0
    if isinstance(d, EventWithScoreData):
        d.score[:] = 0


def caller(kind, E, no, eo, SC, dom, EF, F):
    """the caller reuses its arrays"""
    d = full(kind, E, no, eo, SC, dom, EF, F)
    a = snap(d)
    E[:] = E[0, 0]
    if SC is not None:
        SC[:] = 0
    if EF is not None:
        EF[:] = -7.0
    F[:] = -8.0
    return snap(d), a


def filtered(d, sel, E2, SC2, EF2, F2):
    e = d.filter_event(sel)
    a = snap(e)
    spoil(d, E2, SC2, EF2, F2)
    return snap(e), a


def filtered_scribbled(d, sel):
    e = d.filter_event(sel)
    a = snap(e)
    scribble(d)
    return snap(e), a


def source(d, sel, E2, SC2, EF2, F2):
    a = snap(d)
    e = d.filter_event(sel)
    spoil(e, E2, SC2, EF2, F2)
    return snap(d), a


def source_scribbled(d, sel):
    a = snap(d)
    e = d.filter_event(sel)
    scribble(e)
    return snap(d), a


def model_tabs(m):
    out = [m.n_otypes, dup(m.n_objects), dup(m.event_index),
           dup(m.event_otypes)]
    for i in range(m.n_otypes):
        t = {}
        for x in m.iid[i]:
            t[x] = m.iid[i][x]
        out += [dup(m.eid[i]), t]
    return out


def model(kind, d, ix, C, k, seed, kw, V, E2, SC2, EF2, F2):
    """a fitted model after its training data was changed"""
    m = make(kind, C, k, seed, kw)
    m.fit(d, event_index=ix)
    a = (model_tabs(m), [dup(x) for x in pars(m, kind)], m.predict(V))
    spoil(d, E2, SC2, EF2, F2)
    scribble(d)
    return (model_tabs(m), pars(m, kind), m.predict(V)), a


def two_models(kind, d, ix, C, k, seed, kw, V):
    """a model after another one with equal settings was fitted"""
    m = make(kind, C, k, seed, kw)
    o = make(kind, C, k, seed, kw)
    m.fit(d, event_index=ix)
    f = {}
    for x in m.fit_results_:
        if x != 'optimizer_kwargs':
            f[x] = m.fit_results_[x]
    a = (model_tabs(m), [dup(x) for x in pars(m, kind)], m.predict(V), f)
    OPT_NAME[0] = 'other'
    o.fit(d, event_index=[ix[1], ix[0]])
    g = {}
    for x in m.fit_results_:
        if x != 'optimizer_kwargs':
            g[x] = m.fit_results_[x]
    return (model_tabs(m), pars(m, kind), m.predict(V), g), a


def folds(cv, X, G):
    """folds of a user who overwrites every array at once"""
    a = []
    b = []
    for tr, te in cv.split(X, groups=G):
        a.append((tr, te))
    for tr, te in cv.split(X, groups=G):
        b.append((np.array(tr), np.array(te)))
        tr[:] = -1
        te[:] = -1
    return b, a


def levels(d, D):
    """generated levels and bins are new arrays"""
    a = (dup(d.get_score_levels()), dup(d.generate_score_bins()),
         dup(d.score_domain), dup(D))
    x = d.get_score_levels()
    x[:] = 77.0
    y = d.generate_score_bins()
    y[:] = 77.0
    return (d.get_score_levels(), d.generate_score_bins(), d.score_domain,
            D), a


def mk_cv(kind, seed):
    if kind == 'inter':
        return InterlacedKFold(n_splits=2)
    if kind == 'kfold':
        return KFoldWithinGroups(n_splits=2)
    if kind == 'kfold_shuffled':
        return KFoldWithinGroups(n_splits=2, shuffle=True,
                                 random_state=seed)
    return ShuffleSplitWithinGroups(n_splits=2, test_size=0.5,
                                    random_state=seed)
'''

DATA = 'kamrecsys/data/event_with_score.py:EventWithScoreData.'


class World4(object):
    def __init__(self, kind, no, eo, sort, feat, dt='i'):
        self.S = S = Sess(SRC + EXTRA, config={'minimize': 'on_min',
                                               'box': 100})
        self.I = I = Inp(S)
        s = len(eo)
        self.n = n = I.int('n', 2, 5)
        self.eo, self.no, self.kind = eo, no, kind
        self.E = I.arr('E', (n, s), sort, IDS[sort])
        self.SC = I.arr('SC', (n,), dt, lambda r, v, x: float(x[0] % 2)
                        if dt == 'f' else x[0] % 2)
        self.dom = [0, 1, 1]
        if kind == 'score5':
            self.SC = I.arr('SC', (n,), 'f',
                            lambda r, v, x: float(r.randint(1, 5)))
            self.dom = [1, 5, 1]
        self.EF = I.arr('EF', (n, 2), 'f') if feat else None
        self.F = I.arr('F', (tt(60), 2), 'f')
        n2 = I.int('n2', 1, 4)
        self.E2 = I.arr('E2', (n2, s), sort, IDS[sort])
        self.SC2 = I.arr('SC2', (n2,), 'f', lambda r, v, x: float(
            r.choice([0, 2, 4])))
        self.EF2 = I.arr('EF2', (n2, 3), 'f') if feat else None
        self.F2 = I.arr('F2', (tt(60), 1), 'f')
        self.tag = '; %s data, n_otypes=%d, event_otypes=%s, %s ids%s' % (
            'plain' if kind == 'plain' else 'scored', no, eo, sort,
            ', features' if feat else '')

    def build(self):
        S = self.S
        return (self.kind, self.E, self.no, S.list(self.eo), self.SC,
                S.list(self.dom), self.EF, self.F)

    def other(self):
        return (self.E2, self.SC2, self.EF2, self.F2)


def check(R):
    R.rule('arguments and data objects have the same contents before and '
           'after every call, and objects built from others the same '
           'contents before and after changes of those; in the heap of the '
           'analysis, for symbolic arrays')

    def pair(W, name, where, fn, *args):
        name += W.tag
        R.guard(name, lambda: R.decide_pair(name, W.S, W.S.run(fn, *args),
                                            W.I.gen, where, tol=1e-6))

    def data(kind, no, eo, sort, feat):
        W = World4(kind, no, eo, sort, feat)
        S, I = W.S, W.I
        where = ('kamrecsys/data/event.py:EventData.' if kind == 'plain'
                 else DATA)
        pair(W, 'set_event keeps its arguments', where + 'set_event',
             'in_set', *W.build())
        pair(W, 'set_feature keeps its arguments',
             'kamrecsys/data/base.py:BaseData.set_feature', 'in_feature',
             *W.build())
        pair(W, 'data does not change with the arrays of the caller',
             where + 'set_event', 'caller', *W.build())
        d = S.do('full', *W.build())
        n = W.n
        mask = I.arr('mask', (n,), 'b', lambda r, v, x: x[0] == 0 or
                     r.random() < 0.6)
        sel = I.arr('sel', (I.int('q', 1, 4),), 'i',
                    lambda r, v, x: r.randrange(v['n']))
        for nm, c in (('mask', mask), ('indices', sel)):
            pair(W, 'filter_event by %s keeps its inputs' % nm,
                 where + 'filter_event', 'in_filter', d, c)
            pair(W, 'data filtered by %s after the source changed' % nm,
                 where + 'filter_event', 'filtered', d, c, *W.other())
            pair(W, 'data filtered by %s after arrays of the source '
                 'changed' % nm, where + 'filter_event',
                 'filtered_scribbled', d, c)
            pair(W, 'source after data filtered by %s changed' % nm,
                 where + 'filter_event', 'source', d, c, *W.other())
            pair(W, 'source after arrays of data filtered by %s changed' %
                 nm, where + 'filter_event', 'source_scribbled', d, c)
        V = I.arr('V', (I.int('m', 1, 3), len(eo)), sort, IDS[sort])
        miss = I.arr('miss', (tt(len(eo)),), 'i')
        pair(W, 'id conversion keeps its inputs',
             'kamrecsys/data/event.py:EventUtilMixin.to_iid_event',
             'in_ids', d, V, miss)
        if kind != 'plain':
            x = I.arr('x', (I.int('m2', 1, 3),), 'f', dyadic(0, 5))
            pair(W, 'digitizing keeps its inputs', where +
                 'digitize_score', 'in_scores', d, x)
            pair(W, 'levels and bins are new arrays', where +
                 'get_score_levels', 'levels', d, S.list(W.dom))

    def model(kind, no, eo, ix, opts, feat):
        data = 'plain' if kind == 'plain' else 'score'
        W = World4('score5' if kind in ('PMF', 'MultinomialPLSA') else
                   'score', no, eo, 'i', feat)
        S, I = W.S, W.I
        d = S.do('full', *W.build())
        C, seed = I.real('C', 0.1, 2), I.int('seed', 0, 99)
        V = I.arr('V', (I.int('m', 1, 3), len(eo)), 'i', ids_int)

        def args():
            kw = S.dict([(a, S.dict(b) if isinstance(b, list) else b)
                         for a, b in opts])
            return (kind, d, S.list(ix), C, 2, seed, kw)
        W.tag = '; %s, event_otypes=%s, event_index=%s%s%s' % (
            kind, eo, ix, ', options' if opts else '',
            ', features' if feat else '')
        where = (WHERE.get(kind) or 'kamrecsys/score_predictor/'
                 'topic_model.py:MultinomialPLSA.')
        pair(W, 'fit keeps data and options', where + 'fit', 'in_fit',
             *args())
        if opts:
            return
        pair(W, 'predict keeps model, data and events', where +
             'raw_predict', 'in_predict', *(args() + (V,)))
        pair(W, 'model after its training data changed', where + 'fit',
             'model', *(args() + (V,) + W.other()))
        pair(W, 'model after another one was fitted', where + 'fit',
             'two_models', *(args() + (V,)))

    def split(kind, groups):
        S = Sess(SRC + EXTRA, config={'nonempty': True, 'known_uniq': {}})
        I = Inp(S)
        n = I.int('n', 6, 12)
        x = I.arr('X', (n, 2), 'f')
        seed = I.int('seed', 0, 99)
        G = None
        if groups:
            def order(r, v):
                g = [5, 2, 5, 2, 5, 2] + [r.choice([5, 2]) for _ in range(
                    v['n'] - 6)]
                r.shuffle(g)
                v['G'] = Nd((v['n'],), g)
            G = I.arr('G', (n,), 'i')
            I.post(order)
            S.I.config['known_uniq'][S.I.read(G).term().id] = X.tab([2, 5])
        cv = S.do('mk_cv', kind, seed)

        class W(object):
            pass
        w = W()
        w.S, w.I = S, I
        w.tag = '; %s%s' % (kind, ', groups' if groups else '')
        where = 'kamrecsys/model_selection/split.py:' + {
            'inter': 'InterlacedKFold', 'shuffle':
            'ShuffleSplitWithinGroups'}.get(kind, 'KFoldWithinGroups')
        pair(w, 'split keeps its inputs', where, 'in_split', cv, x, G)
        pair(w, 'folds are independent of each other', where, 'folds', cv,
             x, G)

    def metric(f, sort):
        S = Sess(SRC + EXTRA)
        I = Inp(S)
        n = I.intf('n', lambda r, v: r.randint(2, 6))

        class W(object):
            pass
        w = W()
        w.S, w.I = S, I
        w.tag = '; %s scores' % sort
        el = {'f': dyadic(1, 5), 'i': lambda r, v, x: r.randint(1, 5)}[sort]
        if f == 'finder':
            el = lambda r, v, x: (1.0 if sort == 'f' else 1) * (x[0] % 2)
        a = I.arr('a', (n,), sort, el)
        b = I.arr('b', (n,), sort)
        D = S.tab([1.0, 5.0, 1.0], 'f')
        pair(w, 'metrics keep their inputs: %s' % f,
             'kamrecsys/metrics', 'in_metric', f, a, b, D)
    jobs = []
    for kind, no, eo, sort in (
            ('score5', 2, [0, 1], 'i'), ('score5', 2, [0, 1], 's'),
            ('plain', 2, [0, 1], 'i'), ('score5', 3, [2, 0, 1], 'i'),
            ('score5', 2, [0, 1, 0], 'i'), ('plain', 3, [2, 0, 1], 's')):
        for f in (False, True):
            jobs.append(lambda a=(kind, no, eo, sort, f): R.guard(
                str(a), lambda: data(*a)))
    OPT = [('method', 'BFGS'), ('maxiter', 7), ('options', [
        ('gtol', 1e-3)])]
    for kind in ('PMF', 'LogisticPMF', 'ImplicitLogisticPMF',
                 'MultinomialPLSA'):
        for no, eo, ix in ((2, [0, 1], [0, 1]), (3, [2, 0, 1], [2, 0])):
            for f in (False, True):
                jobs.append(lambda a=(kind, no, eo, ix, [], f): R.guard(
                    str(a), lambda: model(*a)))
        if kind != 'MultinomialPLSA':
            jobs.append(lambda a=(kind, 2, [0, 1], [0, 1], OPT, False):
                        R.guard(str(a), lambda: model(*a)))
    for kind in ('inter', 'kfold', 'kfold_shuffled', 'shuffle'):
        for g in (False, True):
            if kind != 'inter' or not g:
                jobs.append(lambda a=(kind, g): R.guard(
                    str(a), lambda: split(*a)))
    for f in ('errors', 'finder', 'hist', 'variance'):
        for s in 'fi':
            jobs.append(lambda a=(f, s): R.guard(str(a),
                                                 lambda: metric(*a)))
    R.fan(jobs)
