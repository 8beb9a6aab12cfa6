from .common import *
from ..values import narrowkind

SRC = '''
import numpy as np
from kamrecsys.data import EventData, EventWithScoreData
from kamrecsys.base import BaseEventRecommender
from kamrecsys.score_predictor import BaseScorePredictor, PMF
from kamrecsys.score_predictor import MultinomialPLSA
from kamrecsys.item_finder import (
    BaseExplicitItemFinder, BaseImplicitItemFinder, LogisticPMF,
    ImplicitLogisticPMF)


class ProbeE(BaseEventRecommender):
    def fit(self, data, event_index=None):
        super(ProbeE, self).fit(data, event_index)
        self.seen = self.get_event()

    def raw_predict(self, ev):
        r = 0
        for c in range(ev.shape[1]):
            r = r * 101 + ev[:, c]
        return r


class ProbeS(BaseScorePredictor):
    def fit(self, data, event_index=(0, 1)):
        super(ProbeS, self).fit(data, event_index)
        self.seen = self.get_event()

    def raw_predict(self, ev):
        r = 0
        for c in range(ev.shape[1]):
            r = r * 101 + ev[:, c]
        return r


class ProbeI(BaseImplicitItemFinder):
    def fit(self, data, event_index=(0, 1)):
        super(ProbeI, self).fit(data, event_index)
        self.seen = self.get_event()

    def raw_predict(self, ev):
        r = 0
        for c in range(ev.shape[1]):
            r = r * 101 + ev[:, c]
        return r


class ProbeX(BaseExplicitItemFinder):
    def fit(self, data, event_index=(0, 1)):
        super(ProbeX, self).fit(data, event_index)
        self.seen = self.get_event()

    def raw_predict(self, ev):
        r = 0
        for c in range(ev.shape[1]):
            r = r * 101 + ev[:, c]
        return r


def mk(event, n_otypes, eo, score, dom):
    d = EventWithScoreData(n_otypes=n_otypes, event_otypes=eo)
    d.set_event(event, score, dom)
    return d


PROBES = {'event': ProbeE, 'score': ProbeS, 'implicit': ProbeI,
          'explicit': ProbeX}


def fit(kind, d, ix):
    m = PROBES[kind]()
    if ix is None:
        m.fit(d)
    else:
        m.fit(d, event_index=ix)
    return m


def impl_train(kind, d, ix):
    m = fit(kind, d, ix)
    return m.seen[0], [m.seen[1][i] for i in range(m.seen[0].shape[1])]


def impl_pred(kind, d, ix, V):
    return fit(kind, d, ix).predict(V)


def impl_list(kind, d, ix, V):
    m = fit(kind, d, ix)
    return m.predict([[V[r, c] for c in range(V.shape[1])]
                      for r in range(3)])


def impl_refit(kind, d, ix, ix2, V):
    m = fit(kind, d, ix2)
    if ix is None:
        m.fit(d)
    else:
        m.fit(d, event_index=ix)
    return m.predict(V)


def tables(event, n_otypes, eo):
    s = len(eo)
    eid = []
    iid = []
    for o in range(n_otypes):
        cols = [e for e in range(s) if eo[e] == o]
        u = np.unique(event[:, cols])
        eid.append(u)
        iid.append({k: i for i, k in enumerate(u)})
    return eid, iid


def spec_train(event, n_otypes, eo, use):
    eid, iid = tables(event, n_otypes, eo)
    out = np.empty((event.shape[0], len(use)), dtype=int)
    for j, e in enumerate(use):
        t = iid[eo[e]]
        out[:, j] = [t[x] for x in event[:, e]]
    return out, [len(eid[eo[e]]) for e in use]


def spec_pred(event, n_otypes, eo, use, V):
    eid, iid = tables(event, n_otypes, eo)
    r = 0
    if V.ndim == 1:
        for e in use:
            o = eo[e]
            r = r * 101 + iid[o].get(V[e], len(eid[o]))
        return r
    for e in use:
        o = eo[e]
        c = np.array([iid[o].get(x, len(eid[o])) for x in V[:, e]], dtype=int)
        r = r * 101 + c
    return r


MODELS = {'PMF': PMF, 'MultinomialPLSA': MultinomialPLSA,
          'LogisticPMF': LogisticPMF, 'ImplicitLogisticPMF':
          ImplicitLogisticPMF}


def real_fit(kind, d, ix, seed):
    m = MODELS[kind](k=2, random_state=seed)
    m.fit(d, event_index=ix)
    return m


def real_pred(m, d, V, use):
    return m.predict(V)


def real_spec(m, d, V, use):
    I = d.to_iid_event(np.atleast_2d(V))
    r = m.raw_predict(I[:, np.array(use)])
    return r[0] if V.ndim == 1 else r
'''

# object types, columns, event_index given, columns used
CONF = [
    (2, [0, 1], None), (2, [0, 1], [0, 1]), (2, [0, 1], [1, 0]),
    (2, [0, 1, 0], [0, 1]), (2, [0, 1, 0], [2, 1]),
    (3, [0, 1, 2], [2, 0]), (3, [2, 0, 1], [0, 2]), (3, [1, 2, 0], [1, 2]),
    (2, [1, 0], None), (2, [1, 1, 0], [2, 0]), (3, [0, 1, 2], [-1, 0]),
    (2, [0, 1, 0], [-3, -2]), (2, [0, 0, 1], [0, 2]),
]


def check(R):
    R.rule('fit hands the model the columns and counts selected by '
           'event_index, predict converts external events with the tables '
           'of the same columns (probe subclasses and bundled models)')
    base = 'kamrecsys/base/base.py:BaseEventRecommender.'

    def job(sort, conf, kind):
        no, eo, ix = conf
        S = Sess(SRC)
        I = Inp(S)
        s = len(eo)
        n = I.int('n', 2, 7)
        m = I.int('m', 1, 5)
        # texts as wide as the longest id, longer ones when predicting
        wide = {'s': (narrowkind('s', 'U3'), narrowkind('s', 'U6'))}.get(
            sort, (None, None))
        E = I.arr('E', (n, s), sort, IDS[sort], wide[0])
        SC = I.arr('SC', (n,), 'i',
                   (lambda r, v, x: (x[0] if x[0] < 2 else r.randint(0, 1)))
                   if kind == 'explicit' else
                   (lambda r, v, x: r.randint(1, 5)))
        dom = (0, 1, 1) if kind == 'explicit' else (1, 5, 1)
        ids = wider if sort == 's' else IDS[sort]
        V = I.arr('V', (m, s), sort, ids, wide[1])
        V3 = I.arr('V3', (3, s), sort, ids, wide[1])
        V1 = I.arr('V1', (s,), sort, ids, wide[1])
        tag = '%s recommender, %s ids, n_otypes=%d, event_otypes=%s, ' \
            'event_index=%s' % (kind, IDNAME[sort],
                                no, eo, ix)
        d = S.do('mk', E, no, S.list(eo), SC, S.list(list(dom)))
        if ix is None:
            use = list(range(s)) if kind == 'event' else [0, 1]
        else:
            use = ix
        L = lambda x: S.list(x) if x is not None else None

        def pair(name, where, impl, spec, ia, sa):
            nm = name + '; ' + tag

            def go():
                a = S.run(impl, *ia)
                b = S.run(spec, *sa)
                R.decide(nm, S, a, S, b, I.gen, where)
            R.guard(nm, go)
        ref = lambda: (E, no, L(eo), L(use))
        pair('columns and counts used by fit', base + 'fit', 'impl_train',
             'spec_train', (kind, d, L(ix)), ref())
        pair('predict of a table', base + 'predict', 'impl_pred',
             'spec_pred', (kind, d, L(ix), V), ref() + (V,))
        pair('predict of one event', base + 'predict', 'impl_pred',
             'spec_pred', (kind, d, L(ix), V1), ref() + (V1,))
        pair('predict of a list of events', base + 'predict', 'impl_list',
             'spec_pred', (kind, d, L(ix), V3), ref() + (V3,))
        if ix is not None:
            pair('predict after fitting twice', base + 'predict',
                 'impl_refit', 'spec_pred',
                 (kind, d, L(ix), L(list(reversed(ix))), V), ref() + (V,))

    def real(kind, conf):
        no, eo, ix = conf
        S = Sess(SRC)
        I = Inp(S)
        s = len(eo)
        n = I.int('n', 2, 6)
        m = I.int('m', 2, 4)
        E = I.arr('E', (n, s), 'i', ids_int)
        dom = (0, 1, 1) if kind == 'LogisticPMF' else (1, 5, 1)
        SC = I.arr('SC', (n,), 'i',
                   (lambda r, v, x: (x[0] if x[0] < 2 else r.randint(0, 1)))
                   if kind == 'LogisticPMF' else
                   (lambda r, v, x: r.randint(1, 5)))
        V = I.arr('V', (m, s), 'i', ids_int)
        V1 = I.arr('V1', (s,), 'i', ids_int)
        seed = I.int('seed', 0, 99)
        tag = '%s, event_otypes=%s, event_index=%s' % (kind, eo, ix)

        def go():
            d = S.do('mk', E, no, S.list(eo), SC, S.list(list(dom)))
            ps = S.run('real_fit', kind, d, S.list(ix), seed)
            for nm, q in (('table', V), ('single event', V1)):
                name = 'predict of a %s == raw_predict of the converted ' \
                    'columns; %s' % (nm, tag)

                def one():
                    a = S.run('real_both', kind, d, S.list(ix), seed, q,
                              S.list(ix))
                    R.decide_pair(name, S, a, I.gen, base + 'predict')
                R.guard(name, one)
        R.guard('predict of ' + tag, go)
    jobs = [lambda a=(x, c, k): job(*a) for x in 'isf' for c in CONF
            for k in ('event', 'score', 'implicit', 'explicit')]
    jobs += [lambda a=(k, c): real(*a)
             for c in [(2, [0, 1], [0, 1]), (3, [2, 0, 1], [2, 0]),
                       (2, [0, 1, 0], [2, 1])]
             for k in ('PMF', 'LogisticPMF', 'ImplicitLogisticPMF')]
    R.fan(jobs)


SRC += '''


def real_both(kind, d, ix, seed, V, use):
    m = real_fit(kind, d, ix, seed)
    return real_pred(m, d, V, use), real_spec(m, d, V, use)
'''
