"""Driver shared by the rules about matrix factorization models."""
from .common import *

SRC = '''
import numpy as np
from kamrecsys.data import EventData, EventWithScoreData
from kamrecsys.score_predictor import PMF
from kamrecsys.item_finder import LogisticPMF, ImplicitLogisticPMF

MODELS = {'PMF': PMF, 'LogisticPMF': LogisticPMF,
          'ImplicitLogisticPMF': ImplicitLogisticPMF}
OPT_NAME = ['opt']
REC = {}


def on_min(res, fun, x0, args, method, jac, options, tol):
    REC['calls'] = REC.get('calls', 0) + 1
    REC['size'] = np.size(x0)
    if jac is True:
        REC['loss'], REC['grad'] = fun(res.x, *args)
        REC['loss0'] = fun(x0, *args)[0]
    else:
        REC['loss'] = fun(res.x, *args)
        REC['loss0'] = fun(x0, *args)
        REC['grad'] = None
        if callable(jac):
            REC['grad'] = jac(res.x, *args)
    res.fun = REC['loss']
    REC['res'] = res
    REC['x'] = res.x
    REC['x0'] = np.array(x0)
    REC['method'] = method
    REC['jac'] = jac is not None and jac is not False
    REC['options'] = {}
    if options is not None:
        for o in options:
            REC['options'][o] = options[o]
    REC['tol'] = tol


def data(kind, event, n_otypes, eo, score, dom):
    if kind == 'plain':
        d = EventData(n_otypes=n_otypes, event_otypes=eo)
        d.set_event(event)
    else:
        d = EventWithScoreData(n_otypes=n_otypes, event_otypes=eo)
        d.set_event(event, score, dom)
    return d


def fit(kind, d, ix, C, k, seed, kw):
    REC.clear()
    m = MODELS[kind](C=C, k=k, random_state=seed, **kw)
    m.fit(d, event_index=ix)
    return m


def problem(kind, d, ix, C, k, seed, kw):
    m = fit(kind, d, ix, C, k, seed, kw)
    return m, REC['x'], REC['grad'], REC['loss']


def tables(event, n_otypes, eo):
    s = len(eo)
    eid = []
    iid = []
    for o in range(n_otypes):
        cols = [e for e in range(s) if eo[e] == o]
        u = np.unique(event[:, cols])
        eid.append(u)
        iid.append({k: i for i, k in enumerate(u)})
    return eid, iid


def internal(event, n_otypes, eo, use):
    """user and item numbers of the events, numbers of users and items"""
    eid, iid = tables(event, n_otypes, eo)
    cols = []
    for e in use:
        t = iid[eo[e]]
        cols.append(np.array([t[x] for x in event[:, e]], dtype=int))
    return cols[0], cols[1], len(eid[eo[use[0]]]), len(eid[eo[use[1]]])
'''

# model, object types, columns, event_index, number of factors
CONF = [
    ('PMF', 2, [0, 1], [0, 1], 1), ('PMF', 2, [0, 1], [0, 1], 'k'),
    ('PMF', 2, [0, 1, 0], [0, 1], 1), ('PMF', 2, [1, 0], [0, 1], 2), ('PMF', 3, [2, 0, 1], [2, 0], 2),
    ('LogisticPMF', 2, [0, 1], [0, 1], 1),
    ('LogisticPMF', 2, [0, 1], [0, 1], 'k'),
    ('LogisticPMF', 2, [1, 0, 1], [1, 0], 1),
    ('LogisticPMF', 3, [2, 0, 1], [2, 0], 2),
    ('ImplicitLogisticPMF', 2, [0, 1], [0, 1], 1),
    ('ImplicitLogisticPMF', 2, [0, 1], [0, 1], 'k'),
    ('ImplicitLogisticPMF', 3, [2, 0, 1], [2, 0], 2),
]

WHERE = {'PMF': 'kamrecsys/score_predictor/matrix_factorization.py:PMF.',
         'LogisticPMF':
         'kamrecsys/item_finder/matrix_factorization.py:LogisticPMF.',
         'ImplicitLogisticPMF':
         'kamrecsys/item_finder/matrix_factorization.py:'
         'ImplicitLogisticPMF.'}


class Case(object):
    """one model on symbolic data"""

    def __init__(self, conf, src='', sort='i', opts=(), plain=False,
                 config=None, small=False):
        kind, no, eo, ix, k = conf
        c = {'minimize': 'on_min'}
        c.update(config or {})
        self.S = S = Sess(SRC + src, config=c)
        self.I = I = Inp(S)
        self.kind, self.no, self.eo, self.ix = kind, no, eo, ix
        s = len(eo)
        self.n = I.int('n', 2, 4 if small else 7)
        self.E = I.arr('E', (self.n, s), sort, IDS[sort])
        if kind == 'PMF':
            self.SC = I.arr('SC', (self.n,), 'f', lambda r, v, x:
                            r.randint(1, 5) * 1.0)
            self.dom = (1, 5, 1)
        else:
            self.SC = I.arr('SC', (self.n,), 'i', lambda r, v, x:
                            x[0] if x[0] < 2 else r.randint(0, 1))
            self.dom = (0, 1, 1)
        self.k = I.int('k', 1, 3) if k == 'k' else k
        self.C = I.real('C', 0.01, 3.0)
        self.seed = I.int('seed', 0, 99)
        self.tag = '%s, n_otypes=%d, event_otypes=%s, event_index=%s, ' \
            'k=%s' % (kind, no, eo, ix, k if k != 'k' else 'any')
        self.kw = S.dict(list(opts))
        if opts:
            self.tag += ', options %s' % (
                ', '.join('%s=%s' % (a, b if isinstance(
                    b, (int, float, str)) else '...') for a, b in opts))
        self.d = S.do('data', 'plain' if plain else 'score', self.E, no,
                      S.list(eo), self.SC, S.list(list(self.dom)))
        self.where = WHERE[kind]

    def args(self):
        S = self.S
        return (self.kind, self.d, S.list(self.ix), self.C, self.k,
                self.seed, self.kw)

    def ref(self):
        S = self.S
        return (self.E, self.no, S.list(self.eo), S.list(self.ix))

    def pair(self, R, name, fn, *args, **kw):
        S = self.S
        nm = name + '; ' + self.tag
        where = self.where + kw.get('where', 'fit')

        def go():
            a = S.run(fn, *args)
            R.decide_pair(nm, S, a, self.I.gen, where, tol=1e-6)
        R.guard(nm, go)
