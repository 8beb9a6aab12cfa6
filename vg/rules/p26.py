from .mf import *

EXTRA = '''
import scipy.sparse as sps
from kamrecsys.item_finder import BaseImplicitItemFinder


class Probe(BaseImplicitItemFinder):

    def __init__(self, sparse_type):
        super(Probe, self).__init__(random_state=0)
        self.st = sparse_type

    def fit(self, data, event_index=(0, 1)):
        super(Probe, self).fit(data, event_index=event_index)
        if self.st is None:
            self.got = self.get_event_array()
        else:
            self.got = self.get_event_array(self.st)

    def raw_predict(self, ev):
        return ev


def kind(m):
    return ('csr' if sps.isspmatrix_csr(m) else
            'csc' if sps.isspmatrix_csc(m) else
            'lil' if sps.isspmatrix_lil(m) else
            'coo' if sps.isspmatrix_coo(m) else
            'array' if isinstance(m, np.ndarray) else 'other')


def mat(d, ix, st, event, n_otypes, eo):
    p = Probe(st)
    p.fit(d, event_index=ix)
    ev, n_objects = p.got
    fmt = kind(ev)
    if fmt != 'array':
        ev = ev.toarray()
    u, i, nu, ni = internal(event, n_otypes, eo, ix)
    need = np.zeros((nu, ni), dtype=int)
    for j in range(event.shape[0]):
        need[u[j], i[j]] = 1
    return ((ev, fmt, ev.shape, n_objects[0], n_objects[1]),
            (need, 'csr' if st is None else st, (nu, ni), nu, ni))


def bad(d, ix, st):
    p = Probe(st)
    try:
        p.fit(d, event_index=ix)
    except TypeError:
        return 'TypeError', 'TypeError'
    return 'accepted', 'TypeError'
'''

CASES = [(2, [0, 1], [0, 1], 'i'), (2, [0, 1], [1, 0], 'i'),
         (2, [1, 0], [0, 1], 's'), (3, [2, 0, 1], [2, 0], 'i'),
         (2, [0, 1, 0], [2, 1], 's'), (2, [0, 1, 0], [0, 1], 'i'),
         (1, [0, 0], [0, 1], 'i')]


def check(R):
    R.rule('the matrix built from symbolic training events equals the '
           'incidence matrix of the fitted columns; number of events, '
           'users and items symbolic')
    where = 'kamrecsys/item_finder/base.py:BaseImplicitItemFinder.' \
        'get_event_array'

    def job(no, eo, ix, sort, scored):
        S = Sess(SRC + EXTRA)
        I = Inp(S)
        n = I.int('n', 1, 8)
        E = I.arr('E', (n, len(eo)), sort, IDS[sort])
        SC = I.arr('SC', (n,), 'f', lambda r, v, x: r.randint(1, 5) * 1.0)
        L = S.list
        d = S.do('data', 'score' if scored else 'plain', E, no, L(eo), SC,
                 L([1, 5, 1]))
        tag = '; n_otypes=%d, event_otypes=%s, event_index=%s, %s ids%s' % (
            no, eo, ix, sort, ', scored' if scored else '')
        for st in (None, 'csr', 'csc', 'lil', 'array'):
            name = 'matrix as %s' % (st or 'default') + tag
            R.guard(name, lambda st=st, name=name: R.decide_pair(
                name, S, S.run('mat', d, L(ix), st, E, no, L(eo)), I.gen,
                where))
        for st in ('dok', 'CSR', '', 'ndarray', 3):
            name = 'format %r rejected' % (st,) + tag
            R.guard(name, lambda st=st, name=name: R.decide_pair(
                name, S, S.run('bad', d, L(ix), st), I.gen, where))
    R.fan([lambda c=c, s=s: job(*(c + (s,))) for c in CASES
           for s in (False, True)])
