from .common import *
from ..values import narrowkind

SRC = '''
import numpy as np
from kamrecsys.data import EventData, EventWithScoreData


def mk(event, n_otypes, eo):
    d = EventData(n_otypes=n_otypes, event_otypes=eo)
    d.set_event(event, None)
    return d


def to_iid(d, V, mv):
    return d.to_iid_event(V, mv)


def to_iid_kw(d, V, mv):
    return d.to_iid_event(V, missing_values=mv)


def to_iid_default(d, V):
    return d.to_iid_event(V)


def to_eid(d, V):
    return d.to_eid_event(V)


def round_eie(d, V):
    return d.to_eid_event(d.to_iid_event(V))


def round_iei(d, V):
    return d.to_iid_event(d.to_eid_event(V))


def ident(d, V):
    return V.copy()


def one_iid(d, otype, x):
    return d.to_iid(otype, x)


def one_eid(d, otype, x):
    return d.to_eid(otype, x)


def tables(event, n_otypes, eo):
    s = len(eo)
    eid = []
    iid = []
    for o in range(n_otypes):
        cols = [e for e in range(s) if eo[e] == o]
        u = np.unique(event[:, cols])
        eid.append(u)
        iid.append({k: i for i, k in enumerate(u)})
    return eid, iid


def s_to_iid(event, n_otypes, eo, V, mv):
    eid, iid = tables(event, n_otypes, eo)
    s = len(eo)
    if mv is None:
        mv = [len(eid[o]) for o in eo]
    out = np.empty(V.shape, dtype=int)
    if V.ndim == 1:
        for e in range(s):
            out[e] = iid[eo[e]].get(V[e], mv[e])
    else:
        for e in range(s):
            out[:, e] = [iid[eo[e]].get(x, mv[e]) for x in V[:, e]]
    return out


def s_to_eid(event, n_otypes, eo, V):
    eid, iid = tables(event, n_otypes, eo)
    s = len(eo)
    if V.ndim == 1:
        return np.array([eid[eo[e]][V[e]] for e in range(s)])
    out = np.empty(V.shape, dtype=event.dtype)
    for e in range(s):
        out[:, e] = eid[eo[e]][V[:, e]]
    return out


def s_one_iid(event, n_otypes, eo, otype, x):
    eid, iid = tables(event, n_otypes, eo)
    if x in iid[otype]:
        return iid[otype][x]
    raise ValueError('unknown')


def s_one_eid(event, n_otypes, eo, otype, x):
    eid, iid = tables(event, n_otypes, eo)
    if x < 0 or x >= len(eid[otype]):
        raise ValueError('range')
    return eid[otype][x]


def s_type(d, V):
    raise TypeError('shape')
'''

CONF = [(2, [0, 1]), (2, [0, 1, 0]), (3, [2, 0, 1]), (1, [0]),
        (3, [0, 1, 2, 2])]


def tables(v, no, eo):
    E = v['E']
    n, s = E.shape
    out = []
    for o in range(no):
        out.append(sorted(set(E.flat[r * s + c] for r in range(n)
                              for c in range(s) if eo[c] == o)))
    return out


def check(R):
    R.rule('to_iid_event / to_eid_event / to_iid / to_eid == reference '
           'conversion with the tables of set_event, per column object type')
    ev = 'kamrecsys/data/event.py:EventUtilMixin.'
    ob = 'kamrecsys/data/base.py:ObjectUtilMixin.'
    def job(sort, no, eo):
        S = Sess(SRC)
        I = Inp(S)
        s = len(eo)
        n = I.int('n', 1, 7)
        m = I.int('m', 1, 5)
        wide = {'s': (narrowkind('s', 'U3'), narrowkind('s', 'U6'))}.get(
            sort, (None, None))
        E = I.arr('E', (n, s), sort, IDS[sort], wide[0])
        ids = wider if sort == 's' else IDS[sort]
        V = I.arr('V', (m, s), sort, ids, wide[1])
        V1 = I.arr('V1', (s,), sort, ids, wide[1])

        def inner(r, v, ix):
            t = tables(v, no, eo)
            return r.randrange(len(t[eo[ix[-1]]]))

        def known(r, v, ix):
            t = tables(v, no, eo)
            return r.choice(t[eo[ix[-1]]])
        W = I.arr('W', (m, s), 'i', inner)
        W1 = I.arr('W1', (s,), 'i', inner)
        K = I.arr('K', (m, s), sort, known)
        K1 = I.arr('K1', (s,), sort, known)
        mv = I.arr('mv', (s,), 'i', lambda r, v, ix: r.randint(-5, 60))
        mv0 = I.int('mv0', -3, 60, pos=False)
        if sort == 'i':
            I._add('x', lambda r, v: ids_int(r, v, None))
            x = S.int('x', False)
        elif sort == 'f':
            I._add('x', lambda r, v: ids_float(r, v, None))
            x = S.real('x')
        else:
            I._add('x', lambda r, v: ids_str(r, v, None))
            x = S.str('x')
        y = I.int('y', -6, 8, pos=False)
        tag = '%s ids, n_otypes=%d, event_otypes=%s' % (
            IDNAME[sort], no, eo)
        l = lambda: S.list(eo)
        d = S.do('mk', E, no, l())

        def pair(name, where, impl, spec, ia, sa, exc=True):
            def go():
                a = S.run(impl, d, *ia)
                b = S.run(spec, *sa)
                R.decide('%s; %s' % (name, tag), S, a, S, b, I.gen,
                         where, exc=exc)
            R.guard('%s; %s' % (name, tag), go)
        mvl = S.list([S.int('mv0', False)] * s)
        for nm, q, qi in (('table', V, W), ('single event', V1, W1)):
            pair('to_iid_event, default missing value, ' + nm,
                 ev + 'to_iid_event', 'to_iid_default', 's_to_iid',
                 (q,), (E, no, l(), q, None))
            pair('to_iid_event, missing values per column, ' + nm,
                 ev + 'to_iid_event', 'to_iid', 's_to_iid',
                 (q, mv), (E, no, l(), q, mv))
            pair('to_iid_event, scalar missing value, ' + nm,
                 ev + 'to_iid_event', 'to_iid_kw', 's_to_iid',
                 (q, mv0), (E, no, l(), q, S.list([mv0] * s)))
            pair('to_iid_event, missing value 0, ' + nm,
                 ev + 'to_iid_event', 'to_iid', 's_to_iid',
                 (q, 0), (E, no, l(), q, S.list([0] * s)))
            pair('to_eid_event, ' + nm, ev + 'to_eid_event', 'to_eid',
                 's_to_eid', (qi,), (E, no, l(), qi))
        for nm, q, qi in (('table', K, W), ('single event', K1, W1)):
            pair('external -> internal -> external, ' + nm,
                 ev + 'to_eid_event', 'round_eie', 'ident', (q,),
                 (d, q))
            pair('internal -> external -> internal, ' + nm,
                 ev + 'to_iid_event', 'round_iei', 'ident', (qi,),
                 (d, qi))
        for o in range(no):
            if o not in eo:
                continue
            pair('to_iid of type %d' % o, ob + 'to_iid', 'one_iid',
                 's_one_iid', (o, x), (E, no, l(), o, x))
            pair('to_eid of type %d' % o, ob + 'to_eid', 'one_eid',
                 's_one_eid', (o, y), (E, no, l(), o, y))
        B1 = I.arr('B1', (s + 1,), sort, IDS[sort])
        B2 = I.arr('B2', (m, s + 1), sort, IDS[sort])
        B3 = I.arr('B3', (1, m, s), sort, IDS[sort])
        C1 = I.arr('C1', (s + 1,), 'i', lambda r, v, ix: 0)
        C2 = I.arr('C2', (m, s + 1), 'i', lambda r, v, ix: 0)
        C3 = I.arr('C3', (1, m, s), 'i', lambda r, v, ix: 0)
        for nm, q, qi in (('vector', B1, C1), ('table', B2, C2),
                          ('cube', B3, C3)):
            pair('to_iid_event of a wrong shape, ' + nm,
                 ev + 'to_iid_event', 'to_iid_default', 's_type', (q,),
                 (d, q))
            pair('to_eid_event of a wrong shape, ' + nm,
                 ev + 'to_eid_event', 'to_eid', 's_type', (qi,),
                 (d, qi))
    R.fan([lambda a=(x, no, eo): job(*a)
           for x in 'isf' for (no, eo) in CONF])
