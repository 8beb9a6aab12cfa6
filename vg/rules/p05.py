from .common import *

SRC = '''
import numpy as np
from kamrecsys.data import EventData, EventWithScoreData


def mk(event, n_otypes, eo):
    d = EventData(n_otypes=n_otypes, event_otypes=eo)
    d.set_event(event, None)
    return d


def impl(d, n_otypes, otype, q, f):
    d.set_feature(otype, q, f)
    return [d.feature[o] for o in range(n_otypes)]


def impl_twice(d, n_otypes, otype, q, f, g):
    d.set_feature(otype, q, g)
    d.set_feature(otype, q, f)
    return [d.feature[o] for o in range(n_otypes)]


def impl_mut(d, n_otypes, otype, q, f, g):
    d.set_feature(otype, q, f)
    f[:] = g
    q[:] = q[0]
    return [d.feature[o] for o in range(n_otypes)]


def impl_filter(d, n_otypes, otype, q, f, c):
    d.set_feature(otype, q, f)
    e = d.filter_event(c)
    e.set_feature(otype, q, f)
    return [e.feature[o] for o in range(n_otypes)]


def impl_rest(d, n_otypes, otype, q, f):
    d.set_feature(otype, q, f)
    return (d.event, [np.asarray(d.eid[o]) for o in range(n_otypes)],
            [dict(d.iid[o]) for o in range(n_otypes)],
            [d.n_objects[o] for o in range(n_otypes)])


def spec(event, n_otypes, eo, otype, q, f):
    cols = [e for e in range(len(eo)) if eo[e] == otype]
    u = np.unique(event[:, cols])
    at = {k: i for i, k in enumerate(q)}
    r = f[np.array([at[k] for k in u], dtype=int)]
    return [r if o == otype else None for o in range(n_otypes)]


def spec_filter(event, n_otypes, eo, otype, q, f, c):
    return spec(event[c], n_otypes, eo, otype, q, f)


def spec_rest(d, n_otypes):
    return (d.event, [np.asarray(d.eid[o]) for o in range(n_otypes)],
            [dict(d.iid[o]) for o in range(n_otypes)],
            [d.n_objects[o] for o in range(n_otypes)])
'''

CONF = [(2, [0, 1]), (2, [0, 1, 0]), (3, [2, 0, 1]), (1, [0]),
        (3, [0, 1, 2, 2])]


def check(R):
    R.rule('set_feature: stored row of an object == given row of its '
           'external id; other types and tables untouched')
    w = 'kamrecsys/data/base.py:BaseData.set_feature'
    def job(sort, no, eo, ot):
        S = Sess(SRC)
        I = Inp(S)
        s = len(eo)
        n = I.int('n', 1, 6)
        k = I.int('k', 1, 4)
        E = I.arr('E', (n, s), sort, IDS[sort])
        C = I.arr('C', (k,), 'i',
                  lambda r, v, ix: r.randrange(v['n']))
        m = S.int('m')
        Q = S.arr('Q', (m,), sort)
        F2 = S.arr('F2', (m, 2))
        G2 = S.arr('G2', (m, 2))
        F1 = S.arr('F1', (m,), 's')

        def post(r, v):
            t = set(v['E'].flat[a * s + c] for a in range(v['n'])
                    for c in range(s) if eo[c] == ot)
            for _ in range(r.randint(0, 4)):
                t.add(IDS[sort](r, {}, None))
            t = sorted(t)
            r.shuffle(t)
            v['m'] = len(t)
            v['Q'] = Nd((len(t),), t)
            for nm in ('F2', 'G2'):
                v[nm] = Nd((len(t), 2), [
                    round(r.uniform(-9, 9), 4)
                    for _ in range(2 * len(t))])
            v['F1'] = Nd((len(t),), ['f%d' % r.randint(0, 99)
                                     for _ in t])
        I.post(post)
        tag = '%s ids, n_otypes=%d, event_otypes=%s, type %d' % (
            IDNAME[sort], no, eo, ot)
        l = lambda: S.list(eo)
        d = S.do('mk', E, no, l())

        def pair(name, impl, spec, ia, sa):
            nm = name + '; ' + tag

            def go():
                a = S.run(impl, *ia)
                b = S.run(spec, *sa)
                R.decide(nm, S, a, S, b, I.gen, w)
            R.guard(nm, go)
        for nm, f in (('table', F2), ('vector', F1)):
            pair('set_feature of a ' + nm, 'impl', 'spec',
                 (d, no, ot, Q, f), (E, no, l(), ot, Q, f))
            pair('set_feature leaves the rest, ' + nm, 'impl_rest',
                 'spec_rest', (d, no, ot, Q, f), (d, no))
            pair('set_feature of filtered data, ' + nm,
                 'impl_filter', 'spec_filter', (d, no, ot, Q, f, C),
                 (E, no, l(), ot, Q, f, C))
        pair('set_feature twice', 'impl_twice', 'spec',
             (d, no, ot, Q, F2, G2), (E, no, l(), ot, Q, F2))
        pair('given feature changed later', 'impl_mut', 'spec',
             (d, no, ot, Q, F2, G2), (E, no, l(), ot, Q, F2))
    R.fan([lambda a=(x, no, eo, ot): job(*a) for x in 'isf'
           for (no, eo) in CONF for ot in sorted(set(eo))])
