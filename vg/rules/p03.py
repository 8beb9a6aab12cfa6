from .common import *

SRC = '''
import numpy as np
from kamrecsys.data import EventData, EventWithScoreData


def mk(event, n_otypes, eo, f):
    d = EventData(n_otypes=n_otypes, event_otypes=eo)
    d.set_event(event, f)
    return d


def mks(event, n_otypes, eo, f, score, dom):
    d = EventWithScoreData(n_otypes=n_otypes, event_otypes=eo)
    d.set_event(event, score, dom, f)
    return d


def feat(d, otype, f):
    d.feature[otype] = f


def look(d, n_otypes):
    return ([d.n_objects[o] for o in range(n_otypes)],
            [np.asarray(d.eid[o]) for o in range(n_otypes)],
            [dict(d.iid[o]) for o in range(n_otypes)],
            [d.feature[o] for o in range(n_otypes)],
            d.event, d.n_events, d.event_feature, d.s_event,
            [d.event_otypes[e] for e in range(d.s_event)], d.n_otypes)


def looks(d, n_otypes):
    return look(d, n_otypes) + (d.score, np.asarray(d.score_domain),
                                d.n_score_levels)


def impl(d, n_otypes, c):
    return look(d.filter_event(c), n_otypes)


def impl_chain(d, n_otypes, c, c2):
    return look(d.filter_event(c).filter_event(c2), n_otypes)


def impl_s(d, n_otypes, c):
    return looks(d.filter_event(c), n_otypes)


def impl_chain_s(d, n_otypes, c, c2):
    return looks(d.filter_event(c).filter_event(c2), n_otypes)


def impl_bin(d, n_otypes, c):
    d.binarize_score()
    return looks(d.filter_event(c), n_otypes)


def impl_ext(d, n_otypes, c):
    g = d.filter_event(c)
    return g.to_eid_event(g.event)


def spec(event, n_otypes, eo, f, c, feats):
    s = len(eo)
    sub = event[c]
    eid = []
    iid = []
    fs = []
    for o in range(n_otypes):
        cols = [e for e in range(s) if eo[e] == o]
        old = np.unique(event[:, cols])
        u = np.unique(sub[:, cols])
        eid.append(u)
        iid.append({k: i for i, k in enumerate(u)})
        if feats[o] is None:
            fs.append(None)
        else:
            back = {k: i for i, k in enumerate(old)}
            fs.append(feats[o][np.array([back[k] for k in u], dtype=int)])
    ev = np.empty(sub.shape, dtype=int)
    for e in range(s):
        t = iid[eo[e]]
        ev[:, e] = [t[x] for x in sub[:, e]]
    return ([len(u) for u in eid], eid, iid, fs, ev, sub.shape[0],
            None if f is None else f[c], s, list(eo), n_otypes)


def spec_chain(event, n_otypes, eo, f, c, feats, c2):
    s = len(eo)
    s1 = event[c]
    f2 = []
    for o in range(n_otypes):
        cols = [e for e in range(s) if eo[e] == o]
        if feats[o] is None:
            f2.append(None)
        else:
            back = {k: i for i, k in enumerate(np.unique(event[:, cols]))}
            f2.append(feats[o][np.array(
                [back[k] for k in np.unique(s1[:, cols])], dtype=int)])
    return spec(s1, n_otypes, eo, None if f is None else f[c], c2, f2)


def spec_s(event, n_otypes, eo, f, c, feats, score, dom, nl):
    return spec(event, n_otypes, eo, f, c, feats) + (
        score[c], np.array(dom), nl)


def spec_chain_s(event, n_otypes, eo, f, c, feats, score, dom, nl, c2):
    return spec_chain(event, n_otypes, eo, f, c, feats, c2) + (
        score[c][c2], np.array(dom), nl)


def spec_bin(event, n_otypes, eo, f, c, feats, score, dom):
    return spec(event, n_otypes, eo, f, c, feats) + (
        np.where(score[c] <= (dom[0] + dom[1]) / 2, 0, 1),
        np.array([0, 1, 1]), 2)


def spec_ext(event, n_otypes, eo, f, c, feats):
    return event[c]
'''

CONF = [(2, [0, 1]), (2, [0, 1, 0]), (3, [2, 0, 1]), (1, [0]),
        (2, [1, 0]), (3, [0, 1, 2, 2])]


def check(R):
    R.rule('filter_event == set_event of the selected external rows, with '
           'object features, scores, domain and levels carried over')
    w1 = 'kamrecsys/data/event.py:EventData.filter_event'
    w2 = 'kamrecsys/data/event_with_score.py:EventWithScoreData.filter_event'
    def job(sort, no, eo, withf, chain):
        S = Sess(SRC)
        I = Inp(S)
        s = len(eo)
        n = I.int('n', 1, 7)
        m = I.int('m', 1, 6)
        m2 = I.int('m2', 1, 4)
        E = I.arr('E', (n, s), sort, IDS[sort])
        F = I.arr('F', (n, 2))
        SC = I.arr('SC', (n,), 'f', lambda r, v, ix: r.randint(1, 5))
        dom = (1, 5, 1)
        M = I.arr('M', (n,), 'b')
        IX = I.arr('IX', (m,), 'i',
                   lambda r, v, ix: r.randrange(v['n']))
        IX2 = I.arr('IX2', (m2,), 'i',
                    lambda r, v, ix: r.randrange(v['m']))
        tag = '%s ids, n_otypes=%d, event_otypes=%s' % (
            IDNAME[sort], no, eo)
        l = lambda: S.list(eo)
        if 1:
            f = F if withf else None
            d = S.do('mk', E, no, l(), f)
            ds = S.do('mks', E, no, l(), f, SC, dom)
            feats = [None] * no
            if withf:
                for o in range(no):
                    if no > 1 and o == 1 and len(eo) == 3:
                        continue
                    # one row per object
                    k = count(S, d, o)
                    feats[o] = S.arr('OF%d' % o, (k, 2))

                    def mkf(r, v, o=o):
                        t = sorted(set(
                            v['E'].flat[a * s + c]
                            for a in range(v['n'])
                            for c in range(s) if eo[c] == o))
                        return Nd((len(t), 2), [
                            round(r.uniform(-9, 9), 4)
                            for _ in range(2 * len(t))])
                    I._add('OF%d' % o, mkf)
                    S.do('feat', d, o, feats[o])
                    S.do('feat', ds, o, feats[o])
            fl = lambda: S.list(feats)

            def pair(name, where, impl, spec, ia, sa):
                nm = '%s%s; %s' % (name, ' and features' if withf
                                   else '', tag)

                def go():
                    a = S.run(impl, *ia)
                    b = S.run(spec, *sa)
                    R.decide(nm, S, a, S, b, I.gen, where)
                R.guard(nm, go)
            for nm, c in (('mask', M), ('indices', IX)):
                if chain:
                    break
                pair('filter by ' + nm, w1, 'impl', 'spec', (d, no, c),
                     (E, no, l(), f, c, fl()))
                pair('filter with scores by ' + nm, w2, 'impl_s',
                     'spec_s', (ds, no, c),
                     (E, no, l(), f, c, fl(), SC, dom, 5))
                pair('filter after binarizing by ' + nm, w2, 'impl_bin',
                     'spec_bin', (ds, no, c),
                     (E, no, l(), f, c, fl(), SC, dom))
                pair('external ids of filtered rows by ' + nm, w1,
                     'impl_ext', 'spec_ext', (d, no, c),
                     (E, no, l(), f, c, fl()))
            if chain != 1:
                return
            pair('filter of a filtered set', w1, 'impl_chain',
                 'spec_chain', (d, no, IX, IX2),
                 (E, no, l(), f, IX, fl(), IX2))
            pair('filter of a filtered set with scores', w2,
                 'impl_chain_s', 'spec_chain_s', (ds, no, IX, IX2),
                 (E, no, l(), f, IX, fl(), SC, dom, 5, IX2))
    chains = CONF if R.tier == 'thorough' else CONF[:3]
    jobs = [(x, no, eo, f, 0) for (no, eo) in CONF for x in 'isf'
            for f in (0, 1)]
    jobs += [(x, no, eo, f, 1) for (no, eo) in reversed(chains)
             for x in 'isf' for f in (0, 1)]
    R.fan([lambda a=a: job(*a) for a in jobs])


def count(S, d, o):
    S2 = S.m.ns
    ps = S.run(S.m.ns['nobj'], d, o) if 'nobj' in S2 else None
    return ps[0].out[1]


SRC = SRC + '''


def nobj(d, o):
    return len(d.eid[o])
'''
