from .common import *

SRC = '''
import numpy as np
from kamrecsys.data import EventData, EventWithScoreData


def look(d, n_otypes):
    return ([d.n_objects[o] for o in range(n_otypes)],
            [np.asarray(d.eid[o]) for o in range(n_otypes)],
            [dict(d.iid[o]) for o in range(n_otypes)],
            d.event, d.n_events, d.event_feature, d.s_event,
            [d.event_otypes[e] for e in range(d.s_event)], d.n_otypes)


def impl(event, n_otypes, eo, f):
    d = EventData(n_otypes=n_otypes, event_otypes=eo)
    d.set_event(event, f)
    return look(d, n_otypes)


def impl_default(event, f):
    d = EventData()
    d.set_event(event, event_feature=f)
    return look(d, 2)


def impl_again(event0, f0, event, n_otypes, eo, f):
    d = EventData(n_otypes=n_otypes, event_otypes=eo)
    d.set_event(event0, f0)
    d.set_event(event, f)
    return look(d, n_otypes)


def impl_score(event, n_otypes, eo, f, score, dom):
    d = EventWithScoreData(n_otypes=n_otypes, event_otypes=eo)
    d.set_event(event, score, dom, f)
    return look(d, n_otypes) + (d.score,)


def impl_score_again(event0, event, n_otypes, eo, f, score0, score, dom):
    d = EventWithScoreData(n_otypes=n_otypes, event_otypes=eo)
    d.set_event(event0, score0, dom, None)
    d.set_event(event, score, dom, f)
    return look(d, n_otypes) + (d.score,)


def impl_mut(event, n_otypes, eo, f, other, fo):
    d = EventData(n_otypes=n_otypes, event_otypes=eo)
    d.set_event(event, f)
    event[:, :] = other
    f[:, :] = fo
    return look(d, n_otypes)


def spec(event, n_otypes, eo, f):
    s = len(eo)
    eid = []
    iid = []
    for o in range(n_otypes):
        cols = [e for e in range(s) if eo[e] == o]
        u = np.unique(event[:, cols])
        eid.append(u)
        iid.append({k: i for i, k in enumerate(u)})
    ev = np.empty(event.shape, dtype=int)
    for e in range(s):
        t = iid[eo[e]]
        ev[:, e] = [t[x] for x in event[:, e]]
    return ([len(u) for u in eid], eid, iid, ev, event.shape[0],
            None if f is None else np.array(f), s, list(eo), n_otypes)


def spec_default(event, f):
    return spec(event, 2, [0, 1], f)


def spec_again(event0, f0, event, n_otypes, eo, f):
    return spec(event, n_otypes, eo, f)


def spec_score(event, n_otypes, eo, f, score, dom):
    return spec(event, n_otypes, eo, f) + (np.array(score),)


def spec_score_again(event0, event, n_otypes, eo, f, score0, score, dom):
    return spec(event, n_otypes, eo, f) + (np.array(score),)


def spec_mut(event, n_otypes, eo, f, other, fo):
    return spec(event, n_otypes, eo, f)
'''

CONF = [(2, [0, 1]), (1, [0]), (2, [0, 1, 0]), (3, [2, 0, 1]),
        (2, [1, 0]), (3, [0, 1, 2, 2]), (1, [0, 0]), (2, [0, 1, 1, 0]),
        (3, [0, 2]), (2, [1, 1])]


def check(R):
    R.rule('value graph of EventData.set_event == reference definition of '
           'dense renumbering, per configuration of object types')
    def job(sort, no, eo):
        S = Sess(SRC)
        I = Inp(S)
        n = I.int('n', 1, 7)
        n0 = I.int('n0', 1, 6)
        E = I.arr('E', (n, len(eo)), sort, IDS[sort])
        O = I.arr('O', (n, len(eo)), sort, IDS[sort])
        E0 = I.arr('E0', (n0, len(eo)), sort, IDS[sort])
        F = I.arr('F', (n, 2))
        F0 = I.arr('F0', (n0, 2))
        FO = I.arr('FO', (n, 2))
        SC = I.arr('SC', (n,), 'f')
        SC0 = I.arr('SC0', (n0,), 'f')
        dom = (1, 5, 1)
        tag = '%s ids, n_otypes=%d, event_otypes=%s' % (
            IDNAME[sort], no, eo)
        w = 'kamrecsys/data/event.py:EventData.set_event'
        l = lambda: S.list(eo)
        R.same('set_event; ' + tag, S, 'impl', 'spec', I.gen, w,
               args=(E, no, l(), F))
        R.same('set_event without features; ' + tag, S, 'impl', 'spec',
               I.gen, w, args=(E, no, l(), None))
        R.same('set_event twice; ' + tag, S, 'impl_again', 'spec_again',
               I.gen, w, args=(E0, F0, E, no, l(), None))
        R.same('set_event twice with features; ' + tag, S, 'impl_again',
               'spec_again', I.gen, w, args=(E0, None, E, no, l(), F))
        R.same('set_event with scores; ' + tag, S, 'impl_score',
               'spec_score', I.gen, w, args=(E, no, l(), F, SC, dom))
        R.same('set_event with scores twice; ' + tag, S,
               'impl_score_again', 'spec_score_again', I.gen, w,
               args=(E0, E, no, l(), None, SC0, SC, dom))
        R.same('inputs changed later; ' + tag, S, 'impl_mut', 'spec_mut',
               I.gen, w, args=(E, no, l(), F, O, FO))
        if eo == [0, 1] and no == 2:
            R.same('default object types; ' + tag, S, 'impl_default',
                   'spec_default', I.gen, w, args=(E, F))
    R.fan([lambda a=(x, no, eo): job(*a)
           for x in 'isf' for (no, eo) in CONF])
