from .common import *
from .. import stubs

SRC = '''
import numpy as np
from kamrecsys.data import EventData, EventWithScoreData
from kamrecsys.datasets import (
    load_event, load_event_with_score, event_dtype_timestamp,
    load_pci_sample)

DT = {'none': None, 'timestamp': event_dtype_timestamp,
      'int': np.dtype([('count', int)]),
      'float': np.dtype([('w', float)]),
      'mixed': np.dtype([('a', float), ('b', int, 2), ('c', 'U3'),
                         ('d', int)])}


def look(d, no, score, dt):
    f = None
    if d.event_feature is not None and dt is not None:
        f = [d.event_feature[k] for k in dt.names]
    elif d.event_feature is not None:
        f = 'a feature'
    r = [d.n_otypes, d.s_event, d.n_events,
         [d.n_objects[o] for o in range(no)],
         [d.event_otypes[e] for e in range(d.s_event)],
         [np.asarray(d.eid[o]) for o in range(no)],
         [dict(d.iid[o]) for o in range(no)],
         d.event, d.to_eid_event(d.event), f]
    if score:
        r += [d.score, d.score_domain[0], d.score_domain[1],
              d.score_domain[2], d.n_score_levels]
    return r


def build(E, SC, no, eo, dom, FS, dt):
    """data of the columns of the file"""
    if SC is None:
        d = EventData(n_otypes=no, event_otypes=eo)
        d.set_event(E)
    else:
        d = EventWithScoreData(n_otypes=no, event_otypes=eo)
        d.set_event(E, SC, dom)
    r = look(d, no, SC is not None, None)
    r[9] = FS
    return r


def plain(name, E, no, eo, dt, FS):
    d = load_event(name, n_otypes=no, event_otypes=eo, event_dtype=DT[dt])
    return look(d, no, False, DT[dt]), build(E, None, no, eo, None, FS,
                                             DT[dt])


def scored(name, E, SC, no, eo, dom, dt, FS):
    d = load_event_with_score(name, n_otypes=no, event_otypes=eo,
                              score_domain=dom, event_dtype=DT[dt])
    return look(d, no, True, DT[dt]), build(E, SC, no, eo, dom, FS, DT[dt])


def defaults(name, E):
    d = load_event(name)
    return look(d, 2, False, None), build(E, None, 2, None, None, None,
                                          None)


def defaults_scored(name, E, SC):
    d = load_event_with_score(name)
    return look(d, 2, True, None), build(E, SC, 2, None, (1, 5, 1), None,
                                         None)


def pci(name, E, SC):
    d = load_pci_sample() if name is None else load_pci_sample(name)
    return look(d, 2, True, None), build(E, SC, 2, np.array([0, 1]),
                                         (1.0, 5.0, 0.5), None, None)


def types():
    return load_event('x'), None
'''

WHERE = 'kamrecsys/datasets/base.py:'


def check(R):
    R.rule('data loaded from a symbolic text table equals data built from '
           'its columns in the documented layout')

    def one(kind, no, eo, dt, dom, single, dflt=False):
        tabs = {}
        S = Sess(SRC, config={'tables': tabs})
        I = Inp(S)
        n = 1 if single else I.int('n', 2, 6)
        s = 2 if eo is None else len(eo)
        srt = 's' if kind == 'pci' else 'i'
        wide = (lambda r, v, x: ids_str(r, v, x) + 'k' * r.choice(
            (0, 1, 18 - len(ids_str(r, v, x)))))
        pool = {}

        def ids(r, v, x):
            p = v.get('$w')
            if p is None:
                p = v['$w'] = [''.join(r.choice('abz. ') for _ in range(k))
                               + 'x' for k in (3, 5, 16, 17, 17)]
            return r.choice(p)
        E = I.arr('E', (n, s), srt, ids if srt == 's' else ids_int)
        cols = [(srt, (lambda i, c=c: X.elem(S.I.read(E).term(), i, c)))
                for c in range(s)]
        SC = None
        if kind != 'plain':
            SC = I.arr('SC', (n,), 'f', lambda r, v, x: r.choice(
                (0, 1, 2.5, 3, 5)) + 0.0)
            cols.append(('f', lambda i: X.elem(S.I.read(SC).term(), i)))
        FS = []

        def col(name, srt, f=None):
            a = I.arr(name, (n,), srt, f)
            FS.append(a)
            cols.append((srt, lambda i: X.elem(S.I.read(a).term(), i)))
        if dt in ('timestamp', 'int'):
            col('F', 'i')
        elif dt == 'float':
            col('F', 'f')
        elif dt == 'mixed':
            col('Fa', 'f')
            b = I.arr('Fb', (n, 2), 'i')
            FS.append(b)
            for c in range(2):
                cols.append(('i', lambda i, c=c: X.elem(
                    S.I.read(b).term(), i, c)))
            col('Fc', 's', lambda r, v, x: r.choice(('', 'ab', 'xyz')))
            col('Fd', 'i')
        tabs['ev.txt'] = tabs['pci.event'] = (tt(n), cols)
        fs = S.list(FS) if FS else None
        tag = 'n_otypes=%d, event_otypes=%s, %s feature, %s%s' % (
            no, eo, dt, 'domain %s' % (dom,) if kind == 'scored' else '',
            ', a single line' if single else '')
        ev = None if eo is None else S.list(eo)
        D = tuple(dom) if dom else dom
        if kind == 'pci':
            name, fn = 'load_pci_sample', 'pci'
            args = (None if dflt else 'ev.txt', E, SC)
        elif kind == 'plain':
            name, fn = 'load_event', 'plain'
            args = ('ev.txt', E, no, ev, dt, fs)
            if dflt:
                fn, args = 'defaults', ('ev.txt', E)
        else:
            name, fn = 'load_event_with_score', 'scored'
            args = ('ev.txt', E, SC, no, ev, D, dt, fs)
            if dflt:
                fn, args = 'defaults_scored', ('ev.txt', E, SC)
        if dflt:
            name += ' with default arguments'
        name += '; ' + tag
        R.guard(name, lambda: R.decide_pair(
            name, S, S.run(fn, *args), I.gen, (
                'kamrecsys/datasets/others.py:' if kind == 'pci' else WHERE)
            + name.split(';')[0].split()[0]))
    jobs = []

    def add(*a):
        jobs.append(lambda: R.guard(str(a), lambda: one(*a)))
    for single in (False, True):
        for no, eo in ((2, None), (2, [0, 1]), (2, [1, 0]), (3, [2, 0, 1]),
                       (2, [0, 1, 0]), (1, [0])):
            for dt in ('none', 'timestamp', 'int', 'float', 'mixed'):
                add('plain', no, eo, dt, None, single)
                add('scored', no, eo, dt, [1.0, 5.0, 0.5], single)
        for dom in ([0.0, 4.0, 1.0], [1, 5, 1]) if single else (
                None, [0.0, 4.0, 1.0], [1, 5, 1]):
            for dt in ('none', 'mixed'):
                add('scored', 2, [0, 1], dt, dom, single)
        for k in ('plain', 'scored', 'pci'):
            add(k, 2, None, 'none', [1, 5, 1], single, True)
        add('pci', 2, [0, 1], 'none', None, single)
    R.fan(jobs)
