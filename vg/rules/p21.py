from .mf import *
from .. import stubs

SRC21 = '''
import json
import sys
from sklearn.utils import check_random_state
import kamrecsys.model_selection as MS

CALLS = []


class Split(object):
    """any splitter: rows drawn from the given or the global generator"""

    def __init__(self, n_splits=10, test_size=0.1, train_size=None,
                 shuffle=True, random_state=None):
        self.n = n_splits
        self.arg = (test_size, train_size, shuffle)
        self.rng = random_state

    def get_n_splits(self, X=None, y=None, groups=None):
        return self.n

    def split(self, X, y=None, groups=None):
        CALLS.append([self.n, self.arg[0], self.arg[1], self.arg[2],
                      X.shape[0], groups])
        rng = check_random_state(self.rng)
        for f in range(self.n):
            p = rng.permutation(X.shape[0])
            yield np.sort(p[2:]), np.sort(p[:2])


if FAKE:
    MS.ShuffleSplitWithinGroups = Split
import exp_recsys_util as X
from kamrecsys.datasets import load_event_with_score

LOG = []


class Rec(object):
    """recommender that records what it is given"""
    task_type = 'score_predictor'
    explicit_ratings = True

    def __init__(self, C=1.0, k=1, random_state=None, **kw):
        self.C = C
        self.k = k
        self.seed = random_state
        self.kw = kw
        self.no = len(LOG)
        self.fits = 0
        LOG.append(['new', C, k, random_state, sorted(kw)])

    def fit(self, data, event_index=(0, 1)):
        self.fits += 1
        LOG.append(['fit', self.no, self.fits,
                    data.to_eid_event(data.event), data.score,
                    data.n_events, event_index[0], event_index[1]])
        self.s = data.score.sum()
        self.fit_results_ = {'final_loss': self.s, 'rows': data.n_events}
        return self

    def predict(self, ev):
        r = ev[:, 0] * 10.0 + ev[:, 1] + self.s
        LOG.append(['predict', self.no, self.fits, ev])
        if ONE[0]:
            return r[0]
        return r


ONE = [False]


class Out(object):

    def __init__(self):
        self.t = []
        self.open = True

    def write(self, s):
        if not self.open:
            raise ValueError('I/O operation on closed file')
        self.t.append(s)

    def close(self):
        self.open = False

    def __str__(self):
        return 'out'


FEATURES = np.dtype([('when', int), ('w', float)])


def make(E, SC, T, W, no, eo, dom, name='TR'):
    if T is not None:
        return load_event_with_score(
            name, n_otypes=no, event_otypes=eo, score_domain=dom,
            event_dtype=FEATURES)
    d = EventWithScoreData(n_otypes=no, event_otypes=eo)
    d.set_event(E, SC, dom)
    return d


def as_is(x):
    pass


def task(files, C, k, seed, scheme, n_folds, target, out, test='TE'):
    info = {'training': {'file': 'TR'}, 'test': {'file': test},
            'prediction': {}, 'environment': {},
            'condition': {'n_folds': n_folds, 'scheme': scheme,
                          'out_file': out, 'score_domain': [1, 5, 1]},
            'model': {'recommender': Rec, 'method': 'rec',
                      'options': {'C': C, 'k': k, 'random_state': seed}}}

    def load(fp, info):
        return files[fp]
    X.do_task(info, load, target_fold=target)


def run(files, C, k, seed, scheme, n_folds, target=None, text=True,
        test='TE'):
    """the record written by the task"""
    del LOG[:]
    out = Out()
    if text:
        task(files, C, k, seed, scheme, n_folds, target, out, test)
        r = json.loads(''.join(out.t))
        return r, list(LOG), out.open
    json.CAPTURE[0] = []
    task(files, C, k, seed, scheme, n_folds, target, out, test)
    r = json.CAPTURE[0]
    json.CAPTURE[0] = None
    if len(r) != 1:
        raise ValueError('records written: %d' % len(r))
    return r[0], list(LOG), out.open


def rows(E, ix):
    return E[ix, :]


def feats(d, names):
    return [(k, d[k]) for k in names]


def counts(E, no, eo):
    u = [np.unique(E[:, [e for e in range(len(eo)) if eo[e] == o]]).shape[0]
         for o in eo[:2]]
    return [E.shape[0], u[0], u[1]]


def folds(E, n_folds, seed):
    np.random.seed(seed)
    cv = MS.ShuffleSplitWithinGroups(n_splits=n_folds, test_size=0.2)
    return [(a, b) for a, b in cv.split(E, groups=E[:, 0])]


def cv(E, SC, T, W, no, eo, dom, C, k, seed, n_folds, target):
    d = make(E, SC, T, W, no, eo, dom)
    r, log, is_open = run({'TR': d}, C, k, seed, 'cv', n_folds, target,
                          False, None)
    sp = folds(E, n_folds, seed)
    got = [CALLS[:-1]] if FAKE else []
    want = [CALLS[-1:]] if FAKE else []
    which = range(n_folds) if target is None else [target]
    p = r['prediction']
    names = [str(f) for f in which]
    got += [sorted(r['training']['results']), sorted(r['test']['results'])]
    want += [sorted(names), sorted(names)]
    for q in ('event', 'true', 'predicted', 'mask'):
        got.append(sorted(p[q]))
        want.append(sorted(names))
    if T is None:
        got.append('event_feature' in p)
        want.append(False)
    else:
        got.append(sorted(p['event_feature']))
        want.append(['w', 'when'])
        for q in ('when', 'w'):
            got.append(sorted(p['event_feature'][q]))
            want.append(sorted(names))
    news = [l for l in log if l[0] == 'new']
    fits = [l for l in log if l[0] == 'fit']
    pres = [l for l in log if l[0] == 'predict']
    got.append([len(news), len(fits), len(pres)])
    want.append([len(names)] * 3)
    for j in range(len(names)):
        f = names[j]
        a, b = sp[which[j]]
        # a fresh model with the options, trained once on the training rows
        got.append(news[j])
        want.append(['new', C, k, seed, []])
        tr, te = rows(E, a), rows(E, b)
        s = SC[a].sum()
        got.append([fits[j][2], fits[j][3], fits[j][4], fits[j][5],
                    fits[j][6], fits[j][7]])
        want.append([1, tr, SC[a], tr.shape[0], 0, 1])
        # tested on the test rows by the model of the same fold
        got.append([pres[j][1], pres[j][2], pres[j][3]])
        want.append([fits[j][1], 1, te])
        got.append([r['training']['results'][f]['final_loss'],
                    r['training']['results'][f]['rows'],
                    r['test']['results'][f]['n_events']])
        want.append([s, tr.shape[0], te.shape[0]])
        got.append([p['event'][f], p['true'][f], p['predicted'][f],
                    p['mask'][f]])
        want.append([te, SC[b], te[:, 0] * 10.0 + te[:, 1] + s, b])
        if T is not None:
            got.append([p['event_feature']['when'][f],
                        p['event_feature']['w'][f]])
            want.append([T[b], W[b]])
    cnt = counts(E, no, eo)
    got.append([[r[q]['n_events'], r[q]['n_users'], r[q]['n_items']]
                for q in ('training', 'test')])
    want.append([cnt, cnt])
    got.append([r['condition']['n_folds'], r['condition']['scheme'],
                r['test']['file'], r['training']['file']])
    want.append([n_folds, 'cv', 'TR', 'TR'])
    got.append(meta(r))
    want.append(['score_predictor', True, 'Rec', 'rec'])
    return got, want


def meta(r):
    m = r['model']
    return [m['task_type'], m['explicit_ratings'], m['name'], m['method']]


def events(users, V):
    E = np.empty((len(users), 2), dtype=int)
    E[:, 0] = users
    E[:, 1] = V
    return E


def cv_users(users, V, SC, C, k, seed, n_folds, target):
    return cv(events(users, V), SC, None, None, 2, [0, 1], (1, 5, 1), C, k,
              seed, n_folds, target)


def cv_plain(E, SC, T, W, no, eo, dom, C, k, seed, n_folds, target):
    """without a reference split"""
    d = make(E, SC, T, W, no, eo, dom)
    one, log, o = run({'TR': d}, C, k, seed, 'cv', n_folds, target, False,
                      None)
    d = make(E, SC, T, W, no, eo, dom)
    full, log, o = run({'TR': d}, C, k, seed, 'cv', n_folds, None, False,
                       None)
    f = str(target)
    a, b = one['prediction'], full['prediction']
    return ([a[q][f] for q in ('event', 'true', 'predicted', 'mask')],
            [b[q][f] for q in ('event', 'true', 'predicted', 'mask')])


def holdout(E, SC, E2, SC2, T, W, no, eo, dom, C, k, seed, one):
    ONE[0] = one
    d = make(E, SC, None, None, no, eo, dom)
    d2 = make(E2, SC2, T, W, no, eo, dom, 'TE')
    r, log, is_open = run({'TR': d, 'TE': d2}, C, k, seed, 'holdout', 5,
                          None, False)
    p = r['prediction']
    s = SC.sum()
    got = []
    want = []
    got.append([l[0] for l in log])
    want.append(['new', 'fit', 'predict'])
    got.append(log[0])
    want.append(['new', C, k, seed, []])
    got.append([log[1][2], log[1][3], log[1][4], log[1][5], log[1][6],
                log[1][7]])
    want.append([1, E, SC, E.shape[0], 0, 1])
    got.append([log[2][1], log[2][2], log[2][3]])
    want.append([0, 1, E2])
    got.append([p['event'], p['true'], p['predicted']])
    want.append([E2, SC2, E2[:, 0] * 10.0 + E2[:, 1] + s])
    if T is None:
        got.append('event_feature' in p)
        want.append(False)
    else:
        got.append(sorted(p['event_feature']))
        want.append(['w', 'when'])
        got.append([p['event_feature']['when'], p['event_feature']['w']])
        want.append([T, W])
    got.append([[r[q]['n_events'], r[q]['n_users'], r[q]['n_items']]
                for q in ('training', 'test')])
    want.append([counts(E, no, eo), counts(E2, no, eo)])
    got.append([sorted(r['training']['results']),
                sorted(r['test']['results']),
                r['training']['results']['0']['final_loss'],
                r['training']['results']['0']['rows'],
                r['test']['results']['0']['n_events'],
                r['condition']['n_folds'], r['test']['file'],
                r['training']['file']])
    want.append([['0'], ['0'], s, E.shape[0], E2.shape[0], 1, 'TE', 'TR'])
    got.append(meta(r))
    want.append(['score_predictor', True, 'Rec', 'rec'])
    return got, want


def written(E, SC, E2, SC2, scheme, seed):
    """the record is written once, as text, and the file closed"""
    d = make(E, SC, None, None, 2, None, (1, 5, 1))
    d2 = make(E2, SC2, None, None, 2, None, (1, 5, 1))
    r, log, is_open = run({'TR': d, 'TE': d2}, 0.5, 2, seed, scheme, 2)
    x, log2, o2 = run({'TR': make(E, SC, None, None, 2, None, (1, 5, 1)),
                       'TE': make(E2, SC2, None, None, 2, None,
                                  (1, 5, 1))},
                      0.5, 2, seed, scheme, 2, None, False)
    p, q = r['prediction'], x['prediction']
    if scheme == 'holdout':
        return ([np.array(p[w]) for w in ('event', 'true', 'predicted')] +
                [is_open, r['condition']['out_file']],
                [np.array(q[w]) for w in ('event', 'true', 'predicted')] +
                [False, 'out'])
    return ([np.array(p[w][f]) for w in ('event', 'true', 'predicted')
             for f in ('0', '1')] + [is_open, r['condition']['out_file']],
            [np.array(q[w][f]) for w in ('event', 'true', 'predicted')
             for f in ('0', '1')] + [False, 'out'])


def rejected(E, SC, scheme, n_folds, target):
    d = make(E, SC, None, None, 2, None, (1, 5, 1))
    out = Out()
    del LOG[:]
    json.CAPTURE[0] = []
    try:
        task({'TR': d, 'TE': d}, 1.0, 1, 3, scheme, n_folds, target, out)
    except TypeError:
        return ['TypeError', len(LOG), len(out.t)], ['TypeError', 0, 0]
    return ['accepted', 0, 0], ['TypeError', 0, 0]


def no_test(E, SC):
    """hold-out needs a test file"""
    d = make(E, SC, None, None, 2, None, (1, 5, 1))
    try:
        run({'TR': d}, 1.0, 1, 3, 'holdout', 5, None, False, None)
    except IOError:
        return 'IOError', 'IOError'
    return 'accepted', 'IOError'
'''
W21 = 'scripts/exp_recsys_util.py:'


def sess(tabs=None, text=False, fake=True, attr=None, extra=None,
         src='', fix=str):
    c = {'nonempty': True, 'known_uniq': {}, 'attr': attr or stubs.SCRIPT_ATTR,
         'python_scalars': True}
    c['tables'] = {} if tabs is None else tabs
    S = Sess('FAKE = %s\n' % fake + SRC + fix(SRC21 + src), config=c,
             extra=extra or stubs.SCRIPT_EXTRA)
    x = S.m.ns['X']
    if 'do_task' not in x.ns:
        raise AnchorGone('exp_recsys_util.do_task')
    if not text and 'json_decodable' in x.ns:
        x.ns['json_decodable'] = S.m.ns['as_is']
    return S


def table(S, tabs, name, n, E, cols, SC, T, W):
    def col(a):
        return lambda i: X.elem(S.I.read(a).term(), i)
    tabs[name] = (n, [('i', (lambda i, c=c: X.elem(
        S.I.read(E).term(), i, c))) for c in range(cols)] + [
            ('f', col(SC)), ('i', col(T)), ('f', col(W))])


def check(R):
    R.rule('the record a task writes and the calls its model receives equal '
           'those of the reference experiment, for symbolic data, options '
           'and seed: cross validation (all folds and single folds), '
           'hold-out, wrong folds and schemes')

    def users(r, v, x):
        """two events or more for every user"""
        n = v['n']
        if '$u' not in v:
            m = max(1, n // 3)
            us = r.sample([2, 5, 7, 11, 30], min(m, 5))
            l = us + us
            while len(l) < n:
                l.append(r.choice(us))
            l = l[:n]
            r.shuffle(l)
            v['$u'] = l
        return v['$u'][x[0]] if x[1] == 0 else r.choice(
            [1, 3, 4, 8, 9, 20])

    def base(S, cols=2, gen=users):
        I = Inp(S)
        # the state of the global generator before the task
        I.intf('globalrng', lambda r, v: r.randint(100, 999))
        n = I.int('n', 4, 8)
        E = I.arr('E', (n, cols), 'i', gen)
        SC = I.arr('SC', (n,), 'f', lambda r, v, x: r.randint(1, 5) * 1.0)
        T = I.arr('T', (n,), 'i')
        W = I.arr('W', (n,), 'f')
        opt = (I.realf('C', lambda r, v: r.choice((0.0, 0.3, 1.0, 2.0))),
               I.int('k', 1, 5), I.intf('seed', lambda r, v: r.choice(
                   (0, 1, 99))))
        return I, n, E, SC, T, W, opt

    DOM = [1, 5, 1]

    def cv(no, eo, feat, n_folds, target, plain=False):
        tabs = {}
        S = sess(tabs)
        I, n, E, SC, T, W, opt = base(S, len(eo))
        if feat:
            table(S, tabs, 'TR', n, E, len(eo), SC, T, W)
        f = (T, W) if feat else (None, None)
        ps = S.run('cv_plain' if plain else 'cv', E, SC, f[0], f[1], no,
                   S.list(eo), S.list(DOM), opt[0], opt[1], opt[2],
                   n_folds, target)
        R.decide_pair('%s; n_otypes=%d, event_otypes=%s, %d folds%s%s' % (
            'fold %s alone equals the fold of the full run' % target
            if plain else 'cross validation', no, eo, n_folds,
            '' if target is None or plain else ', only fold %d' % target,
            ', event features' if feat else ''), S, ps, I.gen,
            W21 + 'cv_test', n=8)

    def real(users, n_folds, target):
        S = sess(None, False, False)
        I = Inp(S)
        n = len(users)
        I.intf('globalrng', lambda r, v: r.randint(100, 999))
        V = I.arr('V', (n,), 'i', ids_int)
        SC = I.arr('SC', (n,), 'f', lambda r, v, x: r.randint(1, 5) * 1.0)
        seed = I.intf('seed', lambda r, v: r.choice((0, 1, 99)))
        ps = S.run('cv_users', S.list(users), V, SC, 0.5, 2, seed, n_folds,
                   target)
        R.decide_pair('cross validation with a fifth of the events of each '
                      'user held out; users %s, %d folds%s' % (
                          users, n_folds, '' if target is None else
                          ', only fold %d' % target), S, ps, I.gen,
                      W21 + 'cv_test', n=8)

    def hold(no, eo, feat, one):
        tabs = {}
        S = sess(tabs)
        I, n, E, SC, T, W, opt = base(S, 2, IDS['i'])
        n2 = 1 if one else I.int('n2', 2, 6)
        E2 = I.arr('E2', (n2, 2), 'i', ids_int)
        SC2 = I.arr('SC2', (n2,), 'f', lambda r, v, x:
                    r.randint(1, 5) * 1.0)
        T = I.arr('T2', (n2,), 'i')
        W = I.arr('W2', (n2,), 'f')
        f = (T, W) if feat else (None, None)
        if feat:
            table(S, tabs, 'TE', n2, E2, 2, SC2, T, W)
        ps = S.run('holdout', E, SC, E2, SC2, f[0], f[1], no, S.list(eo),
                   S.list(DOM), opt[0], opt[1], opt[2], one)
        R.decide_pair('hold-out; n_otypes=%d, event_otypes=%s%s%s' % (
            no, eo, ', event features' if feat else '', ', one test event'
            if one else ''), S, ps, I.gen, W21 + 'holdout_test', n=8)

    def written(scheme):
        S = sess(None, True)
        I, n, E, SC, T, W, opt = base(S)
        n2 = I.int('n2', 2, 6)
        E2 = I.arr('E2', (n2, 2), 'i', ids_int)
        SC2 = I.arr('SC2', (n2,), 'f', lambda r, v, x:
                    r.randint(1, 5) * 1.0)
        ps = S.run('written', E, SC, E2, SC2, scheme, opt[2])
        R.decide_pair('the record of %s is written as text to the output, '
                      'which is closed' % scheme, S, ps, I.gen,
                      W21 + 'do_task', n=8)

    def rejected(scheme, n_folds, target):
        S = sess()
        I, n, E, SC, T, W, opt = base(S)
        tag = target
        if target in ('below', 'above'):
            t = I.int('target', 0, 4)
            target = X.sub(X.num(-1), t) if tag == 'below' else X.add(
                X.num(n_folds), t)
        pre = None
        ps = S.run('rejected', E, SC, scheme, n_folds, target)
        R.decide_pair('%s, %s folds, target fold %s rejected' % (
            scheme, n_folds, tag), S, ps, I.gen, W21 + 'do_task',
            pre=pre)

    def no_test():
        S = sess()
        I, n, E, SC, T, W, opt = base(S)
        R.decide_pair('hold-out without a test file is rejected', S, S.run(
            'no_test', E, SC), I.gen, W21 + 'holdout_test')

    jobs = []
    for no, eo in ((2, [0, 1]), (2, [1, 0]), (3, [2, 0]), (2, [0, 1, 0])):
        for feat in (False, True):
            jobs.append((cv, (no, eo, feat, 2, None)))
            if eo == [0, 1]:
                for t in (0, 1, 2):
                    jobs.append((cv, (no, eo, feat, 3, t)))
            if len(eo) == 2:
                for one in (False, True):
                    jobs.append((hold, (no, eo, feat, one)))
    for t in (0, 1, 2):
        jobs.append((cv, (2, [0, 1], False, 3, t, True)))
    jobs.append((cv, (2, [0, 1], True, 1, None)))
    jobs.append((cv, (2, [0, 1], True, 11, None)))
    for u in ([4, 9, 4, 9, 9, 4], [4] * 5, [7, 2, 7, 2, 2, 7, 2, 2]):
        for t in ((None, 1) if R.tier == 'quick' else (None, 0, 1, 2)):
            jobs.append((real, (u, 2 if t != 2 else 3, t)))
    for s in ('cv', 'holdout'):
        jobs.append((written, (s,)))
    for a in (('cv', 3, 3), ('cv', 3, -1), ('cv', 3, 'above'),
              ('cv', 3, 'below'), ('cv', 1, 1), ('loo', 3, None),
              ('', 3, 0), ('CV', 2, None), ('none', 2, 1)):
        jobs.append((rejected, a))
    jobs.append((no_test, ()))
    R.fan([lambda f=f, a=a: R.guard('%s %s' % (f.__name__, a),
                                    lambda: f(*a)) for f, a in jobs])
