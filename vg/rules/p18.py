from .common import *

SRC = '''
import numpy as np
from kamrecsys.model_selection import (
    ShuffleSplitWithinGroups, KFoldWithinGroups, InterlacedKFold)


def splits(cv, X, groups):
    out = []
    for tr, te in cv.split(X, groups=groups):
        out.append((tr, te))
    return out


def make(kind, K, seed, size):
    if kind == 'inter':
        return InterlacedKFold(n_splits=K)
    if kind == 'kfold':
        return KFoldWithinGroups(n_splits=K)
    if kind == 'kfold_shuffled':
        return KFoldWithinGroups(n_splits=K, shuffle=True, random_state=seed)
    if kind == 'shuffle':
        return ShuffleSplitWithinGroups(n_splits=K, test_size=size,
                                        random_state=seed)
    return ShuffleSplitWithinGroups(n_splits=K, test_size=size,
                                    shuffle=False)


def cover(kind, K, seed, size, X, groups, n):
    """train and test of every split are disjoint and cover all samples"""
    cv = make(kind, K, seed, size)
    got = []
    need = []
    for tr, te in splits(cv, X, groups):
        c = np.zeros(n, dtype=int)
        t = np.zeros(n, dtype=int)
        for i in tr:
            c[i] += 1
        for i in te:
            t[i] += 1
        got.append((c + t, len(tr) + len(te), np.min(te) >= 0,
                    np.min(tr) >= 0))
        need.append((np.ones(n, dtype=int), n, True, True))
    return got, need


def number(kind, K, seed, size, X, groups):
    cv = make(kind, K, seed, size)
    return (len(splits(cv, X, groups)), cv.get_n_splits()), (K, K)


def once(kind, K, seed, size, X, groups, n):
    """every sample is in exactly one test set"""
    t = np.zeros(n, dtype=int)
    for tr, te in splits(make(kind, K, seed, size), X, groups):
        for i in te:
            t[i] += 1
    return t, np.ones(n, dtype=int)


def even(kind, K, seed, size, X, groups, labels, n):
    """sizes of the parts of a group in the folds differ by at most one"""
    ss = splits(make(kind, K, seed, size), X, groups)
    got = []
    need = []
    for g in labels:
        c = []
        for tr, te in ss:
            k = 0
            for i in te:
                if groups is None or groups[i] == g:
                    k += 1
            c.append(k)
        got.append((max(c) - min(c) <= 1, sum(c)))
        tot = n
        if groups is not None:
            tot = np.sum(np.asarray(groups) == g)
        need.append((True, tot))
    return got, need


def inter(K, X, n):
    ss = splits(InterlacedKFold(n_splits=K), X, None)
    ix = np.arange(n)
    return ([(list(tr), list(te)) for tr, te in ss],
            [(list(ix[ix % K != f]), list(ix[ix % K == f]))
             for f in range(K)])


def held(kind, K, seed, size, X, groups, labels, n):
    """number of held-out samples of every group"""
    got = []
    need = []
    for tr, te in splits(make(kind, K, seed, size), X, groups):
        for g in labels:
            k = 0
            m = 0
            for i in te:
                if groups is None or groups[i] == g:
                    k += 1
            for i in range(n):
                if groups is None or groups[i] == g:
                    m += 1
            got.append(k)
            if isinstance(size, float):
                need.append(int(np.ceil(size * m)))
            else:
                need.append(size)
    return got, need


def asc(kind, K, seed, size, X, groups):
    got = []
    need = []
    for tr, te in splits(make(kind, K, seed, size), X, groups):
        got.append((tr, te))
        need.append((np.sort(tr), np.sort(te)))
    return got, need


def reject(kind, K):
    try:
        if kind == 'inter':
            InterlacedKFold(n_splits=K)
        else:
            KFoldWithinGroups(n_splits=K)
    except ValueError:
        return True, True
    return False, True


def few(kind, K, X):
    """more folds than samples"""
    try:
        splits(make(kind, K, 0, 0.5), X, None)
    except ValueError:
        return True, True
    return False, True


def plain(groups):
    return [g for g in groups]
'''

WHERE = {'inter': 'InterlacedKFold', 'kfold': 'KFoldWithinGroups',
         'kfold_shuffled': 'KFoldWithinGroups',
         'shuffle': 'ShuffleSplitWithinGroups',
         'noshuffle': 'ShuffleSplitWithinGroups'}


def check(R):
    R.rule('train and test index arrays of every split, over symbolic '
           'numbers of samples and symbolic group labels (numbers of '
           'groups and folds enumerated)')

    def sess(kind, K, labels, sort, per):
        cfg = {'nonempty': True, 'known_uniq': {}}
        S = Sess(SRC, config=cfg)
        I = Inp(S)
        lo = per * max(1, len(labels or [1]))
        n = I.int('n', max(lo, K), max(lo, K) + 6)
        x = I.arr('X', (n, 2), 'f')
        seed = I.int('seed', 0, 99)
        G = None
        if labels:
            def lab(r, v, ix):
                i = ix[0]
                # every group has at least per members, in mixed order
                if i < lo:
                    return labels[(i * 7 + i // 2) % len(labels)]
                return r.choice(labels)

            def order(r, v):
                g = []
                for lb in labels:
                    g += [lb] * per
                while len(g) < v['n']:
                    g.append(r.choice(labels))
                r.shuffle(g)
                v['G'] = Nd((v['n'],), g)
            G = I.arr('G', (n,), sort, lab)
            I.post(order)
            cfg['known_uniq'][S.I.read(G).term().id] = X.tab(sorted(labels))
        return S, I, n, x, seed, G

    def job(kind, K, labels, sort, size=0.5, per=None):
        per = per or (K if kind.startswith('kfold') else 2)
        where = 'kamrecsys/model_selection/split.py:%s.split' % WHERE[kind]
        tag = '; %s%s, n_splits=%d, %s' % (
            WHERE[kind], ' shuffled' if kind == 'kfold_shuffled' else
            ' without shuffling' if kind == 'noshuffle' else '', K,
            'no groups' if not labels else 'groups %s' % (labels,))
        if 'shuffle' in kind and kind != 'kfold_shuffled':
            tag += ', test_size=%s' % size
        S, I, n, x, seed, G = sess(kind, K, labels, sort, per)

        def pair(name, fn, *args):
            def go():
                ps = S.run(fn, *args)
                R.decide_pair(name + tag, S, ps, I.gen, where)
            R.guard(name + tag, go)
        L = S.list(list(labels or [0]))
        a = (kind, K, seed, size, x, G)
        pair('disjoint and covering', 'cover', *(a + (n,)))
        pair('number of splits', 'number', *a)
        if kind != 'shuffle' and kind != 'noshuffle':
            pair('every sample tested once', 'once', *(a + (n,)))
        if kind == 'inter':
            pair('fold of sample i is i mod n_splits', 'inter', K, x, n)
        elif kind.startswith('kfold'):
            pair('sizes within groups', 'even', *(a + (L, n)))
        else:
            pair('held-out size of every group', 'held', *(a + (L, n)))

    def bad():
        for kind in ('inter', 'kfold'):
            S = Sess(SRC)
            I = Inp(S)
            where = 'kamrecsys/model_selection/split.py:%s.__init__' % \
                WHERE[kind]
            for K in (1, 0):
                R.decide_pair('n_splits=%d rejected by %s' % (
                    K, WHERE[kind]), S, S.run('reject', kind, K), I.gen,
                    where)
            x = I.arr('X', (3, 2), 'f')
            R.decide_pair('more folds than samples rejected by %s' %
                          WHERE[kind], S, S.run('few', kind, 4, x), I.gen,
                          where)
    if R.tier == 'debug':
        return R.fan([lambda: job('shuffle', 2, None, 'i', 0.5, 3)])
    jobs = [bad]
    for K in (2, 3, 4):
        jobs.append(lambda K=K: job('inter', K, None, 'i'))
        for kind in ('kfold', 'kfold_shuffled'):
            jobs.append(lambda K=K, k=kind: job(k, K, None, 'i'))
    for kind in ('kfold', 'kfold_shuffled', 'shuffle', 'noshuffle'):
        for K in (2, 3):
            jobs.append(lambda K=K, k=kind: job(k, K, [5, 2], 'i'))
        jobs.append(lambda k=kind: job(k, 2, ['b', 'a', 'c'], 's'))
        jobs.append(lambda k=kind: job(k, 2, [0, 1, 2], 'i'))
    for kind in ('shuffle', 'noshuffle'):
        for sz in (0.5, 0.3, 1):
            jobs.append(lambda k=kind, z=sz: job(k, 2, None, 'i', z, 3))
            jobs.append(lambda k=kind, z=sz: job(k, 2, [4, 1], 'i', z, 3))
    R.fan(jobs)
