from .common import *

SRC = '''
import numpy as np
from kamrecsys.metrics import statistics_mean

CALLS = []


def f1(x):
    CALLS.append(x)
    return 2.0 * x - 1.0


def f2(x, y):
    CALLS.append((x, y))
    return x * x - 3.0 * y


def f3(x, y, z):
    CALLS.append((x, y, z))
    return x - 3.0 * y + 5.0 * z * x


def v1(x):
    CALLS.append(x)
    return (x, x * x)


def v2(x, y):
    CALLS.append((x, y))
    return [x - y, x * y, 7.0 * y]


def v3(x, y, z):
    CALLS.append((x, y, z))
    return np.array([x - y * z, x * y])


def a1(x):
    return np.sum(x * x)


def a2(x, y):
    return np.sum(x) - 2.0 * np.sum(y * y)


def a3(x, y, z):
    return (np.sum(x), np.sum(y * z))


FUNS = {'f1': f1, 'f2': f2, 'f3': f3, 'v1': v1, 'v2': v2, 'v3': v3,
        'a1': a1, 'a2': a2, 'a3': a3}


def impl(name, args):
    del CALLS[:]
    r = statistics_mean(FUNS[name], *args)
    return np.array(r), len(CALLS)


def spec(name, args):
    n = len(args[0])
    tot = None
    if isinstance(args[0], dict):
        ks = list(args[0].keys())
    else:
        ks = list(range(n))
    out = []
    for k in ks:
        out.append(np.asarray(FUNS[name](*[a[k] for a in args])))
    s = out[0]
    for o in out[1:]:
        s = s + o
    return np.array(s / n), (0 if name[0] == 'a' else n)


def kept(name, args, copies):
    """the arguments are as they were"""
    statistics_mean(FUNS[name], *args)
    return args, copies


def bad(first):
    try:
        statistics_mean(len, first)
    except TypeError:
        return 'rejected', 'rejected'
    return 'accepted', 'rejected'


def count(*xs):
    return len(xs)


def lacking(args):
    try:
        return statistics_mean(count, *args), 'error'
    except (KeyError, IndexError):
        return 'error', 'error'
'''
ANCHOR = 'kamrecsys/metrics/base.py:statistics_mean'


def check(R):
    R.rule('mean over keys or positions of the function of the elements '
           'under the same key or position, for symbolic elements; numbers '
           'of folds and arguments listed')

    def job(name, na, ks, arrays, orders):
        S = Sess(SRC)
        I = Inp(S)
        ar = []
        cp = []
        if arrays:
            for j in range(len(ks)):
                I.int('n%d' % j, 1, 4)
        for a in range(na):
            items = []
            order = list(range(len(ks)))
            if isinstance(ks[0], str) or orders:
                # the same keys in another order
                order = order[a:] + order[:a]
                if a == 1:
                    order = order[::-1]
            for j in order:
                nm = 'x%d_%d' % (a, j)
                if arrays:
                    n = X.sym('n%d' % j, 'i')
                    v = I.arr(nm, (n,), 'f', dyadic(-3, 3))
                else:
                    v = I.realf(nm, lambda r, v: r.randint(-24, 24) / 8.0
                                if r.random() > 0.06 else float('nan'))
                items.append((ks[j], v))
            if orders or isinstance(ks[0], str):
                ar.append(S.dict(items))
                cp.append(S.dict(items))
            else:
                ar.append(S.list([v for _, v in items]))
                cp.append(S.list([v for _, v in items]))
        A = S.list(ar)
        tag = '%s of %d %s of %d folds' % (
            name, na, 'dictionaries' if orders or isinstance(ks[0], str)
            else 'lists', len(ks))
        R.decide('mean of ' + tag, S, S.run('impl', name, A), S,
                 S.run('spec', name, A), I.gen, ANCHOR)
        R.decide_pair('arguments kept, ' + tag, S, S.run(
            'kept', name, A, S.list(cp)), I.gen, ANCHOR)

    def bad():
        S = Sess(SRC)
        I = Inp(S)
        x = I.arr('x', (3,), 'f')
        for nm, v in (('tuple', (1, 2)), ('array', x), ('string', 'ab'),
                      ('number', 3.5), ('None', None)):
            R.decide_pair('%s rejected' % nm, S, S.run('bad', v), I.gen,
                          ANCHOR)
        a, b, c = (I.real(q) for q in 'abc')
        D = [('0', a), ('1', b), ('2', c)]
        for nm, args in (
                ('second dictionary lacks a key', [S.dict(D), S.dict(D[:2])]),
                ('third dictionary lacks a key', [
                    S.dict(D), S.dict(D), S.dict(D[1:])]),
                ('second dictionary has another key', [
                    S.dict(D[:2]), S.dict(D[1:])]),
                ('second list is shorter', [S.list([a, b, c]),
                                            S.list([a, b])]),
                ('third list is shorter', [S.list([a, b]), S.list([a, b]),
                                           S.list([b])])):
            R.decide_pair(nm, S, S.run('lacking', S.list(args)), I.gen,
                          ANCHOR)
    jobs = [lambda: R.guard('bad', bad)]
    KS = [(['0', '1', '2'], False), (['b', 'a'], False), ([0, 1, 2], False),
          ([0], False), ([4, 2, 10], True),
          (['%d' % i for i in range(11)], False)]
    for ks, o in KS:
        for kind in 'fva':
            for na in (1, 2, 3):
                jobs.append(lambda k=ks, o=o, n=kind + str(na), na=na:
                            R.guard('%s %s' % (n, k), lambda: job(
                                n, na, k, n[0] == 'a', o)))
    R.fan(jobs)
