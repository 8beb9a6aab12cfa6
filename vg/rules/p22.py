from .common import *
from .. import stubs

SRC22 = HEAD + '''
import argparse
import json
import sys
import exp_recsys_fold_merge as MERGE
import stats_recsys as STATS
from kamrecsys.metrics import (
    item_finder_statistics, score_predictor_statistics)


def put(name, rec):
    argparse.CONTENTS[name] = json.dumps(rec)


def got(name):
    return json.loads(argparse.CONTENTS[name])


def flat(x):
    """a record as nested pairs, in the order of the keys"""
    if isinstance(x, dict):
        return [(k, flat(x[k])) for k in sorted(x)]
    if isinstance(x, list):
        return ('list', len(x), [flat(y) for y in x])
    if isinstance(x, tuple):
        return ('list', len(x), [flat(y) for y in x])
    return x


def cut(A, n):
    """first rows as a list"""
    if A.ndim == 2:
        return [[A[i, 0], A[i, 1]] for i in range(n)]
    return [A[i] for i in range(n)]


def record(fold, n, v, feat, more):
    """what the experiment writes for one fold"""
    p = {'event': {fold: cut(v['E'], n)}, 'true': {fold: cut(v['T'], n)},
         'predicted': {fold: cut(v['P'], n)},
         'mask': {fold: cut(v['M'], n)}}
    if feat:
        p['event_feature'] = {'timestamp': {fold: cut(v['F'], n)},
                              'event': {fold: cut(v['G'], n)}}
    info = {'training': {'file': 'TR', 'n_events': v['n_events'],
                         'results': {fold: {'final_loss': v['loss'],
                                            'start_time': 'a' + fold,
                                            'elapsed_time': v['time']}}},
            'test': {'file': 'TR', 'n_events': v['n_events'],
                     'results': {fold: {'start_time': 'b' + fold,
                                        'elapsed_time': v['time2']}}},
            'prediction': p,
            'environment': {'script': {'name': 'exp', 'version': '1'},
                            'system': {'node': v['node'], 'other': fold},
                            'version': {'numpy': '1'}},
            'condition': {'n_folds': 5, 'scheme': 'cv', 'out_file': 'o',
                          'score_domain': [1.0, 5.0, 1.0]},
            'model': {'task_type': 'score_predictor', 'name': 'PMF',
                      'explicit_ratings': True,
                      'options': {'C': v['C'], 'k': 2,
                                  'random_state': 'None'}}}
    if more:
        # sections of the record the model adds
        info['model']['other'] = {'1': [1, 2]}
    return info


def merged(folds, sizes, vals, feat, more):
    """merge the files of the folds; the reference joins the records"""
    names = ['f%d.json' % ((7 * i + 5) % 13) for i in range(len(folds))]
    recs = [record(folds[i], sizes[i], vals[i], feat, more)
            for i in range(len(folds))]
    for i in range(len(folds)):
        put(names[i], recs[i])
    MERGE.main()
    r = got('out.json')
    w = record(folds[0], sizes[0], vals[0], feat, more)
    w['condition']['merged'] = True
    del w['condition']['out_file']
    del r['condition']['out_file']
    w['environment']['environment_fold'] = {}
    for i in range(len(folds)):
        f = folds[i]
        x = record(f, sizes[i], vals[i], feat, more)
        w['environment']['environment_fold'][f] = x['environment']
        for s in ('training', 'test'):
            w[s]['results'][f] = x[s]['results'][f]
        for s in ('event', 'true', 'predicted', 'mask'):
            w['prediction'][s][f] = x['prediction'][s][f]
        if feat:
            for k in ('timestamp', 'event'):
                w['prediction']['event_feature'][k][f] = (
                    x['prediction']['event_feature'][k][f])
    a = [flat(r[k]) for k in ('training', 'test', 'prediction',
                              'environment', 'condition', 'model')]
    b = [flat(w[k]) for k in ('training', 'test', 'prediction',
                              'environment', 'condition', 'model')]
    return [a, sorted(r)], [b, sorted(w)]


def stats(task, dom, folds, sizes, vals, keep, dest, twice):
    """statistics of all events: those of the joined arrays"""
    p = {'event': {}, 'true': {}, 'predicted': {}, 'mask': {}}
    t = []
    q = []
    for i in range(len(vals)):
        T = cut(vals[i]['T'], sizes[i])
        P = cut(vals[i]['P'], sizes[i])
        t += T
        q += P
        if folds is None:
            p = {'event': cut(vals[i]['E'], sizes[i]), 'true': T,
                 'predicted': P}
        else:
            p['event'][folds[i]] = cut(vals[i]['E'], sizes[i])
            p['true'][folds[i]] = T
            p['predicted'][folds[i]] = P
            p['mask'][folds[i]] = cut(vals[i]['M'], sizes[i])
    rec = {'prediction': p,
           'condition': {'score_domain': dom, 'scheme': 'x'},
           'training': {'results': {'0': {'final_loss': vals[0]['loss']}}},
           'model': {'task_type': task, 'options': {'C': vals[0]['C']}}}
    put(dest[0], rec)
    STATS.main()
    r = got(dest[1])
    if task == 'score_predictor':
        s = score_predictor_statistics(
            np.array(t), np.array(q), score_domain=dom)
    else:
        s = item_finder_statistics(np.array(t), np.array(q))
    if twice:
        rest = [[sorted(r), flat(r['training']), flat(r['condition']),
                 flat(r['model']),
                 flat(r['prediction']) if keep else 0],
                [sorted(list(rec) + ['statistics']) if keep else
                 sorted([k for k in rec if k != 'prediction'] +
                        ['statistics']), flat(rec['training']),
                 flat(rec['condition']), flat(rec['model']),
                 flat(p) if keep else 0]]
        return rest[0], rest[1]
    return value(r['statistics']), value(s)


def value(x):
    if isinstance(x, dict):
        return [(k, value(x[k])) for k in sorted(x)]
    if isinstance(x, (list, tuple)):
        return np.array(x)
    return x


def wrong(task, vals):
    n = 2
    put('in.json', {'prediction': {'event': cut(vals[0]['E'], n),
                                   'true': cut(vals[0]['T'], n),
                                   'predicted': cut(vals[0]['P'], n)},
                    'condition': {'score_domain': [1.0, 5.0, 1.0]},
                    'model': {'task_type': task}})
    try:
        STATS.main()
    except TypeError:
        return ['TypeError', argparse.CONTENTS['out.json']], [
            'TypeError', '']
    return ['accepted', ''], ['TypeError', '']
'''
MW = 'scripts/exp_recsys_fold_merge.py:'
SW = 'scripts/stats_recsys.py:'


def sess(argv):
    a = dict(stubs.SCRIPT_ATTR)
    a['sys.argv'] = lambda I: I.newlist(['x.py'] + argv)
    for s in ('stdin', 'stdout'):
        a['sys.' + s] = lambda I, s=s: I.world.module('argparse').ns[
            s.upper()]
    S = Sess(SRC22, config={'attr': a, 'python_scalars': True,
                            'nonempty': True}, extra=stubs.SCRIPT_EXTRA)
    for m in ('MERGE', 'STATS'):
        if 'main' not in S.m.ns[m].ns:
            raise AnchorGone('main of the merge and statistics scripts')
    return S


def values(S, I, j, n, task):
    """data of one fold"""
    t = str(j)
    d = {'E': I.arr('E' + t, (n, 2), 'i', ids_int)}
    if task == 'item_finder':
        # both classes occur in every fold
        d['T'] = I.arr('T' + t, (n,), 'i', lambda r, v, x: x[0] if x[0] < 2
                       else r.randint(0, 1))
        d['P'] = I.arr('P' + t, (n,), 'f', lambda r, v, x: r.randint(
            1, 99) / 100.0)
    else:
        d['T'] = I.arr('T' + t, (n,), 'f', lambda r, v, x: r.randint(
            1, 5) * 1.0)
        d['P'] = I.arr('P' + t, (n,), 'f', lambda r, v, x: r.randint(
            50, 560) / 100.0)
    d['M'] = I.arr('M' + t, (n,), 'i', lambda r, v, x: r.randint(0, 99))
    d['F'] = I.arr('F' + t, (n,), 'i', lambda r, v, x: r.randint(0, 9999))
    d['G'] = I.arr('G' + t, (n,), 'f')
    d['loss'] = I.real('loss' + t)
    d['C'] = I.real('C' + t)
    d['time'] = I.real('time' + t)
    d['time2'] = I.real('time2' + t)
    d['n_events'] = I.int('n_events' + t, 5, 99)
    d['node'] = I.str('node' + t, lambda r, v: r.choice(
        ('a', 'b', 'c', 'd')))
    return S.dict(list(d.items()))


def check(R):
    R.rule('the merged record equals the union of the input records under '
           'their fold keys, for symbolic contents, any number and order '
           'of files')
    R.rule('the recorded statistics equal those of the metric functions on '
           'the true and predicted scores of all folds and the recorded '
           'domain; the rest of the record is kept')
    deep = R.tier != 'quick'

    def merge(folds, sizes, feat, more, short):
        k = len(folds)
        files = ['f%d.json' % ((7 * i + 5) % 13) for i in range(k)]
        argv = files + ['-o', 'out.json'] if short else [
            '--quiet', '--out', 'out.json'] + files
        S = sess(argv)
        I = Inp(S)
        v = [values(S, I, j, sizes[j], '') for j in range(k)]
        ps = S.run('merged', S.list(folds), S.list(sizes), S.list(v), feat,
                   more)
        R.decide_pair('merging the files of folds %s with %s events%s' % (
            folds, sizes, ', event features' if feat else ''), S, ps,
            I.gen, MW + 'do_task', tol=1e-13, n=12)

    def stats(task, dom, folds, sizes, keep, io, twice):
        argv, dest = {
            'opt': (['-i', 'in.json', '-o', 'out.json'],
                    ('in.json', 'out.json')),
            'pos': (['in.json', 'out.json'], ('in.json', 'out.json')),
            'std': ([], ('<stdin>', '<stdout>')),
            'long': (['--out', 'out.json', '--in', 'in.json'],
                     ('in.json', 'out.json'))}[io]
        argv = argv + {None: [], True: ['--keepdata'],
                       False: ['--no-keepdata']}[keep]
        S = sess(argv)
        I = Inp(S)
        v = [values(S, I, j, sizes[j], task) for j in range(len(sizes))]
        ps = S.run('stats', task, S.list(dom), None if folds is None else
                   S.list(folds), S.list(sizes), S.list(v), bool(keep),
                   S.list(dest), twice)
        R.decide_pair('%s of %s, %s, %s events, domain %s, options [%s]' % (
            'record kept' if twice else 'statistics', task,
            'one test set' if folds is None else 'folds %s' % folds, sizes,
            dom, ' '.join(argv)), S, ps, I.gen, SW + 'do_task',
            tol=1e-12, n=12)

    def wrong(task):
        S = sess(['in.json', 'out.json'])
        I = Inp(S)
        v = [values(S, I, 0, 2, '')]
        R.decide_pair('task type %r is rejected' % task, S, S.run(
            'wrong', task, S.list(v)), I.gen, SW + 'do_task')

    jobs = []
    orders = [['0'], ['3'], ['0', '1'], ['1', '0'], ['2', '0', '1'],
              ['0', '1', '2', '3', '4'], ['10', '9', '2']]
    if deep:
        orders += [['4', '3', '2', '1', '0'], ['1', '10', '100', '2'],
                   [str(i) for i in range(12)],
                   [str(i) for i in range(10, -1, -1)]]
    for k, o in enumerate(orders):
        for feat in (False, True):
            for more in (False, True) if deep else (k % 2 == 0,):
                sizes = [(1, 3, 2)[(j + k) % 3] for j in range(len(o))]
                jobs.append((merge, (o, sizes, feat, more, k % 2 == 0)))
    doms = [[1.0, 5.0, 1.0], [0.5, 5.0, 0.5], [1.0, 7.0, 2.0],
            [-2.0, 2.0, 1.0]]
    for task in ('score_predictor', 'item_finder'):
        for k, (o, s) in enumerate((
                (None, [4]), (['0'], [3]), (['1', '0'], [2, 3]),
                (['0', '1', '2'], [3, 2, 2]), (['2', '10', '1'], [2, 3, 2]))):
            for dom in (doms if deep else doms[k % 2:k % 2 + 2] + (
                    doms[2:] if k == 0 else [])) if task[0] == 's' else (
                        [0, 1, 1],):
                jobs.append((stats, (task, dom, o, s, (None, True, False)[
                    k % 3], ('opt', 'pos', 'std', 'long')[k % 4], False)))
            for keep in (None, True, False):
                jobs.append((stats, (task, doms[0], o, s, keep,
                                     ('opt', 'std')[k % 2], True)))
    for t in ('', 'event_predictor', 'score', 'none'):
        jobs.append((wrong, (t,)))
    R.fan([lambda f=f, a=a: R.guard('%s %s' % (f.__name__, a),
                                    lambda: f(*a)) for f, a in jobs])
