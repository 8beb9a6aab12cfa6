from .mf import *
from .. import stubs

SRC27 = '''
import argparse
import sys
import exp_recsys_sp as SP
import exp_recsys_if as IF
from kamrecsys.datasets import event_dtype_timestamp, load_event_with_score
from kamrecsys.score_predictor import MultinomialPLSA

SCRIPT = {'sp': SP, 'if': IF}
CALLS = []


def record(info, load_data, target_fold=None):
    CALLS.append((info, load_data, target_fold))


def values(vals):
    for v in vals:
        argparse.VALUES[v] = vals[v]


def run(script, vals):
    values(vals)
    SCRIPT[script].main()
    return CALLS[0]


def name(f):
    if f is None:
        return 'none'
    return (f.name, 'w' in f.mode)


def state(m):
    d = vars(m)
    return (type(m) is PMF, type(m) is MultinomialPLSA,
            type(m) is LogisticPMF, [(k, plain(d[k])) for k in sorted(d)])


def plain(x):
    if isinstance(x, dict):
        return [(k, plain(x[k])) for k in sorted(x)]
    return x


def model(script, vals, method, opts):
    info, load, fold = run(script, vals)
    m = info['model']['recommender'](**info['model']['options'])
    w = {'pmf': PMF, 'lpmf': LogisticPMF, 'plsam': MultinomialPLSA,
         'plsamm': MultinomialPLSA}[method](**opts)
    stored = [m.k, m.random_state]
    want = [opts['k'], opts['random_state']]
    if method in ('pmf', 'lpmf'):
        stored += [m.C]
        want += [opts['C']]
    else:
        stored += [m.alpha, m.use_expectation]
        want += [opts['alpha'], method == 'plsam']
    return (state(m), stored), (state(w), want)


def task(script, vals, ref):
    info, load, fold = run(script, vals)
    c = info['condition']
    dom = c['score_domain']
    return (name(info['training']['file']), name(info['test']['file']),
            name(c['out_file']), c['scheme'], c['n_folds'], fold,
            [dom[0], dom[1], dom[2]], len(dom), bool(c['has_timestamp']),
            info['model']['options']['random_state']), ref


def fitted(script, vals, method, d, E, tol, maxiter, k):
    info, load, fold = run(script, vals)
    m = info['model']['recommender'](**info['model']['options'])
    REC.clear()
    m.fit(d)
    o = REC['options']
    return ((REC['tol'], o.get('maxiter'), REC['size']),
            (tol, maxiter, 1 + (np.unique(E[:, 0]).shape[0] +
                                np.unique(E[:, 1]).shape[0]) * (k + 1)))


def loaded(script, vals, timestamp, dom, FS):
    info, load, fold = run(script, vals)
    d = load('table', info)
    w = load_event_with_score(
        'table', event_dtype=event_dtype_timestamp if timestamp else None,
        score_domain=dom)
    r = c = 0
    if script == 'if':
        w.binarize_score()
    else:
        r = [info['condition']['score_domain'][j] for j in range(3)]
        c = [w.score_domain[j] for j in range(3)]
    return (look(d), r), (look(w), c)


def look(d):
    f = None
    if d.event_feature is not None:
        f = [d.event_feature[k] for k in d.event_feature.dtype.names]
    return [d.n_events, [d.n_objects[o] for o in range(d.n_otypes)],
            d.to_eid_event(d.event), d.score, f,
            [d.score_domain[j] for j in range(3)], d.n_score_levels]


def bad(script, vals):
    run(script, vals)
    return 0, 1
'''

FILE = {'sp': 'scripts/exp_recsys_sp.py', 'if': 'scripts/exp_recsys_if.py'}
METHODS = {'sp': (None, 'pmf', 'plsam', 'plsamm'), 'if': (None, 'lpmf')}
# option: spellings, and the placeholder of its value
MODEL = [('C', ('-C', '--lambda'), '$C'), ('k', ('-k', '--dim'), '$k'),
         ('alpha', ('--alpha',), '$a'), ('tol', ('--tol',), '$t'),
         ('maxiter', ('--maxiter',), '$m'),
         ('random_state', ('--rseed',), '$s')]
DEFAULT = {'C': 0.01, 'k': 1, 'alpha': 1.0, 'tol': 1e-05, 'maxiter': None,
           'random_state': None}
TASK = [('in', ('-i', '--in'), ['in.event']), ('pin', ('',), ['in.event']),
        ('both', ('',), ['in.event', 'out.json']),
        ('out', ('-o', '--out'), ['out.json']),
        ('test', ('-t', '--test'), ['test.event']),
        ('cv', ('-v', '--validation'), ['cv']),
        ('holdout', ('-v', '--validation'), ['holdout']),
        ('fold', ('-f', '--fold'), ['$f']),
        ('fold_no', ('-n', '--fold-no'), ['$n']),
        ('domain', ('-d', '--domain'), ['$d0', '$d1', '$d2']),
        ('no_timestamp', ('--no-timestamp',), []),
        ('timestamp', ('--timestamp',), []),
        ('quiet', ('-q', '--quiet'), []), ('verbose', ('--verbose',), [])]


def sess(argv, extra=None):
    c = {'attr': {'sys.argv': lambda I: I.newlist(['exp.py'] + argv),
                  'sys.stdin': lambda I: I.world.module(
                      'argparse').ns['STDIN'],
                  'sys.stdout': lambda I: I.world.module(
                      'argparse').ns['STDOUT']},
         'minimize': 'on_min', 'texts': True}
    c.update(extra or {})
    S = Sess(SRC + SRC27, config=c, extra={'argparse': stubs.ARGPARSE})
    for n in ('SP', 'IF'):
        m = S.m.ns[n]
        if 'do_task' not in m.ns or 'main' not in m.ns:
            raise AnchorGone('main or do_task of the experiment scripts')
        m.ns['do_task'] = S.m.ns['record']
    I = Inp(S)
    v = {'$C': I.realf('C', lambda r, _: r.choice(
             (0.0, 1e-6, 0.01, 0.37, 1, 2.5, 30.0)) * 1.0),
         '$k': I.int('k', 0, 9),
         '$a': I.realf('alpha', lambda r, _: r.choice(
             (0.0, 1e-3, 0.5, 1.0, 7.25))),
         '$t': I.realf('tol', lambda r, _: r.choice(
             (0.0, 1e-12, 1e-05, 0.01, 200.0))),
         '$m': I.intf('maxiter', lambda r, _: r.choice((0, 1, 2, 77, 300))),
         '$s': I.intf('seed', lambda r, _: r.choice((0, 0, 1, 7, 4242))),
         '$f': I.intf('fold', lambda r, _: r.choice((1, 2, 5, 10, 30))),
         '$n': I.intf('fold_no', lambda r, _: r.choice((0, 0, 1, 4, 11))),
         '$d0': I.realf('d0', lambda r, _: r.choice((0.0, 0.5, 1.0))), '$d1': I.real('d1', 3.0, 9.0),
         '$d2': I.realf('d2', lambda r, _: r.choice((0.5, 1.0)))}
    return S, I, v


def check(R):
    R.rule('the main routine of each experiment script is followed from the '
           'parsed options, with symbolic values, to the call of the task: '
           'the recommender built from what it passes equals the one built '
           'from the options directly, and files, scheme, folds, domain '
           'and timestamp arrive unaltered')
    R.rule('the loader each script passes to the task yields the data of '
           'the file with the domain and layout of the options')
    deep = R.tier != 'quick'

    def subsets(items):
        n = len(items)
        out = [[]] + [[i] for i in items] + [list(items)]
        if deep:
            out += [[a, b] for i, a in enumerate(items)
                    for b in items[i + 1:]]
            out += [[c for c in items if c is not a] for a in items]
        return out

    def argv_of(method, chosen, long):
        a = [] if method is None else [
            '--method' if long else '-m', method]
        for o in chosen:
            a += [o[1][-1 if long else 0]]
            a += [o[2]] if isinstance(o[2], str) else o[2]
        return [x for x in a if x != '']

    def model(script, method, chosen, long):
        argv = argv_of(method, chosen, long)
        S, I, v = sess(argv)
        names = [o[0] for o in chosen]
        meth = method or METHODS[script][1]
        keep = ['k', 'tol', 'maxiter', 'random_state'] + (
            ['alpha'] if meth.startswith('plsa') else ['C'])
        d = [(k, DEFAULT[k]) for k in keep if k not in names]
        d += [(o[0], v[o[2]]) for o in chosen if o[0] in keep]
        d = [(a, b) for a, b in d if not (a == 'maxiter' and b is None)]
        if meth.startswith('plsa'):
            d.append(('use_expectation', meth == 'plsam'))
        ps = S.run('model', script, S.dict(list(v.items())), meth,
                   S.dict(d))
        R.decide_pair('%s with options [%s] builds the model they describe'
                      % (FILE[script], ' '.join(argv)), S, ps, I.gen,
                      FILE[script] + ':init_info', tol=1e-13, n=30)

    def task(script, method, chosen, long):
        argv = argv_of(method, chosen, long)
        S, I, v = sess(argv)
        names = [o[0] for o in chosen]
        inp = ('in.event', False) if set(names) & {
            'in', 'pin', 'both'} else ('<stdin>', False)
        out = ('out.json', True) if set(names) & {
            'out', 'both'} else ('<stdout>', True)
        test = ('test.event', False) if 'test' in names else 'none'
        scheme = 'cv' if 'cv' in names else 'holdout'
        dom = [v['$d0'], v['$d1'], v['$d2']] if 'domain' in names else [
            0, 0, 0]
        ref = (inp, test, out, scheme, v['$f'] if 'fold' in names else 5,
               v['$n'] if 'fold_no' in names else None, S.list(dom), 3,
               'no_timestamp' not in names, v['$s'] if 'seed' in names
               else None)
        ps = S.run('task', script, S.dict(list(v.items())), ref)
        R.decide_pair('%s with options [%s] hands the task its files, '
                      'scheme, folds, domain and layout'
                      % (FILE[script], ' '.join(argv)), S, ps, I.gen,
                      FILE[script] + ':init_info', tol=1e-13, n=30)

    def fitted(script, method, chosen):
        argv = argv_of(method, chosen, True)
        S, I, v = sess(argv)
        names = [o[0] for o in chosen]
        n = I.int('n', 2, 5)
        E = I.arr('E', (n, 2), 'i', ids_int)
        SC = I.arr('SC', (n,), 'i', lambda r, _, x: x[0] if x[0] < 2 else
                   r.randint(0, 1))
        d = S.do('data', 'score', E, 2, S.list([0, 1]), SC,
                 S.list([0, 1, 1]))
        I._add('k', lambda r, _: r.randint(1, 4))
        ps = S.run('fitted', script, S.dict(list(v.items())), method, d, E,
                   v['$t'] if 'tol' in names else DEFAULT['tol'],
                   v['$m'] if 'maxiter' in names else None,
                   v['$k'] if 'k' in names else 1)
        R.decide_pair('the optimizer run by %s with options [%s] gets '
                      'the tolerance and limit of the options'
                      % (FILE[script], ' '.join(argv)), S, ps, I.gen,
                      FILE[script] + ':init_info', tol=1e-13, n=30)

    def loaded(script, timestamp, domain):
        argv = [] if timestamp else ['--no-timestamp']
        if domain:
            argv += ['-d', '$d0', '$d1', '$d2']
        tabs = {}
        S, I, v = sess(argv, {'tables': tabs})
        n = I.int('n', 2, 6)
        E = I.arr('E', (n, 2), 'i', ids_int)
        SC = I.arr('SC', (n,), 'f', lambda r, _, x: r.choice(
            (1, 2, 2.5, 3, 5)) + 0.0)
        # one score value has no automatic increment
        I.post(lambda r, v: len(set(v['SC'].flat)) > 1)
        F = I.arr('F', (n,), 'i')
        cols = [('i', (lambda i, c=c: X.elem(S.I.read(E).term(), i, c)))
                for c in range(2)]
        cols.append(('f', lambda i: X.elem(S.I.read(SC).term(), i)))
        if timestamp:
            cols.append(('i', lambda i: X.elem(S.I.read(F).term(), i)))
        tabs['table'] = (n, cols)
        ps = S.run('loaded', script, S.dict(list(v.items())), timestamp,
                   S.list([v['$d0'], v['$d1'], v['$d2']]) if domain else
                   None, F)
        R.decide_pair('data loaded by %s with options [%s]' % (
            FILE[script], ' '.join(argv)), S, ps, I.gen,
            FILE[script] + ':load_data', n=30)

    jobs = []
    for script in ('sp', 'if'):
        extra = [('seed', ('--rseed',), '$s')]
        for method in METHODS[script]:
            for k, ch in enumerate(subsets(MODEL)):
                jobs.append(('model %s %s %s' % (
                    script, method, [o[0] for o in ch]), lambda a=(
                        script, method, ch, k % 2 == 1): model(*a)))
            if method is not None and not method.startswith('plsa'):
                for ch in subsets([o for o in MODEL if o[0] in (
                        'k', 'tol', 'maxiter')]):
                    jobs.append(('fitted %s %s %s' % (
                        script, method, [o[0] for o in ch]), lambda a=(
                            script, method, ch): fitted(*a)))
        full = [o for o in TASK if o[0] not in (
            'pin', 'both', 'holdout', 'timestamp', 'verbose')] + extra
        pos = [o for o in full if o[0] not in ('in', 'out')] + [
            o for o in TASK if o[0] == 'both']
        sets = [[]] + [[o] for o in TASK] + [full, pos]
        if deep:
            sets += subsets(full)[len(full) + 1:]
        for ch in sets:
            for long in (False, True):
                if not long and ch and len(ch) == 1 and len(
                        ch[0][1]) == 1:
                    continue
                for method in METHODS[script][:1] + (
                        METHODS[script][2:] if len(ch) > 1 else ()):
                    jobs.append(('task %s %s %s' % (
                        script, [o[0] for o in ch], long), lambda a=(
                            script, method, ch, long): task(*a)))
        for ts in (True, False):
            for dom in (True, False):
                jobs.append(('loaded %s %s %s' % (script, ts, dom),
                             lambda a=(script, ts, dom): loaded(*a)))
    R.fan([lambda n=n, f=f: R.guard(n, f) for n, f in jobs])
