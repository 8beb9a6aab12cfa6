from .mf import *
from .. import stubs
from .. import lint

SRC28 = '''
import logging
import warnings
import vfs
import out1
import out2
import sys

import kamrecsys
import kamrecsys.base
import kamrecsys.data
import kamrecsys.datasets
import kamrecsys.item_finder
import kamrecsys.metrics
import kamrecsys.model_selection
import kamrecsys.score_predictor
import kamrecsys.utils
from kamrecsys.score_predictor import MultinomialPLSA
from kamrecsys.metrics import (
    score_predictor_report, score_predictor_statistics, item_finder_report,
    item_finder_statistics)
from kamrecsys.model_selection import (
    ShuffleSplitWithinGroups, KFoldWithinGroups, InterlacedKFold)


def own(name):
    return name == 'kamrecsys' or name.startswith('kamrecsys.')


def quiet():
    """loggers not of the library that were touched; other channels"""
    return ([n for n, w in logging.CHANGES if not own(n)],
            [n for n, w in logging.CHANGES if w == 'handler'],
            [n for n, l in logging.MESSAGES if not own(n)],
            len(logging.root.handlers), logging.root.level,
            len(warnings.SENT), len(warnings.CHANGES),
            vfs.text('stdout'), vfs.text('stderr'))


NOTHING = ([], [], [], 0, 30, 0, 0, '', '')


def imported():
    l = logging.LOGGERS.get('kamrecsys')
    return (quiet(), l is not None and
            [type(h) is logging.NullHandler for h in l.handlers],
            [n for n in logging.LOGGERS if not own(n)]), (
                NOTHING, [True], [])


def fitted(kind, E, SC, dom, C, k, seed, V):
    if kind == 'MultinomialPLSA':
        m = MultinomialPLSA(alpha=C, k=k, random_state=seed, tol=0.5,
                            maxiter=1)
        d = data('score', E, 2, [0, 1], SC, dom)
    else:
        m = MODELS[kind](C=C, k=k, random_state=seed)
        d = data('plain' if kind == 'ImplicitLogisticPMF' else 'score', E,
                 2, [0, 1], SC, dom)
    m.fit(d)
    m.predict(V)
    return quiet(), NOTHING


def statistics(SC, P, B):
    score_predictor_statistics(SC, P, (1, 5, 1))
    item_finder_statistics(B, P)
    return quiet(), NOTHING


def reports(which, disp, how, SC, P, B):
    f = score_predictor_report if which == 'score' else item_finder_report
    t = SC if which == 'score' else B
    if how == 'default':
        f(t, P)
    elif how == 'keyword':
        f(t, P, disp=disp)
    else:
        f(t, P, disp)
    q = quiet()
    return (q[:-1], len(vfs.text('stderr')) > 0), (NOTHING[:-1], bool(disp))


def splitted(V):
    E = np.empty((6, 2), dtype=int)
    E[:, 0] = [4, 9, 4, 9, 4, 9]
    E[:, 1] = V
    for cv in (ShuffleSplitWithinGroups(n_splits=2, test_size=0.5,
                                        random_state=1),
               KFoldWithinGroups(n_splits=2), InterlacedKFold(n_splits=2)):
        for a, b in cv.split(E, groups=E[:, 0]):
            pass
    return quiet(), NOTHING
'''
VFS0 = "import vfs\nF = vfs.File(%r, 'w', None)\n"


def check(R):
    R.rule('after the interpreted import of every module of the library, '
           'and after training, prediction, evaluation and splitting with '
           'symbolic data, no logger but those of the library was touched, '
           'nothing was printed and no setting of another library changed; '
           'reports print to standard error exactly when display is asked')
    R.rule('every call site of the library, with names resolved: print and '
           'stream writes go nowhere but to standard error from a report, '
           'loggers are named kamrecsys or a child, handlers are null '
           'handlers, no call configures the root logger or another library')

    def sess():
        attr = {'sys.stdout': lambda I: I.world.module('out1').ns['F'],
                'sys.stderr': lambda I: I.world.module('out2').ns['F']}
        return Sess(SRC + SRC28, config={
            'attr': attr, 'minimize': 'on_min', 'nonempty': True}, extra={
                'logging': stubs.LOGGING, 'warnings': stubs.WARNINGS,
                'json': stubs.JSON, 'vfs': stubs.VFS,
                'out1': VFS0 % 'stdout', 'out2': VFS0 % 'stderr'})

    def run(name, where, entry, *args):
        S = sess()
        I = Inp(S)
        I.int('n', 2, 6)
        ps = S.run(entry, *[a(I) if callable(a) else a for a in args])
        R.decide_pair(name, S, ps, I.gen, where)

    N = 6
    n = lambda I: I.S.int('n', True)
    En = lambda I: I.arr('E', (n(I), 2), 'i', lambda r, v, x: x[0] % 2 if
                        x[1] == 0 else r.randint(0, 5))
    SCn = lambda I: I.arr('SC', (n(I),), 'f', lambda r, v, x: r.randint(
        1, 5) * 1.0)
    Bn = lambda I: I.arr('B', (n(I),), 'i', lambda r, v, x: x[0] if x[0] < 2
                         else r.randint(0, 1))
    SC = lambda I: I.arr('SC', (N,), 'f', lambda r, v, x: r.randint(
        1, 5) * 1.0)
    B = lambda I: I.arr('B', (N,), 'i', lambda r, v, x: x[0] if x[0] < 2
                        else r.randint(0, 1))
    P = lambda I: I.arr('P', (N,), 'f', lambda r, v, x: r.randint(
        1, 99) / 100.0)
    V = lambda I: I.arr('V', (3, 2), 'i', ids_int)
    C = lambda I: I.realf('C', lambda r, v: r.choice((0.01, 1.0)))
    seed = lambda I: I.intf('seed', lambda r, v: r.choice((0, 1, 7)))
    jobs = [('importing the library', 'kamrecsys/__init__.py', 'imported')]
    F = {'PMF': 'score_predictor/matrix_factorization.py',
         'MultinomialPLSA': 'score_predictor/topic_model.py'}
    for k in ('PMF', 'LogisticPMF', 'ImplicitLogisticPMF',
              'MultinomialPLSA'):
        sc = SCn
        dom = (1, 5, 1)
        if k == 'LogisticPMF':
            sc, dom = Bn, (0, 1, 1)
        jobs.append(('training %s' % k, 'kamrecsys/' + F.get(
            k, 'item_finder/matrix_factorization.py') + ':%s.fit' % k,
            'fitted', k, En, sc, dom, C, 2, seed, V))
    jobs.append(('statistics of predictions', 'kamrecsys/metrics',
                 'statistics', SC, P, B))
    for which in ('score', 'item'):
        for disp, how in ((True, 'default'), (True, 'keyword'),
                          (False, 'keyword'), (True, 'positional'),
                          (False, 'positional'), (0, 'keyword'),
                          (1, 'keyword')):
            jobs.append(('report of %s predictions, disp=%r by %s' % (
                which, disp, how), 'kamrecsys/metrics/%s_%s.py' % (
                    which, 'predictor' if which == 'score' else 'finder'),
                'reports', which, disp, how, SC, P, B))
    jobs.append(('splitting', 'kamrecsys/model_selection/split.py',
                 'splitted', lambda I: I.arr('G', (N,), 'i')))
    R.fan([lambda j=j: R.guard(j[0], lambda: run(*j)) for j in jobs])

    L = lint.Lint()
    count = {}
    err = {}
    calls = 0
    for site in L.sites():
        mod, rel, q, fn, scope, n, withs = site
        if q == '_test':
            continue
        calls += 1
        at = '%s:%s' % (rel, q)
        for v, text in lint.classify(L, site):
            count[v] = count.get(v, 0) + 1
            if v == 'bad':
                R.violation('call sites of %s' % at, '%s line %d' % (
                    at, n.lineno), text)
            elif v == 'unknown':
                R.add('call site of %s' % at, 'undecided', text)
            elif v == 'stderr':
                err.setdefault((mod, q), (at, n.lineno))
    # writes to standard error belong to the reports
    for (mod, q), (at, line) in sorted(err.items()):
        rep = reach(L, mod, q)
        bad = [r for r in rep if not r[1].split('.')[-1].endswith('_report')]
        if bad:
            R.violation('standard error written by %s' % at,
                        '%s line %d' % (at, line), 'reached from %s' % (
                            ', '.join('%s.%s' % b for b in bad[:4])))
        else:
            R.add('standard error written by %s, only for reports' % at,
                  'proved')
    if not calls:
        raise AnchorGone('no call site found in kamrecsys')
    R.add('%d call sites of %d modules: %s' % (calls, len(L.mods), ', '.join(
        '%d %s' % (count[k], k) for k in sorted(count))),
        'proved' if not count.get('bad') else 'undecided')


def reach(L, mod, q):
    """the outermost functions from which a function is called"""
    import ast
    todo = [(mod, q)]
    seen = set(todo)
    roots = []
    names = {}
    for m in L.mods:
        for f, s, qq in L.functions(m):
            for c in ast.walk(f):
                if isinstance(c, ast.Name):
                    k = c.id
                elif isinstance(c, ast.Attribute):
                    k = c.attr
                else:
                    continue
                names.setdefault(k, set()).add((m, qq))
    while todo:
        m, k = todo.pop()
        last = k.split('.')[-1]
        callers = names.get(last, set()) - {(m, k)}
        if last.endswith('_report') or not callers or not last.startswith(
                '_') and not callers:
            roots.append((m, k))
            continue
        for c in callers:
            if c not in seen:
                seen.add(c)
                todo.append(c)
    return roots
