from .mf import *
from . import p12

EXTRA = '''

def results(kind, d, ix, C, k, seed, kw, event, n_otypes, eo, use, njev):
    m = fit(kind, d, ix, C, k, seed, kw)
    r = m.fit_results_
    u, i, nu, ni = internal(event, n_otypes, eo, use)
    res = REC['res']
    got = [r['initial_loss'], r['final_loss'], r['n_users'], r['n_items'],
           r['n_events'], r['n_parameters'], r['success'], r['status'],
           r['message'], r['n_iterations'], r['func_calls'],
           r['grad_calls'], r['optimizer_method']]
    need = [REC['loss0'], REC['loss'], nu, ni, event.shape[0], REC['size'],
            res.success, res.status, res.message, res.nit, res.nfev,
            res.njev if njev else 0, REC['method']]
    return got, need


def kwargs(kind, d, ix, C, k, seed, kw):
    m = fit(kind, d, ix, C, k, seed, kw)
    o = m.fit_results_['optimizer_kwargs']
    got = {}
    for x in o['options']:
        got[x] = o['options'][x]
    return (got, o.get('tol')), (REC['options'], REC['tol'])


def second(kind, d0, d, ix, C, k, seed, kw, event, n_otypes, eo, use):
    """results of the second of two fits"""
    m = MODELS[kind](C=C, k=k, random_state=seed, **kw)
    m.fit(d0, event_index=ix)
    REC.clear()
    m.fit(d, event_index=ix)
    r = m.fit_results_
    u, i, nu, ni = internal(event, n_otypes, eo, use)
    res = REC['res']
    got = [r['initial_loss'], r['final_loss'], r['n_users'], r['n_items'],
           r['n_events'], r['n_parameters'], r['success'], r['status'],
           r['n_iterations'], r['func_calls'], r['grad_calls'],
           r['optimizer_method']]
    need = [REC['loss0'], REC['loss'], nu, ni, event.shape[0], REC['size'],
            res.success, res.status, res.nit, res.nfev, res.njev,
            REC['method']]
    return got, need
'''

PLSA = p12.SRC + '''
MSG = {0: 'Fitting terminated successfully.',
       2: 'Maximum number of iterations has been exceeded.'}


def losses(d, K, alpha, seed, t, ix):
    """loss after each number of EM steps"""
    out = []
    for j in range(t + 1):
        m = fit(d, K, alpha, seed, j, -1.0, ix, True)
        out.append(m.fit_results_['final_loss'])
    return out


def impl_status(d, K, alpha, seed, maxiter, tol, ix):
    m = fit(d, K, alpha, seed, maxiter, tol, ix, True)
    r = m.fit_results_
    return [r['initial_loss'], r['final_loss'], r['n_iterations'],
            bool(r['success']), r['status'], r['message']]


def spec_status(d, K, alpha, seed, maxiter, tol, ix):
    f = losses(d, K, alpha, seed, maxiter, ix)
    it = maxiter
    ok = False
    for j in range(maxiter):
        if not ok:
            if abs((f[j + 1] - f[j]) / f[j + 1]) < tol:
                ok = True
                it = j + 1
    st = 0 if ok else 2
    return [f[0], f[it], it, ok, st, MSG[st]]


def impl_counts(d, K, alpha, seed, maxiter, tol, ix):
    m = fit(d, K, alpha, seed, maxiter, tol, ix, True)
    r = m.fit_results_
    return [r['n_users'], r['n_items'], r['n_events'], r['n_parameters'],
            r['optimizer_kwargs']['maxiter'], r['optimizer_kwargs']['tol']]


def spec_counts(d, event, eo, R, K, maxiter, tol, ix):
    (nx, x), (ny, y) = tables(event, eo, ix)
    return [nx, ny, event.shape[0], K + R * K + nx * K + ny * K, maxiter,
            tol]


def impl_refit(d0, d, K, alpha, seed, maxiter, tol, ix):
    m = MultinomialPLSA(k=K, alpha=alpha, random_state=seed,
                        maxiter=maxiter, tol=tol)
    m.fit(d0, event_index=ix)
    m.fit(d, event_index=ix)
    r = m.fit_results_
    return [r['initial_loss'], r['final_loss'], r['n_iterations'],
            bool(r['success']), r['status'], r['message'], r['n_users'],
            r['n_items'], r['n_events'], r['n_parameters']]


def spec_refit(d0, d, K, alpha, seed, maxiter, tol, ix):
    m = fit(d, K, alpha, seed, maxiter, tol, ix, True)
    r = m.fit_results_
    return [r['initial_loss'], r['final_loss'], r['n_iterations'],
            bool(r['success']), r['status'], r['message'], r['n_users'],
            r['n_items'], r['n_events'], r['n_parameters']]
'''


def check(R):
    R.rule('every entry of fit_results_ is the value computed by that run: '
           'losses of the loss handed to the optimizer at its start and '
           'result, counts of the training data, fields of the result of '
           'the optimizer, options handed to it; topic model: status, '
           'iterations and message against the sequence of losses after '
           '0, 1, 2, ... EM steps')

    def job(conf, njev=True, opts=()):
        def go():
            C = Case(conf, EXTRA, opts=opts, config={'njev': njev})
            if not njev:
                C.tag += ', optimizer without gradient calls'
            C.pair(R, 'fit_results_', 'results', *(
                C.args() + C.ref() + (njev,)))
            C.pair(R, 'options in fit_results_', 'kwargs', *C.args())
            if not njev:
                return
            S = C.S
            n0 = C.I.int('n0', 2, 6)
            E0 = C.I.arr('E0', (n0, len(C.eo)), 'i', ids_int)
            SC0 = C.I.arr('SC0', (n0,), 'i', lambda r, v, x:
                          x[0] if x[0] < 2 else r.randint(0, 1))
            dom = list(C.dom)

            def two():
                d0 = S.do('data', 'score', E0, C.no, S.list(C.eo), SC0,
                          S.list(dom))
                a = C.args()
                ps = S.run('second', C.kind, d0, *(a[1:] + C.ref()))
                R.decide_pair('fit_results_ of the second fit; ' + C.tag, S,
                              ps, C.I.gen, C.where + 'fit', tol=1e-6)
            R.guard('fit_results_ of the second fit; ' + C.tag, two)
        R.guard('%s' % (conf,), go)

    def plsa(dom, levels, no, eo, ix):
        cls = 'kamrecsys/score_predictor/topic_model.py:MultinomialPLSA.fit'
        S = Sess(PLSA, config={'box': 100})
        I = Inp(S)
        n = I.int('n', 2, 5)
        K = I.int('K', 1, 3)
        E = I.arr('E', (n, len(eo)), 'i', ids_int)
        lv = I.arr('lev', (n,), 'i',
                   lambda r, v, x: r.randrange(len(levels)))
        n0 = I.int('n0', 2, 4)
        E0 = I.arr('E0', (n0, len(eo)), 'i', ids_int)
        al = I.real('alpha', 0.1, 2.0)
        seed = I.int('seed', 0, 99)
        tol = I.realf('tol', lambda r, v: 0.0 if r.random() < 0.2 else
                      10.0 ** r.uniform(-6, 0.5))
        lt = p12.lev_term(S, lv)
        sc = S.I.arr((n,), lambda i: X.elem(X.tab(levels), X.elem(lt, i)),
                     'f')
        l0 = I.arr('lev0', (n0,), 'i',
                   lambda r, v, x: r.randrange(len(levels)))
        lt0 = p12.lev_term(S, l0)
        sc0 = S.I.arr((n0,), lambda i: X.elem(X.tab(levels),
                                              X.elem(lt0, i)), 'f')
        tag = '; MultinomialPLSA, event_otypes=%s, event_index=%s' % (
            eo, ix)
        L = S.list
        d = S.do('mk', E, sc, L(dom), no, L(eo))
        d0 = S.do('mk', E0, sc0, L(dom), no, L(eo))

        def two(name, impl, spec, ia, sa, few=12):
            def go():
                a = S.run(impl, *ia)
                b = S.run(spec, *sa)
                R.decide(name + tag, S, a, S, b, I.gen, cls, n=(
                    few if R.tier == 'quick' else 60))
            R.guard(name + tag, go)
        for t in (0, 1, 2, 3):
            a = (d, K, al, seed, t, tol, L(ix))
            two('status, losses and iterations, maxiter=%d' % t,
                'impl_status', 'spec_status', a, a)
        a = (d, K, al, seed, 2, tol, L(ix))
        two('counts', 'impl_counts', 'spec_counts', a,
            (d, E, L(eo), len(levels), K, 2, tol, L(ix)))
        # tolerances that one of the fits reaches and the other does not
        I.realf('tol', lambda r, v: 10.0 ** r.uniform(-3, -0.5))
        for t in (1, 2):
            a = (d0, d, K, al, seed, t, tol, L(ix))
            two('fit_results_ of the second fit, maxiter=%d' % t,
                'impl_refit', 'spec_refit', a, a, 30)
    jobs = [lambda c=c: job(c) for c in CONF]
    for kind in ('PMF', 'LogisticPMF', 'ImplicitLogisticPMF'):
        c = (kind, 2, [0, 1], [0, 1], 2)
        jobs.append(lambda c=c: job(c, opts=[
            ('method', 'BFGS'), ('maxiter', 7), ('tol', 1e-5)]))
        jobs.append(lambda c=c: job(c, False, opts=[
            ('method', 'Nelder-Mead')]))
        jobs.append(lambda c=c: job(c, opts=[
            ('maxiter', 0), ('tol', 0.0)]))
    jobs += [lambda a=(d, l, no, eo, ix): plsa(*a)
             for d, l in p12.DOMS[:1] for no, eo, ix in
             [(2, [0, 1], [0, 1]), (3, [2, 0, 1], [2, 1]),
              (2, [0, 1, 0], [2, 1])]]
    R.fan(jobs)
