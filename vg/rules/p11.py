from .mf import *

EXTRA = '''

def reg(m, nu, ni):
    return (np.sum(m.bu_[:nu] ** 2) + np.sum(m.bi_[:ni] ** 2) +
            np.sum(m.p_[:nu] ** 2) + np.sum(m.q_[:ni] ** 2))


def linear(m, u, i):
    return (m.mu_[0] + m.bu_[u] + m.bi_[i] +
            np.sum(m.p_[u] * m.q_[i], axis=1))


def objective(kind, d, ix, C, k, seed, kw, event, n_otypes, eo, use, score):
    m = fit(kind, d, ix, C, k, seed, kw)
    got = REC['loss']
    u, i, nu, ni = internal(event, n_otypes, eo, use)
    if kind == 'PMF':
        err = 0.5 * np.sum((score - linear(m, u, i)) ** 2)
    elif kind == 'LogisticPMF':
        z = linear(m, u, i)
        pr = 1.0 / (1.0 + np.exp(-z))
        err = - np.sum(score * np.log(pr) + (1 - score) * np.log(1 - pr))
    else:
        Y = np.zeros((nu, ni))
        Y[u, i] = 1
        z = (m.mu_[0] + m.bu_[:nu][:, np.newaxis] +
             m.bi_[:ni][np.newaxis, :] + np.dot(m.p_[:nu], m.q_[:ni].T))
        pr = 1.0 / (1.0 + np.exp(-z))
        err = - np.sum(Y * np.log(pr) + (1 - Y) * np.log(1 - pr))
    return got, err + 0.5 * C * reg(m, nu, ni)


def setup(kind, d, ix, C, k, seed, kw, event, n_otypes, eo, use, method,
          options, tol):
    m = fit(kind, d, ix, C, k, seed, kw)
    u, i, nu, ni = internal(event, n_otypes, eo, use)
    got = [REC['calls'], REC['size'], REC['method'], REC['jac'],
           REC['options'], REC['tol']]
    need = [1, 1 + nu + ni + k * (nu + ni), method, True, options, tol]
    return got, need
'''


def check(R):
    R.rule('the loss handed to the optimizer, evaluated at the parameters it '
           'returns, is the documented objective of the fitted attributes; '
           'the optimizer gets one problem of the right size with the '
           'method, options and tolerance of the user')

    def job(conf, opts, need, plain=False):
        def go():
            C = Case(conf, EXTRA, opts=[
                (a, o() if callable(o) else o) for a, o in opts],
                plain=plain) if not any(callable(o) for a, o in opts) else \
                None
            if C is None:
                C = Case(conf, EXTRA, plain=plain)
                C.kw = C.S.dict([(a, o(C) if callable(o) else o)
                                 for a, o in opts])
                C.tag += ', options given'
            S = C.S
            C.pair(R, 'objective', 'objective', *(
                C.args() + C.ref() + (C.SC,)), where='loss')
            method, o, tol = need(C)
            C.pair(R, 'problem handed to the optimizer', 'setup', *(
                C.args() + C.ref() + (method, S.dict(o), tol)))
        R.guard('%s' % (conf,), go)
    dflt = lambda C: ('CG', [('disp', False)], None)

    def more(method, m, tol):
        return ([('method', method), ('maxiter', m), ('tol', tol)],
                lambda C: (method, [('disp', False), ('maxiter', m)], tol))
    jobs = []
    for c in CONF:
        jobs.append(lambda c=c: job(c, [], dflt))
    for kind in ('PMF', 'LogisticPMF', 'ImplicitLogisticPMF'):
        c = (kind, 2, [0, 1], [0, 1], 2)
        o, f = more('BFGS', 7, 1e-5)
        jobs.append(lambda c=c, o=o, f=f: job(c, o, f))
        o2 = [('maxiter', 9),
              ('options', lambda C: C.S.dict([('gtol', 1e-3),
                                              ('disp', True)]))]
        f2 = lambda C: ('CG', [('gtol', 1e-3), ('disp', True),
                               ('maxiter', 9)], None)
        jobs.append(lambda c=c, o=o2, f=f2: job(c, o, f))
    jobs.append(lambda: job(('ImplicitLogisticPMF', 2, [0, 1], [0, 1], 2),
                            [], dflt, plain=True))
    R.fan(jobs)
