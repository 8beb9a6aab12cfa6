from .mf import *

EXTRA = '''

def score_of(m, kind, u, i):
    z = (m.mu_[0] + m.bu_[u] + m.bi_[i] +
         np.sum(m.p_[u] * m.q_[i], axis=1))
    if kind == 'PMF':
        return z
    return 1.0 / (1.0 + np.exp(-z))


def raw(kind, d, ix, C, k, seed, kw, event, n_otypes, eo, use):
    m = fit(kind, d, ix, C, k, seed, kw)
    u, i, nu, ni = internal(event, n_otypes, eo, use)
    ev = np.empty((event.shape[0], 2), dtype=int)
    ev[:, 0] = u
    ev[:, 1] = i
    return m.raw_predict(ev), score_of(m, kind, u, i)


def train(kind, d, ix, C, k, seed, kw, event, n_otypes, eo, use):
    """prediction of the training events"""
    m = fit(kind, d, ix, C, k, seed, kw)
    u, i, nu, ni = internal(event, n_otypes, eo, use)
    return m.predict(event), score_of(m, kind, u, i)


def one(kind, d, ix, C, k, seed, kw, event, n_otypes, eo, use):
    m = fit(kind, d, ix, C, k, seed, kw)
    u, i, nu, ni = internal(event, n_otypes, eo, use)
    return m.predict(event[0]), score_of(m, kind, u, i)[0]


def error(kind, d, ix, C, k, seed, kw, event, n_otypes, eo, use, score):
    """the error part of the training loss is that of raw_predict"""
    m = fit(kind, d, ix, C, k, seed, kw)
    loss = REC['loss']
    u, i, nu, ni = internal(event, n_otypes, eo, use)
    if kind == 'ImplicitLogisticPMF':
        ev = np.array([[a, b] for a in range(2) for b in range(2)])
        Y = np.zeros((nu, ni))
        Y[u, i] = 1
        err = 0.0
        for a in range(nu):
            for b in range(ni):
                p = m.raw_predict(np.array([[a, b]]))[0]
                err = err - (Y[a, b] * np.log(p) +
                             (1 - Y[a, b]) * np.log(1 - p))
    else:
        ev = np.empty((event.shape[0], 2), dtype=int)
        ev[:, 0] = u
        ev[:, 1] = i
        p = m.raw_predict(ev)
        if kind == 'PMF':
            err = 0.5 * np.sum((score - p) ** 2)
        else:
            err = - np.sum(score * np.log(p) + (1 - score) * np.log(1 - p))
    reg = (np.sum(m.bu_[:nu] ** 2) + np.sum(m.bi_[:ni] ** 2) +
           np.sum(m.p_[:nu] ** 2) + np.sum(m.q_[:ni] ** 2))
    return loss, err + 0.5 * C * reg


def again(kind, d, ix, C, k, seed, kw, ev):
    """predicting twice gives the same"""
    m = fit(kind, d, ix, C, k, seed, kw)
    a = m.raw_predict(ev)
    b = m.raw_predict(ev)
    return a, b


def roles(kind, d, ix, C, k, seed, kw, event, n_otypes, eo, use):
    """every parameter of the optimizer occurs once in the attributes"""
    m = fit(kind, d, ix, C, k, seed, kw)
    u, i, nu, ni = internal(event, n_otypes, eo, use)
    x = REC['x']
    got = (m.mu_[0] + np.sum(m.bu_[:nu]) + np.sum(m.bi_[:ni]) +
           np.sum(m.p_[:nu]) + np.sum(m.q_[:ni]))
    sq = (m.mu_[0] ** 2 + np.sum(m.bu_[:nu] ** 2) +
          np.sum(m.bi_[:ni] ** 2) + np.sum(m.p_[:nu] ** 2) +
          np.sum(m.q_[:ni] ** 2))
    return (got, sq), (np.sum(x), np.sum(x ** 2))
'''


def check(R):
    R.rule('raw_predict and predict of known ids equal '
           'mu + b_u + b_i + <p_u, q_i> of the fitted attributes (through '
           'the logistic function), the attributes are the parameters the '
           'optimizer returned, and the error part of the training loss '
           'at these parameters is the error of raw_predict')

    def job(conf, sort):
        def go():
            C = Case(conf, EXTRA, sort=sort)
            C.tag += ', %s ids' % (IDNAME[sort])
            a = C.args() + C.ref()
            C.pair(R, 'raw_predict', 'raw', *a, where='raw_predict')
            C.pair(R, 'predict of the training events', 'train', *a,
                   where='raw_predict')
            C.pair(R, 'predict of one training event', 'one', *a,
                   where='raw_predict')
            C.pair(R, 'training error is the error of raw_predict', 'error',
                   *(a + (C.SC,)), where='loss')
            C.pair(R, 'parameters returned by the optimizer', 'roles', *a,
                   where='fit')
            C.pair(R, 'prediction leaves the model unchanged', 'again',
                   *(C.args() + (C.I.arr(
                       'RV', (C.I.int('m', 1, 3), 2), 'i',
                       lambda r, v, x: r.randint(0, 1)),)),
                   where='raw_predict')
        R.guard('%s' % (conf,), go)
    R.fan([lambda c=c, s=s: job(c, s) for c in CONF for s in 'is'])
