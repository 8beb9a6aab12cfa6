from .mf import *
from . import p12

EXTRA = '''

def on_start(res, fun, x0, args, method, jac, options, tol):
    REC['calls'] = REC.get('calls', 0) + 1
    res.x = np.array(x0)
    res.fun = fun(res.x, *args)
    if jac is True:
        res.fun = res.fun[0]


def start(kind, d, ix, C, k, seed, kw, event, n_otypes, eo, use, score):
    m = fit(kind, d, ix, C, k, seed, kw)
    u, i, nu, ni = internal(event, n_otypes, eo, use)
    n = event.shape[0]
    bu = np.zeros(nu)
    bi = np.zeros(ni)
    p = np.zeros((nu, k))
    q = np.zeros((ni, k))
    rng = np.random.RandomState(seed)
    if kind == 'ImplicitLogisticPMF':
        Y = np.zeros((nu, ni))
        Y[u, i] = 1
        mu = np.sum(Y) / (nu * ni)
        bu = np.sum(Y, axis=1) / ni
        bi = np.sum(Y, axis=0) / nu
        p = rng.normal(0.0, 1.0, (nu, k))
        q = rng.normal(0.0, 1.0, (ni, k))
    else:
        mu = np.sum(score) / n
        for a in range(nu):
            c = np.sum(u == a)
            if c > 0:
                bu[a] = np.sum(np.where(u == a, score - mu, 0.0)) / c
        for b in range(ni):
            c = np.sum(i == b)
            if c > 0:
                bi[b] = np.sum(np.where(
                    i == b, score - mu - bu[u], 0.0)) / c
        sd = 1.0
        if kind == 'PMF':
            sd = np.sqrt(np.sum((score - mu - bu[u] - bi[i]) ** 2) / n)
        hu = np.unique(u)
        hi = np.unique(i)
        p[hu, :] = rng.normal(0.0, sd, (len(hu), k))
        q[hi, :] = rng.normal(0.0, sd, (len(hi), k))
    return ((m.mu_[0], m.bu_[:nu], m.bi_[:ni], m.p_[:nu], m.q_[:ni]),
            (mu, bu, bi, p, q))
'''

TOPIC = '''


def topic(d, event, lev, eo, ix, R, K, alpha, seed):
    (nx, x), (ny, y) = tables(event, eo, ix)
    m = fit(d, K, alpha, seed, 0, 0.0, ix, True)
    n = event.shape[0]
    rng = np.random.RandomState(seed)
    A = np.ones((R, K))
    for r in range(R):
        for k in range(K):
            if k % R == r:
                A[r, k] = 1000.0
    q = np.zeros((n, K))
    for i in range(n):
        q[i, :] = rng.dirichlet(A[lev[i], :])
    return pars(m, nx, ny), mstep(q, lev, x, y, R, nx, ny, K, alpha)

'''

MORE = [(kind, no, eo, ix, k) for kind in (
    'PMF', 'LogisticPMF', 'ImplicitLogisticPMF') for no, eo, ix, k in (
    (2, [0, 1], [1, 0], 1), (2, [0, 1, 0], [2, 1], 2),
    (1, [0, 0], [0, 1], 1))]


def check(R):
    R.rule('with an optimizer that returns its starting point, the fitted '
           'parameters equal the baseline computed from the symbolic events '
           'and scores, and the latent factors equal the stated draws of '
           'the seeded generator, zero for objects without events; topic '
           'model after no iteration: the M-step of the stated Dirichlet '
           'draws')

    def job(conf, plain=False):
        def go():
            C = Case(conf, EXTRA, config={'minimize': 'on_start'},
                     plain=plain)
            C.pair(R, 'starting point', 'start', *(
                C.args() + C.ref() + (C.SC,)), where='fit')
        R.guard('%s' % (conf,), go)

    def topic(dom, levels, no, eo, ix):
        def go():
            S = Sess(p12.SRC + TOPIC, config={'box': 100})
            I = Inp(S)
            n = I.int('n', 2, 5)
            K = I.int('K', 1, 7)
            E = I.arr('E', (n, len(eo)), 'i', ids_int)
            lev = I.arr('lev', (n,), 'i',
                        lambda r, v, x: r.randrange(len(levels)))
            al = I.real('alpha', 0.1, 2.0)
            seed = I.int('seed', 0, 99)
            sc = S.I.arr((n,), lambda i: X.elem(X.tab(levels), X.elem(
                p12.lev_term(S, lev), i)), 'f')
            d = S.do('mk', E, sc, S.list(dom), no, S.list(eo))
            ps = S.run('topic', d, E, lev, S.list(eo), S.list(ix),
                       len(levels), K, al, seed)
            R.decide_pair(
                'starting point; MultinomialPLSA, domain %s, event_otypes=%s,'
                ' event_index=%s' % (dom, eo, ix), S, ps, I.gen,
                'kamrecsys/score_predictor/topic_model.py:MultinomialPLSA.'
                'fit', tol=1e-7)
        R.guard('topic %s %s' % (dom, ix), go)
    R.fan([lambda c=c: job(c) for c in CONF + MORE] +
          [lambda a=(d, l, no, eo, ix): topic(*a)
           for d, l in p12.DOMS for no, eo, ix in
           [(2, [0, 1], [0, 1]), (2, [0, 1], [1, 0]),
            (3, [2, 0, 1], [2, 1])]] +
          [lambda: job(('ImplicitLogisticPMF', 2, [0, 1], [0, 1], 2),
                       True)])
