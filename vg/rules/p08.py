from .mf import *
from . import p12

EXTRA = '''

def unknown(kind, d, ix, C, k, seed, kw, event, n_otypes, eo, use, V):
    """prediction of any table of events, known and unknown objects"""
    m = fit(kind, d, ix, C, k, seed, kw)
    u, i, nu, ni = internal(event, n_otypes, eo, use)
    eid, iid = tables(event, n_otypes, eo)
    tu = iid[eo[use[0]]]
    ti = iid[eo[use[1]]]
    a = np.array([tu.get(x, -1) for x in V[:, use[0]]], dtype=int)
    b = np.array([ti.get(x, -1) for x in V[:, use[1]]], dtype=int)
    ka = np.where(a >= 0, 1.0, 0.0)
    kb = np.where(b >= 0, 1.0, 0.0)
    a = np.where(a >= 0, a, 0)
    b = np.where(b >= 0, b, 0)
    z = (m.mu_[0] + ka * m.bu_[:nu][a] + kb * m.bi_[:ni][b] +
         ka * kb * np.sum(m.p_[:nu][a] * m.q_[:ni][b], axis=1))
    if kind != 'PMF':
        z = 1.0 / (1.0 + np.exp(-z))
    return m.predict(V), z


def both_unknown(kind, d, ix, C, k, seed, kw, x, s):
    m = fit(kind, d, ix, C, k, seed, kw)
    V = np.array([x] * s)
    z = m.mu_[0]
    if kind != 'PMF':
        z = 1.0 / (1.0 + np.exp(-z))
    return m.predict(V), z


def raw_unknown(kind, d, ix, C, k, seed, kw, event, n_otypes, eo, use):
    """raw_predict with the numbers of objects as the unknown ids"""
    m = fit(kind, d, ix, C, k, seed, kw)
    u, i, nu, ni = internal(event, n_otypes, eo, use)
    ev = np.array([[nu, ni], [0, ni], [nu, 0]])
    z = [m.mu_[0], m.mu_[0] + m.bu_[0], m.mu_[0] + m.bi_[0]]
    if kind != 'PMF':
        z = [1.0 / (1.0 + np.exp(-y)) for y in z]
    return m.raw_predict(ev), np.array(z)
'''

PLSA = p12.SRC + '''

def impl_unk(d, K, alpha, seed, ix, ue, V):
    return fit(d, K, alpha, seed, 1, 0.0, ix, ue).predict(V)


def dist(m, event, eo, ix, V, R):
    t = []
    for e in ix:
        cols = [j for j in range(len(eo)) if eo[j] == eo[e]]
        u = np.unique(event[:, cols])
        t.append((len(u), {k: i for i, k in enumerate(u)}))
    (nx, tx), (ny, ty) = t
    n = V.shape[0]
    a = np.array([tx.get(x, -1) for x in V[:, ix[0]]], dtype=int)
    b = np.array([ty.get(x, -1) for x in V[:, ix[1]]], dtype=int)
    ka = np.where(a >= 0, 1.0, 0.0)[:, np.newaxis]
    kb = np.where(b >= 0, 1.0, 0.0)[:, np.newaxis]
    a = np.where(a >= 0, a, 0)
    b = np.where(b >= 0, b, 0)
    px = ka * m.pXgZ_[a, :] + (1 - ka)
    py = kb * m.pYgZ_[b, :] + (1 - kb)
    P = np.zeros((n, R))
    for r in range(R):
        P[:, r] = np.sum(m.pZ_[np.newaxis, :] *
                         m.pRgZ_[r, :][np.newaxis, :] * px * py, axis=1)
    return P


def spec_unk(d, event, eo, K, alpha, seed, ix, ue, V, levels):
    m = fit(d, K, alpha, seed, 1, 0.0, ix, ue)
    P = dist(m, event, eo, ix, V, len(levels))
    if ue:
        return (np.sum(P * np.array(levels)[np.newaxis, :], axis=1) /
                np.sum(P, axis=1))
    return np.array(levels)[np.argmax(P, axis=1)]


def impl_marg(d, K, alpha, seed, ix, x, s):
    return fit(d, K, alpha, seed, 1, 0.0, ix, True).predict(np.array([x] * s))


def spec_marg(d, K, alpha, seed, ix, levels):
    m = fit(d, K, alpha, seed, 1, 0.0, ix, True)
    pr = np.sum(m.pZ_[np.newaxis, :] * m.pRgZ_, axis=1)
    return np.sum(pr * np.array(levels)) / np.sum(pr)
'''


def check(R):
    R.rule('the prediction for any external ids equals the model with the '
           'bias and factors of unknown objects at zero (topic models: '
           'likelihood one for every topic)')

    def job(conf, sort):
        def go():
            C = Case(conf, EXTRA, sort=sort)
            C.tag += ', %s ids' % (IDNAME[sort])
            s = len(C.eo)
            V = C.I.arr('V', (C.I.int('m', 2, 5), s), sort, IDS[sort])
            C.pair(R, 'known and unknown objects', 'unknown', *(
                C.args() + C.ref() + (V,)), where='raw_predict')
            C.pair(R, 'two unknown objects', 'both_unknown', *(
                C.args() + (-999 if sort == 'i' else '~none', s)),
                where='raw_predict')
            C.pair(R, 'numbers of objects stand for unknown objects',
                   'raw_unknown', *(C.args() + C.ref()), where='fit')
        R.guard('%s' % (conf,), go)

    def plsa(dom, levels, no, eo, ix):
        cls = 'kamrecsys/score_predictor/topic_model.py:MultinomialPLSA.'
        S = Sess(PLSA, config={'box': 100})
        I = Inp(S)
        n = I.int('n', 2, 5)
        K = I.int('K', 1, 3)
        E = I.arr('E', (n, len(eo)), 'i', ids_int)
        lev = I.arr('lev', (n,), 'i',
                    lambda r, v, x: r.randrange(len(levels)))
        al = I.real('alpha', 0.1, 2.0)
        seed = I.int('seed', 0, 99)
        V = I.arr('V', (I.int('m', 2, 4), len(eo)), 'i', ids_int)
        sc = S.I.arr((n,), lambda i: X.elem(X.tab(levels), X.elem(
            p12.lev_term(S, lev), i)), 'f')
        tag = '; MultinomialPLSA, domain %s, event_otypes=%s, ' \
            'event_index=%s' % (dom, eo, ix)
        d = S.do('mk', E, sc, S.list(dom), no, S.list(eo))
        L = S.list

        def two(name, impl, spec, ia, sa):
            def go():
                a = S.run(impl, *ia)
                b = S.run(spec, *sa)
                R.decide(name + tag, S, a, S, b, I.gen, cls + 'raw_predict')
            R.guard(name + tag, go)
        for ue in (True, False):
            two('known and unknown objects, %s' % (
                'mean' if ue else 'mode'), 'impl_unk', 'spec_unk',
                (d, K, al, seed, L(ix), ue, V),
                (d, E, L(eo), K, al, seed, L(ix), ue, V, L(levels)))
        two('two unknown objects', 'impl_marg', 'spec_marg',
            (d, K, al, seed, L(ix), -999, len(eo)),
            (d, K, al, seed, L(ix), L(levels)))
    jobs = [lambda c=c, s=s: job(c, s) for c in CONF for s in 'is']
    jobs += [lambda a=(d, l, no, eo, ix): plsa(*a)
             for d, l in p12.DOMS[:2] for no, eo, ix in
             [(2, [0, 1], [0, 1]), (3, [2, 0, 1], [2, 1]),
              (2, [0, 1, 0], [2, 1])]]
    R.fan(jobs)
