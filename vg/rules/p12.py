from .common import *

SRC = '''
import numpy as np
from kamrecsys.data import EventWithScoreData
from kamrecsys.score_predictor import MultinomialPLSA


def mk(event, score, dom, n_otypes, eo):
    d = EventWithScoreData(n_otypes=n_otypes, event_otypes=eo)
    d.set_event(event, score, dom)
    return d


def fit(d, K, alpha, seed, maxiter, tol, ix, ue):
    m = MultinomialPLSA(k=K, alpha=alpha, random_state=seed,
                        maxiter=maxiter, tol=tol, use_expectation=ue)
    m.fit(d, event_index=ix)
    return m


def pars(m, nx, ny):
    return m.pZ_, m.pRgZ_, m.pXgZ_[:nx, :], m.pYgZ_[:ny, :]


def tables(event, eo, ix):
    out = []
    for e in ix:
        cols = [j for j in range(len(eo)) if eo[j] == eo[e]]
        u = np.unique(event[:, cols])
        t = {k: i for i, k in enumerate(u)}
        out.append((len(u), np.array([t[x] for x in event[:, e]])))
    return out


def mstep(q, sc, x, y, R, nx, ny, K, alpha):
    n = q.shape[0]
    NR = np.zeros((R, K))
    NX = np.zeros((nx, K))
    NY = np.zeros((ny, K))
    NZ = np.zeros(K)
    for z in range(K):
        NR[:, z] = np.bincount(sc, weights=q[:, z], minlength=R)
        NX[:, z] = np.bincount(x, weights=q[:, z], minlength=nx)
        NY[:, z] = np.bincount(y, weights=q[:, z], minlength=ny)
        NZ[z] = np.sum(q[:, z])
    pZ = (NZ + alpha) / (n + K * alpha)
    pR = (NR + alpha) / (NZ[np.newaxis, :] + R * alpha)
    pX = (NX + alpha) / (NZ[np.newaxis, :] + nx * alpha)
    pY = (NY + alpha) / (NZ[np.newaxis, :] + ny * alpha)
    return pZ, pR, pX, pY


def joint(pZ, pR, pX, pY, sc, x, y):
    return pZ[np.newaxis, :] * pR[sc, :] * pX[x, :] * pY[y, :]


def estep(pZ, pR, pX, pY, sc, x, y):
    q = joint(pZ, pR, pX, pY, sc, x, y)
    return q / np.sum(q, axis=1)[:, np.newaxis]


def nll(pZ, pR, pX, pY, sc, x, y):
    q = np.sum(joint(pZ, pR, pX, pY, sc, x, y), axis=1)
    return -np.mean(np.log(q))


def impl_em(d, event, lev, eo, ix, R, K, alpha, seed, t, tol):
    (nx, x), (ny, y) = tables(event, eo, ix)
    m = fit(d, K, alpha, seed, t, tol, ix, True)
    return pars(m, nx, ny), m.fit_results_['final_loss']


def spec_em(d, event, lev, eo, ix, R, K, alpha, seed, t, tol):
    (nx, x), (ny, y) = tables(event, eo, ix)
    m = fit(d, K, alpha, seed, t - 1, tol, ix, True)
    pZ, pR, pX, pY = pars(m, nx, ny)
    q = estep(pZ, pR, pX, pY, lev, x, y)
    pZ, pR, pX, pY = mstep(q, lev, x, y, R, nx, ny, K, alpha)
    return (pZ, pR, pX, pY), nll(pZ, pR, pX, pY, lev, x, y)


TINY = [1.0, 1.0]


class Tiny(MultinomialPLSA):
    """users and items as improbable as among very many of them"""

    def maximization_step(self, ev, sc, n_objects):
        super(Tiny, self).maximization_step(ev, sc, n_objects)
        TINY[0] = 1e-9
        TINY[1] = 1e-8
        self.pXgZ_ = self.pXgZ_ * 1e-9
        self.pYgZ_ = self.pYgZ_ * 1e-8


def fit_tiny(d, K, alpha, seed, maxiter, ix, ue):
    TINY[0] = TINY[1] = 1.0
    m = Tiny(k=K, alpha=alpha, random_state=seed, maxiter=maxiter, tol=-1.0,
             use_expectation=ue)
    m.fit(d, event_index=ix)
    return m


def scaled(pZ, pR, pX, pY):
    return pZ, pR, pX / TINY[0], pY / TINY[1]


def impl_tiny(d, event, lev, eo, ix, R, K, alpha, seed, t):
    (nx, x), (ny, y) = tables(event, eo, ix)
    m = fit_tiny(d, K, alpha, seed, t, ix, True)
    return scaled(*pars(m, nx, ny)), m.fit_results_['final_loss']


def spec_tiny(d, event, lev, eo, ix, R, K, alpha, seed, t):
    (nx, x), (ny, y) = tables(event, eo, ix)
    m = fit_tiny(d, K, alpha, seed, t - 1, ix, True)
    pZ, pR, pX, pY = scaled(*pars(m, nx, ny))
    q = estep(pZ, pR, pX, pY, lev, x, y)
    pZ, pR, pX, pY = mstep(q, lev, x, y, R, nx, ny, K, alpha)
    return (pZ, pR, pX, pY), nll(pZ, pR, pX * TINY[0], pY * TINY[1], lev,
                                 x, y)


def impl_ptiny(d, K, alpha, seed, ix, ue, V):
    return fit_tiny(d, K, alpha, seed, 1, ix, ue).raw_predict(V)


def spec_ptiny(d, K, alpha, seed, ix, ue, V, levels):
    return predicted(fit_tiny(d, K, alpha, seed, 1, ix, ue), ue, V, levels)


def impl_norm(d, event, lev, eo, ix, R, K, alpha, seed):
    (nx, x), (ny, y) = tables(event, eo, ix)
    m = fit(d, K, alpha, seed, 0, 0.0, ix, True)
    pZ, pR, pX, pY = pars(m, nx, ny)
    return (np.sum(pZ), np.sum(pR, axis=0), np.sum(pX, axis=0),
            np.sum(pY, axis=0), m.fit_results_['initial_loss'],
            m.fit_results_['final_loss'], pR.shape, pX.shape, pY.shape,
            np.min(pZ) > 0, np.min(pR) > 0, np.min(pX) > 0, np.min(pY) > 0)


def spec_norm(d, event, lev, eo, ix, R, K, alpha, seed):
    (nx, x), (ny, y) = tables(event, eo, ix)
    m = fit(d, K, alpha, seed, 0, 0.0, ix, True)
    pZ, pR, pX, pY = pars(m, nx, ny)
    f = nll(pZ, pR, pX, pY, lev, x, y)
    one = np.ones(K)
    return (1.0, one, one, one, f, f, (R, K), (nx, K), (ny, K), True, True,
            True, True)


def impl_pred(d, K, alpha, seed, ix, ue, V):
    return fit(d, K, alpha, seed, 1, 0.0, ix, ue).raw_predict(V)


def spec_pred(d, K, alpha, seed, ix, ue, V, levels):
    return predicted(fit(d, K, alpha, seed, 1, 0.0, ix, ue), ue, V, levels)


def predicted(m, ue, V, levels):
    n = V.shape[0]
    R = len(levels)
    P = np.zeros((n, R))
    for r in range(R):
        P[:, r] = np.sum(
            m.pZ_[np.newaxis, :] * m.pRgZ_[r, :][np.newaxis, :] *
            m.pXgZ_[V[:, 0], :] * m.pYgZ_[V[:, 1], :], axis=1)
    P = P / np.sum(P, axis=1)[:, np.newaxis]
    if ue:
        return np.sum(P * np.array(levels)[np.newaxis, :], axis=1)
    return np.array(levels)[np.argmax(P, axis=1)]
'''

DOMS = [([1.0, 5.0, 1.0], [1.0, 2.0, 3.0, 4.0, 5.0]),
        ([0.0, 1.0, 0.5], [0.0, 0.5, 1.0]),
        ([-2, 2, 2], [-2.0, 0.0, 2.0]), ([0, 1, 1], [0, 1])]


def check(R):
    R.rule('parameters after t+1 iterations are one exact EM step from those '
           'after t iterations; loss and predictions are those of the '
           'parameters')
    cls = 'kamrecsys/score_predictor/topic_model.py:MultinomialPLSA.'

    def job(dom, levels, no, eo, ix):
        S = Sess(SRC, config={'box': 100})
        I = Inp(S)
        n = I.int('n', 2, 5)
        K = I.int('K', 1, 3)
        E = I.arr('E', (n, len(eo)), 'i', ids_int)
        lev = I.arr('lev', (n,), 'i',
                    lambda r, v, x: r.randrange(len(levels)))
        al = I.real('alpha', 0.1, 2.0)
        seed = I.int('seed', 0, 99)
        m = I.int('m', 1, 3)
        sc = S.I.arr((n,), lambda i: X.elem(X.tab(levels), X.elem(
            lev_term(S, lev), i)), 'f')
        tag = '; domain %s, event_otypes=%s, event_index=%s' % (dom, eo, ix)

        def two(name, impl, spec, args, where):
            def go():
                a = S.run(impl, *args)
                b = S.run(spec, *args)
                R.decide(name + tag, S, a, S, b, I.gen, where)
            R.guard(name + tag, go)
        d = S.do('mk', E, sc, S.list(dom), no, S.list(eo))
        L = S.list
        for t in (1, 2, 3):
            two('EM step %d' % t, 'impl_em', 'spec_em',
                (d, E, lev, L(eo), L(ix), len(levels), K, al, seed, t, -1.0),
                cls + 'maximization_step')
        two('EM step with very small probabilities', 'impl_tiny',
            'spec_tiny',
            (d, E, lev, L(eo), L(ix), len(levels), K, al, seed, 2),
            cls + 'fit')
        two('normalisation and initial loss', 'impl_norm', 'spec_norm',
            (d, E, lev, L(eo), L(ix), len(levels), K, al, seed),
            cls + 'maximization_step')

        V = I.arr('V', (m, 2), 'i', lambda r, v, x: r.choice([-9, 0, 1, 2]))

        def fixv(r, v):
            # internal ids of known objects, or the one of unknown objects
            ev = v['E']
            out = []
            for i in range(v['m']):
                for j, e in enumerate(ix):
                    cols = [c for c in range(len(eo)) if eo[c] == eo[e]]
                    s = len(set(ev.get((a, c)) for a in range(v['n'])
                                for c in cols))
                    out.append(r.randint(0, s))
            v['V'] = Nd((v['m'], 2), out)
        I.post(fixv)
        for ue in (True, False):
            name = 'prediction by %s' % ('mean' if ue else 'mode')

            def go():
                a = S.run('impl_pred', d, K, al, seed, L(ix), ue, V)
                b = S.run('spec_pred', d, K, al, seed, L(ix), ue, V,
                          L(levels))
                R.decide(name + tag, S, a, S, b, I.gen,
                         cls + 'raw_predict')
                if not ue:
                    # comparisons of such numbers are those of ties here
                    return
                a = S.run('impl_ptiny', d, K, al, seed, L(ix), ue, V)
                b = S.run('spec_ptiny', d, K, al, seed, L(ix), ue, V,
                          L(levels))
                R.decide(name + ' with very small probabilities' + tag, S,
                         a, S, b, I.gen, cls + 'raw_predict')
            R.guard(name + tag, go)
    R.fan([lambda a=(d, l, no, eo, ix): job(*a)
           for d, l in DOMS for no, eo, ix in
           [(2, [0, 1], [0, 1]), (2, [0, 1], [1, 0]), (3, [2, 0, 1], [2, 1]),
            (2, [0, 1, 0], [2, 1])]])


def lev_term(S, arr):
    return S.I.read(arr).term()
