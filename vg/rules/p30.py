from .common import *

SRC = '''
import numpy as np
from kamrecsys.metrics import variance_with_gamma_prior


def impl(x, a, b, force):
    return variance_with_gamma_prior(
        x, a=a, b=b, full_output=True, force_all_finite=force)


def impl_value(x, a, b, force):
    return variance_with_gamma_prior(x, a=a, b=b, force_all_finite=force)


def impl_positional(x, a, b, force):
    return variance_with_gamma_prior(x, a, b, True, force)


def impl_defaults(x):
    return variance_with_gamma_prior(x, full_output=True)


def spec_defaults(x):
    return spec(x, 1e-8, 1e-8, False)


def spec(x, a, b, force):
    n = 0
    s = 0.0
    q = 0.0
    for v in np.ravel(x):
        if np.isfinite(v):
            n += 1
            s += v
            q += v * v
    if n == 0:
        raise ValueError('empty')
    if force and n < np.size(x):
        raise ValueError('not finite')
    r = (2 * b + q - s * s / n) / (2 * a + n)
    if r <= 0:
        r = b / a
    return r, n


def spec_value(x, a, b, force):
    return spec(x, a, b, force)[0]


def none_left(x, force):
    try:
        variance_with_gamma_prior(x, force_all_finite=force)
    except ValueError:
        return 'rejected', 'rejected'
    return 'accepted', 'rejected'


def empty(force):
    return none_left(np.zeros(0), force)


def lists(u, v, w, a, b):
    return (variance_with_gamma_prior([u, v, w], a, b, True),
            spec(np.array([u, v, w]), a, b, False))
'''
ANCHOR = 'kamrecsys/metrics/real.py:variance_with_gamma_prior'


def check(R):
    R.rule('estimate equals the documented formula over the finite values, '
           'for symbolic arrays and prior parameters')
    inf = float('inf')

    def job(nd, sort, force, spoil, which):
        S = Sess(SRC)
        I = Inp(S)
        n = I.intf('n', pow2)
        dims = (n,)
        if nd == 2:
            m = I.intf('m', lambda r, v: r.choice((1, 2)))
            dims = (n, m)
        tiny = lambda r, v: v.setdefault('$tiny', r.random() < .25)
        a = I.realf('a', lambda r, v: 1e-8 if tiny(r, v) else r.choice(
            (0.0, 0.5, 1.0, 2.5, 0.125)) or 1e-8)
        b = I.realf('b', lambda r, v: r.choice(
            (2.0 ** -36, 2.0 ** -32, 2.0 ** -20)) if tiny(r, v) else r.choice(
                (0.5, 1.0, 2.5, 0.0)))

        def el(r, v, ix):
            if tiny(r, v):
                v['$const'] = False
            if sort == 'i':
                return r.randint(-3, 5) if v.setdefault(
                    '$const', r.random() < .7) else 2
            if not v.setdefault('$const', r.random() < .7):
                return 1.5
            return r.randint(-16, 24) / 8.0
        x = I.arr('x', dims, sort, el)

        def sp(r, v):
            if not spoil:
                return
            f = list(v['x'].flat)
            if len(f) < 2 and spoil == 'some':
                return False
            k = len(f) if spoil == 'all' else r.randint(1, len(f) - 1)
            for j in r.sample(range(len(f)), k):
                f[j] = r.choice([inf, -inf, float('nan')])
            v['x'] = Nd(v['x'].shape, f)
        I.post(sp)
        tag = '; %d-d %s values%s, force_all_finite=%s' % (
            nd, sort, ' some not finite' if spoil == 'some' else
            ' none finite' if spoil else '', force)
        if spoil == 'all':
            R.decide_pair('no value left is rejected' + tag, S, S.run(
                'none_left', x, force), I.gen, ANCHOR)
            return
        impl, spec = {
            'full': ('impl', 'spec'), 'value': ('impl_value', 'spec_value'),
            'positional': ('impl_positional', 'spec')}[which]
        R.decide('%s output' % which + tag, S, S.run(impl, x, a, b, force),
                 S, S.run(spec, x, a, b, force), I.gen, ANCHOR, n=32)
        if which == 'full' and not force:
            R.decide('default prior' + tag, S, S.run('impl_defaults', x), S,
                     S.run('spec_defaults', x), I.gen, ANCHOR, tol=1e-6)

    def rest():
        S = Sess(SRC)
        I = Inp(S)
        for force in (False, True):
            R.decide_pair('empty array rejected, force_all_finite=%s' %
                          force, S, S.run('empty', force), I.gen, ANCHOR)
        u, v, w = [I.realf(k, lambda r, v: r.randint(-24, 24) / 8.0)
                   for k in 'uvw']
        a, b = I.real('a', 0.1, 2), I.real('b', 0.1, 2)
        R.decide_pair('list', S, S.run('lists', u, v, w, a, b), I.gen,
                      ANCHOR)
    jobs = [lambda: R.guard('rest', rest)]
    for nd in (1, 2):
        for sort in 'fi':
            for force in (False, True):
                for spoil in ('', 'some', 'all'):
                    if spoil and sort == 'i':
                        continue
                    for which in ('full', 'value', 'positional'):
                        jobs.append(
                            lambda a=(nd, sort, force, spoil, which):
                            R.guard(str(a), lambda: job(*a)))
    R.fan(jobs)
