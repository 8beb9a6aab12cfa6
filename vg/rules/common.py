"""Inputs of the analysed entries and reference snippets shared by rules."""
import random

from .. import terms as X
from ..rt import *      # noqa
from ..rt import Sess, Report, AnchorGone, EPath, Nd, Model
from ..terms import tt

HEAD = '''
import numpy as np
'''


class Inp(object):
    """symbolic inputs of a session with their value generators"""

    def __init__(self, S):
        self.S = S
        self.items = []

    def _add(self, name, f):
        self.items = [x for x in self.items if x[0] != name]
        self.items.append((name, f))

    def int(self, name, lo, hi, pos=True):
        # every seventh model has its sizes at the lower end
        self._add(name, lambda r, v: lo if v.get('$k', 0) % 7 == 3 and
                  r.random() < .6 else r.randint(lo, hi))
        return self.S.int(name, pos and lo >= 0)

    def intf(self, name, f, pos=True):
        self._add(name, f)
        return self.S.int(name, pos)

    def real(self, name, lo=-2.0, hi=2.0):
        self._add(name, lambda r, v: round(r.uniform(lo, hi), 6))
        return self.S.real(name)

    def realf(self, name, f):
        self._add(name, f)
        return self.S.real(name)

    def str(self, name, f):
        self._add(name, f)
        return self.S.str(name)

    def bool(self, name):
        self._add(name, lambda r, v: r.random() < 0.5)
        return self.S.bool(name)

    def arr(self, name, dims, sort='f', f=None, dt=None):
        """f(rng, values, index) gives one element"""
        if f is None:
            f = {'f': lambda r, v, ix: round(r.uniform(-3, 3), 6),
                 'i': lambda r, v, ix: r.randint(0, 4),
                 'b': lambda r, v, ix: r.random() < 0.5,
                 's': lambda r, v, ix: r.choice('abcdxyz') +
                 str(r.randint(0, 3))}[sort]

        def mk(r, v):
            ns = []
            for d in dims:
                d = tt(d)
                if d.op == 'num':
                    ns.append(int(d.args[0]))
                else:
                    ns.append(v[d.args[0]])
            import itertools
            return Nd(ns, [f(r, v, ix) for ix in
                           itertools.product(*[range(n) for n in ns])])
        self._add(name, mk)
        return self.S.arr(name, dims, sort, dt)

    def post(self, f):
        """adjust generated values: f(rng, values)"""
        self.items.append((None, f))

    def gen(self, rng, k):
        v = {'$k': k}
        for name, f in self.items:
            if name is None:
                if f(rng, v) is False:
                    return None
            else:
                v[name] = f(rng, v)
        return Model({a: b for a, b in v.items() if not a.startswith('$')})

    def jgen(self, *jit):
        """models with a relative error of quotients, as in floating point"""
        js = jit or (0.0, 3e-16, -3e-16)

        def g(rng, k):
            m = self.gen(rng, k)
            if m is not None:
                m.jitter = js[k % len(js)]
            return m
        return g


def ids_int(r, v, ix):
    """external ids: few distinct values, not dense, may be negative"""
    p = v.get('$pool')
    if p is None:
        p = v['$pool'] = r.sample(range(-9, 40), 6)
    return r.choice(p)


def ids_str(r, v, ix):
    p = v.get('$spool')
    if p is None:
        p = v['$spool'] = r.sample(
            [a + b for a in 'aZbk' for b in ('', '1', '10', '2', 'x')], 6)
    return r.choice(p)


def wider(r, v, ix):
    """ids of ids_str and longer ones that begin with them"""
    q = ids_str(r, v, ix)
    return q if r.random() < 0.7 else (q + '123456')[:r.choice((3, 4, 6))]


def ids_float(r, v, ix):
    p = v.get('$fpool')
    if p is None:
        p = v['$fpool'] = r.sample([a / 4.0 for a in range(-6, 13)], 6)
    return r.choice(p)


IDS = {'i': ids_int, 's': ids_str, 'f': ids_float}
IDNAME = {'i': 'integer', 's': 'string', 'f': 'real'}


def dyadic(lo, hi):
    """values whose sums and squares are exact in floating point"""
    return lambda r, v, ix: r.randint(lo * 8, hi * 8) / 8.0


def pow2(r, v):
    return r.choice((1, 2, 4, 4, 8))


def dims(*ds):
    return tuple(tt(d) for d in ds)
