from .common import *

SRC = '''
import numpy as np
from kamrecsys.utils import get_fit_status_message


def impl(status):
    return get_fit_status_message(status)


def same(a, b):
    return get_fit_status_message(a), get_fit_status_message(b)


def twice(a):
    x = get_fit_status_message(a)
    for k in (0, 1, 2, 3, 9, -1):
        get_fit_status_message(k)
    return x, get_fit_status_message(a)
'''
ANCHOR = 'kamrecsys/utils/base.py:get_fit_status_message'
# what each message has to say, and what it must not say
SAYS = {0: (('success',), ('exceed', 'loss', 'unknown')),
        1: (('function', 'evaluation', 'exceed'), ('iteration', 'success')),
        2: (('iteration', 'exceed'), ('function', 'evaluation', 'success')),
        3: (('precision', 'loss'), ('exceed', 'success'))}


def check(R):
    R.rule('the message of every status code is that of its condition '
           '(key words), any other value gives one fixed message on every '
           'path')
    S = Sess(SRC)
    I = Inp(S)

    def text(v, name):
        ps = S.run('impl', v)
        R.note(S, ps)
        if len(ps) != 1 and not isinstance(v, X.T):
            raise Unsupported('status %r: %d paths' % (v, len(ps)))
        p = ps[0]
        if p.out[0] == 'raise':
            R.violation(name, p.out[1].loc or ANCHOR, 'raises %s' %
                        p.out[1].name())
            return None
        x = p.out[1]
        if isinstance(x, X.T):
            x = X.const_of(x) if hasattr(X, 'const_of') else x
        if not isinstance(x, str):
            if x is None or isinstance(x, (int, float, tuple)):
                R.violation(name, ANCHOR, 'message is %r' % (x,))
                return None
            raise Unsupported('message %r' % (x,))
        return x

    def codes():
        seen = {}
        for k, (must, no) in sorted(SAYS.items()):
            name = 'message of status %d' % k
            x = text(k, name)
            if x is None:
                continue
            low = x.lower()
            miss = [w for w in must if w not in low]
            extra = [w for w in no if w in low]
            if miss or extra:
                R.violation(name, ANCHOR, '%r lacks %s, has %s' % (
                    x, miss, extra))
            else:
                R.add(name, 'proved')
            if x in seen:
                R.violation('messages differ', ANCHOR, 'status %d and %d: %r'
                            % (seen[x], k, x))
            seen[x] = k
        ref = text(-1, 'message of an unknown status')
        if ref is not None and ref in seen:
            R.violation('unknown status has its own message', ANCHOR, ref)
    R.guard('codes', codes)

    s = I.intf('s', lambda r, v: r.choice([-7, -1, 4, 5, 6, 99, 12345]),
               False)
    f = I.realf('f', lambda r, v: r.choice([-0.5, 0.5, 1.5, 2.25, 7.0]))
    w = I.str('w', lambda r, v: r.choice(['', '0', '1', 'x', 'success',
                                          'maxiter', 'maxfev', 'pr_loss']))
    for nm, v in (('any other integer', s), ('any other number', f),
                  ('a string', w), ('None', None)):
        R.guard(nm, lambda nm=nm, v=v: R.decide_pair(
            'fixed message for %s' % nm, S, S.run('same', v, -1), I.gen,
            ANCHOR, n=40))
    t = I.intf('t', lambda r, v: r.randint(-1, 4), False)
    R.guard('stable', lambda: R.decide_pair(
        'message does not depend on earlier calls', S, S.run('twice', t),
        I.gen, ANCHOR, n=30))
    u = I.realf('u', lambda r, v: float(v['t']))
    R.guard('float codes', lambda: R.decide_pair(
        'equal codes have equal messages', S, S.run('same', u, t), I.gen,
        ANCHOR, n=30))
    for k in (0, 1, 2, 3):
        c = X.sym('c%d' % k, 'i')
        I.intf('c%d' % k, lambda r, v, k=k: k, False)
        R.guard('numpy codes', lambda k=k, c=c: R.decide_pair(
            'symbolic code %d' % k, S, S.run('same', c, k), I.gen, ANCHOR,
            n=3))
