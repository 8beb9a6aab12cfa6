import os
from .mf import *
from ..rt import Ev, outcome, Cannot, EvalErr
from ..interp import SegCell, AV, Arr
from ..npmodel import mkav
from ..terms import iv, elem, add, mul, ZERO


def parts(I, x, grad, loss):
    """(name, derived gradient, derivative of the loss) per segment"""
    c = I.heap[x.cid]
    if not isinstance(grad, Arr):
        raise Cannot('no gradient')
    g = I.heap[grad.cid]
    out = []
    if isinstance(c, SegCell):
        off = ZERO
        same = isinstance(g, SegCell) and grad.whole() and \
            len(g.segs) == len(c.segs) and all(
                [d.id for d in a.dims] == [d.id for d in b.dims]
                for a, b in zip(g.segs, c.segs))
        full = None if same else I.read(grad)
        for j, s in enumerate(c.segs):
            A = X.asym('opt.x%d' % j, len(s.dims), 'f')
            if same:
                have = g.segs[j]
            else:
                def flat(*ix, **kw):
                    p = ZERO
                    for i, d in zip(ix, s.dims):
                        p = add(mul(p, d), i)
                    return full.at(add(off, p))
                have = mkav(s.dims, flat, 'f')
            need = mkav(s.dims, lambda *ix: X.diff(loss, A, ix), 'f')
            out.append((j, have, need, A))
            n = X.num(1)
            for d in s.dims:
                n = mul(n, d)
            off = add(off, n)
        return out
    A = X.asym('opt.x', 1, 'f')
    have = I.read(grad)
    need = mkav(have.dims, lambda i: X.diff(loss, A, (i,)), 'f')
    return [(0, have, need, A)]


def numeric(R, C, ps):
    """central differences of the loss graph at random interpretations"""
    S, I = C.S, C.S.I
    R.note(S, ps)
    name = 'gradient (differences); ' + C.tag
    used, why = 0, 'no model'

    def at(m, k):
        ev = Ev(m)
        out = []
        for p in ps:
            q = p
            if p.out[0] != 'raise':
                v = p.out[1][k]
                c = p.state[0][v.cid] if k == 1 else None
                if isinstance(c, SegCell):
                    v = tuple(c.segs)
                q = EPath(p.cond, ('ok', v), p.state, p.asserts, p.effects)
            out.append(q)
        o = outcome(I, out, ev)
        if o[0] == 'raise':
            raise Cannot('raises ' + str(o[1]))
        return o[1], ev

    def flat(v):
        if isinstance(v, Nd):
            return [float(x) for x in v.flat]
        if isinstance(v, (list, tuple)):
            return [y for x in v for y in flat(x)]
        return [float(v)]
    for m in R.models(C.I.gen, 3):
        try:
            x, ev = at(m, 1)
            blocks = list(x) if not isinstance(x, Nd) else [x]
            g, ev2 = at(m, 2)
            g = flat(g)
            if ev.opaque or ev2.opaque:
                raise Cannot('opaque')
            m.seed()
            names = ['opt.x%d' % j for j in range(len(blocks))] \
                if not isinstance(x, Nd) else ['opt.x']
            pos = 0
            for nm, b in zip(names, blocks):
                for e in range(len(b.flat)):
                    d = []
                    for h in (1e-5, -1e-5):
                        v = dict(m.values)
                        for n2, b2 in zip(names, blocks):
                            v[n2] = b2
                        fl = list(b.flat)
                        fl[e] += h
                        v[nm] = Nd(b.shape, fl)
                        m2 = Model(v, m.jitter)
                        m2._seed = m.seed()
                        d.append(at(m2, 3)[0])
                    need = (d[0] - d[1]) / 2e-5
                    if abs(need - g[pos]) > 1e-4 * (1 + abs(need)):
                        R.violation(
                            name, C.where + 'grad_loss',
                            'block %s entry %d: derived %r, required %r' % (
                                nm, e, g[pos], need), model=m.show())
                        return
                    pos += 1
            used += 1
        except (Cannot, EvalErr) as e:
            why = str(e)
    if used:
        R.add(name, 'agrees', 'equal in %d random models' % used)
    else:
        R.add(name, 'undecided', why)


def check(R):
    R.rule('symbolic differentiation: the gradient handed to the optimizer '
           'equals the derivative of the loss handed to it, element by '
           'element of each block of the parameter vector')

    def job(conf, opts=()):
        C = Case(conf, opts=opts)
        S, I = C.S, C.S.I

        def go():
            ps = S.run('problem', *C.args())
            try:
                if os.environ.get('VG_NUM'):
                    raise X.NotDifferentiable('test')
                symbolic(ps)
            except X.NotDifferentiable:
                numeric(R, C, ps)

        def symbolic(ps):
            a, b = [], []
            for p in ps:
                if p.out[0] == 'raise':
                    a.append(p)
                    b.append(p)
                    continue
                m, x, grad, loss = p.out[1]
                base = I.save()
                I.restore(p.state)
                try:
                    loss = tt(I.scalarize(loss))
                    pp = parts(I, x, grad, loss)
                finally:
                    I.restore(base)
                a.append((p, [q[1] for q in pp]))
                b.append((p, [q[2] for q in pp]))
            n = max([len(x[1]) for x in a if isinstance(x, tuple)] or [0])
            if n == 0:
                return R.decide('gradient; ' + C.tag, S, a, S, b, C.I.gen,
                                C.where + 'grad_loss')
            names = ['global bias', 'user biases', 'item biases',
                     'user factors', 'item factors']
            for j in range(n):
                def pick(l):
                    return [x if not isinstance(x, tuple) else EPath(
                        x[0].cond, ('ok', x[1][j] if j < len(x[1]) else
                                    None), x[0].state, x[0].asserts,
                        x[0].effects) for x in l]
                nm = names[j] if n == 5 else 'block %d' % j
                R.decide('gradient with respect to %s; %s' % (nm, C.tag), S,
                         pick(a), S, pick(b), C.I.gen,
                         C.where + 'grad_loss', tol=1e-6)
        R.guard('gradient; ' + C.tag, go)
    jobs = [lambda c=c: job(c) for c in CONF]
    jobs += [lambda k=k: job((k, 2, [0, 1], [1, 0], 3)) for k in WHERE]
    R.fan(jobs)
