from .mf import *
from . import p12
from ..values import *   # noqa

EXTRA = '''
from kamrecsys.score_predictor import MultinomialPLSA


def build(kind, C, k, seed, kw):
    if kind == 'MultinomialPLSA':
        return MultinomialPLSA(k=k, alpha=C, random_state=seed, maxiter=1,
                               tol=0.5)
    return MODELS[kind](C=C, k=k, random_state=seed, **kw)


def one(kind, d, ix, C, k, seed, kw):
    m = build(kind, C, k, seed, kw)
    m.fit(d, event_index=ix)
    return m


def tabs(m):
    o = [m.n_otypes, m.s_event, m.n_events]
    o += [x for x in m.n_objects]
    o += [m.eid[i] for i in range(m.n_otypes)]
    o += [m.event_index, m.event_otypes]
    return o


def pars(m, kind):
    if kind == 'MultinomialPLSA':
        return [m.pZ_, m.pXgZ_, m.pYgZ_, m.pRgZ_]
    return [m.mu_, m.bu_, m.bi_, m.p_, m.q_]


def scoring(m, kind):
    if kind == 'ImplicitLogisticPMF':
        return []
    return [m.n_score_levels, m.score_domain[0], m.score_domain[1],
            m.score_domain[2]]


def seen(m, kind, V):
    r = m.fit_results_
    out = {}
    for x in r:
        if x != 'optimizer_kwargs':
            out[x] = r[x]
    o = r['optimizer_kwargs']
    opts = {}
    if kind != 'MultinomialPLSA':
        for x in o['options']:
            opts[x] = o['options'][x]
        start = (REC['x0'], REC['method'], REC['options'], REC['tol'])
    else:
        start = (o['maxiter'], o['tol'])
    return (pars(m, kind), tabs(m), scoring(m, kind), out, opts, start,
            m.predict(V))


def refit(kind, d0, ix0, d, ix, C, k, seed, kw, V):
    m = build(kind, C, k, seed, kw)
    OPT_NAME[0] = 'optA'
    m.fit(d0, event_index=ix0)
    OPT_NAME[0] = 'optB'
    REC.clear()
    m.fit(d, event_index=ix)
    return seen(m, kind, V)


def thrice(kind, d0, ix0, d, ix, C, k, seed, kw, V):
    """with a prediction and a fit of another model in between"""
    m = build(kind, C, k, seed, kw)
    OPT_NAME[0] = 'optA'
    m.fit(d, event_index=ix)
    m.predict(V)
    OPT_NAME[0] = 'optC'
    one(kind, d0, ix0, C, k, seed, kw)
    OPT_NAME[0] = 'optD'
    m.fit(d0, event_index=ix0)
    OPT_NAME[0] = 'optB'
    REC.clear()
    m.fit(d, event_index=ix)
    return seen(m, kind, V)


def after_error(kind, bad, ix0, d, ix, C, k, seed, kw, V):
    m = build(kind, C, k, seed, kw)
    OPT_NAME[0] = 'optA'
    try:
        m.fit(bad, event_index=ix0)
    except (ValueError, TypeError):
        pass
    OPT_NAME[0] = 'optB'
    REC.clear()
    m.fit(d, event_index=ix)
    return seen(m, kind, V)


def fresh(kind, d0, ix0, d, ix, C, k, seed, kw, V):
    OPT_NAME[0] = 'optB'
    REC.clear()
    return seen(one(kind, d, ix, C, k, seed, kw), kind, V)


def beside(kind, kind2, d0, ix0, d, ix, C, C2, k, seed, seed2, kw, V):
    """fitting another model leaves this one as it was"""
    OPT_NAME[0] = 'optB'
    m = one(kind, d, ix, C, k, seed, kw)
    a = build(kind2, C2, k, seed2, kw)
    OPT_NAME[0] = 'optA'
    a.fit(d0, event_index=ix0)
    return (pars(m, kind), tabs(m), scoring(m, kind), m.predict(V),
            m.fit_results_['n_parameters'], m.k, m.random_state)


def alone(kind, kind2, d0, ix0, d, ix, C, C2, k, seed, seed2, kw, V):
    OPT_NAME[0] = 'optB'
    m = one(kind, d, ix, C, k, seed, kw)
    return (pars(m, kind), tabs(m), scoring(m, kind), m.predict(V),
            m.fit_results_['n_parameters'], m.k, m.random_state)


def forgotten(kind, d0, ix0, d, ix, C, k, seed, kw):
    m = build(kind, C, k, seed, kw)
    m.fit(d0, event_index=ix0)
    m.fit(d, event_index=ix)
    return m


def held(m, kind):
    """public access to the training data after fitting"""
    out = [m.event is None, m.event_feature is None]
    if kind != 'ImplicitLogisticPMF':
        out.append(m.score is None)
        out.append(m.get_score() is None)
    return out, [True] * len(out)


def held_fit(kind, d, ix, C, k, seed, kw):
    return held(one(kind, d, ix, C, k, seed, kw), kind)


def data_ef(kind, event, n_otypes, eo, score, dom, ef):
    if kind == 'plain':
        d = EventData(n_otypes=n_otypes, event_otypes=eo)
        d.set_event(event, ef)
    else:
        d = EventWithScoreData(n_otypes=n_otypes, event_otypes=eo)
        d.set_event(event, score, dom, ef)
    return d
'''

FITS = {'PMF': 'kamrecsys/score_predictor/matrix_factorization.py:PMF.fit',
        'LogisticPMF':
        'kamrecsys/item_finder/matrix_factorization.py:LogisticPMF.fit',
        'ImplicitLogisticPMF': 'kamrecsys/item_finder/'
        'matrix_factorization.py:ImplicitLogisticPMF.fit',
        'MultinomialPLSA':
        'kamrecsys/score_predictor/topic_model.py:MultinomialPLSA.fit'}


def dim_atoms(d):
    """symbols a dimension is made of by arithmetic"""
    out = []
    st = [tt(d)]
    while st:
        t = st.pop()
        if t.op == 'sym':
            out.append(t)
        elif t.op in ('poly', 'add', 'mul', 'app', 'ite'):
            for a in t.args:
                for b in (a if isinstance(a, (tuple, list)) else [a]):
                    if isinstance(b, X.T):
                        st.append(b)
                    elif isinstance(b, (tuple, list)):
                        st.extend(q for q in b if isinstance(q, X.T))
    return out


def events_sized(d, syms):
    """is the dimension a number of events, or the length of a selection of
    event rows?"""
    d = tt(d)
    for s in syms:
        if s in dim_atoms(d):
            return True
    return False


class Walk(object):
    """arrays and sequences reachable from a value"""

    def __init__(self, I, syms):
        self.I = I
        self.syms = syms
        self.seen = set()
        self.hits = []
        self.cells = 0

    def dims(self, dims, path):
        for d in dims:
            if events_sized(d, self.syms):
                self.hits.append((path, [X.show(tt(q)) for q in dims]))
                return

    def go(self, v, path):
        I = self.I
        if isinstance(v, (tuple, list)):
            for i, x in enumerate(v):
                self.go(x, '%s[%d]' % (path, i))
        elif isinstance(v, Arr):
            if v.cid in self.seen:
                return
            self.seen.add(v.cid)
            self.cells += 1
            c = I.heap[v.cid]
            if isinstance(c, CArrCell):
                for i, x in enumerate(c.vals):
                    self.go(x, '%s[%d]' % (path, i))
            elif isinstance(c, SegCell):
                for a in c.segs:
                    self.dims(a.dims, path)
            else:
                self.dims(c.av.dims, path)
        elif isinstance(v, AV):
            self.dims(v.dims, path)
        elif isinstance(v, Bound):
            self.go(v.self, path + '.__self__')
        elif isinstance(v, Partial):
            self.go(list(v.args), path + '.args')
        elif isinstance(v, Ref):
            if v.id in self.seen:
                return
            self.seen.add(v.id)
            self.cells += 1
            c = I.cell(v)
            if isinstance(c, (ListC, SetC)):
                for i, x in enumerate(c.items):
                    self.go(x, '%s[%d]' % (path, i))
            elif isinstance(c, DictC):
                for k, x in c.items:
                    self.go(x, '%s[%r]' % (path, k))
            elif isinstance(c, Inst):
                for k, x in sorted(c.attrs.items()):
                    self.go(x, '%s.%s' % (path, k))
            elif isinstance(c, SeqC):
                self.dims([c.n], path)
                self.go(c.item, path + '[*]')
            elif isinstance(c, SpCell):
                self.dims(c.av.dims, path)


class Pair(Case):
    """two data sets for one model"""

    def __init__(self, conf, conf0, plain=False, opts=(), sort='i',
                 feature=False):
        kind = conf[0]
        base = conf if kind != 'MultinomialPLSA' else ('PMF',) + conf[1:]
        Case.__init__(self, base, EXTRA, sort=sort, opts=opts, small=True,
                      config={'box': 100} if kind == 'MultinomialPLSA'
                      else None)
        self.kind = kind
        self.where = FITS[kind][:-3]
        self.tag = self.tag.replace('PMF', kind, 1) if \
            kind == 'MultinomialPLSA' else self.tag
        S, I = self.S, self.I
        _, no, eo, ix, k = conf0
        self.tag += '; before: n_otypes=%d, event_otypes=%s, ' \
            'event_index=%s' % (no, eo, ix)
        n0 = I.int('n0', 2, 4)
        if kind == 'MultinomialPLSA':
            I.int('n', 2, 4)
            lv = I.arr('SC', (self.n,), 'i', lambda r, v, x: r.randrange(3))
            lt = p12.lev_term(S, lv)
            self.dom = (1, 3, 1)
            self.SC = S.I.arr((self.n,), lambda i: X.elem(
                X.tab([1.0, 2.0, 3.0]), X.elem(lt, i)), 'f')
            I.arr('E', (self.n, len(self.eo)), sort, IDS[sort])
            self.d = S.do('data', 'score', self.E, self.no, S.list(self.eo),
                          self.SC, S.list(list(self.dom)))
        E0 = I.arr('E0', (n0, len(eo)), sort, IDS[sort])
        if kind in ('PMF', 'MultinomialPLSA'):
            SC0 = I.arr('SC0', (n0,), 'f', lambda r, v, x:
                        r.randint(0, 2) / 2.0)
            dom0 = (0.0, 1.0, 0.5)
            if kind == 'MultinomialPLSA':
                lv0 = I.arr('SC0', (n0,), 'i',
                            lambda r, v, x: r.randrange(2))
                lt0 = p12.lev_term(S, lv0)
                SC0 = S.I.arr((n0,), lambda i: X.elem(
                    X.tab([0.0, 1.0]), X.elem(lt0, i)), 'f')
                dom0 = (0.0, 1.0, 1.0)
        else:
            SC0 = I.arr('SC0', (n0,), 'i', lambda r, v, x:
                        x[0] if x[0] < 2 else r.randint(0, 1))
            dom0 = self.dom
        self.ix0 = ix
        self.ef = None
        if feature:
            EF = I.arr('EF', (self.n, 2), 'f')
            self.d = S.do('data_ef', 'plain' if plain else 'score', self.E,
                          self.no, S.list(self.eo), self.SC,
                          S.list(list(self.dom)), EF)
        self.d0 = S.do('data', 'plain' if plain else 'score', E0, no,
                       S.list(eo), SC0, S.list(list(dom0)))
        self.V = I.arr('V', (I.int('m', 1, 3), len(self.eo)), sort,
                       IDS[sort])

    def all(self):
        S = self.S
        return (self.kind, self.d0, S.list(self.ix0), self.d,
                S.list(self.ix), self.C, self.k, self.seed, self.kw, self.V)

    def two(self, R, name, impl, args=None):
        nm = name + '; ' + self.tag
        S = self.S
        args = args or self.all()

        def go():
            a = S.run(impl, *args)
            b = S.run('fresh', *args)
            R.decide(nm, S, a, S, b, self.I.gen, self.where + 'fit',
                     tol=1e-6)
        R.guard(nm, go)


def check(R):
    R.rule('no array or sequence reachable from a fitted model has the '
           'number of training events as a dimension (the heap of the '
           'analysis is walked from the model); parameters, tables, '
           'settings handed to the optimizer, results and predictions '
           'after a second fit equal those of a fresh model')

    def keeps(conf, conf0, plain, opts, feature):
        def go():
            P = Pair(conf, conf0, plain, opts, feature=feature)
            S = P.S
            tag = '; ' + P.tag + (', event features' if feature else '') + \
                (', data without scores' if plain else '')
            L = S.list
            for fn, args, syms, what in (
                    ('one', (P.kind, P.d, L(P.ix), P.C, P.k, P.seed, P.kw),
                     ['n'], 'after fit'),
                    ('forgotten', P.all()[:-1], ['n', 'n0'],
                     'after a second fit')):
                name = 'holds no training data ' + what + tag
                ps = S.run(fn, *args)
                R.note(S, ps)
                ok = True
                n = 0
                for p in ps:
                    if p.out[0] == 'raise':
                        continue
                    n += 1
                    old = S.I.heap
                    S.I.heap = p.state[0]
                    try:
                        W = Walk(S.I, [X.sym(q, 'i') for q in syms])
                        W.go(p.out[1], 'model')
                    finally:
                        S.I.heap = old
                    if W.hits and ok:
                        ok = False
                        R.violation(name, P.where + 'fit',
                                    '%s holds an array of shape %s' %
                                    W.hits[0])
                if not n:
                    raise Unsupported('fit raises')
                if ok:
                    R.add(name, 'proved', '%d cells reached' % W.cells)
            P.pair(R, 'training data is None' + (
                ', event features' if feature else ''), 'held_fit',
                P.kind, P.d, L(P.ix), P.C, P.k, P.seed, P.kw)
        R.guard('%s %s' % (conf, feature), go)

    def again(conf, conf0, opts=(), sort='i', plain=False):
        def go():
            P = Pair(conf, conf0, plain, opts, sort)
            P.tag += ', %s ids' % sort
            P.two(R, 'second fit equals a fresh one', 'refit')
            if sort == 'i' and not opts:
                P.two(R, 'third fit equals a fresh one', 'thrice')
            if P.kind == 'LogisticPMF' and sort == 'i':
                # binary check fails
                S = P.S
                n1 = P.I.int('n1', 2, 3)
                E1 = P.I.arr('E1', (n1, len(P.eo)), 'i', ids_int)
                S1 = P.I.arr('S1', (n1,), 'i', lambda r, v, x: r.randint(
                    1, 5))
                bad = S.do('data', 'score', E1, P.no, S.list(P.eo), S1,
                           S.list([1, 5, 1]))
                a = list(P.all())
                a[1], a[2] = bad, S.list(P.ix)
                P.two(R, 'fit after a rejected fit equals a fresh one',
                      'after_error', tuple(a))
        R.guard('%s' % (conf,), go)
    def apart(conf, conf0):
        def go():
            P = Pair(conf, conf0)
            S = P.S
            C2 = 0.25
            nm = 'a model is untouched by fitting another %s; %s' % (
                conf0[0], P.tag)
            a = (P.kind, conf0[0], P.d0, S.list(P.ix0), P.d, S.list(P.ix),
                 P.C, C2, P.k, P.seed, 17, P.kw, P.V)
            x = S.run('beside', *a)
            y = S.run('alone', *a)
            R.decide(nm, S, x, S, y, P.I.gen, P.where + 'fit', tol=1e-6)
        R.guard('apart %s %s' % (conf, conf0), go)
    jobs = []
    for kind, other in (('PMF', 'PMF'), ('LogisticPMF', 'LogisticPMF'),
                        ('ImplicitLogisticPMF', 'ImplicitLogisticPMF'),
                        ('MultinomialPLSA', 'MultinomialPLSA'),
                        ('ImplicitLogisticPMF', 'LogisticPMF'),
                        ('LogisticPMF', 'ImplicitLogisticPMF')):
        jobs.append(lambda kind=kind, other=other: apart(
            (kind, 2, [0, 1], [0, 1], 2), (other, 3, [2, 0, 1], [2, 0], 2)))
    for kind in ('PMF', 'LogisticPMF', 'ImplicitLogisticPMF',
                 'MultinomialPLSA'):
        A = (kind, 2, [0, 1], [0, 1], 2)
        B = (kind, 3, [2, 0, 1], [2, 0], 2)
        D = (kind, 2, [0, 1, 0], [2, 1], 'k')
        for c, c0 in ((A, A), (A, B), (B, A), (D, B)):
            jobs.append(lambda c=c, c0=c0: again(c, c0))
            for f in (False, True):
                jobs.append(lambda c=c, c0=c0, f=f: keeps(
                    c, c0, False, (), f))
        jobs.append(lambda c=A: again(c, c, sort='s'))
        if kind != 'MultinomialPLSA':
            jobs.append(lambda c=A, c0=B: again(c, c0, opts=[
                ('method', 'BFGS'), ('maxiter', 7), ('tol', 1e-5)]))
        if kind == 'ImplicitLogisticPMF':
            jobs.append(lambda c=A, c0=B: again(c, c0, plain=True))
            for f in (False, True):
                jobs.append(lambda c=A, c0=B, f=f: keeps(
                    c, c0, True, (), f))
    R.fan(jobs)
