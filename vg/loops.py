"""Loops of unknown length.

The body is interpreted once for a symbolic iteration v.  Every location it
may change gets a placeholder (phi); the state after the body gives a system of
recurrences, which is solved location by location into the value at the start
of iteration v (closed form), or kept as a recurrence term.
"""
from . import terms as X
from .terms import (T, tt, num, iv, subst, numval, elem, ite, and_, or_, not_,
                    eq, lt, le, add, sub, mul, app, ZERO, ONE, TRUE, FALSE,
                    mk, ops_in, replace)
from .values import *  # noqa
from .interp import (Break_, Return_, PyRaise, NoMerge, Poison, is_num,
                     is_scalar, fix, Effect, Path)

HEAVY = 150
ROUNDS = 8


class PoisonCell(object):
    def __init__(self, why):
        self.why = why


class Comp(object):
    """one loop-carried quantity"""
    def __init__(self, loc, ph, dims, ivs, init):
        self.loc = loc
        self.ph = ph
        self.dims = dims        # None: scalar
        self.ivs = ivs
        self.init = init        # body in ivs
        self.next = None
        self.start = None       # body in ivs and v

    def initterm(self):
        return self.init if self.dims is None else \
            X.lam(self.ivs, self.dims, self.init)

    def nextterm(self):
        return self.next if self.dims is None else \
            X.lam(self.ivs, self.dims, self.next)

    def startterm(self):
        return self.start if self.dims is None else \
            X.lam(self.ivs, self.dims, self.start)


class LoopCtx(object):
    def __init__(self, v):
        self.v = v
        self.locs = {}        # location -> mode
        self.sorts = {}       # location -> widened sort
        self.comps = []
        self.bases = {}       # id -> marker


class LoopMixin(object):

    def symloop(self, n, body, orelse, loc):
        n = tt(n)
        v = iv(n)
        self.run_loop(v, n, lambda: body(v), orelse, loc)

    def symwhile(self, s):
        v = iv(None)

        def fn():
            c = self.truth(self.ev(s.test))
            if not self.decide(c):
                self.frames[-1].env['$exit'] = True
                raise Break_()
            self.block(s.body)
        self.run_loop(v, None, fn, s.orelse, self.loc)

    # ------------------------------------------------------------------
    def run_loop(self, v, n, fn, orelse, loc):
        self.nloop += 1
        S0 = self.save()
        h0 = list(self.handlers)
        ctx = LoopCtx(v)
        fr = self.frames[-1]
        ld = getattr(fr, 'loopdepth', 0)
        act = dict(self.active)
        try:
            for rnd in range(ROUNDS):
                self.restore(S0)
                self.handlers = list(h0)
                self.active = dict(act)
                self.active[v.id] = v
                fr.loopdepth = ld + 1
                fr.env.pop('$exit', None)
                self.install(ctx, S0)
                light = rnd == 0 and self.lighten()
                if n is not None:
                    self.pc.append(lt(ZERO, n))
                if rnd == 0:
                    env = fr.env
                    names = self.loop_names(fr)
                    for x in names:
                        if env.get(x, UNDEF) is UNDEF:
                            env[x] = Poison('may be unbound')
                else:
                    for x in self.loop_names(fr):
                        if fr.env.get(x, UNDEF) is UNDEF:
                            fr.env[x] = Poison('may be unbound')
                snap, paths = self.explore(fn)
                for p in paths:
                    if p.state is None:
                        p.state = self.save()
                if not self.grow(ctx, snap, paths) and not light:
                    break
            else:
                self.unsup('loop does not stabilise')
        finally:
            fr.loopdepth = ld
            self.active = act
        self.loc = loc
        self.summarise(ctx, S0, snap, paths, n, orelse)

    def lighten(self):
        """large array terms replaced by names, for the round that only
        finds out what the body changes"""
        any_ = False
        for i, c in list(self.heap.items()):
            if isinstance(c, ArrCell) and c.av.dims and \
                    isinstance(c.av.dt, str) and X.heavy(c.av.body, HEAVY):
                self.nlight = getattr(self, 'nlight', 0) + 1
                A = X.asym('light%d' % self.nlight, len(c.av.dims), c.av.dt)
                X.DIMS[A.id] = tuple(c.av.dims)
                vs = [iv(d) for d in c.av.dims]
                self.heap[i] = ArrCell(AV(c.av.dims, vs, elem(A, *vs),
                                          c.av.dt, c.av.mat))
                any_ = True
        return any_

    def loop_names(self, fr):
        if fr.func is None:
            return ()
        loc = getattr(fr.func, 'locals', None)
        if loc is None:
            from .run import local_names
            loc = fr.func.locals = local_names(fr.func.node)
        return loc

    # ------------------------------------------------------------------
    def phi_value(self, ctx, loc, val, heap):
        """placeholder for a value"""
        if isinstance(val, T) or isinstance(val, (int, float, bool, str)):
            t = tt(val)
            s = ctx.sorts.get(loc, 'f' if isinstance(val, float) else t.sort)
            if t.sort not in 'ifbs' and s not in 'ifbs':
                return Poison('object changed in a loop')
            p = X.phi(s)
            ctx.comps.append(Comp(loc, p, None, (), t))
            return p
        if isinstance(val, tuple):
            return tuple(self.phi_value(ctx, loc + (i,), x, heap)
                         for i, x in enumerate(val))
        if isinstance(val, Arr):
            c = heap[val.cid]
            if isinstance(c, CArrCell):
                return Poison('object array changed in a loop')
            if isinstance(c, SegCell) and val.whole():
                segs = [self.phi_av(ctx, loc + (k,), s)
                        for k, s in enumerate(c.segs)]
                return Arr(self.alloc(SegCell(segs)))
            if not isinstance(c, (ArrCell, SegCell)):
                return Poison('array changed in a loop')
            a = self.read_in(val, heap)
            return self.new(self.phi_av(ctx, loc, a))
        return Poison('object changed in a loop')

    def phi_av(self, ctx, loc, a):
        s = ctx.sorts.get(loc, a.dt if isinstance(a.dt, str) else 'o')
        if not a.dims:
            p = X.phi(s)
            ctx.comps.append(Comp(loc, p, None, (), a.body))
            return AV((), (), p, s, a.mat)
        p = X.phi(s, len(a.dims))
        X.DIMS[p.id] = tuple(a.dims)
        vs = [iv(d) for d in a.dims]
        ctx.comps.append(Comp(loc, p, tuple(a.dims), tuple(vs), a.at(*vs)))
        return AV(a.dims, vs, elem(p, *vs), s, a.mat)

    def install(self, ctx, S0):
        ctx.comps = []
        heap0 = S0[0]
        for loc, mode in ctx.locs.items():
            kind = loc[0]
            if kind == 'env':
                env = S0[1][loc[1]][0].env
                v0 = S0[1][loc[1]][1].get(loc[2], UNDEF)
                if v0 is UNDEF or isinstance(v0, Poison):
                    env[loc[2]] = Poison('may be unbound')
                elif mode == 'poison':
                    env[loc[2]] = Poison('changed in a loop')
                else:
                    env[loc[2]] = self.phi_value(ctx, loc, v0, heap0)
            elif kind == 'heap':
                i = loc[1]
                c = heap0[i]
                self.heap[i] = self.phi_cell(ctx, loc, mode, c, heap0,
                                             self.heap[i])
            elif kind == 'attr':
                i = loc[1]
                c = self.heap[i]
                a = dict(c.attrs)
                if loc[2] in a:
                    a[loc[2]] = self.phi_value(
                        ctx, loc, heap0[i].attrs[loc[2]], heap0) \
                        if mode != 'poison' else Poison('changed in a loop')
                else:
                    a[loc[2]] = Poison('may be unset')
                self.heap[i] = Inst(c.cls, a)

    def phi_cell(self, ctx, loc, mode, c, heap0, cur):
        if mode == 'poison':
            return PoisonCell('changed in a loop')
        if isinstance(c, ArrCell):
            return ArrCell(self.phi_av(ctx, loc, c.av))
        if isinstance(c, SegCell):
            return SegCell([self.phi_av(ctx, loc + (k,), s)
                            for k, s in enumerate(c.segs)])
        if isinstance(c, CArrCell):
            return CArrCell(c.shape, [
                self.phi_value(ctx, loc + (k,), x, heap0)
                for k, x in enumerate(c.vals)])
        if isinstance(c, RNGCell):
            p = X.phi('i')
            X.NONNEG.add(p)
            ctx.comps.append(Comp(loc + ('ctr',), p, None, (), tt(c.ctr)))
            return RNGCell(c.key, p)
        if isinstance(c, ListC):
            if mode == 'vals':
                return ListC([self.phi_value(ctx, loc + (k,), x, heap0)
                              for k, x in enumerate(c.items)], c.base)
            b = ctx.bases.setdefault(loc[1], object())
            return ListC([], b)
        if isinstance(c, DictC):
            if mode == 'vals':
                return DictC([(k, self.phi_value(ctx, loc + (j,), x, heap0))
                              for j, (k, x) in enumerate(c.items)], c.base)
            b = ctx.bases.setdefault(loc[1], object())
            return DictC([], b)
        return PoisonCell('changed in a loop')

    # ------------------------------------------------------------------
    def grow(self, ctx, snap, paths):
        """locations changed by the body that have no placeholder yet"""
        new = False
        heap = snap[0]
        for p in paths:
            if p.out[0] in ('raise', 'return'):
                continue
            for k, (f, e) in enumerate(p.state[1][:len(snap[1])]):
                e0 = snap[1][k][1]
                for n, x in e.items():
                    if n.startswith('$'):
                        continue
                    x0 = e0.get(n, UNDEF)
                    if x0 is x:
                        continue
                    loc = ('env', k, n)
                    if loc not in ctx.locs:
                        if not isinstance(x0, (Poison, Arr, Ref)) and \
                                x0 is not UNDEF and type(x0) is type(x) and \
                                not isinstance(x0, T) and x0 == x:
                            continue
                        if isinstance(x0, (Arr, Ref)) and x0 == x:
                            continue
                        ctx.locs[loc] = 'phi'
                        new = True
                    elif ctx.locs[loc] == 'phi':
                        if self.widen(ctx, loc, x0, x):
                            new = True
            for i, c0 in heap.items():
                c = p.state[0].get(i)
                if c is c0:
                    continue
                if isinstance(c0, Inst) and isinstance(c, Inst):
                    for a in set(c.attrs) | set(c0.attrs):
                        x0 = c0.attrs.get(a, UNDEF)
                        x = c.attrs.get(a, UNDEF)
                        if x is x0 or (type(x) is type(x0) and isinstance(
                                x, (Ref, Arr, int, float, bool, str)) and
                                x == x0):
                            continue
                        loc = ('attr', i, a)
                        if loc not in ctx.locs:
                            ctx.locs[loc] = 'phi'
                            new = True
                        elif self.widen(ctx, loc, x0, x):
                            new = True
                    continue
                loc = ('heap', i)
                if loc not in ctx.locs:
                    mode = 'phi'
                    if isinstance(c0, ListC) and isinstance(c, ListC) and \
                            len(c.items) == len(c0.items):
                        mode = 'vals'
                    if isinstance(c0, DictC) and isinstance(c, DictC) and \
                            [a for a, b in c.items] == \
                            [a for a, b in c0.items]:
                        mode = 'vals'
                    ctx.locs[loc] = mode
                    new = True
                elif ctx.locs[loc] == 'vals':
                    if type(c) is not type(c0) or len(c.items) != \
                            len(c0.items):
                        ctx.locs[loc] = 'phi'
                        new = True
                    else:
                        for j, (x0, x) in enumerate(zip(c0.items, c.items)):
                            if isinstance(c, DictC):
                                x0, x = x0[1], x[1]
                            if self.widen(ctx, loc + (j,), x0, x):
                                new = True
                elif isinstance(c, ArrCell) and isinstance(c0, ArrCell):
                    if c.av.dt != c0.av.dt and loc not in ctx.sorts and \
                            isinstance(c.av.dt, str):
                        ctx.sorts[loc] = 'f'
                        new = True
        return new

    def widen(self, ctx, loc, x0, x):
        """does the placeholder x0 have to be more general to hold x?"""
        if isinstance(x0, Poison):
            return False
        if is_num(x0):
            if is_num(x):
                s = 'f' if isinstance(x, float) else tt(x).sort
                s0 = 'f' if isinstance(x0, float) else tt(x0).sort
                if s == s0 or s0 == 'f':
                    return False
                if s0 == 'i' and s == 'b':
                    return False
                ctx.sorts[loc] = 'f' if 'f' in (s, s0) else 'i'
                return True
            ctx.locs[loc] = 'poison'
            return True
        if (isinstance(x0, str) or isinstance(x0, T) and x0.sort == 's') \
                and (
                isinstance(x, str) or isinstance(x, T) and x.sort == 's'):
            return False
        if isinstance(x0, tuple) and isinstance(x, tuple) and \
                len(x0) == len(x):
            r = False
            for i, (a, b) in enumerate(zip(x0, x)):
                r = self.widen(ctx, loc + (i,), a, b) or r
            if any(l not in ctx.locs and m == 'poison'
                   for l, m in list(ctx.locs.items())):
                pass
            return r
        if isinstance(x0, Arr) and isinstance(x, Arr):
            return False
        if loc[:3] in ctx.locs:
            if ctx.locs[loc[:3]] == 'poison':
                return False
            ctx.locs[loc[:3]] = 'poison'
            return True
        ctx.locs[loc] = 'poison'
        return True

    # ------------------------------------------------------------------
    def summarise(self, ctx, S0, snap, paths, n, orelse):
        v = ctx.v
        cont = [p for p in paths if p.out[0] in ('normal', 'continue')]
        exits = [p for p in paths if p.out[0] == 'break' and
                 p.state[1][len(snap[1]) - 1][1].get('$exit')]
        brk = [p for p in paths if p.out[0] == 'break' and p not in exits]
        rets = [p for p in paths if p.out[0] == 'return']
        rais = [p for p in paths if p.out[0] == 'raise']
        app_ = {}
        if cont:
            for p in cont:
                p.out = ('normal', None)
            N = self.merge_cont(ctx, snap, cont, app_)
        else:
            N = None
        stop = or_(*[p.cond for p in exits + brk + rets + rais])
        # the system of recurrences
        pend = []
        if N is not None:
            for c in ctx.comps:
                c.next = self.next_of(ctx, c, N)
                if c.next is None:
                    c.start = mk('uf', 'loop', (num(v.id),), sort=c.ph.sort,
                                 opq=True)
                    if c.dims is not None:
                        c.start = X.uf('loop', num(v.id), *c.ivs,
                                       sort=c.ph.sort)
                else:
                    pend.append(c)
        else:
            for c in ctx.comps:
                c.start = c.init
        solved = {c.ph.id: c.startterm() for c in ctx.comps
                  if c.start is not None}
        if solved:
            for c in pend:
                c.next = subst(c.next, solved)
        progress = True
        while pend and progress:
            progress = False
            for c in list(pend):
                c.next = subst(c.next, solved)
                others = [d for d in pend if d is not c and
                          d.ph.id in c.next.fv]
                if others:
                    continue
                st = self.solve(c, v)
                if st is None:
                    continue
                c.start = st
                pend.remove(c)
                solved[c.ph.id] = c.startterm()
                progress = True
        E = subst(or_(*[p.cond for p in exits]), solved) if exits else FALSE
        pid = frozenset(c.ph.id for c in pend)
        other = subst(or_(*[p.cond for p in brk + rets + rais]), solved)
        if n is None and exits:
            m = self.count(E, v, pid)
            if m is not None:
                n = m
                X.IVDIM[v.id] = n
                exits_done = True
                stop = other
            else:
                exits_done = False
                stop = or_(E, other)
        else:
            exits_done = False
            stop = subst(stop, solved)
        nt = n if n is not None else tt(None)
        if pend:
            phs = [c.ph for c in pend]
            ins = [c.initterm() for c in pend]
            nxs = [c.nextterm() for c in pend]

            def rec(which, lim):
                return X.mk_rec(phs, ins, nxs, v, lim, stop, which)
            for k, c in enumerate(pend):
                r = rec(k, v)
                c.start = r if c.dims is None else elem(r, *c.ivs)
                solved[c.ph.id] = r
        starts = dict(solved)
        stop = subst(stop, starts)
        # nothing is left of the placeholders
        # number of completed iterations
        broke = FALSE
        if stop is not FALSE:
            if pend and (pid or n is None):
                broke = rec(-1, nt) if n is not None else TRUE
                f = rec(-2, nt)
            elif n is None:
                p0 = X.phi('i')
                broke = TRUE
                f = X.mk_rec([p0], [ZERO], [ZERO], v, nt, stop, -2)
            else:
                w = iv(n)
                r = sub(sub(n, ONE), w)
                f = X.lastw(w, n, subst(stop, {v.id: r}), r, n)
                broke = X.any_(v, n, stop)
                X.NONNEG.add(f)
        # assertions and effects of the iterations
        nb = len(S0[3])
        asserts = list(S0[3])
        for p in paths:
            pc = subst(p.cond, starts)
            for (a, ex, l) in p.state[3][len(snap[3]):]:
                a = or_(not_(pc), subst(a, starts))
                if a is TRUE:
                    continue
                if stop is not FALSE:
                    lim = add(f, ONE) if n is None else app(
                        'min2', add(f, ONE), n)
                else:
                    lim = n
                asserts.append((X.all_(v, lim, a), ex, l))
        ne = len(snap[4])
        effects = list(S0[4])
        seen = set()
        for p in paths:
            for e in p.state[4][ne:]:
                if id(e) in seen:
                    continue
                seen.add(id(e))
                effects.append(e)
        S1 = (S0[0], S0[1], S0[2], asserts, effects)

        def complete(k, last):
            """state after k completed iterations"""
            self.restore(S1)
            if N is None:
                return
            self.leave(ctx, S0, N, starts, v, k, app_)
        outs = []
        for kind, ps in (('raise', rais), ('return', rets), ('break', brk),
                         ('exit', [] if exits_done else exits)):
            groups = {}
            for p in ps:
                key = p.out[1].name() if kind == 'raise' else ''
                groups.setdefault(key, []).append(p)
            for key, qs in groups.items():
                outs.append((kind, qs))
        if n is not None:
            outs.append(('complete', None))
        at = {v.id: f} if stop is not FALSE else {}
        if len(outs) == 1 and outs[0][0] == 'complete':
            complete(n, True)
            self.block(orelse)
            return
        # which way was the loop left?
        self.restore(S1)
        rest = list(outs)
        while len(rest) > 1:
            kind, qs = rest[0]
            if kind == 'complete':
                if self.decide(not_(broke)):
                    break
                rest.pop(0)
                continue
            c = subst(subst(or_(*[p.cond for p in qs]), starts), at)
            if not (rest[-1][0] == 'complete'):
                g = TRUE
            else:
                g = broke
            if rest[-1][0] == 'complete' and all(
                    r[0] == 'complete' for r in rest[1:]):
                c = broke
            elif rest[-1][0] == 'complete':
                c = and_(g, c)
            if self.decide(c):
                break
            rest.pop(0)
        kind, qs = rest[0]
        pc = list(self.pc)
        if kind == 'complete':
            complete(n, True)
            self.pc = pc
            self.block(orelse)
            return
        # leave at iteration f
        if len(qs) == 1:
            st, out = qs[0].state, qs[0].out
        else:
            for p in qs:
                if kind in ('break', 'exit'):
                    p.out = ('normal', None)
            cond, st, out = self.merge_exit(ctx, snap, qs)
        self.restore((st[0], st[1], pc, asserts, effects))
        val = out[1]
        self.leave(ctx, S0, st, starts, v, f, app_, at=f,
                   keep=(val,) if kind == 'return' else ())
        self.pc = pc
        if kind == 'raise':
            raise out[1]
        if kind == 'return':
            raise Return_(self.close_value(val, starts, {v.id: f}))
        if kind == 'exit':
            self.block(orelse)

    def close_value(self, val, starts, at):
        val = self.subst_value(val, starts)
        return self.subst_value(val, at)

    def merge_exit(self, ctx, snap, ps):
        for p in ps:
            for i in ctx.bases:
                c = p.state[0].get(i)
                if isinstance(c, (ListC, DictC)):
                    p.state[0][i] = PoisonCell('appended on the way out')
        try:
            return self.merge(snap, ps)
        except NoMerge:
            self.unsup('exits of a loop cannot be joined')

    def merge_cont(self, ctx, snap, cont, app_):
        """joined state of the continuing paths; items added to containers
        are recorded in app_ : id -> (cond, items)"""
        for i, b in ctx.bases.items():
            rows = []
            for p in cont:
                c = p.state[0].get(i)
                if not isinstance(c, (ListC, DictC)) or c.base is not b:
                    app_[i] = None
                    break
                rows.append((p, list(c.items)))
            else:
                ks = set(len(r) for p, r in rows)
                have = [(p, r) for p, r in rows if r]
                if not have or not ks <= {0, 1}:
                    app_[i] = None if have else (FALSE, None)
                else:
                    cond = or_(*[p.cond for p, r in have]) if 0 in ks \
                        else TRUE
                    if len(have) == 1:
                        app_[i] = (cond, have[0][1][0],
                                   have[0][0].state[0])
                    else:
                        conds = [p.cond for p, r in have]
                        heaps = [p.state[0] for p, r in have]
                        self._mheap = {}
                        for h in heaps:
                            for k, c in h.items():
                                if k not in snap[0]:
                                    self._mheap[k] = c
                        try:
                            val = self.merge_values(
                                conds, [r[0] for p, r in have], heaps,
                                snap[0])
                            app_[i] = (cond, val, dict(self._mheap))
                        except NoMerge:
                            app_[i] = None
            for p in cont:
                c = p.state[0].get(i)
                if isinstance(c, ListC):
                    p.state[0][i] = ListC([], b)
                elif isinstance(c, DictC):
                    p.state[0][i] = DictC([], b)
        if len(cont) == 1:
            return cont[0].state
        self.softmerge = True
        try:
            return self.merge(snap, cont)[1]
        except NoMerge:
            self.unsup('paths of a loop body cannot be joined')
        finally:
            self.softmerge = False

    def next_of(self, ctx, c, N):
        """value of the quantity after the body"""
        loc = c.loc
        old = self.heap
        self.heap = N[0]
        try:
            kind = loc[0]
            if kind == 'env':
                x = N[1][loc[1]][1].get(loc[2], UNDEF)
                path = loc[3:]
            elif kind == 'attr':
                cell = N[0][loc[1]]
                if not isinstance(cell, Inst):
                    return None
                x = cell.attrs.get(loc[2], UNDEF)
                path = loc[3:]
            else:
                cell = N[0][loc[1]]
                path = loc[2:]
                if isinstance(cell, ArrCell):
                    a = cell.av
                    return self.next_av(c, a)
                if isinstance(cell, SegCell):
                    return self.next_av(c, cell.segs[path[0]])
                if isinstance(cell, RNGCell):
                    return tt(cell.ctr)
                if isinstance(cell, CArrCell):
                    x = cell.vals[path[0]]
                elif isinstance(cell, ListC):
                    x = cell.items[path[0]]
                elif isinstance(cell, DictC):
                    x = cell.items[path[0]][1]
                else:
                    return None
                path = path[1:]
            for k in path:
                if isinstance(x, tuple):
                    if k >= len(x):
                        return None
                    x = x[k]
                elif isinstance(x, Arr):
                    cell = self.heap[x.cid]
                    if not isinstance(cell, SegCell) or not x.whole():
                        return None
                    return self.next_av(c, cell.segs[k])
            if isinstance(x, Arr):
                if not isinstance(self.heap[x.cid], (ArrCell, SegCell)):
                    return None
                return self.next_av(c, self.read(x))
            if is_scalar(x):
                t = tt(x)
                if c.dims is not None:
                    return None
                if t.sort not in 'ifbs':
                    return None
                return t
            return None
        finally:
            self.heap = old

    def next_av(self, c, a):
        if c.dims is None:
            return a.body if not a.dims else None
        if len(a.dims) != len(c.dims) or any(
                p is not q for p, q in zip(a.dims, c.dims)):
            return None
        return a.at(*c.ivs)

    # ------------------------------------------------------------------
    def solve(self, c, v):
        """closed form of the value at the start of iteration v"""
        N = c.next
        if c.dims is not None:
            q0 = elem(c.ph, *c.ivs)
            N = self.localise(N, c.ph, c.ivs)
            p = X.phi(c.ph.sort)
            N = replace(N, {q0.id: p})
            if c.ph.id in N.fv:
                return None
        else:
            p = c.ph
        return solve1(p, N, c.init, v)

    def localise(self, N, ph, ivs):
        """use known equalities of indexes inside conditional values"""
        ids = set(w.id for w in ivs)

        def go(t):
            if t.op == 'ite' and ph.id in t.fv:
                c, a, b = t.args
                m = {}
                for x in (c.args[0] if c.op == 'and' else (c,)):
                    if x.op == 'eq':
                        l, r = x.args
                        if l.id in ids and r.id not in ids:
                            m[r.id] = l
                        elif r.id in ids and l.id not in ids:
                            m[l.id] = r
                a2 = a
                if m:
                    hits = {}
                    for e in ops_in(a, lambda z: z.op == 'elem' and
                                    z.args[0] is ph):
                        ni = [m.get(i.id, i) for i in e.args[1]]
                        hits[e.id] = elem(ph, *ni)
                    a2 = replace(a, hits)
                return ite(c, go(a2), go(b))
            return t
        return go(N)

    def count(self, E, v, pid):
        """first v >= 0 for which E, when E is a linear bound on v"""
        if E.fv & pid or E is FALSE:
            return None
        neg = False
        t = E
        if t.op == 'not':
            neg = True
            t = t.args[0]
        if t.op not in ('lt', 'le'):
            return None
        a, b = t.args
        if a.sort != 'i' or b.sort != 'i':
            return None
        d = sub(a, b)          # lt: d < 0, le: d <= 0
        k = sub(d, v)
        if neg and v.id not in k.fv:
            # not (v + k < 0): v >= -k ; not (v + k <= 0): v >= 1 - k
            m = X.neg(k) if t.op == 'lt' else sub(ONE, k)
        else:
            k = add(d, v)
            if neg or v.id in k.fv:
                return None
            # k - v < 0: v > k ; k - v <= 0: v >= k
            m = add(k, ONE) if t.op == 'lt' else k
        return m if X.nonneg(m) else app('max2', m, ZERO)

    # ------------------------------------------------------------------
    def leave(self, ctx, S0, N, starts, v, k, app_, at=None, keep=()):
        """install the state of the locations after the loop.

        at is None: after k completed iterations, from the closed forms;
        otherwise: the state N of iteration at, left in the middle"""
        heapN = N[0]
        mk_ = {v.id: tt(k)}

        def fin(c):
            return subst(c.start, mk_)
        byloc = {}
        for c in ctx.comps:
            byloc[c.loc] = c
        # cells of the body
        if at is None:
            for i, c in heapN.items():
                if i not in S0[0] and i not in self.heap:
                    self.heap[i] = c
        last = {v.id: sub(tt(k), ONE)} if at is None else mk_

        def lastval(x):
            if isinstance(x, Poison) or x is UNDEF:
                return x
            try:
                y = self.subst_value(x, starts)
                y = self.subst_value(y, last)
            except Unsupported as e:
                return Poison(e.msg)
            if at is None and isinstance(y, (T, int, float, bool)) and \
                    is_num(y):
                kt = tt(k)
                y = fix(ite(lt(ZERO, kt), tt(y),
                            mk('unbound', sort=tt(y).sort)))
            return y

        def compval(loc, x0):
            """final value of a location holding x0 before the loop"""
            c = byloc.get(loc)
            if isinstance(x0, tuple):
                return tuple(compval(loc + (j,), y)
                             for j, y in enumerate(x0))
            if isinstance(x0, Arr):
                cell = S0[0][x0.cid]
                if isinstance(cell, SegCell) and x0.whole():
                    segs = []
                    for j, s in enumerate(cell.segs):
                        d = byloc.get(loc + (j,))
                        segs.append(AV(d.dims, d.ivs, fin(d), s.dt))
                    return Arr(self.alloc(SegCell(segs)))
                if c is None:
                    return Poison('changed in a loop')
                a = self.read_in(x0, S0[0])
                return self.new(finav(c, a))
            if c is None:
                return Poison('changed in a loop')
            return fix(fin(c))

        def finav(c, a):
            dt = c.ph.sort
            return AV(c.dims or (), c.ivs, fin(c), dt
                      if isinstance(a.dt, str) else a.dt, a.mat)

        if at is not None:
            # values at the exit: from the state of the leaving path
            for loc, mode in ctx.locs.items():
                if loc[0] == 'env':
                    f = N[1][loc[1]][0]
                    x = f.env.get(loc[2], UNDEF)
                    if isinstance(x, Poison) and x.why == 'may be unbound':
                        f.env[loc[2]] = UNDEF
                    else:
                        f.env[loc[2]] = lastval(x)
                elif loc[0] == 'attr':
                    cell = self.heap[loc[1]]
                    a = dict(cell.attrs)
                    if loc[2] in a:
                        a[loc[2]] = lastval(a[loc[2]])
                    self.heap[loc[1]] = Inst(cell.cls, a)
                else:
                    self.leave_cell(ctx, S0, loc, starts, last, app_, v, k)
            for f, e in S0[1]:
                for n, x in list(f.env.items()):
                    if isinstance(x, Poison) and x.why == 'may be unbound':
                        f.env[n] = UNDEF
                    if n == '$exit':
                        del f.env[n]
            return
        for loc, mode in ctx.locs.items():
            kind = loc[0]
            if kind == 'env':
                f, e0 = S0[1][loc[1]]
                v0 = e0.get(loc[2], UNDEF)
                xN = N[1][loc[1]][1].get(loc[2], UNDEF)
                if v0 is UNDEF:
                    if isinstance(xN, Poison) and \
                            xN.why == 'may be unbound':
                        f.env[loc[2]] = UNDEF
                    else:
                        f.env[loc[2]] = lastval(xN)
                elif isinstance(v0, Poison) or mode == 'poison':
                    f.env[loc[2]] = Poison('changed in a loop')
                else:
                    f.env[loc[2]] = compval(loc, v0)
            elif kind == 'attr':
                cell = self.heap[loc[1]]
                a = dict(cell.attrs)
                v0 = S0[0][loc[1]].attrs.get(loc[2], UNDEF)
                if v0 is UNDEF:
                    a[loc[2]] = lastval(N[0][loc[1]].attrs.get(
                        loc[2], Poison('may be unset')))
                elif mode == 'poison':
                    a[loc[2]] = Poison('changed in a loop')
                else:
                    a[loc[2]] = compval(loc, v0)
                self.heap[loc[1]] = Inst(cell.cls, a)
            else:
                i = loc[1]
                c0 = S0[0][i]
                if mode == 'poison':
                    self.heap[i] = PoisonCell('changed in a loop')
                elif isinstance(c0, ArrCell):
                    c = byloc.get(loc)
                    self.heap[i] = ArrCell(canon(finav(c, c0.av)))
                elif isinstance(c0, SegCell):
                    self.heap[i] = SegCell([
                        finav(byloc[loc + (j,)], s)
                        for j, s in enumerate(c0.segs)])
                elif isinstance(c0, CArrCell):
                    self.heap[i] = CArrCell(c0.shape, [
                        compval(loc + (j,), x)
                        for j, x in enumerate(c0.vals)])
                elif isinstance(c0, RNGCell):
                    self.heap[i] = RNGCell(c0.key, fix(fin(
                        byloc[loc + ('ctr',)])))
                elif mode == 'vals' and isinstance(c0, ListC):
                    self.heap[i] = ListC([compval(loc + (j,), x)
                                          for j, x in enumerate(c0.items)],
                                         c0.base)
                elif mode == 'vals' and isinstance(c0, DictC):
                    self.heap[i] = DictC([
                        (a, compval(loc + (j,), x))
                        for j, (a, x) in enumerate(c0.items)], c0.base)
                elif isinstance(c0, (ListC, DictC)):
                    self.heap[i] = self.built(i, c0, starts, v, tt(k), app_)
                else:
                    self.heap[i] = PoisonCell('changed in a loop')

    def leave_cell(self, ctx, S0, loc, starts, last, app_, v, k):
        i = loc[1]
        c = self.heap[i]
        m = starts
        if isinstance(c, ArrCell):
            a = self.subst_av(self.subst_av(c.av, starts), last)
            self.heap[i] = ArrCell(a)
        elif isinstance(c, SegCell):
            self.heap[i] = SegCell([
                self.subst_av(self.subst_av(a, starts), last)
                for a in c.segs])
        elif isinstance(c, RNGCell):
            self.heap[i] = RNGCell(c.key, fix(subst(subst(
                tt(c.ctr), starts), last)))
        elif isinstance(c, (ListC, DictC)) and i in ctx.bases and \
                c.base is ctx.bases[i]:
            if c.items:
                self.heap[i] = PoisonCell('appended on the way out')
            else:
                c0 = c
                from_ = getattr(self, '_l0', None)
                self.heap[i] = self.built(i, S0[0].get(i, type(c)([])), starts, v, tt(k),
                                          app_)
        elif isinstance(c, ListC):
            self.heap[i] = ListC([self.close_value(x, starts, last)
                                  for x in c.items], c.base)
        elif isinstance(c, DictC):
            self.heap[i] = DictC([(a, self.close_value(x, starts, last))
                                  for a, x in c.items], c.base)
        elif isinstance(c, CArrCell):
            self.heap[i] = CArrCell(c.shape, [
                self.close_value(x, starts, last) for x in c.vals])
        else:
            self.heap[i] = PoisonCell('changed in a loop')

    def built(self, i, c0, starts, v, n, app_):
        """container filled by n iterations"""
        a = app_.get(i)
        if a is None:
            return PoisonCell('filled in a loop')
        if a[0] is FALSE:
            return c0
        cond, item, heap = a
        for k, c in heap.items():
            if k not in self.heap:
                self.heap[k] = c
        cond = subst(cond, starts)
        if cond is TRUE:
            w = iv(n)
            at = {v.id: w}
            m = n
        else:
            M = X.lam([v], [n], cond)
            s = X.sel(M)
            m = X.DIMS[s.id][0]
            w = iv(m)
            at = {v.id: elem(s, w)}
        if isinstance(c0, DictC):
            if c0.items:
                return PoisonCell('filled in a loop')
            k, x = item
            k = self.scalarize(self.close_value(k, starts, at))
            x = self.scalarize(self.close_value(x, starts, at))
            if not is_scalar(k) or not is_scalar(x):
                return PoisonCell('dictionary of objects')
            return DictS(X.dmap(w, m, tt(k), tt(x)))
        item = self.close_value(item, starts, at)
        if c0.items:
            if all(is_num(x) for x in c0.items) and is_num(item):
                L = len(c0.items)
                tot = add(num(L), m)
                u = iv(tot)
                tb = X.tab(c0.items)
                it = ite(lt(u, num(L)), elem(tb, u),
                         subst(tt(item), {w.id: sub(u, num(L))}))
                return SeqC(tot, u, it)
            return PoisonCell('filled in a loop')
        return SeqC(m, w, item)


# ---- recurrences of one quantity ---------------------------------------------
def leaves(t, q):
    """[(cond, leaf)] of nested conditional values"""
    if t.op == 'ite' and q.id not in t.args[0].fv:
        c, a, b = t.args
        return [(and_(c, d), x) for d, x in leaves(a, q)] + \
            [(and_(not_(c), d), x) for d, x in leaves(b, q)]
    return [(TRUE, t)]


def delta(t, q):
    if t is q:
        return ZERO
    if t.op == 'ite' and q.id not in t.args[0].fv:
        a = delta(t.args[1], q)
        b = delta(t.args[2], q)
        if a is None or b is None:
            return None
        return ite(t.args[0], a, b)
    if t.sort not in 'if' or q.sort not in 'if':
        return None
    d = sub(t, q)
    if q.id in d.fv:
        return None
    return d


def solve1(q, N, init, v):
    """start-of-iteration-v value of q' = N(q, v), q(0) = init"""
    if N is q:
        return init
    if q.id not in N.fv:
        return ite(eq(v, ZERO), init, subst(N, {v.id: sub(v, ONE)}))
    w = iv(v)
    d = delta(N, q)
    if d is not None:
        return add(init, X.sum_(w, v, subst(d, {v.id: w})))
    if q.sort == 'b' and N.sort == 'b':
        n1 = subst(N, {q.id: TRUE})
        n0 = subst(N, {q.id: FALSE})
        if n1 is TRUE:
            return or_(init, X.any_(w, v, subst(n0, {v.id: w})))
        if n0 is FALSE:
            return and_(init, X.all_(w, v, subst(n1, {v.id: w})))
        return None
    ls = leaves(N, q)
    if all(x is q or q.id not in x.fv for c, x in ls):
        cond = or_(*[c for c, x in ls if x is not q])
        val = None
        for c, x in ls:
            if x is not q:
                val = x if val is None else ite(c, x, val)
        m = {v.id: w}
        return X.lastw(w, v, subst(cond, m), subst(val, m), init)
    for name, red in (('max2', 'amax'), ('min2', 'amin')):
        e = None
        if N.op == 'app' and N.args[0] == name:
            a, b = N.args[1]
            e = b if a is q else a if b is q else None
        elif N.op == 'ite' and N.args[0].op in ('lt', 'le'):
            l, r = N.args[0].args
            x, y = N.args[1], N.args[2]
            if name == 'max2' and ((l is q and x is r and y is q) or (
                    r is q and x is q and y is l)):
                e = r if l is q else l
            if name == 'min2' and ((l is q and x is q and y is r) or (
                    r is q and x is l and y is q)):
                e = r if l is q else l
        if e is not None and q.id not in e.fv:
            g = X.red(red, w, v, subst(e, {v.id: w}))
            return ite(lt(ZERO, v), app(name, init, g), init)
    if q.sort in 'if':
        p = X.to_poly(N)
        if all(any(a is q and e == 1 for a, e in m) for m in p):
            f = X.from_poly({tuple((a, e) for a, e in m if a is not q): c
                             for m, c in p.items()})
            if q.id not in f.fv:
                return mul(init, X.red('prod', w, v,
                                       subst(f, {v.id: w})))
    return None
