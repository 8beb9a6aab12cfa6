"""Statements, expressions, calls and loops of the abstract interpreter."""
import ast
import operator
from fractions import Fraction

from . import terms as X
from .terms import (T, tt, num, iv, subst, numval, elem, ite, and_, or_, not_,
                    eq, lt, le, add, sub, mul, div, app, ZERO, ONE, TRUE,
                    FALSE, mk, ops_in, replace)
from .values import *  # noqa
from .interp import (Interp, Return_, Break_, Continue_, NoMerge, Poison,
                     Frame, Path, Effect, EXC_PARENT, BUILTINS, exc_isa,
                     is_num, is_scalar, fix, const, MAXUNROLL, join_dt)
from .loops import LoopMixin

MAXDEPTH = 60


class Box(object):
    """a result that is not joined with others"""

    def __init__(self, x):
        self.x = x


class ExcV(object):
    """an exception object"""
    def __init__(self, exc, args):
        self.exc = exc
        self.eargs = args


class YieldRec(object):
    def __init__(self, value, heap):
        self.value = value
        self.heap = heap


def pymod(a, b):
    return a % b


BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
       ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitAnd: '&',
       ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>',
       ast.MatMult: '@'}
PYOP = {'+': operator.add, '-': operator.sub, '*': operator.mul,
        '/': operator.truediv, '//': operator.floordiv, '%': operator.mod,
        '**': operator.pow, '&': operator.and_, '|': operator.or_,
        '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
       ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
       ast.In: 'in', ast.NotIn: 'not in'}
PYCMP = {'==': operator.eq, '!=': operator.ne, '<': operator.lt,
         '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


class Machine(LoopMixin, Interp):
    # ==================================================================
    # statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > 400000:
            self.unsup('too many steps')
        f = self.frames[-1]
        if hasattr(s, 'lineno'):
            self.loc = '%s:%d' % (f.module.path if f.module else '?',
                                  s.lineno)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unsup('statement ' + type(s).__name__)
        return m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        self.frames[-1].globals_decl |= set(s.names)

    def s_Nonlocal(self, s):
        self.unsup('nonlocal')

    def s_Assign(self, s):
        v = self.ev(s.value)
        if X.BOX[0] and isinstance(v, T) and v.sort == 'f' and \
                v.op != 'box' and X.heavy(v, X.BOX[0]):
            v = X.box(v)
        for t in s.targets:
            self.assign_to(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign_to(s.target, self.ev(s.value))

    def assign_to(self, t, v):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign_to(e, x)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            self.setsub(o, k, v)
        else:
            self.unsup('assignment target')

    def unpack(self, v, elts):
        kind, items = self.iterate(v)[:2]
        if kind != 'list':
            n = items
            k = numval(n)
            if k is None:
                self.partial(eq(n, num(len(elts))), 'ValueError',
                             'values to unpack')
            it = self.iterate(v)
            return [it[2](num(i)) for i in range(len(elts))]
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            r = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                self.raise_('ValueError', 'not enough values to unpack')
            mid = self.newlist(items[i:len(items) - r])
            return list(items[:i]) + [mid] + list(items[len(items) - r:])
        if len(items) != len(elts):
            self.raise_('ValueError', 'values to unpack')
        return items

    def setname(self, name, v):
        f = self.frames[-1]
        if name in f.globals_decl and f.env is not f.module.ns:
            return self.over_set(f.module, name, v)
        f.env[name] = v

    # names of modules and classes that are rebound while running
    def over_new(self, o, names):
        o.over = self.alloc(Inst(o, {k: o.ns[k] for k in names
                                     if k in o.ns}))

    def over_get(self, o, name):
        if o.over is not None:
            c = self.heap.get(o.over)
            if c is not None and name in c.attrs:
                return c.attrs[name]
        return o.ns.get(name, UNDEF)

    def over_set(self, o, name, v):
        c = self.heap.get(o.over) if o.over is not None else None
        if c is None:
            self.unsup('assignment to a global')
        a = dict(c.attrs)
        a[name] = v
        self.heap[o.over] = Inst(o, a)

    def getname(self, name):
        f = self.frames[-1]
        v = f.env.get(name, UNDEF)
        if v is not UNDEF:
            return self.live(v, name)
        if f.func is not None:
            # local names that are not bound
            loc = getattr(f.func, 'locals', None)
            if loc is None:
                loc = f.func.locals = local_names(f.func.node)
            if name in loc and name not in f.globals_decl:
                self.raise_('UnboundLocalError', name)
            for env in f.func.closure:
                v = env.get(name, UNDEF)
                if v is not UNDEF:
                    return self.live(v, name)
        if f.module is not None:
            v = self.over_get(f.module, name)
            if v is not UNDEF:
                return self.live(v, name)
        if name in BUILTINS:
            return Ext('builtins.' + name)
        if name == '__name__':
            return f.module.name
        if name == '__file__':
            return f.module.path
        if name == '__doc__':
            return 'doc'
        if name == 'NotImplemented':
            return Ext('builtins.NotImplemented')
        self.raise_('NameError', name)

    def live(self, v, name):
        if isinstance(v, Poison):
            self.unsup('value of %s: %s' % (name, v.why))
        if isinstance(v, Unknown):
            self.unsup('value of %s: %s' % (name, v.why))
        return v

    def s_AugAssign(self, s):
        op = BIN[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.getname(t.id)
            v = self.ev(s.value)
            n = self.inplace(op, old, v)
            self.setname(t.id, n)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.get_attr(o, t.attr)
            v = self.ev(s.value)
            self.set_attr(o, t.attr, self.inplace(op, old, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            old = self.getsub(o, k)
            v = self.ev(s.value)
            n = self.inplace(op, old, v)
            self.setsub(o, k, n)
        else:
            self.unsup('augmented assignment')

    def inplace(self, op, old, v):
        if isinstance(old, Arr):
            c = self.heap[old.cid]
            if isinstance(c, CArrCell):
                return self.binop(op, old, v)
            a = self.read(old)
            r = self.binop(op, old, v)
            if not isinstance(r, Arr):
                self.unsup('in-place operation')
            ra = self.read(r)
            if a.dt in ('i', 'b') and ra.dt == 'f':
                self.raise_('TypeError', 'Cannot cast ufunc output from '
                            'float to int')
            if old.whole() and isinstance(c, SegCell):
                rc = self.heap[r.cid]
                self.heap[old.cid] = self.seg(
                    rc, [s.dims for s in c.segs])
                return old
            if len(ra.dims) != len(a.dims):
                self.raise_('ValueError', 'non-broadcastable output operand')
            for d, e in zip(ra.dims, a.dims):
                if d is not e:
                    self.partial(eq(d, e), 'ValueError',
                                 'non-broadcastable output operand')
            self.write(old, lambda *ix: ra.at(*ix))
            return old
        if isinstance(old, Ref):
            c = self.cell(old)
            if isinstance(c, ListC) and op == '+':
                k, items = self.iterate(v)[:2]
                if k != 'list':
                    self.unsup('list extension of unknown length')
                c = self.cell(old)
                self.heap[old.id] = ListC(c.items + list(items), c.base)
                return old
            if isinstance(c, SetC) and op == '|':
                return self.binop(op, old, v)
        return self.binop(op, old, v)

    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        c = self.known(c)
        if c is TRUE:
            return self.block(s.body)
        if c is FALSE:
            return self.block(s.orelse)

        def go():
            if self.decide(c):
                self.block(s.body)
            else:
                self.block(s.orelse)
        self.branch(go)

    def s_For(self, s):
        it = self.iterate(self.ev(s.iter))
        if it[0] == 'list':
            broke = False
            items = it[1]
            if len(items) > MAXUNROLL:
                self.unsup('long loop')
            i = 0
            nxt = it[2] if len(it) > 2 else None
            for x in (items if nxt is None else nxt()):
                i += 1
                self.assign_to(s.target, x)
                try:
                    self.block(s.body)
                except Break_:
                    broke = True
                    break
                except Continue_:
                    pass
            if not broke:
                self.block(s.orelse)
            return
        n, f = it[1], it[2]

        def body(v):
            self.assign_to(s.target, f(v))
            self.block(s.body)
        self.symloop(n, body, s.orelse, self.loc)

    def s_While(self, s):
        # unroll while the condition is known
        k = 0
        while True:
            snap = self.save()
            c = self.known(self.truth(self.ev(s.test)))
            if c is FALSE:
                self.block(s.orelse)
                return
            if c is not TRUE:
                self.restore(snap)
                return self.symwhile(s)
            k += 1
            if k > MAXUNROLL:
                self.unsup('long loop')
            try:
                self.block(s.body)
            except Break_:
                return
            except Continue_:
                pass

    def s_Break(self, s):
        raise Break_()

    def s_Continue(self, s):
        raise Continue_()

    def s_Return(self, s):
        v = None if s.value is None else self.ev(s.value)
        raise Return_(v)

    def s_Raise(self, s):
        if s.exc is None:
            e = self.frames[-1].env.get('$exc')
            if e is None:
                self.unsup('bare raise')
            raise PyRaise(e.exc, e.eargs, self.loc, False)
        v = self.ev(s.exc)
        if isinstance(v, Ext):
            raise PyRaise(v.name.split('.')[-1], (), self.loc, False)
        if isinstance(v, ClassV):
            raise PyRaise(v, (), self.loc, False)
        if isinstance(v, ExcV):
            raise PyRaise(v.exc, v.eargs, self.loc, False)
        if isinstance(v, Ref) and isinstance(self.cell(v), Inst):
            raise PyRaise(self.cell(v).cls, (), self.loc, False)
        self.unsup('raise of %r' % (v,))

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        if not self.decide(c):
            raise PyRaise('AssertionError', (), self.loc, False)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                f = self.frames[-1]
                if f.env.get(t.id, UNDEF) is UNDEF:
                    self.raise_('NameError', t.id)
                f.env[t.id] = UNDEF
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                c = self.cell(o) if isinstance(o, Ref) else None
                if not isinstance(c, Inst):
                    self.unsup('delete attribute')
                if t.attr not in c.attrs:
                    self.raise_('AttributeError', t.attr)
                a = dict(c.attrs)
                del a[t.attr]
                self.heap[o.id] = Inst(c.cls, a)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev_index(t.slice)
                self.delsub(o, k)
            else:
                self.unsup('delete')

    def delsub(self, o, k):
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, DictC):
                i = self.dfind(c, k)
                if i is None:
                    self.raise_('KeyError', k)
                self.heap[o.id] = DictC(c.items[:i] + c.items[i + 1:],
                                        c.base)
                return
            if isinstance(c, ListC) and c.base is None and isinstance(
                    k, slice) and all(q is None or isinstance(const(q), int)
                                      for q in (k.start, k.stop, k.step)):
                items = list(c.items)
                del items[slice(*[None if q is None else const(q)
                                  for q in (k.start, k.stop, k.step)])]
                self.heap[o.id] = ListC(items)
                return
            if isinstance(c, ListC) and not isinstance(k, slice) and \
                    const(k) is not None and c.base is None:
                items = list(c.items)
                try:
                    del items[const(k)]
                except IndexError:
                    self.raise_('IndexError', 'list index')
                self.heap[o.id] = ListC(items)
                return
        self.unsup('delete of an element')

    def s_Import(self, s):
        for a in s.names:
            m = self.world.load(a.name, self.frames[-1].module, self)
            if a.asname:
                self.setname(a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.setname(top, self.world.load(
                    top, self.frames[-1].module, self))

    def s_ImportFrom(self, s):
        for a in s.names:
            v = self.world.load_from(s.module, s.level, a.name,
                                     self.frames[-1].module, self)
            if a.name == '*':
                for k, x in v.items():
                    self.setname(k, x)
            else:
                self.setname(a.asname or a.name, v)

    def s_FunctionDef(self, s):
        f = self.makefunc(s)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v)
        self.setname(s.name, v)

    def decorate(self, d, f):
        if isinstance(d, ast.Name) and d.id in ('staticmethod',
                                                'classmethod', 'property'):
            f.kind = d.id
            return f
        n = self.ev(d)
        if isinstance(n, Ext) and n.name.split('.')[-1] in (
                'abstractmethod', 'wraps', 'lru_cache', 'njit', 'jit'):
            if n.name.split('.')[-1] == 'abstractmethod':
                f.abstract = True
            return f
        return self.call(n, [f], {})

    def makefunc(self, s):
        fr = self.frames[-1]
        clo = []
        if fr.func is not None:
            clo = [fr.env] + list(fr.func.closure)
        elif getattr(fr, 'classbody', False):
            clo = list(getattr(fr, 'outer', []))
        a = s.args
        defs = [self.ev(d) for d in a.defaults]
        kw = {}
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kw[p.arg] = self.ev(d)
        return Func(s, fr.module, clo, None, getattr(s, 'name', '<lambda>'),
                    defs, kw)

    def s_ClassDef(self, s):
        bases = []
        for b in s.bases:
            v = self.ev(b)
            if isinstance(v, tuple) and v and v[0] == '$withmeta':
                bases.extend(v[1])
            else:
                bases.append(v)
        bases = [b for b in bases if not (isinstance(b, Ext) and
                                          b.name == 'builtins.object')]
        fr = self.frames[-1]
        ns = {}
        nf = Frame(ns, None, fr.module)
        nf.classbody = True
        nf.outer = ([fr.env] + list(fr.func.closure)) if fr.func else []
        self.frames.append(nf)
        try:
            self.block(s.body)
        finally:
            self.frames.pop()
        c = ClassV(s.name, bases, ns, fr.module, s)
        if fr.module is not None and getattr(fr.module, 'stores', None):
            self.over_new(c, fr.module.stores)
        for v in ns.values():
            if isinstance(v, Func) and v.cls is None:
                v.cls = c
        v = c
        for d in s.decorator_list:
            n = self.ev(d)
            if isinstance(n, Ext) and n.name.endswith('add_metaclass'):
                continue
            self.unsup('class decorator')
        self.setname(s.name, v)

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign_to(i.optional_vars, v)
        self.block(s.body)

    def s_Try(self, s):
        names = []
        for h in s.handlers:
            names.append(self.handler_names(h))
        flat = [x for n in names for x in n]

        def go():
            self.handlers.append(flat)
            try:
                try:
                    self.block(s.body)
                finally:
                    self.handlers.pop()
            except PyRaise as e:
                for h, ns in zip(s.handlers, names):
                    if any(self.exc_match(e, n) for n in ns):
                        if h.name:
                            self.setname(h.name, ExcV(e.exc, e.eargs))
                        old = self.frames[-1].env.get('$exc')
                        self.frames[-1].env['$exc'] = ExcV(e.exc, e.eargs)
                        try:
                            self.block(h.body)
                        finally:
                            self.frames[-1].env['$exc'] = old
                        return
                raise
            else:
                self.block(s.orelse)

        def whole():
            if not s.finalbody:
                return go()
            try:
                go()
            except (PyRaise, Return_, Break_, Continue_):
                self.block(s.finalbody)
                raise
            self.block(s.finalbody)
        self.branch(whole)

    def handler_names(self, h):
        if h.type is None:
            return ['BaseException']
        v = self.ev(h.type)
        vs = v if isinstance(v, tuple) else (v,)
        out = []
        for x in vs:
            if isinstance(x, Ext):
                out.append(x.name.split('.')[-1])
            elif isinstance(x, ClassV):
                out.append(x.name)
            else:
                self.unsup('exception handler')
        return out

    def exc_match(self, e, n):
        if isinstance(e.exc, str):
            return exc_isa(e.exc, n)
        for c in e.exc.mro:
            m = c.name if isinstance(c, ClassV) else c.name.split('.')[-1]
            if m == n or exc_isa(m, n):
                return True
        return n in ('Exception', 'BaseException')

    # ==================================================================
    # expressions
    def ev(self, e):
        m = getattr(self, 'x_' + type(e).__name__, None)
        if m is None:
            self.unsup('expression ' + type(e).__name__)
        return m(e)

    def x_Constant(self, e):
        if isinstance(e.value, complex):
            return tt(e.value)
        return e.value

    def x_Name(self, e):
        return self.getname(e.id)

    def x_Tuple(self, e):
        return tuple(self.ev_star(e.elts))

    def x_List(self, e):
        return self.newlist(self.ev_star(e.elts))

    def x_Set(self, e):
        return self.ref(SetC(self.ev_star(e.elts)))

    def ev_star(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value))
                if it[0] != 'list':
                    self.unsup('star of unknown length')
                out.extend(it[1])
            else:
                out.append(self.ev(x))
        return out

    def x_Dict(self, e):
        items = []
        r = self.ref(DictC([]))
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                self.dict_update(r, o)
            else:
                kk = self.ev(k)
                self.setsub(r, kk, self.ev(v))
        return r

    def x_Attribute(self, e):
        return self.get_attr(self.ev(e.value), e.attr)

    def x_Subscript(self, e):
        o = self.ev(e.value)
        return self.getsub(o, self.ev_index(e.slice))

    def ev_index(self, s):
        if isinstance(s, ast.Index):         # old python
            s = s.value
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x)
                           for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x) for x in s.elts)
        return self.ev(s)

    def x_Slice(self, e):
        return self.ev_index(e)

    def x_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(BIN[type(e.op)], a, b)

    def x_UnaryOp(self, e):
        a = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return fix(not_(self.truth(a)))
        return self.unary(type(e.op), a)

    def unary(self, op, a):
        if op is ast.USub:
            if isinstance(a, (int, float)):
                return -a
            return self.num1(lambda x: X.neg(x), a)
        if op is ast.UAdd:
            return a
        if op is ast.Invert:
            av = self.av(a)
            if av.dt == 'b':
                return self.num1(lambda x: not_(X.truth(x)), a, 'b')
            return self.num1(lambda x: sub(num(-1), x), a)
        self.unsup('unary operator')

    def num1(self, f, a, dt=None):
        if isinstance(a, T) or isinstance(a, (int, float)):
            t = tt(a)
            if t.sort not in 'ifb':
                self.raise_('TypeError', 'bad operand type')
            return fix(f(t))
        if isinstance(a, (Arr, AV)) or (isinstance(a, Ref) and isinstance(
                self.cell(a), (ListC, SeqC))):
            if isinstance(a, Arr):
                return self.emap(f, [a], dt)
            return self.map_av(f, [a], dt)
        if a is None or isinstance(a, str):
            self.raise_('TypeError', 'bad operand type')
        self.unsup('operand %r' % (a,))

    def x_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(k):
            v = self.ev(e.values[k])
            if k == len(e.values) - 1:
                return v
            c = self.known(self.truth(v))
            if c is TRUE:
                return go(k + 1) if isand else v
            if c is FALSE:
                return v if isand else go(k + 1)
            # effect free boolean right-hand sides need no exploration
            def rest():
                if self.decide(c):
                    return go(k + 1) if isand else (
                        True if isinstance(v, T) and v.sort == 'b' else v)
                return (False if isinstance(v, T) and v.sort == 'b' else v) \
                    if isand else go(k + 1)
            return self.branch(rest)
        return go(0)

    def x_IfExp(self, e):
        c = self.known(self.truth(self.ev(e.test)))
        if c is TRUE:
            return self.ev(e.body)
        if c is FALSE:
            return self.ev(e.orelse)
        return self.branch(
            lambda: self.ev(e.body) if self.decide(c) else self.ev(e.orelse))

    def x_Compare(self, e):
        left = self.ev(e.left)
        if len(e.ops) == 1:
            return self.compare(CMP[type(e.ops[0])], left,
                                self.ev(e.comparators[0]))
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            c = self.truth(self.compare(CMP[type(op)], left, right))
            if c is FALSE:
                return False
            out.append(c)
            left = right
        return fix(and_(*out))

    def x_Call(self, e):
        f = self.ev(e.func)
        if isinstance(f, Ext) and f.name == 'builtins.super':
            return self.mksuper(e)
        args = self.ev_star(e.args)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                c = self.cell(d) if isinstance(d, Ref) else None
                if not isinstance(c, DictC) or c.base is not None:
                    self.unsup('unknown keyword arguments')
                for a, b in c.items:
                    if not isinstance(a, str):
                        self.raise_('TypeError', 'keywords must be strings')
                    if a in kw:
                        self.raise_('TypeError', 'multiple values for '
                                    'keyword argument ' + a)
                    kw[a] = b
            else:
                if k.arg in kw:
                    self.raise_('TypeError', 'multiple values for keyword '
                                'argument ' + k.arg)
                kw[k.arg] = self.ev(k.value)
        fr = self.frames[-1]
        self.loc = '%s:%d' % (fr.module.path if fr.module else '?', e.lineno)
        return self.call(f, args, kw)

    def mksuper(self, e):
        fr = self.frames[-1]
        if e.args:
            c = self.ev(e.args[0])
            o = self.ev(e.args[1]) if len(e.args) > 1 else None
            if isinstance(c, Ref) or isinstance(c, (int, float, str,
                                                    tuple)):
                self.raise_('TypeError', 'super() argument 1 must be a '
                            'type')
            if isinstance(c, ClassV) and isinstance(o, Ref) and isinstance(
                    self.cell(o), Inst):
                k = self.cell(o).cls
                if isinstance(k, ClassV) and c not in k.mro:
                    self.raise_('TypeError', 'super(type, obj): obj must be '
                                'an instance or subtype of type')
            return SuperV(c, o)
        f = fr.func
        if f is None or f.cls is None:
            self.unsup('super outside of a method')
        first = f.node.args.args[0].arg
        return SuperV(f.cls, fr.env[first])

    def x_Lambda(self, e):
        return self.makefunc(e)

    def x_Starred(self, e):
        self.unsup('starred expression')

    def x_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign_to(e.target, v)
        return v

    def x_JoinedStr(self, e):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                v = self.ev(p.value)
                spec = ''
                if p.format_spec is not None:
                    spec = self.ev(p.format_spec)
                out.append(self.np.format_value(v, spec))
        return self.np.strcat(out)

    def x_Yield(self, e):
        v = None if e.value is None else self.ev(e.value)
        fr = self.frames[-1]
        ys = fr.env.get('$yields', ())
        if self.active and getattr(fr, 'loopdepth', 0):
            self.unsup('yield in a loop of unknown length')
        fr.env['$yields'] = ys + (YieldRec(v, dict(self.heap)),)
        return None

    def x_YieldFrom(self, e):
        it = self.iterate(self.ev(e.value))
        if it[0] != 'list':
            self.unsup('yield from')
        fr = self.frames[-1]
        for v in (it[1] if len(it) < 3 else it[2]()):
            fr.env['$yields'] = fr.env.get('$yields', ()) + (
                YieldRec(v, dict(self.heap)),)

    # ---- comprehensions --------------------------------------------------
    def comp(self, e, leaf, gens):
        """('list', values) or ('sym', n, v, value) of a comprehension"""
        fr = self.frames[-1]
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        saved = {n: fr.env.get(n, UNDEF) for n in names}
        try:
            r = self.comp1(leaf, gens, 0)
            if r[0] == 'list':
                return r
            _, n, v, val, cond = r
            if cond is TRUE:
                return r[:4]
            M = X.lam([v], [n], cond)
            s = X.sel(M)
            m = X.DIMS[s.id][0]
            w = iv(m)
            return ('sym', m, w, self.subst_value(val, {v.id: elem(s, w)}))
        finally:
            for n, v in saved.items():
                if v is UNDEF:
                    fr.env.pop(n, None)
                else:
                    fr.env[n] = v

    def comp1(self, leaf, gens, k):
        """('list', values) or ('sym', n, v, value, condition)"""
        if k == len(gens):
            return ('list', [leaf()])
        g = gens[k]
        it = self.iterate(self.ev(g.iter))
        if it[0] == 'list':
            parts = []
            for x in (it[1] if len(it) < 3 else it[2]()):
                self.assign_to(g.target, x)
                ok = True
                for c in g.ifs:
                    if not self.decide(self.truth(self.ev(c))):
                        ok = False
                        break
                if ok:
                    parts.append(self.comp1(leaf, gens, k + 1))
            if all(r[0] == 'list' for r in parts):
                return ('list', [x for r in parts for x in r[1]])
            return self.joined(parts)
        n, f = it[1], it[2]
        v = iv(n)

        def body():
            self.assign_to(g.target, f(v))
            cs = []
            for c in g.ifs:
                cs.append(self.truth(self.ev(c)))
            cond = and_(*cs)
            if cond is not TRUE:
                self.pc.append(cond)
            if k == len(gens) - 1:
                return (fix(cond), leaf())
            return (fix(cond), Box(self.comp1(leaf, gens, k + 1)))
        cond, val = self.loopbody(v, n, body)
        cond = tt(cond)
        if k == len(gens) - 1:
            return ('sym', n, v, val, cond)
        if not isinstance(val, Box):
            self.unsup('nested comprehension')
        r = val.x
        if r[0] == 'list':
            if len(r[1]) == 1:
                return ('sym', n, v, r[1][0], cond)
            r = self.joined([r])
        _, m, w, val, c2 = r
        if v.id in tt(m).fv:
            self.unsup('nested comprehension of varying length')
        N = X.mul(n, m)
        u = iv(N)
        from .npmodel import fdiv
        q, z = fdiv(u, m)
        sb = {v.id: q, w.id: z}
        return ('sym', N, u, self.subst_value(val, sb), tt(self.subst_value(
            and_(cond, c2), sb)))

    def joined(self, parts):
        """the concatenation of parts of a comprehension"""
        ps = []
        for r in parts:
            if r[0] == 'list':
                for x in r[1]:
                    ps.append((X.ONE, None, x, TRUE))
            else:
                ps.append(r[1:])
        if len(ps) == 1 and ps[0][1] is not None:
            return ('sym',) + tuple(ps[0])
        N = X.add(*[p[0] for p in ps]) if len(ps) > 1 else tt(ps[0][0])
        u = iv(N)
        at = X.ZERO
        conds, vals, cs = [], [], []
        for n, v, val, c in ps:
            end = X.add(at, n)
            conds.append(and_(X.le(at, u), X.lt(u, end)))
            if v is None:
                vals.append(val)
                cs.append(c)
            else:
                sb = {v.id: X.sub(u, at)}
                vals.append(self.subst_value(val, sb))
                cs.append(tt(self.subst_value(c, sb)))
            at = end
        try:
            self._mheap = {}
            val = self.merge_values(conds, vals, [self.heap] * len(ps),
                                    self.heap)
        except NoMerge:
            self.unsup('comprehension over lists of different kinds')
        self.heap.update(self._mheap)
        c = cs[-1]
        for d, x in reversed(list(zip(conds, cs))[:-1]):
            c = X.ite(d, x, c)
        return ('sym', N, u, val, c)

    def loopbody(self, v, n, fn):
        """run fn for a symbolic iteration that has no lasting effects"""
        self.active[v.id] = v
        na = len(self.asserts)
        npc = len(self.pc)
        heap0 = dict(self.heap)
        try:
            self.pc.append(lt(ZERO, n))
            try:
                r = self.branch(fn)
            except PyRaise as e:
                # raised for some iteration
                pcs = self.pc[npc + 1:]
                raise
        finally:
            self.active.pop(v.id, None)
        del self.pc[npc:]
        new = self.asserts[na:]
        del self.asserts[na:]
        for a, ex, l in new:
            self.asserts.append((X.all_(v, n, a) if v.id in a.fv else a,
                                 ex, l))
        for k, c in heap0.items():
            if self.heap.get(k) is not c:
                if isinstance(c, RNGCell):
                    inc = sub(tt(self.heap[k].ctr), tt(c.ctr))
                    if v.id in inc.fv:
                        self.unsup('draws in a comprehension')
                    self.heap[k] = RNGCell(c.key, add(c.ctr, mul(inc, n)))
                    r = self.subst_value_ctr(r, c, v, inc)
                    continue
                self.unsup('effects in a comprehension')
        return r

    def subst_value_ctr(self, r, c, v, inc):
        self.unsup('draws in a comprehension')

    def comp_loop(self, e):
        """a comprehension with effects, as the loop it stands for"""
        fr = self.frames[-1]
        nm = '$comp%d' % id(e)
        node = self.loops_of.get(id(e))
        if node is None:
            st = ast.Expr(ast.Call(ast.Attribute(
                ast.Name(nm, ast.Load()), 'append', ast.Load()),
                [e.elt], []))
            for g in reversed(e.generators):
                for c in reversed(g.ifs):
                    st = ast.If(c, [st], [])
                st = ast.For(g.target, g.iter, [st], [])
            for q in ast.walk(st):
                if not hasattr(q, 'lineno') and isinstance(
                        q, (ast.stmt, ast.expr)):
                    q.lineno = q.end_lineno = e.lineno
                    q.col_offset = q.end_col_offset = 0
            self.loops_of[id(e)] = node = (e, st)
        names = {n.id for g in e.generators for n in ast.walk(g.target)
                 if isinstance(n, ast.Name)} | {nm}
        saved = {n: fr.env.get(n, UNDEF) for n in names}
        fr.env[nm] = self.newlist([])
        try:
            self.block([node[1]])
            return fr.env[nm]
        finally:
            for n, v in saved.items():
                if v is UNDEF:
                    fr.env.pop(n, None)
                else:
                    fr.env[n] = v

    def x_ListComp(self, e):
        fr = self.frames[-1]
        old = (dict(self.heap), list(self.asserts), list(self.pc),
               dict(fr.env))
        try:
            r = self.comp(e, lambda: self.ev(e.elt), e.generators)
        except Unsupported as x:
            if 'in a comprehension' not in str(x):
                raise
            self.heap = old[0]
            self.asserts[:] = old[1]
            self.pc[:] = old[2]
            fr.env.clear()
            fr.env.update(old[3])
            return self.comp_loop(e)
        if r[0] == 'list':
            return self.newlist(r[1])
        return self.ref(SeqC(tt(r[1]), r[2], r[3]))

    def x_GeneratorExp(self, e):
        r = self.comp(e, lambda: self.ev(e.elt), e.generators)
        if r[0] == 'list':
            return self.ref(IterC(r[1]))
        return self.ref(SeqC(tt(r[1]), r[2], r[3]))

    def x_SetComp(self, e):
        r = self.comp(e, lambda: self.ev(e.elt), e.generators)
        if r[0] == 'list':
            return self.ref(SetC(r[1]))
        self.unsup('set comprehension')

    def x_DictComp(self, e):
        r = self.comp(e, lambda: (self.ev(e.key), self.ev(e.value)),
                      e.generators)
        if r[0] == 'list':
            d = self.ref(DictC([]))
            for k, v in r[1]:
                self.setsub(d, k, v)
            return d
        k, val = r[3]
        return self.sdict(r[1], r[2], k, val)

    def sdict(self, n, v, k, val):
        k = self.scalarize(k)
        val = self.scalarize(val)
        if not is_scalar(k) or not is_scalar(val):
            self.unsup('dictionary of objects')
        return self.ref(DictS(X.dmap(v, n, tt(k), tt(val))))

    def scalarize(self, x):
        if isinstance(x, Arr):
            a = self.av(x)
            if not a.dims:
                return fix(a.body)
        return x

    # ==================================================================
    # operators
    def binop(self, op, a, b):
        if isinstance(a, (bool, int, float)) and \
                isinstance(b, (bool, int, float)):
            try:
                return PYOP[op](a, b)
            except ZeroDivisionError:
                self.raise_('ZeroDivisionError', 'division by zero')
            except TypeError:
                self.raise_('TypeError', 'unsupported operand')
            except OverflowError:
                return float('inf')
        if isinstance(a, str) or isinstance(b, str) or \
                (isinstance(a, T) and a.sort == 's') or \
                (isinstance(b, T) and b.sort == 's'):
            return self.strop(op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
            return a + b
        if isinstance(a, tuple) and op == '*' and const(b) is not None:
            return a * int(const(b))
        la = isinstance(a, Ref) and isinstance(self.cell(a), (ListC, SeqC))
        lb = isinstance(b, Ref) and isinstance(self.cell(b), (ListC, SeqC))
        if la and lb and op == '+':
            ca, cb = self.cell(a), self.cell(b)
            if isinstance(ca, ListC) and isinstance(cb, ListC) and \
                    ca.base is None and cb.base is None:
                return self.newlist(ca.items + cb.items)
            self.unsup('concatenation of lists')
        if la and op == '*' and is_num(b):
            return self.repeat_list(a, b)
        if lb and op == '*' and is_num(a):
            return self.repeat_list(b, a)
        if (la or lb) and not (isinstance(a, Arr) or isinstance(b, Arr)):
            if is_num(a) or is_num(b) or la and lb:
                # numpy scalars are not told from python ones
                o = b if la else a
                if isinstance(o, (int, float)):
                    self.raise_('TypeError', 'unsupported operand')
                return self.arith(op, a, b)
            self.raise_('TypeError', 'unsupported operand')
        for x in (a, b):
            if isinstance(x, Ref) and isinstance(self.cell(x), Inst):
                return self.inst_binop(op, a, b)
            if isinstance(x, Ref) and isinstance(self.cell(x), SpCell):
                return self.np.sp_binop(op, a, b)
            if isinstance(x, Ref) and isinstance(self.cell(x), SetC):
                return self.set_op(op, a, b)
            if isinstance(x, Opq):
                return Opq('object', app('obj:' + op, self.tot(a),
                                         self.tot(b), sort='o'))
            if x is None or isinstance(x, (DictView,)) or (isinstance(
                    x, Ref) and isinstance(self.cell(x), (DictC, DictS))):
                self.raise_('TypeError', 'unsupported operand type')
        if op == '*' and (isinstance(a, Arr) and self.np.is_mat(a) or
                          isinstance(b, Arr) and self.np.is_mat(b)):
            if not is_num(a) and not is_num(b):
                return self.np.dot(a, b)
        if op == '@':
            return self.np.dot(a, b)
        return self.arith(op, a, b)

    def tot(self, x):
        if isinstance(x, Opq):
            return x.term
        if is_scalar(x):
            return tt(x)
        if isinstance(x, Arr):
            return self.av(x).term()
        if isinstance(x, tuple):
            return mk('tup', tuple(self.tot(y) for y in x), sort='o')
        self.unsup('term of %r' % (x,))

    def inst_binop(self, op, a, b):
        names = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv',
                 '%': 'mod', '//': 'floordiv', '**': 'pow'}
        n = names.get(op)
        if n and isinstance(a, Ref):
            m = self.lookup_opt(a, '__%s__' % n)
            if m is not None:
                return self.call(m, [b], {})
        self.raise_('TypeError', 'unsupported operand')

    def set_op(self, op, a, b):
        ca = self.cell(a) if isinstance(a, Ref) else None
        cb = self.cell(b) if isinstance(b, Ref) else None
        if isinstance(ca, SetC) and isinstance(cb, SetC) and all(
                isinstance(x, (str, int, float, bool, tuple))
                for x in ca.items + cb.items):
            x, y = ca.items, cb.items
            if op == '|':
                return self.ref(SetC(x + [z for z in y if z not in x]))
            if op == '&':
                return self.ref(SetC([z for z in x if z in y]))
            if op == '-':
                return self.ref(SetC([z for z in x if z not in y]))
        self.unsup('set operator')

    def repeat_list(self, a, n):
        c = self.cell(a)
        k = const(n)
        if k is not None and isinstance(c, ListC) and c.base is None:
            return self.newlist(c.items * int(k))
        if isinstance(c, ListC) and len(c.items) == 1 and c.base is None:
            t = tt(n)
            return self.ref(SeqC(t, iv(t), c.items[0]))
        self.unsup('repeated list')

    def strop(self, op, a, b):
        if op == '%':
            return self.np.percent(a, b)
        if op == '+':
            if not all(isinstance(x, str) or (isinstance(x, T) and
                                              x.sort in 'so')
                       for x in (a, b)):
                if isinstance(a, Opq) or isinstance(b, Opq):
                    return Opq('object', app('obj:+', self.tot(a),
                                             self.tot(b), sort='o'))
                self.raise_('TypeError', 'can only concatenate str')
            return self.np.strcat([a, b])
        if op == '*' and const(b) is not None and isinstance(a, str):
            return a * const(b)
        if op == '*' and const(a) is not None and isinstance(b, str):
            return b * const(a)
        self.raise_('TypeError', 'unsupported operand of str')

    def arith(self, op, a, b):
        dt = None
        if op == '+':
            f = add
        elif op == '-':
            f = sub
        elif op == '*':
            f = mul
        elif op == '/':
            f = div
            dt = 'f'
        elif op == '**':
            f = X.power
        elif op == '//':
            f = lambda x, y: app('floordiv', x, y)  # noqa
        elif op == '%':
            f = lambda x, y: app('mod', x, y)  # noqa
        elif op in '&|^':
            f = self.bitop(op, a, b)
        else:
            self.unsup('operator ' + op)
        if isinstance(a, (int, float, T)) and isinstance(b, (int, float, T)):
            x, y = tt(a), tt(b)
            if x.sort not in 'ifb' or y.sort not in 'ifb':
                if x.sort == 'o' or y.sort == 'o':
                    return mk('app', 'obj:' + op, (x, y), sort='o')
                self.raise_('TypeError', 'unsupported operand')
            if op in ('/', '//', '%') and numval(y) == 0 and \
                    isinstance(b, int) and isinstance(a, int):
                self.raise_('ZeroDivisionError', 'division by zero')
            r = f(x, y)
            if isinstance(a, float) and op in '+-*' and isinstance(r, T) \
                    and r.op == 'num':
                return float(r.args[0])
            if op == '/' and r.op == 'num':
                return float(r.args[0])
            return fix(r)
        for x in (a, b):
            q = self.av(x)
            if isinstance(q.dt, str) and q.dt in 'so' and op not in '&|^':
                if q.dt == 's':
                    self.raise_('TypeError', 'ufunc not supported for str')
        r = self.emap(f, [a, b], dt)
        return r

    def bitop(self, op, a, b):
        d1, d2 = self.av(a).dt, self.av(b).dt
        if d1 == 'b' and d2 == 'b':
            return {'&': lambda x, y: and_(X.truth(x), X.truth(y)),
                    '|': lambda x, y: or_(X.truth(x), X.truth(y)),
                    '^': lambda x, y: not_(eq(X.truth(x), X.truth(y)))}[op]
        if 'f' in (d1, d2):
            self.raise_('TypeError', 'bitwise operator on float')
        return lambda x, y: app('bit' + op, x, y, sort='i')

    # ---- comparison and truth --------------------------------------------
    def compare(self, op, a, b):
        if op in ('is', 'is not'):
            r = self.is_same(a, b)
            return fix(not_(r)) if op == 'is not' else fix(tt(r))
        if op in ('in', 'not in'):
            r = tt(self.contains(b, a))
            return fix(not_(r) if op == 'not in' else r)
        if isinstance(a, (bool, int, float, str)) and \
                isinstance(b, (bool, int, float, str)):
            try:
                return PYCMP[op](a, b)
            except TypeError:
                self.raise_('TypeError', 'unorderable')
        if isinstance(a, (Arr, AV)) or isinstance(b, (Arr, AV)):
            oc = [x for x in (a, b) if isinstance(x, Arr) and isinstance(
                self.heap[x.cid], CArrCell)]
            if oc and (a is None or b is None):
                return self.np.obj_eq_none(op, oc[0])
            if a is None or b is None:
                o = b if a is None else a
                d = self.av(o)
                return self.arr(d.dims, lambda *i: FALSE if op == '=='
                                else TRUE, 'b')
            return self.map_av(lambda x, y: self.cmpt(op, x, y), [a, b],
                               'b')
        if isinstance(a, (T, int, float, str)) and \
                isinstance(b, (T, int, float, str)):
            return fix(self.cmpt(op, tt(a), tt(b)))
        if op in ('==', '!='):
            r = self.equal(a, b)
            return fix(not_(r)) if op == '!=' else fix(tt(r))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return fix(self.lex(op, list(a), list(b)))
        if a is None or b is None:
            self.raise_('TypeError', 'unorderable types')
        if isinstance(a, Opq) or isinstance(b, Opq):
            return app('obj:' + op, self.tot(a), self.tot(b), sort='b')
        self.unsup('comparison of %r and %r' % (a, b))

    def lex(self, op, a, b):
        if not a or not b:
            r = PYCMP[op](len(a), len(b))
            return tt(r)
        e = tt(self.equal(a[0], b[0]))
        return ite(e, self.lex(op, a[1:], b[1:]),
                   tt(self.compare(op, a[0], b[0])))

    def cmpt(self, op, x, y):
        if op == '==':
            return eq(x, y)
        if op == '!=':
            return not_(eq(x, y))
        nx, ny = x.sort in 'ifb', y.sort in 'ifb'
        if nx != ny and 'o' not in (x.sort, y.sort):
            self.raise_('TypeError', 'unorderable types')
        if op == '<':
            return lt(x, y)
        if op == '<=':
            return le(x, y)
        if op == '>':
            return lt(y, x)
        return le(y, x)

    def equal(self, a, b):
        if a is None or b is None:
            if isinstance(a, T) and a.sort == 'o' or \
                    isinstance(b, T) and b.sort == 'o':
                return eq(tt(a), tt(b))
            return TRUE if a is None and b is None else FALSE
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            return and_(*[tt(self.equal(x, y)) for x, y in zip(a, b)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return TRUE
            ca, cb = self.cell(a), self.cell(b)
            if isinstance(ca, ListC) and isinstance(cb, ListC) and \
                    ca.base is None and cb.base is None:
                if len(ca.items) != len(cb.items):
                    return FALSE
                return and_(*[tt(self.equal(x, y))
                              for x, y in zip(ca.items, cb.items)])
            if isinstance(ca, SetC) and isinstance(cb, SetC):
                if all(isinstance(x, (int, str, bool))
                       for x in ca.items + cb.items):
                    return TRUE if set(ca.items) == set(cb.items) else FALSE
            if type(ca) is not type(cb):
                if isinstance(ca, (ListC, DictC, SetC)) and isinstance(
                        cb, (ListC, DictC, SetC)):
                    return FALSE
            self.unsup('equality of objects')
        if isinstance(a, (Ext, ClassV, Func, DtypeV, ModV)) or \
                isinstance(b, (Ext, ClassV, Func, DtypeV, ModV)):
            return self.np.dtype_eq(a, b)
        if isinstance(a, Opq) or isinstance(b, Opq):
            return eq(self.tot(a), self.tot(b))
        if is_scalar(a) and is_scalar(b):
            return eq(tt(a), tt(b))
        if isinstance(a, Ref) and is_scalar(b) or isinstance(b, Ref) and \
                is_scalar(a):
            return FALSE
        if isinstance(a, tuple) != isinstance(b, tuple):
            return FALSE
        self.unsup('equality of %r and %r' % (a, b))

    def is_same(self, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            self.unsup('poison')
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return TRUE
            if isinstance(o, T):
                if o.sort == 'o':
                    return eq(o, tt(None))
            if isinstance(o, Opq):
                if o.term.op == 'none':
                    return TRUE
                if o.term.sort == 'o' and o.cls == 'object?':
                    return eq(o.term, tt(None))
            return FALSE
        if isinstance(a, bool) and isinstance(b, bool):
            return TRUE if a == b else FALSE
        if isinstance(a, (bool, T)) and isinstance(b, (bool, T)):
            return eq(tt(a), tt(b))
        if isinstance(a, (Ref, Arr, Ext, Opq, Func, ClassV, ModV)) and \
                isinstance(b, (Ref, Arr, Ext, Opq, Func, ClassV, ModV)):
            if isinstance(a, Opq) and isinstance(b, Opq):
                return eq(a.term, b.term)
            if isinstance(a, (Func, ClassV, ModV)):
                return TRUE if a is b else FALSE
            return TRUE if a == b else FALSE
        if isinstance(a, type(b)) and is_scalar(a):
            return eq(tt(a), tt(b))
        return FALSE

    def contains(self, c, x):
        x = self.scalarize(x)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            self.unsup('substring test')
        if isinstance(c, tuple):
            return or_(*[tt(self.equal(x, y)) for y in c])
        if isinstance(c, Ref):
            k = self.cell(c)
            if isinstance(k, (ListC, SetC)) and getattr(
                    k, 'base', None) is None:
                return or_(*[tt(self.equal(x, self.scalarize(y)))
                             for y in k.items])
            if isinstance(k, DictC) and k.base is None:
                return or_(*[tt(self.equal(x, y)) for y, _ in k.items])
            if isinstance(k, DictS):
                return X.dhas(k.term, tt(x))
            if isinstance(k, SeqC) and is_scalar(k.item):
                return X.any_(k.v, k.n, eq(tt(k.item), tt(x)))
            if isinstance(k, Inst):
                m = self.lookup_opt(c, '__contains__')
                if m is not None:
                    return self.truth(self.call(m, [x], {}))
        if isinstance(c, DictView):
            if c.what == 'keys':
                return self.contains(c.ref, x)
            it = self.iterate(c)
            if it[0] == 'list':
                return or_(*[tt(self.equal(x, y)) for y in it[1]])
        if isinstance(c, RangeV) and is_num(x):
            if const(c.step) == 1:
                return and_(le(tt(c.start), tt(x)), lt(tt(x), tt(c.stop)),
                            eq(app('floor', tt(x)), tt(x)))
        if isinstance(c, Arr):
            a = self.av(c)
            w = [iv(d) for d in a.dims]
            r = eq(a.at(*w), tt(x))
            for v, d in zip(w, a.dims):
                r = X.any_(v, d, r)
            return r
        if isinstance(c, Opq):
            return app('obj:in', self.tot(x), c.term, sort='b')
        self.unsup('membership in %r' % (c,))

    def truth(self, v):
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, float, str)) or v is None:
            return TRUE if v else FALSE
        if isinstance(v, T):
            return X.truth(v)
        if isinstance(v, tuple):
            return TRUE if v else FALSE
        if isinstance(v, Arr):
            c = self.heap[v.cid]
            a = self.av(v)
            if not a.dims:
                return X.truth(a.body)
            if all(numval(d) == 1 for d in a.dims):
                return X.truth(a.at(*[ZERO] * len(a.dims)))
            if all(numval(d) is not None for d in a.dims):
                if any(numval(d) == 0 for d in a.dims):
                    return FALSE
                self.raise_('ValueError', 'The truth value of an array is '
                            'ambiguous')
            self.unsup('truth value of an array')
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, (ListC, DictC)):
                if c.base is not None:
                    self.unsup('truth of a partial container')
                return TRUE if c.items else FALSE
            if isinstance(c, SetC):
                return TRUE if c.items else FALSE
            if isinstance(c, SeqC):
                return lt(ZERO, c.n)
            if isinstance(c, DictS):
                return lt(ZERO, mk('dlen', c.term, sort='i'))
            if isinstance(c, Inst):
                for n in ('__bool__', '__nonzero__'):
                    m = self.lookup_opt(v, n)
                    if m is not None:
                        return self.truth(self.call(m, [], {}))
                m = self.lookup_opt(v, '__len__')
                if m is not None:
                    return self.truth(self.call(m, [], {}))
            return TRUE
        if isinstance(v, Opq):
            if v.cls in ('object?',):
                return app('obj:truth', v.term, sort='b')
            if v.cls in ('list?', 'str?'):
                return app('obj:truth', v.term, sort='b')
            return TRUE
        if isinstance(v, DictView):
            return self.truth(v.ref)
        return TRUE

    # ==================================================================
    # attributes
    def find_class(self, cls, name, after=None):
        mro = cls.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, ClassV):
                v = self.over_get(c, name)
                if v is not UNDEF:
                    return v, c
            else:
                r = self.np.ext_class_attr(c, name)
                if r is not None:
                    return r, c
        return None, None

    def bind(self, v, o, cls):
        if isinstance(v, Func):
            if v.kind == 'staticmethod':
                return v
            if v.kind == 'classmethod':
                return Bound(cls, v)
            if v.kind == 'property':
                if o is None:
                    return v
                return self.call(v, [o], {})
            if o is not None:
                return Bound(o, v)
        elif isinstance(v, Ext) and o is not None and \
                v.name.startswith('method:'):
            return Meth(o, v.name[7:])
        return v

    def get_attr(self, o, name):
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, Inst):
                if name in c.attrs:
                    return self.live(c.attrs[name], name)
                if name == '__class__':
                    return c.cls
                if name == '__dict__':
                    self.unsup('__dict__')
                v, k = self.find_class(c.cls, name)
                if k is None and name == '__module__':
                    return getattr(c.cls.module, 'name', c.cls.module)
                if k is not None:
                    return self.bind(v, o, c.cls)
                m, k = self.find_class(c.cls, '__getattr__')
                if k is not None:
                    return self.call(Bound(o, m), [name], {})
                self.raise_('AttributeError', '%s has no attribute %s' %
                            (c.cls.name, name))
            return self.np.cell_attr(o, c, name)
        if isinstance(o, SuperV):
            obj = o.obj
            cls = self.cell(obj).cls if isinstance(obj, Ref) else obj
            v, k = self.find_class(cls, name, after=o.cls)
            if k is None:
                if name == '__init__':
                    return Ext('builtins.object.__init__')
                self.raise_('AttributeError', name)
            return self.bind(v, obj, cls)
        if isinstance(o, ModV):
            v = self.over_get(o, name)
            if v is UNDEF:
                m = self.world.submodule(o, name, self)
                if m is not None:
                    return m
                if name == '__name__':
                    return o.name
                if name == '__file__':
                    return o.path
                if name == '__doc__':
                    return 'doc'
                self.raise_('AttributeError', 'module %s has no attribute '
                            '%s' % (o.name, name))
            return self.live(v, name)
        if isinstance(o, ClassV):
            if name in ('__name__', '__qualname__'):
                return o.name
            v, k = self.find_class(o, name)
            if k is None and name == '__module__':
                return getattr(o.module, 'name', o.module)
            if k is None:
                if name == '__init__':
                    return Ext('builtins.object.__init__')
                self.raise_('AttributeError', name)
            return self.bind(v, None, o)
        if isinstance(o, Ext):
            return self.np.ext_attr(o, name)
        if isinstance(o, Func):
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__doc__':
                return 'doc'
            if name == '__module__':
                return getattr(o.module, 'name', o.module)
            self.raise_('AttributeError', name)
        if isinstance(o, ExcV):
            if name == 'args':
                return tuple(o.eargs)
            self.unsup('attribute of an exception')
        if isinstance(o, Bound):
            if name == '__name__':
                return o.func.name
            if name == '__self__':
                return o.self_
        return self.np.attr(o, name)

    def set_attr(self, o, name, v):
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, Inst):
                a = dict(c.attrs)
                a[name] = v
                self.heap[o.id] = Inst(c.cls, a)
                return
        if isinstance(o, Arr) and name == 'shape':
            self.unsup('assignment of shape')
        if isinstance(o, ModV) and not self.oracles:
            o.ns[name] = v
            return
        if isinstance(o, (ModV, ClassV)) and o.over is not None:
            return self.over_set(o, name, v)
        self.unsup('attribute assignment to %r' % (o,))

    def lookup_opt(self, o, name):
        c = self.cell(o)
        if isinstance(c, Inst):
            if name in c.attrs:
                return c.attrs[name]
            v, k = self.find_class(c.cls, name)
            if k is not None and isinstance(k, ClassV):
                return self.bind(v, o, c.cls)
        return None

    # ==================================================================
    # calls
    def call(self, f, args, kw):
        self.calls += 1
        if isinstance(f, Func):
            return self.call_func(f, list(args), dict(kw))
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_] + list(args), dict(kw))
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Partial):
            k = dict(f.kwargs)
            k.update(kw)
            return self.call(f.func, list(f.args) + list(args), k)
        if isinstance(f, Ext):
            n = f.name
            if n == 'builtins.object.__init__':
                return None
            if n.startswith('builtins.'):
                b = n[9:]
                if b in EXC_PARENT or b == 'BaseException':
                    return ExcV(b, tuple(args))
            return self.np.call(f, args, kw)
        if isinstance(f, Meth):
            return self.np.method(f.obj, f.name, args, kw)
        if isinstance(f, Opq):
            return self.np.call_opq(f, args, kw)
        if isinstance(f, Ref) and isinstance(self.cell(f), Inst):
            m = self.lookup_opt(f, '__call__')
            if m is not None:
                return self.call(m, args, kw)
        if f is None or isinstance(f, (int, float, str, tuple, Ref, Arr)):
            self.raise_('TypeError', 'object is not callable')
        self.unsup('call of %r' % (f,))

    def instantiate(self, c, args, kw):
        for b in c.mro:
            if isinstance(b, Ext):
                if b.name.startswith('builtins.') and \
                        b.name[9:] in EXC_PARENT:
                    return ExcV(c, tuple(args))
        new, k = self.find_class(c, '__new__')
        if k is not None:
            self.unsup('__new__')
        # abstract methods
        names = set()
        for b in reversed(c.mro):
            if isinstance(b, ClassV):
                for n, v in b.ns.items():
                    if isinstance(v, Func) and getattr(v, 'abstract', False):
                        names.add(n)
                    else:
                        names.discard(n)
        if names:
            self.raise_('TypeError', 'abstract class %s: %s' % (
                c.name, sorted(names)))
        r = self.ref(Inst(c, {}))
        init, k = self.find_class(c, '__init__')
        if isinstance(init, Func):
            self.call_func(init, [r] + list(args), dict(kw))
        elif isinstance(init, Ext):
            self.np.method(r, init.name, args, kw)
        elif args or kw:
            self.raise_('TypeError', c.name + '() takes no arguments')
        return r

    def bindargs(self, f, args, kw):
        a = f.node.args
        names = [p.arg for p in getattr(a, 'posonlyargs', [])] + \
            [p.arg for p in a.args]
        env = {}
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_('TypeError', '%s() takes %d positional arguments '
                            'but %d were given' % (f.name, len(names),
                                                   len(args)))
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        for k in list(kw):
            if k in names or k in [p.arg for p in a.kwonlyargs]:
                if k in env:
                    self.raise_('TypeError', '%s() got multiple values for '
                                'argument %s' % (f.name, k))
                env[k] = kw.pop(k)
        if kw:
            if a.kwarg is None:
                self.raise_('TypeError', '%s() got an unexpected keyword '
                            'argument %s' % (f.name, sorted(kw)[0]))
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.ref(DictC(list(kw.items())))
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in env:
                j = i - (len(names) - nd)
                if j < 0:
                    self.raise_('TypeError', '%s() missing a required '
                                'argument: %s' % (f.name, n))
                env[n] = f.defaults[j]
        for p in a.kwonlyargs:
            if p.arg not in env:
                if p.arg not in f.kwdefaults:
                    self.raise_('TypeError', '%s() missing a required '
                                'argument: %s' % (f.name, p.arg))
                env[p.arg] = f.kwdefaults[p.arg]
        return env

    def call_func(self, f, args, kw):
        h = self.hooks.get((f.module.name if f.module else '', f.qual()))
        if h is not None:
            r = h(self, f, args, kw)
            if r is not NotImplemented:
                return r
        env = self.bindargs(f, args, kw)
        if self.depth > MAXDEPTH:
            self.unsup('deep recursion of ' + f.name)
        if f.module is not None:
            key = '%s:%s' % (f.module.name, f.qual())
            self.analysed[key] = self.analysed.get(key, 0) + 1
        loc = self.loc
        gen = f.gen
        if gen is None:
            gen = f.gen = (not isinstance(f.node, ast.Lambda) and
                           own_yield(f.node))
        heap0 = dict(self.heap) if gen else None

        def go():
            fr = Frame(dict(env), f, f.module)
            self.frames.append(fr)
            self.depth += 1
            n = len(self.frames)
            nh = len(self.handlers)
            try:
                if isinstance(f.node, ast.Lambda):
                    return self.ev(f.node.body)
                try:
                    self.block(f.node.body)
                    r = None
                except Return_ as e:
                    r = e.value
                if gen:
                    return fr.env.get('$yields', ())
                return r
            finally:
                self.depth -= 1
                del self.handlers[nh:]
                if len(self.frames) >= n:
                    del self.frames[n - 1:]
        r = self.branch(go)
        self.loc = loc
        if gen:
            return self.mkgen(r, heap0)
        return r

    def mkgen(self, ys, heap0):
        final = dict(self.heap)
        prev = heap0
        ups = []
        for y in ys:
            ups.append({k: c for k, c in y.heap.items()
                        if k in heap0 and prev.get(k) is not c and
                        not isinstance(c, RNGCell)})
            prev = y.heap
        # cells created by the generator keep the state of the first yield
        last = {k: c for k, c in final.items()
                if prev.get(k) is not c and not isinstance(c, RNGCell)}
        prev = None
        for i, y in enumerate(ys):
            if prev is not None:
                ups[i].update({k: c for k, c in y.heap.items()
                               if prev.get(k) is not c and
                               not isinstance(c, RNGCell)})
            prev = y.heap
        if ys:
            for k, c in ys[0].heap.items():
                if k not in heap0 and not isinstance(c, RNGCell):
                    self.heap[k] = c
        for k, c in heap0.items():
            if not isinstance(c, RNGCell):
                self.heap[k] = c
        return self.ref(IterC([y.value for y in ys], 0, (ups, last)))

    def gen_next(self, r):
        """next item of an iterator, or None when exhausted"""
        c = self.cell(r)
        if c.pos >= len(c.items):
            if c.updates is not None and c.pos == len(c.items):
                self.heap.update(c.updates[1])
                self.heap[r.id] = IterC(c.items, c.pos + 1, c.updates)
            return None
        if c.updates is not None:
            self.heap.update(c.updates[0][c.pos])
        v = c.items[c.pos]
        self.heap[r.id] = IterC(c.items, c.pos + 1, c.updates)
        return (v,)

    # ==================================================================
    # iteration
    def iterate(self, x):
        """('list', values[, stepper]) or ('sym', n, item function)"""
        if isinstance(x, tuple):
            return ('list', list(x))
        if isinstance(x, str):
            return ('list', list(x))
        if isinstance(x, RangeV):
            a, b, s = const(x.start), const(x.stop), const(x.step)
            if a is not None and b is not None and s is not None:
                for q in (a, b, s):
                    if isinstance(q, float):
                        self.raise_('TypeError', 'float in range')
                r = range(int(a), int(b), int(s))
                if len(r) > MAXUNROLL:
                    n = num(len(r))
                    return ('sym', n, lambda v: fix(add(num(a), mul(
                        num(s), tt(v)))))
                return ('list', list(r))
            n, f = self.seq(x)
            return ('sym', n, f)
        if isinstance(x, EnumV):
            it = self.iterate(x.it)
            if it[0] == 'list':
                if len(it) > 2:
                    def gen():
                        for i, y in enumerate(it[2]()):
                            yield (self.binop('+', x.start, i), y)
                    return ('list', it[1], gen)
                return ('list', [(self.binop('+', x.start, i), y)
                                 for i, y in enumerate(it[1])])
            return ('sym', it[1], lambda v: (
                fix(add(tt(x.start), tt(v))), it[2](v)))
        if isinstance(x, ZipV):
            its = [self.iterate(y) for y in x.its]
            if all(i[0] == 'list' for i in its):
                return ('list', [tuple(y) for y in zip(*[i[1]
                                                         for i in its])])
            con = [len(i[1]) for i in its if i[0] == 'list']
            syms = [i[1] for i in its if i[0] != 'list']

            def item(i, v):
                if i[0] == 'list':
                    return i[1][const(v)]
                return i[2](v)
            if con:
                m = min(con)
                for s in syms:
                    self.partial(le(num(m), s), 'Truncated', 'zip')
                return ('list', [tuple(item(i, num(k)) for i in its)
                                 for k in range(m)])
            n = syms[0]
            for s in syms[1:]:
                if s is not n:
                    n = app('min2', n, s)
            return ('sym', n, lambda v: tuple(i[2](v) for i in its))
        if isinstance(x, DictView):
            c = self.cell(x.ref)
            if isinstance(c, DictC) and c.base is None:
                if x.what == 'keys':
                    return ('list', [k for k, v in c.items])
                if x.what == 'values':
                    return ('list', [v for k, v in c.items])
                return ('list', [(k, v) for k, v in c.items])
            if isinstance(c, DictS):
                return self.np.iter_dicts(c, x.what)
            self.unsup('iteration over a dictionary')
        if isinstance(x, Ref):
            c = self.cell(x)
            if isinstance(c, (ListC, SetC)):
                if getattr(c, 'base', None) is not None:
                    self.unsup('iteration over a partial list')
                return ('list', list(c.items))
            if isinstance(c, DictC) and c.base is None:
                return ('list', [k for k, v in c.items])
            if isinstance(c, DictS):
                return self.np.iter_dicts(c, 'keys')
            if isinstance(c, SeqC):
                return ('sym', c.n, lambda v: self.subst_value(
                    c.item, {c.v.id: tt(v)}))
            if isinstance(c, IterC):
                def gen():
                    while True:
                        y = self.gen_next(x)
                        if y is None:
                            return
                        yield y[0]
                if c.updates is None:
                    items = list(c.items[c.pos:])
                    self.heap[x.id] = IterC(c.items, len(c.items), None)
                    return ('list', items)
                return ('list', list(c.items[c.pos:]), gen)
            if isinstance(c, Inst):
                m = self.lookup_opt(x, '__iter__')
                if m is not None:
                    return self.iterate(self.call(m, [], {}))
        if isinstance(x, Arr):
            c = self.heap[x.cid]
            if isinstance(c, CArrCell) and x.view is None:
                if len(c.shape) == 1:
                    return ('list', list(c.vals))
            a = self.read(x)
            if not a.dims:
                self.raise_('TypeError', 'iteration over a 0-d array')
            k = numval(a.dims[0])
            if isinstance(k, int) and k <= MAXUNROLL:
                return ('list', [self.getitem(x, i) for i in range(k)])
            d = a.dims[0]
            return ('sym', d, lambda v: self.getitem(x, v))
        if isinstance(x, Opq):
            return self.np.iter_opq(x)
        if x is None or isinstance(x, (int, float, bool)) or \
                (isinstance(x, T) and x.sort in 'ifb'):
            self.raise_('TypeError', 'object is not iterable')
        self.unsup('iteration over %r' % (x,))

    def seq(self, x):
        """(n, f) of a range"""
        a, b, s = tt(x.start), tt(x.stop), const(x.step)
        for q in (a, b):
            if q.sort == 'f':
                self.raise_('TypeError', 'float in range')
        if s == 1:
            n = sub(b, a)
            if not X.nonneg(n):
                n = app('max2', n, ZERO)
            return n, lambda v: fix(add(a, tt(v)))
        if s == -1:
            n = sub(a, b)
            if not X.nonneg(n):
                n = app('max2', n, ZERO)
            return n, lambda v: fix(sub(a, tt(v)))
        if s is not None and s > 1:
            n = app('floordiv', add(sub(b, a), num(s - 1)), num(s))
            if not X.nonneg(n):
                n = app('max2', n, ZERO)
            return n, lambda v: fix(add(a, mul(num(s), tt(v))))
        self.unsup('range')

    # ==================================================================
    # subscripts
    def dfind(self, c, k):
        """index of a key in a dictionary of known keys (decides)"""
        k = self.scalarize(k)
        if isinstance(k, Ref) and isinstance(self.cell(k),
                                             (ListC, DictC, SetC)):
            self.raise_('TypeError', 'unhashable type')
        if isinstance(k, Arr):
            self.raise_('TypeError', 'unhashable type: numpy.ndarray')
        for i, (a, b) in enumerate(c.items):
            e = tt(self.equal(a, k)) if not (a is k) else TRUE
            if e is TRUE:
                return i
            if e is FALSE:
                continue
            if self.decide(e):
                return i
        if c.base is not None:
            self.unsup('lookup in a partial dictionary')
        return None

    def getsub(self, o, k):
        if isinstance(o, Arr):
            c = self.heap[o.cid]
            if isinstance(k, str):
                return self.np.field(o, k)
            if isinstance(c, CArrCell) and o.view is None:
                return self.get_obj(o, c, k)
            return self.getitem(o, k)
        if isinstance(o, (SegStruct, SegField)):
            return self.np.seg_index(o, k)
        if isinstance(o, tuple):
            return self.list_get(list(o), k, tuple)
        if isinstance(o, str):
            if isinstance(k, slice) or const(k) is not None:
                try:
                    return o[k]
                except IndexError:
                    self.raise_('IndexError', 'string index')
            self.unsup('string index')
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, ListC):
                if c.base is not None:
                    self.unsup('element of a partial list')
                return self.list_get(c.items, k, None)
            if isinstance(c, DictC):
                i = self.dfind(c, k)
                if i is None:
                    self.raise_('KeyError', k)
                return self.live(c.items[i][1], str(k))
            if isinstance(c, DictS):
                k = self.scalarize(k)
                if not is_scalar(k):
                    self.raise_('TypeError', 'unhashable key')
                self.partial(X.dhas(c.term, tt(k)), 'KeyError', 'key')
                return fix(X.dget(c.term, tt(k), None))
            if isinstance(c, SeqC):
                return self.np.seq_get(c, k)
            if isinstance(c, SpCell):
                return self.np.sp_get(o, c, k)
            if isinstance(c, Inst):
                m = self.lookup_opt(o, '__getitem__')
                if m is not None:
                    return self.call(m, [k], {})
                if 'res' in c.attrs and isinstance(k, str):
                    return self.get_attr(o, k)
                self.raise_('TypeError', 'not subscriptable')
        if isinstance(o, Ext):
            return self.np.ext_sub(o, k)
        if isinstance(o, Opq):
            return self.np.opq_sub(o, k)
        if isinstance(o, RangeV):
            it = self.iterate(o)
            if it[0] == 'list':
                return self.list_get(it[1], k, None)
            return it[2](k)
        if isinstance(o, T):
            if o.sort == 's':
                if self.config.get('texts'):
                    from . import tables
                    r = tables.subscript(self.np, o, k)
                    if r is not NotImplemented:
                        return r
                return mk('app', 'str:index', (o, self.tot_key(k)), sort='s')
            self.raise_('IndexError', 'invalid index to scalar variable')
        if o is None or isinstance(o, (int, float, bool)):
            self.raise_('TypeError', 'object is not subscriptable')
        if isinstance(o, DictView):
            self.raise_('TypeError', 'dict view is not subscriptable')
        self.unsup('subscript of %r' % (o,))

    def tot_key(self, k):
        if isinstance(k, slice):
            return mk('tup', tuple(tt(x) for x in (k.start, k.stop, k.step)),
                      sort='o')
        return tt(k)

    def list_get(self, items, k, kind):
        k = self.scalarize(k)
        if isinstance(k, slice):
            s = slice(*[None if q is None else int(const(q))
                        for q in (k.start, k.stop, k.step)])
            r = items[s]
            return tuple(r) if kind is tuple else self.newlist(r)
        c = const(k)
        if c is not None:
            if isinstance(c, float):
                self.raise_('TypeError', 'list indices must be integers')
            try:
                return items[int(c)]
            except IndexError:
                self.raise_('IndexError', 'list index out of range')
        if isinstance(k, T):
            if k.sort == 'f':
                self.raise_('TypeError', 'list indices must be integers')
            if items and all(is_num(i) for i in items):
                a = self.av_list(items)
                return fix(a.at(self.nidx(k, num(len(items)))))
            n = len(items)
            if n == 0:
                self.raise_('IndexError', 'list index out of range')
            for i in range(n - 1):
                if self.decide(eq(k, num(i))):
                    return items[i]
            self.partial(eq(k, num(n - 1)), 'IndexError', 'list index')
            return items[n - 1]
        if isinstance(k, (str, tuple, Arr)) or k is None:
            self.raise_('TypeError', 'list indices must be integers')
        self.unsup('list index %r' % (k,))

    def setsub(self, o, k, v):
        if isinstance(o, Arr):
            if isinstance(k, str):
                self.unsup('assignment of a field')
            return self.setitem(o, k, v)
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, DictC):
                k = self.scalarize(k)
                if c.base is not None:
                    # inside a loop: keys of this iteration only
                    for i, (a, b) in enumerate(c.items):
                        if tt(self.equal(a, k)) is TRUE:
                            items = list(c.items)
                            items[i] = (a, v)
                            self.heap[o.id] = DictC(items, c.base)
                            return
                    self.heap[o.id] = DictC(c.items + [(k, v)], c.base)
                    return
                if isinstance(k, T) and not c.items and False:
                    pass
                i = self.dfind(c, k)
                items = list(self.cell(o).items)
                if i is None:
                    items.append((k, v))
                else:
                    items[i] = (items[i][0], v)
                self.heap[o.id] = DictC(items, c.base)
                return
            if isinstance(c, DictS):
                k = self.scalarize(k)
                v = self.scalarize(v)
                if not is_scalar(k) or not is_scalar(v):
                    self.unsup('dictionary of objects')
                self.heap[o.id] = DictS(mk('dupd', c.term, tt(k), tt(v),
                                           sort='o'), c.sort)
                return
            full = isinstance(k, slice) and k.step is None and \
                k.stop is None and (k.start is None or (
                    is_scalar(k.start) and const(k.start) == 0))
            if full and isinstance(c, (ListC, SeqC)) and \
                    getattr(c, 'base', None) is None:
                it = self.iterate(v)
                if it[0] == 'list':
                    vals = list(it[2]()) if len(it) > 2 else it[1]
                    self.heap[o.id] = ListC(list(vals))
                else:
                    w = iv(it[1])
                    self.heap[o.id] = SeqC(it[1], w, it[2](w))
                return
            if isinstance(c, ListC) and c.base is None and \
                    isinstance(k, slice):
                q = [x if x is None else const(x)
                     for x in (k.start, k.stop, k.step)]
                it = self.iterate(v)
                if it[0] != 'list' or any(
                        x is not None and y is None
                        for x, y in zip((k.start, k.stop, k.step), q)):
                    self.unsup('list store')
                items = list(c.items)
                vals = list(it[2]()) if len(it) > 2 else list(it[1])
                try:
                    items[slice(*[None if x is None else int(x)
                                  for x in q])] = vals
                except ValueError:
                    self.raise_('ValueError', 'extended slice assignment')
                self.heap[o.id] = ListC(items)
                return
            if isinstance(c, ListC) and c.base is None:
                k = self.scalarize(k)
                n = const(k)
                if n is None or isinstance(k, slice):
                    if isinstance(k, T) and all(is_num(i) for i in c.items) \
                            and is_num(v):
                        e = self.nidx(k, num(len(c.items)))
                        self.heap[o.id] = ListC([
                            fix(ite(eq(e, num(i)), tt(v), tt(x)))
                            for i, x in enumerate(c.items)])
                        return
                    self.unsup('list store')
                items = list(c.items)
                try:
                    items[int(n)] = v
                except IndexError:
                    self.raise_('IndexError', 'list assignment index')
                self.heap[o.id] = ListC(items)
                return
            if isinstance(c, Inst):
                m = self.lookup_opt(o, '__setitem__')
                if m is not None:
                    return self.call(m, [k, v], {})
            if isinstance(c, SeqC):
                return self.np.seq_set(o, c, k, v)
            if isinstance(c, SpCell):
                return self.np.sp_set(o, c, k, v)
        if isinstance(o, (SegStruct, SegField)):
            if isinstance(o, SegField) and const(k) == 0:
                a = self.np.seg_index(o, k)
                return self.setitem(a, slice(None), v)
        if isinstance(o, (tuple, str)) or o is None:
            self.raise_('TypeError', 'object does not support item '
                        'assignment')
        self.unsup('store into %r' % (o,))

    def dict_update(self, d, o):
        c = self.cell(o) if isinstance(o, Ref) else None
        if isinstance(c, DictC) and c.base is None:
            for k, v in c.items:
                self.setsub(d, k, v)
            return
        it = self.iterate(o)
        if it[0] != 'list':
            self.unsup('dictionary update')
        for kv in it[1]:
            kk, vv = self.iterate(kv)[1]
            self.setsub(d, kk, vv)

    # ==================================================================
    def subst_value(self, val, m):
        """value with free index variables replaced"""
        if isinstance(val, T):
            return fix(subst(val, m))
        if is_scalar(val):
            return val
        if isinstance(val, tuple):
            return tuple(self.subst_value(x, m) for x in val)
        if isinstance(val, Arr):
            c = self.heap[val.cid]
            if isinstance(c, CArrCell):
                vs = [self.subst_value(x, m) for x in c.vals]
                if all(a is b for a, b in zip(vs, c.vals)):
                    return val
                return Arr(self.alloc(CArrCell(c.shape, vs)))
            a = self.read(val)
            free = frozenset(m) & (a.body.fv | frozenset().union(
                *[d.fv for d in a.dims]) if a.dims else a.body.fv)
            if not free:
                return val
            b = self.subst_av(a, m)
            return self.new(b)
        if isinstance(val, Ref):
            c = self.cell(val)
            if isinstance(c, ListC):
                vs = [self.subst_value(x, m) for x in c.items]
                if all(a is b for a, b in zip(vs, c.items)):
                    return val
                return self.ref(ListC(vs, c.base))
            if isinstance(c, DictC):
                vs = [(self.subst_value(k, m), self.subst_value(x, m))
                      for k, x in c.items]
                if all(a is b and p is q for (p, a), (q, b) in
                       zip(vs, c.items)):
                    return val
                return self.ref(DictC(vs, c.base))
            if isinstance(c, SeqC):
                n = subst(c.n, m)
                w = iv(n)
                it = self.subst_value(c.item, {c.v.id: w})
                return self.ref(SeqC(n, w, self.subst_value(it, m)))
            if isinstance(c, DictS):
                t = subst(c.term, m)
                return val if t is c.term else self.ref(DictS(t, c.sort))
            if isinstance(c, Inst):
                at = {k: self.subst_value(x, m) for k, x in c.attrs.items()}
                if all(at[k] is c.attrs[k] for k in at):
                    return val
                return self.ref(Inst(c.cls, at))
            if isinstance(c, SpCell):
                b = self.subst_av(c.av, m)
                return self.ref(SpCell(c.fmt, b))
            return val
        if isinstance(val, Opq):
            t = subst(val.term, m)
            return val if t is val.term else Opq(val.cls, t, val.classes)
        if isinstance(val, AV):
            return self.subst_av(val, m)
        return val

    def subst_av(self, a, m):
        ds = [subst(d, m) for d in a.dims]
        ws = [iv(d) for d in ds]
        b = subst(a.body, {v.id: w for v, w in zip(a.ivs, ws)})
        return AV(ds, ws, subst(b, m), a.dt, a.mat)


def own_yield(node):
    """does the function itself (not an inner one) yield?"""
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def local_names(node):
    out = set()
    if isinstance(node, ast.Lambda):
        return set()
    glob = set()
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp,
                          ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return out - glob
