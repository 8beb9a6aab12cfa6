"""Abstract values of the interpreter."""
from . import terms as X
from .terms import T, tt, num, iv, subst, numval, elem, tab


class Unsupported(Exception):
    """the analysis does not model a construct: nothing is concluded"""
    def __init__(self, msg, loc=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.loc = loc


class PyRaise(Exception):
    """a python exception of the analysed program"""
    def __init__(self, exc, args=(), loc=None, implicit=False):
        Exception.__init__(self, exc)
        self.exc = exc            # name of a builtin exception or ClassV
        self.eargs = args
        self.loc = loc
        self.implicit = implicit

    def name(self):
        return self.exc if isinstance(self.exc, str) else self.exc.name


class Undef(object):
    def __repr__(self):
        return '<undef>'


UNDEF = Undef()


class Unknown(object):
    """value of an unmodelled expression at module level"""
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return '<unknown %s>' % self.why


class AV(object):
    """array value: body for every index"""
    __slots__ = ('dims', 'ivs', 'body', 'dt', 'mat')

    def __init__(self, dims, ivs, body, dt, mat=False):
        self.dims = tuple(dims)
        self.ivs = tuple(ivs)
        self.body = body
        self.dt = dt
        self.mat = mat

    @property
    def ndim(self):
        return len(self.dims)

    def at(self, *idx):
        m = {}
        for v, e in zip(self.ivs, idx):
            m[v.id] = tt(e)
        return subst(self.body, m)

    def term(self):
        """the array as a closed term"""
        if not self.dims:
            return self.body
        return X.lam(self.ivs, self.dims, self.body)

    def __repr__(self):
        return 'AV(%s: %s)' % (', '.join('%r<%r' % (v, d) for v, d in
                                         zip(self.ivs, self.dims)), self.body)


def mkav(dims, f, dt, mat=False):
    dims = tuple(tt(d) for d in dims)
    ivs = []
    args = []
    for d in dims:
        v = iv(d)
        ivs.append(v)
        args.append(v)
    body = tt(f(*args))
    return canon(AV(dims, ivs, body, dt, mat))


def canon(a):
    """arrays of small known size are tabulated"""
    ns = [numval(d) for d in a.dims]
    if len(ns) == 1 and isinstance(ns[0], int) and 0 < ns[0] <= 40:
        b = a.body
        if b.op == 'elem' and b.args[0].op == 'tab' and \
                b.args[1][0] is a.ivs[0]:
            return a
        if a.ivs[0].id not in b.fv:
            return a
        if b.op == 'elem' and b.args[0].op in ('asym', 'phi', 'draw') and \
                ns[0] > 4:
            return a
        vals = [a.at(i) for i in range(ns[0])]
        return AV(a.dims, a.ivs, elem(tab(vals), a.ivs[0]), a.dt, a.mat)
    if len(ns) == 2 and ns[0] == 1 and isinstance(ns[1], int) and \
            0 < ns[1] <= 40:
        vals = [a.at(0, i) for i in range(ns[1])]
        return AV(a.dims, a.ivs, elem(tab(vals), a.ivs[1]), a.dt, a.mat)
    return a


def scalar_list(a):
    """values of a one dimensional array of known size, or None"""
    if len(a.dims) != 1:
        return None
    n = numval(a.dims[0])
    if not isinstance(n, int):
        return None
    return [a.at(i) for i in range(max(0, n))]


# ---- heap cells (immutable by convention: writes replace the cell) ---------
class ArrCell(object):
    __slots__ = ('av',)

    def __init__(self, av):
        self.av = av


class CArrCell(object):
    """object array of known size"""
    __slots__ = ('shape', 'vals')

    def __init__(self, shape, vals):
        self.shape = tuple(shape)
        self.vals = list(vals)


class SegCell(object):
    """flat float array made of consecutive segments"""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = list(segs)      # AVs


class ListC(object):
    __slots__ = ('items', 'base')

    def __init__(self, items, base=None):
        self.items = list(items)
        self.base = base            # phi list: unknown earlier content


class SeqC(object):
    """symbolic sequence: item(v) for v in 0..n-1"""
    __slots__ = ('n', 'v', 'item')

    def __init__(self, n, v, item):
        self.n = n
        self.v = v
        self.item = item


class DictC(object):
    __slots__ = ('items', 'base')

    def __init__(self, items, base=None):
        self.items = list(items)    # (key, value)
        self.base = base


class DictS(object):
    """symbolic dictionary"""
    __slots__ = ('term', 'sort')

    def __init__(self, term, sort='i'):
        self.term = term
        self.sort = sort


class SetC(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)


class Inst(object):
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs


class RNGCell(object):
    __slots__ = ('key', 'ctr')

    def __init__(self, key, ctr):
        self.key = key
        self.ctr = ctr


class SpCell(object):
    __slots__ = ('fmt', 'av')

    def __init__(self, fmt, av):
        self.fmt = fmt
        self.av = av


class IterC(object):
    """iterator over known items (values, heap updates)"""
    __slots__ = ('items', 'pos', 'updates')

    def __init__(self, items, pos=0, updates=None):
        self.items = items
        self.pos = pos
        self.updates = updates


# ---- references and immutable values ---------------------------------------
class Ref(object):
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('ref', self.id))

    def __repr__(self):
        return 'Ref%d' % self.id


class View(object):
    __slots__ = ('dims', 'ivs', 'idx')

    def __init__(self, dims, ivs, idx):
        self.dims = tuple(dims)
        self.ivs = tuple(ivs)
        self.idx = tuple(idx)


class Arr(object):
    """reference to an array"""
    __slots__ = ('cid', 'seg', 'view', 'fld')

    def __init__(self, cid, seg=None, view=None, fld=None):
        self.cid = cid
        self.seg = seg
        self.view = view
        self.fld = fld

    def whole(self):
        return self.seg is None and self.view is None and self.fld is None

    def __eq__(self, o):
        return isinstance(o, Arr) and o.cid == self.cid and \
            o.seg == self.seg and o.view is self.view and o.fld == self.fld

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('arr', self.cid))

    def __repr__(self):
        return 'Arr%d%s' % (self.cid, '' if self.seg is None else
                            '.%d' % self.seg)


class SegStruct(object):
    """coef.view(dtype)"""
    __slots__ = ('cid', 'dt')

    def __init__(self, cid, dt):
        self.cid = cid
        self.dt = dt


class SegField(object):
    __slots__ = ('cid', 'k')

    def __init__(self, cid, k):
        self.cid = cid
        self.k = k


class DK(str):
    """kind of a number type that does not hold every value"""
    narrow = None

    def __reduce__(self):
        return (str, (str(self),))


def narrowkind(kind, name):
    k = DK(kind)
    k.narrow = name
    return k


class DtypeV(object):
    """numpy dtype: kind, or fields [(name, kind, dims)]"""
    def __init__(self, kind, fields=None, name=None):
        self.kind = kind
        self.fields = fields
        self.widths = {}
        self.name = name or kind

    def __eq__(self, o):
        return isinstance(o, DtypeV) and o.kind == self.kind and \
            o.fields == self.fields

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return 'dtype(%s)' % (self.fields or self.kind)


class Func(object):
    def __init__(self, node, module, closure, cls=None, name=None,
                 defaults=(), kwdefaults=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.cls = cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.kind = 'plain'
        self.gen = None

    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    def __repr__(self):
        return '<function %s>' % self.qual()


class Bound(object):
    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func

    def __eq__(self, o):
        return isinstance(o, Bound) and o.func is self.func and \
            o.self_ == self.self_

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(id(self.func))

    def __repr__(self):
        return '<bound %s>' % (self.func,)


class ClassV(object):
    def __init__(self, name, bases, ns, module, node):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.over = None
        self.mro = c3(self)

    def __repr__(self):
        return '<class %s>' % self.name


def c3(c):
    seqs = []
    for b in c.bases:
        seqs.append(list(b.mro) if isinstance(b, ClassV) else [b])
    seqs.append(list(c.bases))
    out = [c]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unsupported('inconsistent mro of ' + c.name)
        out.append(h)
        for s in seqs:
            if s[0] == h:
                s.pop(0)


class SuperV(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class ModV(object):
    def __init__(self, name, path, ns):
        self.name = name
        self.path = path
        self.ns = ns
        self.over = None
        self.state = 'new'

    def __repr__(self):
        return '<module %s>' % self.name


class Ext(object):
    """something of an external library, by canonical name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '<ext %s>' % self.name


class Meth(object):
    """bound method of a built-in or external object"""
    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __repr__(self):
        return '<method %s of %r>' % (self.name, self.obj)


class Opq(object):
    """an object of an external class; only its identity is known"""
    def __init__(self, cls, term, classes=()):
        self.cls = cls
        self.term = term
        self.classes = tuple(classes)

    def __eq__(self, o):
        return isinstance(o, Opq) and o.cls == self.cls and \
            o.term is self.term

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.cls)

    def __repr__(self):
        return '<%s %r>' % (self.cls, self.term)


class RangeV(object):
    def __init__(self, start, stop, step):
        self.start = start
        self.stop = stop
        self.step = step


class EnumV(object):
    def __init__(self, it, start=0):
        self.it = it
        self.start = start


class ZipV(object):
    def __init__(self, its):
        self.its = its


class DictView(object):
    def __init__(self, ref, what):
        self.ref = ref
        self.what = what


class Partial(object):
    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs
