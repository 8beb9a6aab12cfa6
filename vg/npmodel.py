"""Meaning of the library functions used by the analysed code."""
import math
from fractions import Fraction

from . import terms as X
from .terms import (T, tt, num, iv, subst, numval, elem, ite, and_, or_, not_,
                    eq, lt, le, add, sub, mul, div, app, ZERO, ONE, TRUE,
                    FALSE, mk, ops_in, replace)
from .values import *  # noqa
from .interp import (is_num, is_scalar, fix, const, join_dt, fieldof,
                     exc_isa, EXC_PARENT, X_RANGE)

_NO = object()


def fdiv(e, k):
    """(e // k, e % k)"""
    e, k = tt(e), tt(k)
    if numval(k) == 1:
        return e, ZERO
    q = []
    r = []
    kn = numval(k)
    for m, c in X.to_poly(e).items():
        if kn is not None:
            if c.denominator == 1 and c.numerator % kn == 0 and all(
                    x > 0 for a, x in m):
                q.append(X.from_poly({m: c / kn}))
                continue
        else:
            km = X.to_poly(k)
            if len(km) == 1:
                (kmono, kc), = km.items()
                d = dict(m)
                if all(d.get(a, 0) >= x for a, x in kmono):
                    q.append(div(X.from_poly({m: c}), k))
                    continue
        r.append(X.from_poly({m: c}))
    r = add(*r) if r else ZERO
    q = add(*q) if q else ZERO
    if r is ZERO:
        return q, ZERO
    if r.op == 'iv' and X.IVDIM.get(r.id) is k:
        return q, r
    if X.nonneg(r) and X.nonneg(sub(sub(k, r), ONE)):
        return q, r
    if q is not ZERO:
        return add(q, app('floordiv', r, k)), app('mod', r, k)
    return app('floordiv', e, k), app('mod', e, k)


def prod_(ds):
    r = ONE
    for d in ds:
        r = mul(r, d)
    return r


class Args(object):
    pass


SIGS = {}


def bindsig(sig, args, kw, interp, name):
    ps = SIGS.get(sig)
    if ps is None:
        ps = []
        for p in sig.split(','):
            p = p.strip()
            if '=' in p:
                a, b = p.split('=')
                ps.append((a, eval(b)))
            elif p:
                ps.append((p, _NO))
        SIGS[sig] = ps
    o = Args()
    if len(args) > len(ps):
        interp.unsup('arguments of ' + name)
    for (p, d), a in zip(ps, args):
        setattr(o, p, a)
    kw = dict(kw)
    for i, (p, d) in enumerate(ps):
        if i < len(args):
            if p in kw:
                interp.raise_('TypeError', 'multiple values for ' + p)
            continue
        if p in kw:
            setattr(o, p, kw.pop(p))
        elif d is _NO:
            interp.raise_('TypeError', '%s: missing argument %s' % (name, p))
        else:
            setattr(o, p, d)
    if kw:
        interp.unsup('argument %s of %s' % (sorted(kw)[0], name))
    return o


U1 = {'log': 'f', 'log2': 'f', 'log10': 'f', 'log1p': 'f', 'exp': 'f',
      'expm1': 'f', 'sqrt': 'f', 'tanh': 'f', 'sin': 'f', 'cos': 'f'}
U2 = {'add': add, 'subtract': sub, 'multiply': mul, 'divide': div,
      'true_divide': div, 'power': X.power, 'float_power': X.power}
CMPU = {'less': '<', 'less_equal': '<=', 'greater': '>',
        'greater_equal': '>=', 'equal': '==', 'not_equal': '!='}

KIND = {'builtins.int': 'i', 'builtins.float': 'f', 'builtins.bool': 'b',
        'builtins.object': 'o', 'builtins.str': 's', 'builtins.bytes': 's',
        'numpy.int_': 'i', 'numpy.int64': 'i', 'numpy.int32': 'i',
        'numpy.int16': 'i', 'numpy.int8': 'i', 'numpy.intp': 'i',
        'numpy.uint8': 'i', 'numpy.uint32': 'i', 'numpy.uint64': 'i',
        'numpy.float64': 'f', 'numpy.float32': 'f', 'numpy.float_': 'f',
        'numpy.bool_': 'b', 'numpy.object_': 'o', 'numpy.str_': 's',
        'numpy.integer': 'i', 'numpy.floating': 'f', 'numpy.double': 'f',
        'numpy.number': 'f', 'numpy.float16': 'f', 'numpy.bytes_': 's'}

# number types that do not hold every value
NARROW = {'int8': 'i1', 'int16': 'i2', 'uint8': 'u1', 'uint16': 'u2',
          'uint32': 'u4', 'uint64': 'u8', 'float32': 'f4', 'float16': 'f2',
          'i1': 'i1', 'i2': 'i2', 'u1': 'u1', 'u2': 'u2', 'u4': 'u4',
          'u8': 'u8', 'f4': 'f4', 'f2': 'f2', 'single': 'f4', 'half': 'f2',
          'byte': 'i1', 'short': 'i2', 'ubyte': 'u1', 'uint': 'u8'}

ARRMETH = {'sum', 'prod', 'max', 'min', 'mean', 'std', 'var', 'any', 'all',
           'argmax', 'argmin', 'astype', 'copy', 'tolist', 'ravel',
           'flatten', 'reshape', 'view', 'squeeze', 'transpose', 'dot',
           'fill', 'sort', 'argsort', 'nonzero', 'item', 'clip', 'round',
           'take', 'cumsum', 'cumprod', 'repeat', 'compress', 'itemset',
           'swapaxes', 'conj', 'toarray', 'todense', 'ptp', 'put',
           'searchsorted', 'diagonal', 'trace', 'tobytes', 'resize',
           '__len__', '__getitem__'}


NPSCALAR = {
    'i': ('numpy.integer', 'numpy.int64', 'numpy.signedinteger',
          'numpy.int_', 'numpy.number', 'numpy.generic', 'numbers.Integral',
          'numbers.Number', 'numbers.Real', 'numbers.Rational',
          'numbers.Complex'),
    'f': ('numpy.floating', 'numpy.float64', 'numpy.inexact',
          'numpy.float_', 'numpy.number', 'numpy.generic', 'builtins.float',
          'numbers.Number', 'numbers.Real', 'numbers.Complex'),
}


class NP(object):
    def __init__(self, interp):
        self.i = interp
        self.nmin = 0
        self.nfresh = 0

    # ==================================================================
    def unsup(self, m):
        self.i.unsup(m)

    def B(self, sig, args, kw, name=''):
        return bindsig(sig, args, kw, self.i, name)

    def dtk(self, x, default=None):
        """kind of a dtype argument"""
        if x is None:
            return default
        if isinstance(x, Ext):
            k = KIND.get(x.name)
            if k is None:
                self.unsup('dtype ' + x.name)
            nw = NARROW.get(x.name.rpartition('.')[2])
            return k if nw is None else narrowkind(k, nw)
        if isinstance(x, DtypeV):
            return x.kind if not x.fields else x
        if isinstance(x, str) and not isinstance(x, DK):
            s = x.lstrip('<>=|')
            nw = NARROW.get(s)
            if nw is not None:
                return narrowkind(nw[0].replace('u', 'i'), nw)
            if s in ('int', 'float', 'bool', 'object', 'str'):
                return s[0] if s != 'object' else 'o'
            if s.startswith(('int', 'uint')):
                return 'i'
            if s.startswith('float') or s == 'double':
                return 'f'
            if s == '?' or s.startswith('b1'):
                return 'b'
            if s[:1] in 'iul':
                return 'i'
            if s[:1] in 'fd':
                return 'f'
            if s[:1] in 'SU':
                return 's'
            if s[:1] == 'O':
                return 'o'
        if isinstance(x, Ref) and isinstance(self.i.cell(x), ListC):
            return self.mkdtype(x)
        self.unsup('dtype %r' % (x,))

    def bytesof(self, k):
        """number of bytes of one element"""
        if isinstance(k, DtypeV):
            if not k.fields:
                return self.bytesof(k.kind)
            return add(*[mul(tt(self.bytesof(kk)), prod_(d))
                         for (_, kk, d) in k.fields])
        nw = getattr(k, 'narrow', None)
        if nw is not None:
            return num(int(NARROW.get(nw, nw)[1:]))
        if k in ('i', 'f', 'o', 'b'):
            return num(1 if k == 'b' else 8)
        self.unsup('size of a dtype')

    def mkdtype(self, x):
        if isinstance(x, DtypeV):
            return x
        if isinstance(x, Ref) and isinstance(self.i.cell(x), ListC) or \
                isinstance(x, tuple):
            items = self.i.iterate(x)[1]
            fields = []
            widths = {}
            for it in items:
                t = self.i.iterate(it)[1]
                name = t[0]
                if isinstance(t[1], str) and t[1].lstrip('<>=|')[:1] in \
                        'SU' and t[1].lstrip('<>=|')[1:].isdigit():
                    widths[name] = int(t[1].lstrip('<>=|')[1:])
                k = self.dtk(t[1])
                dims = ()
                if len(t) > 2:
                    d = t[2]
                    if isinstance(d, (tuple,)):
                        dims = tuple(tt(q) for q in d)
                    elif isinstance(d, Ref):
                        dims = tuple(tt(q) for q in self.i.iterate(d)[1])
                    else:
                        dims = (tt(d),)
                fields.append((name, k, dims))
            r = DtypeV('V', fields)
            r.widths = widths
            return r
        return DtypeV(self.dtk(x))

    # ==================================================================
    # attributes
    def ext_class_attr(self, c, name):
        base = c.name.split('.')[-1]
        if base == 'BaseEstimator' and name in ('get_params', 'set_params'):
            return Ext('method:' + name)
        if base == 'Bunch' and name in ('get',):
            return Ext('method:' + name)
        return None

    def ext_attr(self, e, name):
        n = e.name + '.' + name
        consts = {'numpy.inf': float('inf'), 'numpy.nan': float('nan'),
                  'numpy.pi': math.pi, 'numpy.e': math.e,
                  'math.pi': math.pi, 'math.e': math.e,
                  'math.inf': float('inf'), 'numpy.Inf': float('inf'),
                  'math.nan': float('nan')}
        if n in consts:
            return consts[n]
        if n == 'numpy.newaxis':
            return None
        if n == 'numpy.NaN' or n in ('numpy.int', 'numpy.float',
                                     'numpy.object', 'numpy.str'):
            self.i.raise_('AttributeError', n)
        cf = self.i.config.get('attr', {}).get(n)
        if cf is not None:
            return cf(self.i) if callable(cf) else cf
        if name == '__name__':
            return e.name.split('.')[-1]
        if n in ('sys.stdin', 'sys.stdout', 'sys.stderr', 'sys.argv',
                 'os.environ', 'sys.path'):
            return Opq('object', mk('sym', n, sort='o'))
        if n == 'os.sep':
            return '/'
        if name.startswith('__') and name.endswith('__') and \
                name not in ('__init__',):
            return Opq('object', mk('sym', n, sort='o'))
        return Ext(n)

    def attr(self, o, name):
        I = self.i
        if isinstance(o, Arr):
            return self.arr_attr(o, name)
        if isinstance(o, DtypeV):
            if name == 'names':
                return tuple(f[0] for f in o.fields) if o.fields else None
            if name == 'kind':
                return o.kind if o.kind != 's' else 'U'
            if name == 'fields':
                if not o.fields:
                    return None
            if name == 'type':
                for k, v in (('numpy.int64', 'i'), ('numpy.float64', 'f'),
                             ('numpy.bool_', 'b')):
                    if o.kind == v:
                        return Ext(k)
            if name == 'itemsize':
                return fix(self.bytesof(o))
            if name in ('subdtype', 'metadata') and not o.widths:
                return None
            if name == 'shape':
                return ()
            if name == 'isbuiltin':
                return 0 if o.fields else 1
            if name == 'hasobject' and not o.fields:
                return o.kind == 'o'
            self.unsup('attribute %s of a dtype' % name)
        if isinstance(o, (str,)) or isinstance(o, T) and o.sort == 's':
            if not hasattr('', name):
                I.raise_('AttributeError', 'str has no attribute ' + name)
            return Meth(o, name)
        if isinstance(o, tuple):
            if name in ('index', 'count'):
                return Meth(o, name)
            I.raise_('AttributeError', name)
        if isinstance(o, (T, int, float)):
            if name in ('real',):
                return o
            if name == 'ndim':
                return 0
            if name == 'shape':
                return ()
            if name == 'size':
                return 1
            if name == 'dtype':
                s = tt(o).sort
                return DtypeV('f' if isinstance(o, float) else s)
            return Meth(o, name)
        if isinstance(o, Opq):
            cf = I.config.get('opqattr')
            if cf is not None:
                r = cf(I, o, name)
                if r is not None:
                    return r
            if o.cls == 'numpy.void' and o.classes:
                pass
            if o.cls.startswith('logging'):
                return Meth(o, name)
            if (o.cls in ('numpy.ndarray', 'numpy.int64', 'numpy.float64')
                    or 'numpy.generic' in o.classes) \
                    and name in ('item', 'tolist', 'astype'):
                return Meth(o, name)
            return Opq('object?', app('attr:' + name, o.term, sort='o'))
        if o is None:
            I.raise_('AttributeError', 'NoneType has no attribute ' + name)
        if isinstance(o, (SegStruct,)):
            self.unsup('attribute of a structured view')
        if isinstance(o, DictView):
            I.raise_('AttributeError', name)
        if isinstance(o, (Meth, Ext, Bound)):
            if name == '__name__':
                return getattr(o, 'name', '?')
        self.unsup('attribute %s of %r' % (name, o))

    def arr_attr(self, a, name):
        I = self.i
        c = I.heap[a.cid]
        if isinstance(c, CArrCell) and a.view is None:
            if name == 'shape':
                return tuple(c.shape)
            if name == 'ndim':
                return len(c.shape)
            if name == 'size':
                r = 1
                for d in c.shape:
                    r *= d
                return r
            if name == 'dtype':
                return DtypeV('o')
            if name in ARRMETH:
                return Meth(a, name)
            self.unsup('attribute %s of an object array' % name)
        av = I.read(a)
        if name == 'shape':
            return tuple(fix(d) for d in av.dims)
        if name == 'ndim':
            return len(av.dims)
        if name == 'size':
            return fix(prod_(av.dims))
        if name == 'dtype':
            return av.dt if isinstance(av.dt, DtypeV) else DtypeV(av.dt)
        if name == 'T':
            return self.transpose(a)
        if name in ('A', 'A1') and av.mat:
            b = AV(av.dims, av.ivs, av.body, av.dt)
            if name == 'A':
                return I.new(b)
            return self.reshape(I.new(b), (-1,))
        if name in ('itemsize', 'nbytes'):
            n = self.bytesof(av.dt)
            return fix(n if name == 'itemsize' else
                       mul(tt(n), prod_(av.dims)))
        if name == 'flat':
            self.unsup('flat')
        if name == 'real':
            return a
        if name in ARRMETH:
            return Meth(a, name)
        if isinstance(av.dt, DtypeV) and av.dt.fields:
            pass
        I.raise_('AttributeError', 'ndarray has no attribute ' + name)

    def cell_attr(self, r, c, name):
        I = self.i
        if isinstance(c, SpCell):
            if name == 'shape':
                return tuple(fix(d) for d in c.av.dims)
            if name == 'T':
                a = c.av
                return I.ref(SpCell(c.fmt, AV(a.dims[::-1], a.ivs[::-1],
                                              a.body, a.dt)))
            if name == 'dtype':
                return DtypeV(c.av.dt)
            if name == 'nnz':
                return self.sp_nnz(c)
            if name == 'ndim':
                return 2
            if name == 'format':
                return c.fmt
            if name in ('indices', 'indptr', 'data', 'row', 'col'):
                self.unsup('internals of a sparse matrix')
            return Meth(r, name)
        if isinstance(c, RNGCell):
            return Meth(r, name)
        if isinstance(c, (ListC, SeqC)):
            if name in ('append', 'extend', 'insert', 'pop', 'index', 'count',
                        'sort', 'reverse', 'copy', 'remove', 'clear',
                        '__len__', '__getitem__', '__iter__'):
                return Meth(r, name)
            I.raise_('AttributeError', 'list has no attribute ' + name)
        if isinstance(c, (DictC, DictS)):
            if name in ('get', 'items', 'keys', 'values', 'update', 'pop',
                        'setdefault', 'copy', 'clear', '__contains__',
                        '__getitem__', '__len__', 'popitem', '__setitem__'):
                return Meth(r, name)
            I.raise_('AttributeError', 'dict has no attribute ' + name)
        if isinstance(c, SetC):
            return Meth(r, name)
        if isinstance(c, IterC):
            if name in ('__next__', '__iter__'):
                return Meth(r, name)
            I.raise_('AttributeError', 'iterator has no attribute ' + name)
        self.unsup('attribute %s of %s' % (name, type(c).__name__))

    # ==================================================================
    # strings
    def format_value(self, v, spec=''):
        v = self.i.scalarize(v)
        if isinstance(v, (int, float, str, bool)) or v is None:
            if isinstance(spec, str):
                try:
                    return format(v, spec)
                except (ValueError, TypeError):
                    self.i.raise_('ValueError', 'format')
        t = self.i.tot(v) if not isinstance(v, Ref) else None
        if t is None:
            return self.strval(v)
        if spec == '' and t.sort in 's':
            return fix(t)
        if spec == '':
            return app('str', t, sort='s')
        return app('fmt', '{:%s}' % spec if isinstance(spec, str) else
                   self.unsup('format'), t, sort='s')

    def strval(self, v):
        """str() of a container, as a term"""
        if isinstance(v, Ref) and isinstance(self.i.cell(v), Inst):
            for n in ('__str__', '__repr__'):
                f, k = self.i.find_class(self.i.cell(v).cls, n)
                if isinstance(k, ClassV):
                    return self.i.call(self.i.bind(
                        f, v, self.i.cell(v).cls), [], {})
        return mk('uf', 'repr', (num(v.id if isinstance(v, Ref) else 0),),
                  sort='s', opq=True)

    def strcat(self, xs):
        out = []
        for x in xs:
            if isinstance(x, Opq):
                return Opq('object', app('obj:+', *[self.i.tot(y)
                                                    for y in xs], sort='o'))
            if isinstance(x, T) and x.op == 'app' and x.args[0] == 'strcat':
                out.extend(fix(y) for y in x.args[1])
            else:
                out.append(x)
        r = []
        for x in out:
            if isinstance(x, str) and r and isinstance(r[-1], str):
                r[-1] += x
            elif x == '' and isinstance(x, str):
                continue
            else:
                r.append(x)
        if not r:
            return ''
        if len(r) == 1:
            return r[0]
        return app('strcat', *[tt(x) for x in r], sort='s')

    def percent(self, a, b):
        args = b if isinstance(b, tuple) else (b,)
        args = [self.i.scalarize(x) for x in args]
        if isinstance(a, str):
            if all(isinstance(x, (int, float, str, bool)) or x is None
                   for x in args):
                try:
                    return a % tuple(args)
                except (TypeError, ValueError):
                    self.i.raise_('TypeError', 'format')
            ts = [self.i.tot(x) if not isinstance(x, Ref) else
                  self.strval(x) for x in args]
            if not isinstance(b, tuple) and isinstance(b, Ref) and \
                    isinstance(self.i.cell(b), DictC):
                return mk('uf', 'pct', (tt(a),), sort='s', opq=True)
            return app('pct', tt(a), *ts, sort='s')
        return app('pct', self.i.tot(a), *[self.i.tot(x) for x in args],
                   sort='s')

    def str_method(self, s, name, args, kw):
        I = self.i
        if name == 'join':
            it = I.iterate(args[0])
            if it[0] == 'list':
                vals = it[1]
                for x in vals:
                    if not (isinstance(x, (str, Opq)) or isinstance(x, T) and
                            x.sort in 'so'):
                        I.raise_('TypeError', 'sequence item: expected str')
                out = []
                for k, x in enumerate(vals):
                    if k:
                        out.append(s)
                    out.append(x)
                return self.strcat(out)
            r = it[2](iv(it[1]))
            return mk('uf', 'join', (tt(s),), sort='s', opq=True)
        if name == 'format':
            args = [I.scalarize(a) for a in args]
            kws = {k: I.scalarize(a) for k, a in kw.items()}
            allv = list(args) + list(kws.values())
            if isinstance(s, str) and all(
                    isinstance(x, (int, float, str, bool)) or x is None
                    for x in allv):
                try:
                    return s.format(*args, **kws)
                except (IndexError, KeyError) as e:
                    I.raise_(type(e).__name__, 'format')
                except ValueError:
                    I.raise_('ValueError', 'format')
            if isinstance(s, str):
                return self.fmt_parts(s, args, kws)
            self.unsup('format of a symbolic string')
        cs = [x for x in args]
        if isinstance(s, str) and all(isinstance(x, (int, str, tuple)) or
                                      x is None for x in cs) and not kw:
            try:
                r = getattr(s, name)(*cs)
            except Exception as e:
                I.raise_(type(e).__name__, str(e))
            if isinstance(r, list):
                return I.newlist(r)
            if isinstance(r, bytes):
                return r.decode('latin1')
            return r
        if I.config.get('texts'):
            from . import tables
            r = tables.method(self, s, name, args, kw)
            if r is not NotImplemented:
                return r
            if name not in ('decode', 'encode', 'format'):
                self.unsup('method %s of a text' % name)
        srt = 's'
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha'):
            srt = 'b'
        if name in ('find', 'index', 'count', 'rfind'):
            srt = 'i'
        if name in ('split', 'rsplit', 'splitlines', 'partition'):
            srt = 'o'
        ts = [tt(s)] + [I.tot(x) for x in args]
        r = app('meth:' + name, *ts, sort=srt)
        if name in ('decode', 'encode'):
            return tt(s)
        return r if srt != 'o' else Opq('object?', r)

    def fmt_parts(self, s, args, kws):
        import string
        out = []
        auto = 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(s):
                if lit:
                    out.append(lit)
                if fld is None:
                    continue
                name = fld
                rest = ''
                for ch in '.[':
                    if ch in name:
                        self.unsup('format field')
                if name == '':
                    v = args[auto]
                    auto += 1
                elif name.isdigit():
                    v = args[int(name)]
                else:
                    v = kws[name]
                if spec and '{' in spec:
                    self.unsup('nested format')
                if conv:
                    spec = ''
                out.append(self.format_value(v, spec))
        except IndexError:
            self.i.raise_('IndexError', 'format')
        except KeyError:
            self.i.raise_('KeyError', 'format')
        except ValueError:
            self.i.raise_('ValueError', 'format')
        return self.strcat(out)

    # ==================================================================
    # calls
    def call(self, f, args, kw):
        I = self.i
        n = f.name
        h = I.config.get('ext', {}).get(n)
        if h is not None:
            r = h(I, args, kw)
            if r is not NotImplemented:
                return r
        base, _, last = n.rpartition('.')
        if base == 'builtins':
            m = getattr(self, 'b_' + last, None)
            if m is None:
                self.unsup('builtin ' + last)
            return m(args, kw)
        if n in ('numpy.dtype',):
            return self.mkdtype(args[0])
        if base == 'numpy':
            if last in U1:
                return self.ufunc1(last, args, kw)
            if last in U2:
                f2 = U2[last]
                dt = 'f' if last in ('divide', 'true_divide') else None
                return self.ufunc2(f2, args, kw, dt)
            if last in CMPU:
                op = CMPU[last]
                return I.compare(op, args[0], args[1]) \
                    if not kw else self.unsup('ufunc arguments')
            m = getattr(self, 'np_' + last, None)
            if m is not None:
                return m(args, kw)
            if n in KIND:
                r = self.cast_scalar(KIND[n], args)
                nw = NARROW.get(n.rpartition('.')[2])
                if nw is not None and n.startswith('numpy.'):
                    r = fix(self.i.cast(r, narrowkind(KIND[n], nw)))
                return r
            return self.poly(n, args, kw)
        if base.startswith('numpy.') and last in ('at', 'reduce', 'outer',
                                                  'accumulate'):
            return self.ufunc_method(base[6:], last, args, kw)
        if base == 'numpy.random':
            return self.global_random(last, args, kw)
        if base == 'numpy.linalg' and last == 'norm':
            o = self.B('x,ord=None,axis=None,keepdims=False', args, kw, n)
            if o.ord not in (None, 2) or o.ord == 2 and o.axis is None \
                    and len(I.av(o.x).dims) > 1:
                self.unsup('norm')
            r = self.reduce('sum', I.binop('**', o.x, 2), o.axis, o.keepdims)
            return I.num1(lambda x: app('sqrt', x), r)
        if base == 'numpy.char' and last in ('decode', 'encode', 'strip'):
            a = I.av(args[0])
            return I.new(AV(a.dims, a.ivs, a.body, 's')) if a.dims else \
                fix(a.body)
        if base.startswith('math'):
            return self.math_fun(last, args)
        key = n.replace('.', '_')
        m = getattr(self, 'x_' + key, None)
        if m is not None:
            return m(args, kw)
        if base.startswith('sklearn') and hasattr(self, 'sk_' + last):
            return getattr(self, 'sk_' + last)(args, kw)
        if base.startswith('scipy.sparse') and last in (
                'coo_matrix', 'csr_matrix', 'csc_matrix', 'lil_matrix',
                'coo_array', 'csr_array', 'dok_matrix'):
            return self.sparse(last.split('_')[0], args, kw)
        if base.startswith('scipy.sparse') and last.startswith(
                'isspmatrix_'):
            x = args[0]
            return isinstance(x, Ref) and isinstance(
                self.i.cell(x), SpCell) and self.i.cell(x).fmt == last[11:]
        if base.startswith('scipy.sparse') and last in (
                'issparse', 'isspmatrix'):
            a = args[0]
            return isinstance(a, Ref) and isinstance(I.cell(a), SpCell)
        if n in ('scipy.special.expit',):
            return I.num1(lambda x: app('expit', x), args[0])
        if n == 'scipy.special.logsumexp':
            o = self.B('a,axis=None,b=None,keepdims=False', args, kw, n)
            if o.b is not None:
                self.unsup(n)
            e = I.num1(lambda x: app('exp', x), o.a)
            return I.num1(lambda x: app('log', x),
                          self.reduce('sum', e, o.axis, o.keepdims))
        if n == 'scipy.optimize.minimize':
            return self.minimize(args, kw)
        if n in ('copy.copy',):
            return self.copy(args[0])
        if n == 'copy.deepcopy':
            return self.deepcopy(args[0], {})
        if n == 'functools.partial':
            return Partial(args[0], list(args[1:]), kw)
        if n in ('sys.exit', 'os._exit'):
            I.raise_('SystemExit', implicit=False)
        if n == 'logging.getLogger':
            return Opq('logging.Logger', app('obj:getLogger', *[
                I.tot(a) for a in args], sort='o'))
        if n == 'os.path.join':
            if all(isinstance(a, str) for a in args):
                import os
                return os.path.join(*args)
            out = []
            for k, a in enumerate(args):
                if k:
                    out.append('/')
                out.append(a)
            r = self.strcat([x for x in out])
            return r
        if n in ('os.path.abspath', 'os.path.realpath') and isinstance(
                args[0], str):
            import os
            return os.path.normpath(args[0])
        if n in ('os.path.dirname', 'os.path.basename', 'os.path.normpath',
                 'os.path.split', 'os.path.splitext', 'os.path.expanduser',
                 'os.path.isabs') and isinstance(args[0], str):
            import os
            return getattr(os.path, last)(args[0])
        if n in ('io.open', 'codecs.open'):
            return self.b_open(args, kw)
        if n == 'vgre.recode':
            from . import tables
            return tables.recode(self, *args)
        if n.startswith('vgre.'):
            import re
            if not all(isinstance(a, (str, int)) for a in args):
                self.unsup('regular expression over a symbolic text')
            if last == 'sub':
                return re.sub(*args)
            r = getattr(re, last)(*args)
            return None if r is None else I.newlist(
                [r.group(0)] + list(r.groups()))
        if n in ('six.iteritems', 'six.itervalues', 'six.iterkeys'):
            return DictView(args[0], last[4:])
        if n == 'six.with_metaclass':
            return ('$withmeta', list(args[1:]))
        if n == 'collections.OrderedDict':
            return self.b_dict(args, kw)
        if n == 'itertools.chain':
            out = []
            for a in args:
                it = I.iterate(a)
                if it[0] != 'list':
                    self.unsup('chain')
                out.extend(it[1])
            return I.newlist(out)
        if n.startswith(('os.', 'sys.', 'platform.', 'datetime.', 'time.',
                         'subprocess.', 'argparse.', 'json.', 'io.',
                         'logging.', 'codecs.', 're.', 'warnings.',
                         'locale.', 'getpass.', 'socket.', 'doctest.',
                         'builtins.open', 'abc.')):
            return self.opaque_call(n, args, kw)
        return self.poly(n, args, kw)

    def poly(self, n, args, kw):
        """a library function with a model in Python"""
        if n == 'numpy._unmodelled':
            self.unsup('this form of a library call')
        m = self.i.world.module('vgpoly')
        f = m.ns.get(n.replace('.', '_'))
        if f is None:
            self.unsup(n if n.startswith('numpy.') else 'call of ' + n)
        return self.i.call(f, list(args), dict(kw))

    def opaque_call(self, n, args, kw):
        I = self.i
        I.effect('ext', (n, list(args), dict(kw)))
        ts = []
        for a in list(args) + [kw[k] for k in sorted(kw)]:
            try:
                ts.append(I.tot(a))
            except Unsupported:
                ts.append(tt('?'))
        self.nfresh += 1
        if n in ('json.dumps',):
            return app('obj:' + n, *(ts + [num(self.nfresh)]), sort='s')
        return Opq('object?', app('obj:' + n, *(ts + [num(self.nfresh)]),
                                  sort='o'))

    def call_opq(self, o, args, kw):
        I = self.i
        cf = I.config.get('opqcall')
        if cf is not None:
            r = cf(I, o, args, kw)
            if r is not NotImplemented:
                return r
        I.effect('call', (o, list(args), dict(kw)))
        ts = [o.term]
        for a in list(args) + [kw[k] for k in sorted(kw)]:
            try:
                ts.append(I.tot(a))
            except Unsupported:
                ts.append(tt('?'))
        if o.term.op == 'app' and o.term.args[0].startswith('attr:'):
            pass
        return Opq('object?', app('obj:call', *ts, sort='o'))

    # ---- elementwise -----------------------------------------------------
    def out(self, r, kw):
        o = kw.get('out')
        w = kw.get('where', True)
        if isinstance(o, tuple) and len(o) == 1:
            o = o[0]
        if w is not True:
            if o is None:
                self.unsup('elements left undefined')
            r = self.call(Ext('numpy.where'), [w, r, o], {})
        if o is None:
            return r
        a = self.i.av(r)
        self.i.assign(o, r if isinstance(r, Arr) else a)
        return o

    def ufunc1(self, name, args, kw):
        I = self.i
        kw = dict(kw)
        o = kw.pop('out', None)
        if len(args) > 1:
            o = args[1]
        kw.pop('dtype', None)
        w = kw.pop('where', True)
        if kw:
            self.unsup('ufunc arguments')
        a = args[0]
        f = (lambda x: app(name, x)) if name != 'sqrt' else \
            (lambda x: app('sqrt', x))
        if isinstance(a, (Opq,)) or a is None:
            I.raise_('TypeError', 'ufunc of an object')
        if isinstance(a, tuple):
            a = I.new(I.av(a))
        r = I.num1(f, a, 'f')
        return self.out(r, {'out': o, 'where': w})

    def ufunc2(self, f, args, kw, dt=None):
        I = self.i
        kw = dict(kw)
        o = kw.pop('out', None)
        if len(args) > 2:
            o = args[2]
        kw.pop('dtype', None)
        w = kw.pop('where', True)
        if kw:
            self.unsup('ufunc arguments')
        a, b = args[:2]
        if isinstance(a, (int, float, T)) and isinstance(b, (int, float, T)):
            r = fix(f(tt(a), tt(b)))
        else:
            r = I.emap(f, [a, b], dt)
        return self.out(r, {'out': o, 'where': w})

    def ufunc_method(self, u, what, args, kw):
        I = self.i
        if what == 'at' and u in ('add', 'subtract'):
            a, idx, b = args
            av = I.read(a)
            parts = I.expand_masks(av, I.index_parts(av, idx))
            advs = [p for p in parts if isinstance(p, AV)]
            bd, bi, bb = I.bcast(advs)
            bv_ = I.av(b)
            ps = [iv(d) for d in av.dims]
            conds = []
            trail = []
            k = 0
            for p, q, d in zip(parts, ps, av.dims):
                if isinstance(p, AV):
                    conds.append(eq(q, I.nidx(bb[k], d, bd)))
                    k += 1
                elif isinstance(p, slice):
                    if p.start is not None or p.stop is not None:
                        self.unsup('add.at with slices')
                    trail.append((q, d))
                elif p is None:
                    self.unsup('add.at')
                else:
                    conds.append(eq(q, I.nidx(p, d)))
            vs = list(bi) + [q for q, d in trail]
            ds = list(bd) + [d for q, d in trail]
            lead = len(bv_.dims) - len(ds)
            idx_ = []
            for j in range(len(bv_.dims)):
                t = j - lead
                if t < 0 or (numval(bv_.dims[j]) == 1 and
                             numval(ds[t]) != 1):
                    idx_.append(ZERO)
                else:
                    idx_.append(vs[t])
            val = mul(and_(*conds), bv_.at(*idx_)) if True else None
            for v, d in reversed(list(zip(bi, bd))):
                val = X.sum_(v, d, val)
            sgn = (lambda x: x) if u == 'add' else X.neg

            def f(*qs):
                m = {p.id: q for p, q in zip(ps, qs)}
                return add(av.at(*qs), sgn(subst(val, m)))
            I.write(a, f)
            return None
        if what == 'reduce':
            op = {'add': 'sum', 'multiply': 'prod', 'maximum': 'amax',
                  'minimum': 'amin', 'logical_and': 'all',
                  'logical_or': 'any'}.get(u)
            if op:
                o = self.B('a,axis=0,dtype=None,out=None,keepdims=False',
                           args, kw, u)
                return self.reduce(op, o.a, o.axis, o.keepdims)
        if what == 'outer':
            a, b = I.av(args[0]), I.av(args[1])
            f = U2.get(u)
            if f and len(a.dims) == 1 and len(b.dims) == 1:
                return I.arr(a.dims + b.dims, lambda i, j: f(
                    a.at(i), b.at(j)), join_dt(a.dt, b.dt))
            if u in CMPU and len(a.dims) == 1 and len(b.dims) == 1:
                return I.arr(a.dims + b.dims, lambda i, j: I.cmpt(
                    CMPU[u], a.at(i), b.at(j)), 'b')
        if what == 'accumulate' and u == 'add':
            return self.np_cumsum(args, kw)
        self.unsup('numpy.%s.%s' % (u, what))

    def math_fun(self, name, args):
        I = self.i
        x = I.scalarize(args[0])
        if name in U1:
            if const(x) is not None:
                try:
                    return getattr(math, name)(const(x))
                except ValueError:
                    I.raise_('ValueError', 'math domain error')
            if name in ('log', 'log2', 'log10', 'sqrt'):
                I.partial(lt(ZERO, tt(x)) if name != 'sqrt' else
                          le(ZERO, tt(x)), 'ValueError', 'math domain error')
            return I.num1(lambda y: app(name, y), x)
        if name in ('floor', 'ceil', 'trunc'):
            return I.num1(lambda y: app(name, y), x)
        if name in ('isfinite', 'isnan', 'isinf'):
            return I.num1(lambda y: app(name, y), x)
        if name == 'fabs':
            return I.num1(lambda y: app('abs', y), x)
        if name == 'pow':
            return fix(X.power(tt(x), tt(args[1])))
        self.unsup('math.' + name)

    def cast_scalar(self, k, args):
        return self.b_cast(k, args)

    def np_abs(self, args, kw):
        return self.i.num1(lambda x: app('abs', x), self.aslike(args[0]))

    np_absolute = np_fabs = np_abs

    def aslike(self, x):
        if isinstance(x, tuple):
            return self.i.new(self.i.av(x))
        return x

    def np_negative(self, args, kw):
        return self.i.num1(X.neg, args[0])

    def np_square(self, args, kw):
        return self.i.num1(lambda x: mul(x, x), self.aslike(args[0]))

    def np_reciprocal(self, args, kw):
        return self.i.num1(X.inv, args[0])

    def np_sign(self, args, kw):
        return self.i.num1(lambda x: app('sign', x), args[0])

    def np_floor(self, args, kw):
        return self.i.num1(lambda x: app('floor', x), args[0], 'f')

    def np_ceil(self, args, kw):
        return self.i.num1(lambda x: app('ceil', x), args[0], 'f')

    def np_trunc(self, args, kw):
        return self.i.num1(lambda x: app('trunc', x), args[0], 'f')

    np_fix = np_trunc

    def np_rint(self, args, kw):
        return self.i.num1(lambda x: app('rint', x), args[0], 'f')

    def np_round(self, args, kw):
        o = self.B('a,decimals=0,out=None', args, kw, 'round')
        return self.round(o.a, o.decimals)

    np_around = np_round_ = np_round

    def round(self, a, d):
        k = const(d)
        if k == 0:
            return self.i.num1(lambda x: app('rint', x), self.aslike(a))
        if k is None:
            self.unsup('round')
        s = num(10 ** k) if k > 0 else num(Fraction(1, 10 ** -k))
        return self.i.num1(lambda x: div(app('rint', mul(x, s)), s)
                           if x.sort == 'f' or k < 0 else x, self.aslike(a))

    def np_isfinite(self, args, kw):
        return self.i.num1(lambda x: app('isfinite', x),
                           self.aslike(args[0]), 'b')

    def np_isnan(self, args, kw):
        return self.i.num1(lambda x: app('isnan', x), self.aslike(args[0]),
                           'b')

    def np_isinf(self, args, kw):
        return self.i.num1(lambda x: app('isinf', x), self.aslike(args[0]),
                           'b')

    def np_maximum(self, args, kw):
        return self.ufunc2(lambda x, y: app('max2', x, y), args, kw)

    def np_minimum(self, args, kw):
        return self.ufunc2(lambda x, y: app('min2', x, y), args, kw)


    def np_mod(self, args, kw):
        return self.ufunc2(lambda x, y: fdiv(x, y)[1], args, kw)

    np_remainder = np_mod

    def np_floor_divide(self, args, kw):
        return self.ufunc2(lambda x, y: fdiv(x, y)[0], args, kw)

    def np_divmod(self, args, kw):
        return (self.np_floor_divide(args, kw), self.np_mod(args, kw))

    def np_logaddexp(self, args, kw):
        return self.ufunc2(lambda x, y: app('log', add(
            app('exp', x), app('exp', y))), args, kw)

    def np_logical_and(self, args, kw):
        return self.i.map_av(lambda x, y: and_(X.truth(x), X.truth(y)),
                             args[:2], 'b')

    def np_logical_or(self, args, kw):
        return self.i.map_av(lambda x, y: or_(X.truth(x), X.truth(y)),
                             args[:2], 'b')

    np_bitwise_and, np_bitwise_or = np_logical_and, np_logical_or

    def np_logical_not(self, args, kw):
        return self.i.map_av(lambda x: not_(X.truth(x)), args[:1], 'b')

    np_invert = np_logical_not

    def np_logical_xor(self, args, kw):
        return self.i.map_av(lambda x, y: not_(eq(X.truth(x), X.truth(y))),
                             args[:2], 'b')

    def np_clip(self, args, kw):
        o = self.B('a,a_min=None,a_max=None,out=None', args, kw, 'clip')
        r = o.a
        if o.a_min is not None:
            r = self.ufunc2(lambda x, y: app('max2', x, y), [r, o.a_min], {})
        if o.a_max is not None:
            r = self.ufunc2(lambda x, y: app('min2', x, y), [r, o.a_max], {})
        return self.out(r, {'out': o.out})

    # ---- creation --------------------------------------------------------
    def shape_of(self, s):
        I = self.i
        s = I.scalarize(s)
        if isinstance(s, tuple) or isinstance(s, Ref) or isinstance(s, Arr):
            it = I.iterate(s)
            if it[0] != 'list':
                self.unsup('shape')
            ds = [I.scalarize(x) for x in it[1]]
        else:
            ds = [s]
        out = []
        for d in ds:
            if isinstance(d, float) or (isinstance(d, T) and d.sort == 'f'):
                I.raise_('TypeError', 'float as an array dimension')
            if not is_num(d):
                I.raise_('TypeError', 'array dimension')
            k = const(d)
            if k is not None and k < 0:
                I.raise_('ValueError', 'negative dimensions')
            out.append(tt(d))
        return tuple(out)

    def filled(self, shape, val, dt):
        I = self.i
        dims = self.shape_of(shape)
        if isinstance(dt, DtypeV):
            self.unsup('structured array')
        if dt == 'o':
            if all(isinstance(numval(d), int) for d in dims):
                n = 1
                for d in dims:
                    n *= numval(d)
                return Arr(I.alloc(CArrCell([numval(d) for d in dims],
                                            [val] * n)))
            self.unsup('object array of symbolic size')
        if not dims:
            return fix(tt(val))
        t = tt(val)
        return I.arr(dims, lambda *ix: t, dt)

    def np_zeros(self, args, kw):
        o = self.B("shape,dtype=None,order='C'", args, kw, 'zeros')
        dt = self.dtk(o.dtype, 'f')
        return self.filled(o.shape, 0 if dt != 'b' else False, dt)

    def np_ones(self, args, kw):
        o = self.B("shape,dtype=None,order='C'", args, kw, 'ones')
        dt = self.dtk(o.dtype, 'f')
        return self.filled(o.shape, 1 if dt != 'b' else True, dt)

    def np_empty(self, args, kw):
        o = self.B("shape,dtype=None,order='C'", args, kw, 'empty')
        dt = self.dtk(o.dtype, 'f')
        if dt == 'o':
            return self.filled(o.shape, None, dt)
        self.nfresh += 1
        dims = self.shape_of(o.shape)
        return self.i.arr(dims, lambda *ix: mk(
            'undef', *(ix if ix else ()), sort=dt if dt in 'ifbs' else 'o'),
            dt)

    def np_full(self, args, kw):
        o = self.B("shape,fill_value,dtype=None,order='C'", args, kw, 'full')
        v = self.i.scalarize(o.fill_value)
        if not is_scalar(v):
            self.unsup('full')
        dt = self.dtk(o.dtype)
        if dt is None:
            dt = 'f' if isinstance(v, float) else tt(v).sort
        if v is None:
            dt = 'o'
        return self.filled(o.shape, v if dt == 'o' else fix(
            self.i.cast(v, dt)), dt)

    def like(self, a, val, dtype, shape=None):
        I = self.i
        if isinstance(a, Arr) and isinstance(I.heap[a.cid], CArrCell):
            c = I.heap[a.cid]
            dt = self.dtk(dtype, 'o')
            if dt == 'o':
                return Arr(I.alloc(CArrCell(c.shape, [val] * len(c.vals))))
            return self.filled(tuple(c.shape), val, dt)
        if isinstance(a, Arr) and a.whole() and isinstance(
                I.heap[a.cid], SegCell) and dtype is None:
            c = I.heap[a.cid]
            return Arr(I.alloc(SegCell([
                mkav(s.dims, lambda *ix: tt(val), s.dt) for s in c.segs])))
        av = I.av(a)
        dt = self.dtk(dtype, av.dt)
        if dt == 'b':
            val = bool(val) if val is not None else val
        if not av.dims:
            return fix(tt(val))
        return I.arr(av.dims, lambda *ix: tt(val), dt)

    def np_zeros_like(self, args, kw):
        o = self.B('a,dtype=None', args, kw, 'zeros_like')
        return self.like(o.a, 0, o.dtype)

    def np_ones_like(self, args, kw):
        o = self.B('a,dtype=None', args, kw, 'ones_like')
        return self.like(o.a, 1, o.dtype)

    def np_full_like(self, args, kw):
        o = self.B('a,fill_value,dtype=None', args, kw, 'full_like')
        return self.like(o.a, o.fill_value, o.dtype)

    def np_empty_like(self, args, kw):
        I = self.i
        o = self.B('a,dtype=None', args, kw, 'empty_like')
        a = o.a
        if isinstance(a, Arr) and a.whole() and isinstance(
                I.heap[a.cid], SegCell):
            c = I.heap[a.cid]
            return Arr(I.alloc(SegCell([
                mkav(s.dims, lambda *ix: mk('undef', *ix, sort='f'), s.dt)
                for s in c.segs])))
        if isinstance(a, Arr) and isinstance(I.heap[a.cid], CArrCell):
            return self.like(a, None, o.dtype)
        av = I.av(a)
        dt = self.dtk(o.dtype, av.dt)
        return I.arr(av.dims, lambda *ix: mk('undef', *ix, sort=dt), dt)

    def np_eye(self, args, kw):
        o = self.B('N,M=None', args, kw, 'eye')
        n = tt(o.N)
        m = n if o.M is None else tt(o.M)
        return self.i.arr((n, m), lambda i, j: eq(i, j), 'f')

    np_identity = np_eye

    def np_arange(self, args, kw):
        I = self.i
        kw = dict(kw)
        dt = self.dtk(kw.pop('dtype', None))
        if kw:
            o = self.B('start,stop=None,step=1', args, kw, 'arange')
            args = [o.start, o.stop, o.step]
            if o.stop is None:
                args = [0, o.start, 1]
        args = [I.scalarize(a) for a in args]
        if len(args) == 1:
            a, b, s = 0, args[0], 1
        elif len(args) == 2:
            a, b = args
            s = 1
        else:
            a, b, s = args[:3]
            if b is None:
                a, b = 0, a
        ts = [tt(x) for x in (a, b, s)]
        isint = all(t.sort in 'ib' and not isinstance(x, float)
                    for t, x in zip(ts, (a, b, s)))
        if isint:
            n, f = I.seq(RangeV(a, b, s))
            r = I.arr((n,), lambda i: I.cast(
                tt(f(i)), dt or 'i'), dt or 'i')
            return r
        n = app('ceil', div(sub(ts[1], ts[0]), ts[2]))
        if numval(n) is None and not X.nonneg(n):
            n = app('max2', n, ZERO)
        return I.arr((n,), lambda i: add(ts[0], mul(i, ts[2])), dt or 'f')

    def np_linspace(self, args, kw):
        o = self.B('start,stop,num=50,endpoint=True,retstep=False,'
                   'dtype=None', args, kw, 'linspace')
        I = self.i
        a, b = tt(I.scalarize(o.start)), tt(I.scalarize(o.stop))
        n = tt(I.scalarize(o.num))
        if n.sort == 'f':
            I.raise_('TypeError', 'float as a number of samples')
        if o.retstep is not False:
            self.unsup('linspace')
        dn = sub(n, ONE) if o.endpoint is True else n
        dt = self.dtk(o.dtype, 'f')
        st = div(sub(b, a), dn)
        if numval(n) == 1:
            st = ZERO
        return I.arr((n,), lambda i: I.cast(add(a, mul(i, st)), dt), dt)

    def np_array(self, args, kw):
        o = self.B("object,dtype=None,copy=True,order='K',subok=False,"
                   "ndmin=0", args, kw, 'array')
        return self.asarray(o.object, o.dtype, True, o.ndmin)

    def np_asarray(self, args, kw):
        o = self.B("a,dtype=None,order='K',copy=None", args, kw, 'asarray')
        return self.asarray(o.a, o.dtype, o.copy is True)

    np_ascontiguousarray = np_asanyarray = np_asarray

    def np_copy(self, args, kw):
        return self.asarray(args[0], None, True)

    def asarray(self, x, dtype, copy, ndmin=0):
        I = self.i
        dt = self.dtk(dtype)
        if isinstance(x, Arr):
            c = I.heap[x.cid]
            if isinstance(c, CArrCell) and x.view is None:
                if dt is None or dt == 'o':
                    if not copy:
                        return x
                    return Arr(I.alloc(CArrCell(c.shape, c.vals)))
                av = I.read(x)
                return I.new(AV(av.dims, av.ivs, I.cast(av.body, dt), dt))
            if x.whole() and isinstance(c, SegCell) and dt in (None, 'f'):
                if not copy:
                    return x
                return Arr(I.alloc(SegCell(c.segs)))
            av = I.read(x)
            if not copy and (dt is None or self.samedt(dt, av.dt)) and \
                    not av.mat:
                return self.atleast(x, ndmin)
            r = self.to_dt(av, dt)
            return self.atleast(I.new(AV(r.dims, r.ivs, r.body, r.dt)),
                                ndmin)
        if isinstance(x, Ref) and isinstance(I.cell(x), SpCell):
            self.unsup('array of a sparse matrix')
        if isinstance(x, Ref) and isinstance(I.cell(x), SetC):
            self.unsup('array of a set')
        if isinstance(x, Opq):
            cf = I.config.get('opqarray')
            if cf is not None:
                r = cf(I, x)
                if r is not None:
                    return self.asarray(r, dtype, copy, ndmin)
            self.unsup('array of an object')
        items = None
        if isinstance(x, tuple):
            items = list(x)
        elif isinstance(x, Ref) and isinstance(I.cell(x), ListC) and \
                I.cell(x).base is None:
            items = I.cell(x).items
        if items is not None and items and (dt == 'o' or any(
                v is None or isinstance(v, Opq) or (isinstance(
                    v, Ref) and not isinstance(I.cell(v), (ListC, SeqC)))
                for v in items)):
            if all(v is None or is_scalar(v) or not isinstance(
                    v, (Arr, tuple)) and not (isinstance(v, Ref) and
                                              isinstance(I.cell(v), ListC))
                   for v in items):
                if dt in (None, 'o'):
                    return Arr(I.alloc(CArrCell((len(items),), items)))
                I.raise_('TypeError', 'array of None')
            self.unsup('object array')
        av = I.av(x)
        if items == [] and dt is None:
            dt = 'f'
        r = self.to_dt(av, dt)
        if not r.dims and ndmin == 0:
            return I.new(r)
        return self.atleast(I.new(canon(r)), ndmin)

    @staticmethod
    def samedt(a, b):
        return a == b and getattr(a, 'narrow', None) in (
            None, getattr(b, 'narrow', None))

    def to_dt(self, av, dt):
        if dt is None or self.samedt(dt, av.dt):
            return av
        if isinstance(dt, DtypeV):
            self.unsup('cast to a structured dtype')
        if isinstance(av.dt, DtypeV):
            self.unsup('cast of a structured array')
        body = self.i.cast(av.body, dt)
        if dt == 'o':
            body = av.body
        if av.dt == 's' and dt in 'if':
            self.i.partial(app('isnumstr', av.body, sort='b'), 'ValueError',
                           'could not convert string')
        return canon(AV(av.dims, av.ivs, body, dt, av.mat))

    def atleast(self, a, nd):
        nd = const(nd) or 0
        av = self.i.read(a)
        while len(av.dims) < nd:
            w = iv(1)
            av = AV((ONE,) + av.dims, (w,) + av.ivs, av.body, av.dt, av.mat)
            a = self.i.new(av)
        return a

    def np_atleast_1d(self, args, kw):
        r = [self.atleast(self.asarray(a, None, False), 1) for a in args]
        return r[0] if len(r) == 1 else tuple(r)

    def np_atleast_2d(self, args, kw):
        I = self.i
        r = []
        for a in args:
            a = self.asarray(a, None, False)
            av = I.read(a)
            if len(av.dims) == 1 and isinstance(a, Arr):
                a = I.getitem(a, (None, slice(None)))
            elif not av.dims:
                a = self.atleast(a, 2)
            r.append(a)
        return r[0] if len(r) == 1 else tuple(r)

    def np_tile(self, args, kw):
        I = self.i
        o = self.B('A,reps', args, kw, 'tile')
        reps = o.reps
        rs = [I.scalarize(x) for x in (
            I.iterate(reps)[1] if isinstance(reps, (tuple, Ref, Arr)) and
            not (isinstance(reps, Arr) and not I.av(reps).dims)
            else [reps])]
        if o.A is None or isinstance(o.A, Ref) and isinstance(
                I.cell(o.A), DictC):
            return self.filled(tuple(rs), o.A, 'o')
        if isinstance(o.A, Arr) and isinstance(I.heap[o.A.cid], CArrCell):
            c = I.heap[o.A.cid]
            if len(c.shape) == 1 and len(rs) == 1 and const(rs[0]) is not \
                    None:
                v = c.vals * const(rs[0])
                return Arr(I.alloc(CArrCell((len(v),), v)))
        if isinstance(o.A, Ref) and isinstance(I.cell(o.A), ListC) and any(
                x is None for x in I.cell(o.A).items):
            v = I.cell(o.A).items * const(rs[0])
            return Arr(I.alloc(CArrCell((len(v),), v)))
        a = I.av(o.A)
        nd = max(len(a.dims), len(rs))
        dims = [ONE] * (nd - len(a.dims)) + list(a.dims)
        rs = [1] * (nd - len(rs)) + list(rs)
        nd_ = [mul(d, tt(r)) for d, r in zip(dims, rs)]
        off = nd - len(a.dims)

        def f(*ix):
            idx = []
            for k in range(off, nd):
                if const(rs[k]) == 1:
                    idx.append(ix[k])
                elif numval(dims[k]) == 1:
                    idx.append(ZERO)
                else:
                    idx.append(fdiv(ix[k], dims[k])[1])
            return a.at(*idx)
        return I.arr(nd_, f, a.dt)

    def np_repeat(self, args, kw):
        I = self.i
        o = self.B('a,repeats,axis=None', args, kw, 'repeat')
        a = I.av(o.a)
        r = I.scalarize(o.repeats)
        if not is_num(r):
            self.unsup('repeat with an array')
        r = tt(r)
        if len(a.dims) == 0:
            return self.filled((fix(r),), fix(a.body), a.dt)
        if len(a.dims) == 1 or o.axis == 0:
            if len(a.dims) > 1:
                return I.arr((mul(a.dims[0], r),) + a.dims[1:],
                             lambda i, *ix: a.at(fdiv(i, r)[0], *ix), a.dt)
            return I.arr((mul(a.dims[0], r),),
                         lambda i: a.at(fdiv(i, r)[0]), a.dt)
        if o.axis == 1 and len(a.dims) == 2:
            return I.arr((a.dims[0], mul(a.dims[1], r)),
                         lambda i, j: a.at(i, fdiv(j, r)[0]), a.dt)
        self.unsup('repeat')

    def cat(self, avs, axis):
        I = self.i
        nd = len(avs[0].dims)
        if any(len(a.dims) != nd for a in avs):
            I.raise_('ValueError', 'all the input arrays must have same '
                     'number of dimensions')
        if axis < 0:
            axis += nd
        if not 0 <= axis < nd:
            I.raise_('ValueError', 'axis out of bounds')
        dt = avs[0].dt
        for a in avs:
            if not (isinstance(a.dims[0], T) and numval(a.dims[0]) == 0 and
                    a.dt == 'f' and False):
                dt = join_dt(dt, a.dt)
        for k in range(nd):
            if k != axis:
                for a in avs[1:]:
                    if a.dims[k] is not avs[0].dims[k]:
                        I.partial(eq(a.dims[k], avs[0].dims[k]),
                                  'ValueError', 'dimensions must match')
        if nd == 1 and all(isinstance(numval(a.dims[0]), int) and
                           numval(a.dims[0]) <= 40 for a in avs):
            vals = []
            for a in avs:
                vals.extend(scalar_list(a))
            if vals:
                w = iv(len(vals))
                return I.new(AV((num(len(vals)),), (w,),
                                elem(X.tab(vals), w), dt))
        offs = [ZERO]
        for a in avs:
            offs.append(add(offs[-1], a.dims[axis]))
        dims = list(avs[0].dims)
        dims[axis] = offs[-1]

        def f(*ix):
            r = None
            for k in reversed(range(len(avs))):
                if numval(avs[k].dims[axis]) == 0:
                    continue
                j = list(ix)
                j[axis] = sub(ix[axis], offs[k])
                b = avs[k].at(*j)
                r = b if r is None else ite(lt(ix[axis], offs[k + 1]), b, r)
            return r if r is not None else ZERO
        return I.arr(dims, f, dt)

    def seqav(self, x):
        if isinstance(x, DictView):
            self.i.raise_('TypeError', 'arrays to stack must be passed as a '
                          '"sequence" type')
        it = self.i.iterate(x)
        if it[0] != 'list':
            self.unsup('stack of an unknown number of arrays')
        return it[1]

    def rows(self, x, how):
        """stack of symbolically many equal rows, or None"""
        I = self.i
        if isinstance(x, (DictView, Arr)) or I.iterate(x)[0] == 'list':
            return None
        a = I.av(x)
        if how == 'flat' and len(a.dims) == 2:
            return self.reshape(I.new(a), (-1,))
        if how in ('v', 0) and len(a.dims) == 2:
            return I.new(a)
        if how in ('col', 1) and len(a.dims) == 2:
            return self.transpose(I.new(a), None)
        if how == 'v' and len(a.dims) == 1:
            return self.reshape(I.new(a), (-1, 1))
        return None

    def np_concatenate(self, args, kw):
        o = self.B('arrays,axis=0,out=None', args, kw, 'concatenate')
        if const(o.axis) == 0:
            r = self.rows(o.arrays, 'flat')
            if r is not None:
                return r
        xs = self.seqav(o.arrays)
        for x in xs:
            if isinstance(x, Arr) and isinstance(self.i.heap[x.cid],
                                                 CArrCell):
                return self.cat_obj(xs)
        avs = [self.i.av(x) for x in xs]
        if o.axis is None:
            avs = [self.i.read(self.reshape(self.i.new(a), (-1,)))
                   for a in avs]
            return self.cat(avs, 0)
        if not avs:
            self.i.raise_('ValueError', 'need at least one array')
        return self.cat(avs, const(o.axis))

    def cat_obj(self, xs):
        out = []
        for x in xs:
            it = self.i.iterate(x)
            if it[0] != 'list':
                self.unsup('object array')
            out.extend(it[1])
        return Arr(self.i.alloc(CArrCell((len(out),), out)))

    def np_append(self, args, kw):
        o = self.B('arr,values,axis=None', args, kw, 'append')
        a, b = self.i.av(o.arr), self.i.av(o.values)
        if o.axis is None:
            fl = [a if len(a.dims) == 1 else self.i.read(
                self.reshape(self.i.new(a), (-1,))) for a in (a, b)]
            return self.cat(fl, 0)
        return self.cat([a, b], const(o.axis))

    def np_hstack(self, args, kw):
        r = self.rows(args[0], 'flat')
        if r is not None:
            return r
        avs = [self.i.read(self.atleast(self.asarray(x, None, False), 1))
               for x in self.seqav(args[0])]
        return self.cat(avs, 0 if len(avs[0].dims) == 1 else 1)

    def np_vstack(self, args, kw):
        I = self.i
        r = self.rows(args[0], 'v')
        if r is not None:
            return r
        avs = []
        for x in self.seqav(args[0]):
            avs.append(I.read(self.np_atleast_2d([x], {})))
        return self.cat(avs, 0)

    np_row_stack = np_vstack

    def np_column_stack(self, args, kw):
        I = self.i
        r = self.rows(args[0], 'col')
        if r is not None:
            return r
        avs = []
        for x in self.seqav(args[0]):
            a = I.av(x)
            if len(a.dims) == 1:
                w = iv(1)
                a = AV(a.dims + (ONE,), a.ivs + (w,), a.body, a.dt)
            avs.append(a)
        return self.cat(avs, 1)

    def np_stack(self, args, kw):
        I = self.i
        o = self.B('arrays,axis=0', args, kw, 'stack')
        if const(o.axis) in (0, 1, -1):
            r = self.rows(o.arrays, abs(const(o.axis)))
            if r is not None:
                return r
        avs = []
        ax = const(o.axis)
        for x in self.seqav(o.arrays):
            a = I.av(x)
            k = ax if ax >= 0 else ax + len(a.dims) + 1
            w = iv(1)
            ds = list(a.dims)
            vs = list(a.ivs)
            ds.insert(k, ONE)
            vs.insert(k, w)
            avs.append(AV(ds, vs, a.body, a.dt))
        return self.cat(avs, k)

    def ext_sub(self, e, k):
        I = self.i
        if e.name in ('numpy.r_', 'numpy.c_'):
            ks = list(k) if isinstance(k, tuple) else [k]
            xs = []
            for x in ks:
                if isinstance(x, slice):
                    xs.append(self.np_arange(
                        [x.start or 0, x.stop, x.step or 1], {}))
                else:
                    xs.append(x)
            if e.name == 'numpy.c_':
                return self.np_column_stack([tuple(xs)], {})
            xs = [x if isinstance(x, Arr) and len(I.read(x).dims) > 1 else
                  self.np_atleast_1d([x], {}) for x in xs]
            return self.np_concatenate([tuple(xs)], {})
        if e.name in ('numpy.s_', 'numpy.index_exp'):
            return k
        if e.name == 'os.environ':
            return Opq('object?', app('obj:env', I.tot(k), sort='o'))
        self.unsup('subscript of ' + e.name)

    # ---- shape -----------------------------------------------------------
    def transpose(self, a, axes=None):
        I = self.i
        av = I.read(a)
        nd = len(av.dims)
        perm = list(range(nd))[::-1] if axes is None else axes
        if isinstance(I.heap[a.cid], (ArrCell, SegCell)) and not (
                isinstance(I.heap[a.cid], SegCell) and a.seg is None):
            dims = [av.dims[p] for p in perm]
            ivs = [iv(d) for d in dims]
            idx = [None] * nd
            for k, p in enumerate(perm):
                idx[p] = ivs[k]
            w = View(dims, ivs, idx)
            if a.view is not None:
                o = a.view
                m = {v.id: e for v, e in zip(o.ivs, idx)}
                w = View(dims, ivs, [subst(e, m) for e in o.idx])
            return Arr(a.cid, a.seg, w, a.fld)
        return a

    def np_transpose(self, args, kw):
        o = self.B('a,axes=None', args, kw, 'transpose')
        ax = None
        if o.axes is not None:
            ax = [const(x) for x in self.i.iterate(o.axes)[1]]
        a = self.asarray(o.a, None, False)
        return self.transpose(a, ax)

    def np_swapaxes(self, args, kw):
        a = self.asarray(args[0], None, False)
        nd = len(self.i.read(a).dims)
        p = list(range(nd))
        i, j = const(args[1]), const(args[2])
        p[i], p[j] = p[j], p[i]
        return self.transpose(a, p)

    def np_reshape(self, args, kw):
        kw = dict(kw)
        kw.pop('order', None)
        o = self.B('a,shape', args, kw, 'reshape')
        return self.reshape(self.asarray(o.a, None, False), o.shape)

    def reshape(self, a, shape):
        I = self.i
        av = I.read(a)
        if isinstance(shape, (tuple, Ref, Arr)) and not (
                isinstance(shape, Arr) and not I.av(shape).dims):
            sh = [I.scalarize(x) for x in I.iterate(shape)[1]]
        else:
            sh = [I.scalarize(shape)]
        tot = prod_(av.dims)
        known = ONE
        neg = None
        for k, s in enumerate(sh):
            if const(s) == -1:
                neg = k
            else:
                known = mul(known, tt(s))
        if neg is not None:
            if known is tot and known is not ONE:
                sh[neg] = ONE
            else:
                q = div(tot, known)
                if q.sort == 'f' or any(e < 0 for m in X.to_poly(q)
                                        for _, e in m):
                    q = app('floordiv', tot, known)
                sh[neg] = q
        dims = [tt(s) for s in sh]
        if neg is None:
            I.partial(eq(prod_(dims), tot), 'ValueError',
                      'cannot reshape array')
        # only unit dimensions added or removed?
        core = [d for d in dims if numval(d) != 1]
        old = [d for d in av.dims if numval(d) != 1]
        if len(core) == len(old) and all(p is q for p, q in zip(core, old)):
            ivs = [iv(d) for d in dims]
            cv = [v for v, d in zip(ivs, dims) if numval(d) != 1]
            idx = []
            k = 0
            for d in av.dims:
                if numval(d) == 1:
                    idx.append(ZERO)
                else:
                    idx.append(cv[k])
                    k += 1
            c = I.heap[a.cid]
            if isinstance(c, ArrCell) or (isinstance(c, SegCell) and
                                          a.seg is not None):
                w = View(dims, ivs, idx)
                if a.view is not None:
                    o = a.view
                    m = {v.id: e for v, e in zip(o.ivs, idx)}
                    w = View(dims, ivs, [subst(e, m) for e in o.idx])
                return Arr(a.cid, a.seg, w, a.fld)
            return I.new(AV(dims, ivs, av.at(*idx), av.dt))

        if any(numval(d) == 0 for d in av.dims):
            return I.arr(dims, lambda *ix: X.FALSE if av.dt == 'b' else
                         (av.at(*[ZERO] * len(av.dims))), av.dt)

        def f(*ix):
            p = ZERO
            for i, d in zip(ix, dims):
                p = add(mul(p, d), i)
            idx = []
            for k in reversed(range(len(av.dims))):
                if k == 0:
                    idx.append(p)
                else:
                    p, r = fdiv(p, av.dims[k])
                    idx.append(r)
            return av.at(*idx[::-1])
        return I.arr(dims, f, av.dt)

    def np_ravel(self, args, kw):
        a = self.asarray(args[0], None, False)
        if isinstance(a, Arr) and isinstance(self.i.heap[a.cid], SegCell) \
                and a.whole():
            return a
        if isinstance(a, Arr) and isinstance(self.i.heap[a.cid], CArrCell):
            if len(self.i.heap[a.cid].shape) == 1:
                return a
        if self.i.read(a).mat:
            return a
        return self.reshape(a, (-1,))

    def np_squeeze(self, args, kw):
        I = self.i
        o = self.B('a,axis=None', args, kw, 'squeeze')
        a = self.asarray(o.a, None, False)
        av = I.read(a)
        if av.mat:
            return a
        if o.axis is not None:
            k = const(o.axis)
            k = k if k >= 0 else k + len(av.dims)
            I.partial(eq(av.dims[k], ONE), 'ValueError', 'squeeze')
            drop = {k}
        else:
            drop = {k for k, d in enumerate(av.dims) if numval(d) == 1}
        if not drop:
            return a
        if len(drop) == len(av.dims):
            return I.new(AV((), (), av.at(*[ZERO] * len(av.dims)), av.dt))
        key = tuple(0 if k in drop else slice(None)
                    for k in range(len(av.dims)))
        return I.getitem(a, key)

    def np_expand_dims(self, args, kw):
        a = self.asarray(args[0], None, False)
        ax = const(args[1] if len(args) > 1 else kw['axis'])
        nd = len(self.i.read(a).dims)
        if ax < 0:
            ax += nd + 1
        key = [slice(None)] * nd
        key.insert(ax, None)
        return self.i.getitem(a, tuple(key))

    def np_broadcast_to(self, args, kw):
        a = self.i.av(args[0])
        dims = self.shape_of(args[1])
        lead = len(dims) - len(a.dims)
        return self.i.arr(dims, lambda *ix: a.at(*[
            ZERO if numval(d) == 1 else i
            for d, i in zip(a.dims, ix[lead:])]), a.dt)

    def np_flip(self, args, kw):
        a = self.asarray(args[0], None, False)
        nd = len(self.i.read(a).dims)
        ax = args[1] if len(args) > 1 else kw.get('axis')
        r = slice(None, None, -1)
        if ax is None:
            return self.i.getitem(a, tuple([r] * nd))
        key = [slice(None)] * nd
        key[const(ax)] = r
        return self.i.getitem(a, tuple(key))

    # ---- reductions ------------------------------------------------------
    def axes(self, axis, nd):
        if axis is None:
            return list(range(nd))
        if isinstance(axis, tuple):
            xs = [const(x) for x in axis]
        else:
            xs = [const(self.i.scalarize(axis))]
        out = []
        for x in xs:
            if x is None:
                self.unsup('symbolic axis')
            if not -nd <= x < nd:
                self.i.raise_('AxisError', 'axis out of bounds')
            out.append(x % nd)
        return out

    def reduce(self, op, a, axis=None, keepdims=False):
        I = self.i
        if isinstance(a, Ref) and isinstance(I.cell(a), SpCell):
            if op == 'sum':
                return self.sp_sum(a, I.cell(a), axis)
            self.unsup('reduction of a sparse matrix')
        if isinstance(a, Arr) and a.whole() and isinstance(
                I.heap[a.cid], SegCell) and op in ('sum', 'all', 'any') and \
                axis is None:
            tot = None
            for s in I.heap[a.cid].segs:
                r = tt(I.scalarize(self.reduce(op, I.new(s), None)))
                tot = r if tot is None else (
                    add(tot, r) if op == 'sum' else
                    and_(tot, r) if op == 'all' else or_(tot, r))
            return fix(tot)
        av = I.av(a)
        if isinstance(av.dt, DtypeV) or av.dt == 's' and op in ('sum',
                                                                'prod'):
            I.raise_('TypeError', 'reduction of non-numbers')
        axs = self.axes(axis, len(av.dims))
        body = av.body
        if op in ('amax', 'amin', 'argmax', 'argmin'):
            for k in axs:
                n = numval(av.dims[k])
                if n == 0:
                    I.raise_('ValueError', 'zero-size array to reduction')
                if n is None:
                    I.partial(lt(ZERO, av.dims[k]), 'ValueError',
                              'zero-size array to reduction operation')
        if op in ('argmax', 'argmin'):
            if axis is None and len(av.dims) != 1:
                fl = I.read(self.reshape(I.new(av), (-1,)))
                return fix(X.red(op, fl.ivs[0], fl.dims[0], fl.body))
        for k in sorted(axs, reverse=True):
            v, d = av.ivs[k], av.dims[k]
            if op == 'sum':
                body = X.sum_(v, d, body)
            elif op == 'prod':
                body = X.red('prod', v, d, body)
            elif op == 'any':
                body = X.any_(v, d, X.truth(body))
            elif op == 'all':
                body = X.all_(v, d, X.truth(body))
            else:
                body = X.red(op, v, d, body)
        if op in ('any', 'all'):
            dt = 'b'
        elif op in ('argmax', 'argmin'):
            dt = 'i'
        else:
            dt = av.dt if av.dt != 'b' or op in ('amax', 'amin') else 'i'
        if keepdims is True:
            dims = [ONE if k in axs else d for k, d in enumerate(av.dims)]
            ivs = [iv(1) if k in axs else v for k, v in enumerate(av.ivs)]
            return I.new(canon(AV(dims, ivs, body, dt)))
        dims = [d for k, d in enumerate(av.dims) if k not in axs]
        ivs = [v for k, v in enumerate(av.ivs) if k not in axs]
        if av.mat and axis is not None and dims:
            dims = [ONE if k in axs else d for k, d in enumerate(av.dims)]
            ivs = [iv(1) if k in axs else v for k, v in enumerate(av.ivs)]
            return I.new(canon(AV(dims, ivs, body, dt, True)))
        if not dims:
            return fix(body)
        return I.new(canon(AV(dims, ivs, body, dt)))

    RSIG = 'a,axis=None,dtype=None,out=None,keepdims=False'

    def red_call(self, op, args, kw):
        sig = self.RSIG if op in ('sum', 'prod') else \
            'a,axis=None,out=None,keepdims=False'
        o = self.B(sig, args, kw, op)
        if isinstance(o.a, tuple) or isinstance(o.a, Ref) and not isinstance(
                self.i.cell(o.a), SpCell):
            o.a = self.i.new(self.i.av(o.a))
        return self.reduce(op, o.a, o.axis, o.keepdims)

    def np_sum(self, args, kw):
        return self.red_call('sum', args, kw)

    def np_prod(self, args, kw):
        return self.red_call('prod', args, kw)

    def np_max(self, args, kw):
        return self.red_call('amax', args, kw)

    def np_min(self, args, kw):
        return self.red_call('amin', args, kw)

    np_amax, np_amin = np_max, np_min

    def np_any(self, args, kw):
        return self.red_call('any', args, kw)

    def np_all(self, args, kw):
        return self.red_call('all', args, kw)

    def np_argmax(self, args, kw):
        return self.red_call('argmax', args, kw)

    def np_argmin(self, args, kw):
        return self.red_call('argmin', args, kw)

    def np_ptp(self, args, kw):
        return self.i.binop('-', self.np_max(args, kw), self.np_min(args, kw))

    def np_nansum(self, args, kw):
        a = self.i.map_av(lambda x: ite(app('isnan', x), ZERO, x), args[:1])
        return self.np_sum([a] + list(args[1:]), kw)

    def cnt(self, a, axis):
        av = self.i.av(a)
        return prod_([av.dims[k] for k in self.axes(axis, len(av.dims))])

    def np_mean(self, args, kw):
        o = self.B(self.RSIG, args, kw, 'mean')
        if isinstance(o.a, Ref) and isinstance(self.i.cell(o.a), SpCell):
            self.unsup('mean of a sparse matrix')
        n = self.cnt(o.a, o.axis)
        s = self.red_call('sum', [o.a, o.axis], {'keepdims': o.keepdims})
        return self.i.num1(lambda x: div(x, n), s, 'f')

    def np_average(self, args, kw):
        o = self.B('a,axis=None,weights=None', args, kw, 'average')
        if o.weights is None:
            return self.np_mean([o.a, o.axis], {})
        I = self.i
        w = I.binop('*', o.a, o.weights)
        s = self.red_call('sum', [w, o.axis], {})
        t = self.red_call('sum', [o.weights, o.axis], {})
        return I.binop('/', s, t)

    def np_var(self, args, kw):
        o = self.B('a,axis=None,dtype=None,out=None,ddof=0,keepdims=False',
                   args, kw, 'var')
        I = self.i
        m = self.np_mean([o.a], {'axis': o.axis, 'keepdims': True}) \
            if o.axis is not None else self.np_mean([o.a], {})
        d = I.map_av(lambda x, y: mul(sub(x, y), sub(x, y)), [o.a, m], 'f')
        if not isinstance(d, Arr):
            d = I.new(I.av(d))
        n = sub(self.cnt(o.a, o.axis), tt(o.ddof))
        s = self.reduce('sum', d, o.axis, o.keepdims)
        return I.num1(lambda x: div(x, n), s, 'f')

    def np_std(self, args, kw):
        return self.i.num1(lambda x: app('sqrt', x), self.np_var(args, kw),
                           'f')

    def np_nanmean(self, args, kw):
        o = self.B(self.RSIG, args, kw, 'nanmean')
        I = self.i
        s = self.np_nansum([o.a], {'axis': o.axis, 'keepdims': o.keepdims})
        c = self.red_call('sum', [I.map_av(lambda x: not_(app('isnan', x)),
                                           [o.a], 'b')],
                          {'axis': o.axis, 'keepdims': o.keepdims})
        return I.binop('/', s, c)

    def np_nanvar(self, args, kw):
        o = self.B('a,axis=None,dtype=None,out=None,ddof=0,keepdims=False',
                   args, kw, 'nanvar')
        I = self.i
        m = self.np_nanmean([o.a], {'axis': o.axis, 'keepdims':
                                    o.axis is not None})
        d = I.map_av(lambda x, y: ite(app('isnan', x), ZERO, mul(
            sub(x, y), sub(x, y))), [o.a, m], 'f')
        s = self.reduce('sum', d, o.axis, o.keepdims)
        c = self.red_call('sum', [I.map_av(lambda x: not_(app('isnan', x)),
                                           [o.a], 'b')],
                          {'axis': o.axis, 'keepdims': o.keepdims})
        return I.binop('/', s, I.binop('-', c, o.ddof))

    def np_nanstd(self, args, kw):
        return self.i.num1(lambda x: app('sqrt', x),
                           self.np_nanvar(args, kw), 'f')

    def np_median(self, args, kw):
        self.unsup('median')

    def np_cumsum(self, args, kw):
        o = self.B('a,axis=None,dtype=None', args, kw, 'cumsum')
        a = self.i.av(o.a)
        if len(a.dims) != 1:
            self.unsup('cumsum')
        dt = 'i' if a.dt == 'b' else a.dt

        def f(i):
            w = iv(add(i, ONE))
            return X.sum_(w, add(i, ONE), a.at(w))
        return self.i.arr(a.dims, f, dt)

    def np_diff(self, args, kw):
        o = self.B('a,n=1,axis=-1', args, kw, 'diff')
        a = self.i.av(o.a)
        if len(a.dims) != 1 or o.n != 1:
            self.unsup('diff')
        n = sub(a.dims[0], ONE)
        if not X.nonneg(n):
            n = app('max2', n, ZERO) if numval(n) is None else num(0)
        return self.i.arr((n,), lambda i: sub(a.at(add(i, ONE)), a.at(i)),
                          a.dt)

    def np_count_nonzero(self, args, kw):
        I = self.i
        a = args[0]
        if isinstance(a, Ref) and isinstance(I.cell(a), SpCell):
            return self.sp_nnz(I.cell(a))
        b = I.map_av(lambda x: X.truth(x), [a], 'b')
        return self.np_sum([b] + list(args[1:]), kw)

    # ---- products --------------------------------------------------------
    def is_mat(self, a):
        c = self.i.heap[a.cid]
        return isinstance(c, ArrCell) and c.av.mat

    def np_dot(self, args, kw):
        return self.dot(args[0], args[1])

    def np_matmul(self, args, kw):
        return self.dot(args[0], args[1])

    def np_vdot(self, args, kw):
        return self.dot(self.np_ravel([args[0]], {}),
                        self.np_ravel([args[1]], {}))

    def np_inner(self, args, kw):
        a, b = [self.i.av(x) for x in args[:2]]
        if len(b.dims) == 2:
            return self.dot(args[0], self.transpose(
                self.asarray(args[1], None, False)))
        return self.dot(args[0], args[1])

    def np_outer(self, args, kw):
        a, b = [self.i.av(x) for x in args[:2]]
        return self.i.arr(a.dims + b.dims, lambda i, j: mul(a.at(i), b.at(j)),
                          join_dt(a.dt, b.dt))

    def dot(self, a, b):
        I = self.i
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(I.cell(x), SpCell):
                return self.sp_dot(a, b)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.whole() and \
                b.whole():
            ca, cb = I.heap[a.cid], I.heap[b.cid]
            if isinstance(ca, SegCell) or isinstance(cb, SegCell):
                return self.reduce('sum', I.emap(mul, [a, b]), None)
        x, y = I.av(a), I.av(b)
        dt = join_dt(x.dt, y.dt)
        if not x.dims or not y.dims:
            return I.binop('*', a, b)
        xn, yn = len(x.dims), len(y.dims)
        if xn == 1 and yn == 1:
            d = x.dims[0]
            I.partial(eq(d, y.dims[0]), 'ValueError', 'shapes not aligned')
            v = iv(d)
            return fix(X.sum_(v, d, mul(x.at(v), y.at(v))))
        d = x.dims[-1]
        yd = y.dims[0] if yn == 1 else y.dims[-2]
        I.partial(eq(d, yd), 'ValueError', 'shapes not aligned')
        if xn <= 2 and yn <= 2:
            odims = list(x.dims[:-1]) + ([] if yn == 1 else [y.dims[1]])

            def f(*ix):
                v = iv(d)
                xi = list(ix[:xn - 1]) + [v]
                yi = [v] + list(ix[xn - 1:])
                return X.sum_(v, d, mul(x.at(*xi), y.at(*yi)))
            return I.arr(odims, f, dt, x.mat or y.mat)
        self.unsup('product of arrays of many dimensions')

    def np_einsum(self, args, kw):
        I = self.i
        spec = args[0]
        if not isinstance(spec, str) or '.' in spec:
            self.unsup('einsum')
        spec = spec.replace(' ', '')
        if '->' in spec:
            ins, out = spec.split('->')
        else:
            ins = spec
            ls = [c for c in ins if c != ',']
            out = ''.join(sorted(c for c in set(ls) if ls.count(c) == 1))
        ins = ins.split(',')
        avs = [I.av(x) for x in args[1:]]
        dim = {}
        for s, a in zip(ins, avs):
            if len(s) != len(a.dims):
                I.raise_('ValueError', 'einsum')
            for c, d in zip(s, a.dims):
                if c in dim:
                    I.partial(eq(dim[c], d), 'ValueError', 'einsum')
                else:
                    dim[c] = d
        vs = {c: iv(d) for c, d in dim.items()}
        body = ONE
        dt = avs[0].dt
        for s, a in zip(ins, avs):
            body = mul(body, a.at(*[vs[c] for c in s]))
            dt = join_dt(dt, a.dt)
        for c in dim:
            if c not in out:
                body = X.sum_(vs[c], dim[c], body)
        if not out:
            return fix(body)
        return I.new(AV([dim[c] for c in out], [vs[c] for c in out], body,
                        dt))

    def np_tensordot(self, args, kw):
        self.unsup('tensordot')

    # ---- searching, counting ---------------------------------------------
    def np_where(self, args, kw):
        I = self.i
        if len(args) == 1:
            return self.np_nonzero(args, kw)
        return I.map_av(lambda c, a, b: ite(X.truth(c), a, b), args[:3],
                        join_dt(I.av(args[1]).dt, I.av(args[2]).dt))

    def np_select(self, args, kw):
        o = self.B('condlist,choicelist,default=0', args, kw, 'select')
        r = o.default
        for c, x in reversed(list(zip(self.i.iterate(o.condlist)[1],
                                      self.i.iterate(o.choicelist)[1]))):
            r = self.np_where([c, x, r], {})
        return r

    def np_nonzero(self, args, kw):
        I = self.i
        a = I.av(args[0])
        if len(a.dims) == 1:
            b = AV(a.dims, a.ivs, X.truth(a.body), 'b')
            return (I.new(I.nonzero1(b)),)
        if len(a.dims) == 2:
            fl = I.read(self.reshape(I.new(AV(a.dims, a.ivs,
                                              X.truth(a.body), 'b')), (-1,)))
            ix = I.nonzero1(fl)
            k = a.dims[1]
            return (I.arr(ix.dims, lambda i: fdiv(ix.at(i), k)[0], 'i'),
                    I.arr(ix.dims, lambda i: fdiv(ix.at(i), k)[1], 'i'))
        self.unsup('nonzero of an array of many dimensions')

    def np_flatnonzero(self, args, kw):
        return self.np_nonzero([self.np_ravel(args, {})], {})[0]

    def np_argwhere(self, args, kw):
        r = self.np_nonzero(args, kw)
        return self.np_column_stack([r], {})

    def np_compress(self, args, kw):
        o = self.B('condition,a,axis=None', args, kw, 'compress')
        a = self.asarray(o.a, None, False)
        c = self.i.av(o.condition)
        if len(c.dims) != 1:
            self.i.raise_('ValueError', 'condition must be a 1-d array')
        if o.axis is None and len(self.i.read(a).dims) > 1:
            a = self.np_ravel([a], {})
        m = self.i.new(AV(c.dims, c.ivs, X.truth(c.body), 'b'))
        ax = 0 if o.axis is None else const(o.axis)
        if ax < 0:
            ax += len(self.i.read(a).dims)
        return self.i.getitem(a, tuple([slice(None)] * ax + [m]))

    def np_extract(self, args, kw):
        return self.np_compress(args, kw)

    def np_take(self, args, kw):
        o = self.B("a,indices,axis=None,out=None,mode='raise'", args, kw,
                   'take')
        I = self.i
        a = self.asarray(o.a, None, False)
        ix = o.indices
        if isinstance(ix, (tuple, Ref)):
            ix = I.new(I.av(ix))
        if o.axis is None and len(I.read(a).dims) > 1:
            a = self.reshape(a, (-1,))
        ax = const(o.axis) if o.axis is not None else 0
        if ax < 0:
            ax += len(I.read(a).dims)
        if o.mode in ('clip', 'wrap'):
            n = I.read(a).dims[ax]
            if o.mode == 'clip':
                ix = self.np_clip([ix, 0, sub(n, ONE)], {})
            else:
                ix = self.np_mod([ix, n], {})
        elif o.mode != 'raise':
            self.unsup('take mode')
        return I.getsub(a, tuple([slice(None)] * ax + [ix])
                        if ax else ix)

    def np_searchsorted(self, args, kw):
        o = self.B("a,v,side='left',sorter=None", args, kw, 'searchsorted')
        I = self.i
        a = I.av(o.a)
        right = o.side == 'right'

        def f(x):
            w = iv(a.dims[0])
            c = le(a.at(w), x) if right else lt(a.at(w), x)
            return X.sum_(w, a.dims[0], c)
        return I.map_av(f, [o.v], 'i')

    def np_digitize(self, args, kw):
        o = self.B('x,bins,right=False', args, kw, 'digitize')
        I = self.i
        a = I.av(o.bins)

        def f(x):
            w = iv(a.dims[0])
            c = lt(a.at(w), x) if o.right is True else le(a.at(w), x)
            return X.sum_(w, a.dims[0], c)
        r = I.map_av(f, [o.x], 'i')
        return r

    def np_bincount(self, args, kw):
        o = self.B('x,weights=None,minlength=0', args, kw, 'bincount')
        I = self.i
        a = I.av(o.x)
        if len(a.dims) != 1:
            I.raise_('ValueError', 'object of too small depth or too deep')
        if a.dt == 'f' and numval(a.dims[0]) != 0:
            I.raise_('TypeError', 'Cannot cast array data from float to int')
        ml = tt(I.scalarize(o.minlength))
        v, d = a.ivs[0], a.dims[0]
        u = I.upper(a.body)
        if u is None:
            I.partial(X.all_(v, d, le(ZERO, a.body)), 'ValueError',
                      'bincount of negative values')
        if u is not None and v.id not in u.fv and (
                u is ml or X.nonneg(sub(ml, u))):
            n = ml
        else:
            n = app('max2', ml, ite(lt(ZERO, d), add(
                X.red('amax', v, d, a.body), ONE), ZERO))
        w = None
        if o.weights is not None:
            w = I.av(o.weights)
            I.partial(eq(w.dims[0], d), 'ValueError', 'weights and list')

        def f(i):
            z = iv(d)
            c = eq(a.at(z), i)
            return X.sum_(z, d, c if w is None else mul(c, w.at(z)))
        return I.arr((n,), f, 'i' if w is None else 'f')

    def np_histogram(self, args, kw):
        o = self.B('a,bins=10,range=None,density=None,weights=None', args,
                   kw, 'histogram')
        I = self.i
        if o.density not in (None, False) or o.weights is not None:
            self.unsup('histogram options')
        a = I.av(self.np_ravel([o.a], {}))
        nb = I.scalarize(o.bins)
        if is_num(nb):
            if tt(nb).sort == 'f':
                I.raise_('TypeError', '`bins` must be an integer, a string, '
                         'or an array')
            I.partial(le(ONE, tt(nb)), 'ValueError',
                      '`bins` must be positive')
            if o.range is not None:
                lo, hi = [tt(x) for x in I.iterate(o.range)[1]]
                I.partial(le(lo, hi), 'ValueError', 'max must be larger')
            else:
                lo = X.red('amin', a.ivs[0], a.dims[0], a.body)
                hi = X.red('amax', a.ivs[0], a.dims[0], a.body)
            h = num(Fraction(1, 2))
            same = eq(lo, hi)
            lo, hi = ite(same, sub(lo, h), lo), ite(same, add(hi, h), hi)
            o.bins = self.np_linspace([lo, hi, add(tt(nb), ONE)], {})
        elif o.range is not None:
            self.unsup('histogram options')
        e = I.av(o.bins)
        n = sub(e.dims[0], ONE)

        def f(i):
            z = iv(a.dims[0])
            x = a.at(z)
            hi = e.at(add(i, ONE))
            c = and_(le(e.at(i), x), or_(lt(x, hi), and_(
                eq(x, hi), eq(i, sub(n, ONE)))))
            return X.sum_(z, a.dims[0], c)
        return (I.arr((n,), f, 'i'), o.bins if isinstance(o.bins, Arr) else
                I.new(e))

    def uniq(self, L):
        """sorted distinct values of a one dimensional array term"""
        t = mk('uniq', L, sort=L.sort)
        if t.id not in X.DIMS:
            n = mk('nuniq', L, sort='i')
            X.NONNEG.add(n)
            X.DIMS[t.id] = (n,)
        return t

    def np_unique(self, args, kw):
        o = self.B('ar,return_index=False,return_inverse=False,'
                   'return_counts=False,axis=None', args, kw, 'unique')
        I = self.i
        a = I.av(o.ar)
        if o.axis is not None and len(a.dims) == 2 and const(o.axis) == 0:
            if o.return_index is not False or o.return_inverse is not False:
                self.unsup('unique rows')
            L = a.term()
            t = mk('uniqrow', L, sort=L.sort)
            n = mk('nuniqrow', L, sort='i')
            X.NONNEG.add(n)
            X.DIMS[t.id] = (n, a.dims[1])
            r = I.arr((n, a.dims[1]), lambda i, j: elem(t, i, j), a.dt)
            if o.return_counts is not False:
                def cnt(i):
                    z = iv(a.dims[0])
                    w = iv(a.dims[1])
                    return X.sum_(z, a.dims[0], X.all_(
                        w, a.dims[1], eq(a.at(z, w), elem(t, i, w))))
                return (r, I.arr((n,), cnt, 'i'))
            return r
        if o.axis is not None and not (len(a.dims) == 1):
            self.unsup('unique along an axis')
        if len(a.dims) != 1:
            a = I.read(self.reshape(I.new(a), (-1,)))
        cu = I.config.get('known_uniq')
        L = a.term()
        t = None
        if cu:
            t = cu.get(L.id)
        if t is None:
            vals = scalar_list(a)
            if vals is not None and all(numval(x) is not None or
                                        x.op == 'str' for x in vals):
                ks = sorted(set(fix(x) for x in vals))
                t = X.tab(ks) if ks else None
                if t is None:
                    return I.new(a)
        if t is None and I.config.get('nonempty') and len(a.dims) == 1:
            v = a.ivs[0]
            b = a.body
            if not X.mentions(b, v):
                t = X.tab([fix(b)])
            elif b.op == 'app' and b.args[0] == 'mod' and \
                    b.args[1][0] is v and numval(b.args[1][1]) is not None:
                k = int(numval(b.args[1][1]))
                if 0 < k < 64 and I.oracles and \
                        I.decide(le(num(k), a.dims[0])):
                    t = X.tab(list(range(k)))
        if t is None:
            t = self.uniq(L)
        n = X.DIMS[t.id][0]
        out = [I.new(canon(AV((n,), (w_ := iv(n),), elem(t, w_), a.dt)))]
        if o.return_index is not False:
            def fi(i):
                return X.pos(L, elem(t, i))
            out.append(I.arr((n,), fi, 'i'))
        if o.return_inverse is not False:
            def pinv(x):
                if t.op == 'tab':
                    r = num(len(t.args[0]) - 1)
                    for j in reversed(range(len(t.args[0]) - 1)):
                        r = ite(eq(x, t.args[0][j]), num(j), r)
                    return r
                return X.pos(t, x)
            out.append(I.arr(a.dims, lambda i: pinv(a.at(i)), 'i'))
        if o.return_counts is not False:
            def fc(i):
                z = iv(a.dims[0])
                return X.sum_(z, a.dims[0], eq(a.at(z), elem(t, i)))
            out.append(I.arr((n,), fc, 'i'))
        return out[0] if len(out) == 1 else tuple(out)

    def np_sort(self, args, kw):
        o = self.B('a,axis=-1,kind=None', args, kw, 'sort')
        I = self.i
        a = I.av(o.a)
        if len(a.dims) != 1:
            self.unsup('sort of a matrix')
        L = a.term()
        if L.op in ('uniq', 'sortv'):
            return I.new(a)
        t = X.arrop('sortv', L, sort=L.sort, dims=a.dims)
        return I.arr(a.dims, lambda i: elem(t, i), a.dt)

    def np_argsort(self, args, kw):
        o = self.B('a,axis=-1,kind=None', args, kw, 'argsort')
        I = self.i
        a = I.av(o.a)
        if len(a.dims) != 1:
            self.unsup('argsort of a matrix')
        t = X.arrop('argsort', a.term(), sort='i', dims=a.dims)
        return I.arr(a.dims, lambda i: elem(t, i), 'i')

    def np_isin(self, args, kw):
        o = self.B('element,test_elements,assume_unique=False,invert=False',
                   args, kw, 'isin')
        I = self.i
        b = I.av(o.test_elements)
        if len(b.dims) == 0:
            f = lambda x: eq(x, b.body)  # noqa
        else:
            if len(b.dims) != 1:
                b = I.read(self.reshape(I.new(b), (-1,)))

            def f(x):
                w = iv(b.dims[0])
                return X.any_(w, b.dims[0], eq(b.at(w), x))
        g = (lambda x: not_(f(x))) if o.invert is True else f
        return I.map_av(g, [o.element], 'b')

    np_in1d = np_isin

    def np_setdiff1d(self, args, kw):
        I = self.i
        u = self.np_unique([args[0]], {})
        m = self.np_isin([u, args[1]], {'invert': True})
        return I.getitem(u, m)

    def np_intersect1d(self, args, kw):
        I = self.i
        u = self.np_unique([args[0]], {})
        return I.getitem(u, self.np_isin([u, args[1]], {}))

    def np_union1d(self, args, kw):
        return self.np_unique([self.np_concatenate(
            [(args[0], args[1])], {})], {})

    def np_array_equal(self, args, kw):
        I = self.i
        o = self.B('a1,a2,equal_nan=False', args, kw, 'array_equal')
        try:
            a, b = I.av(o.a1), I.av(o.a2)
        except Unsupported:
            raise
        if len(a.dims) != len(b.dims):
            return False
        c = and_(*[eq(p, q) for p, q in zip(a.dims, b.dims)])
        r = eq(a.body, b.at(*a.ivs))
        for v, d in zip(a.ivs, a.dims):
            r = X.all_(v, d, r)
        return fix(and_(c, r))

    def np_allclose(self, args, kw):
        self.unsup('allclose')

    def np_isclose(self, args, kw):
        self.unsup('isclose')

    def np_array_split(self, args, kw):
        self.unsup('array_split')

    def np_split(self, args, kw):
        self.unsup('split')

    def np_ndim(self, args, kw):
        a = args[0]
        return len(self.i.av(a).dims) if not isinstance(a, Arr) else \
            self.arr_attr(a, 'ndim')

    def np_shape(self, args, kw):
        return tuple(fix(d) for d in self.i.av(args[0]).dims)

    def np_size(self, args, kw):
        a = self.i.av(args[0])
        if len(args) > 1:
            return fix(a.dims[const(args[1])])
        return fix(prod_(a.dims))

    def np_isscalar(self, args, kw):
        a = args[0]
        if isinstance(a, (int, float, str, bool)):
            return True
        if isinstance(a, (Arr, Ref, tuple)) or a is None:
            return False
        if isinstance(a, T):
            return True
        self.unsup('isscalar')

    def np_seterr(self, args, kw):
        self.i.effect('seterr', dict(kw))
        return self.i.newdict({})

    def np_errstate(self, args, kw):
        return Opq('object', mk('sym', 'errstate', sort='o'))

    def np_issubdtype(self, args, kw):
        a, b = args
        ka, kb = self.dtk(a), None
        if isinstance(b, Ext):
            kb = {'numpy.integer': 'i', 'numpy.floating': 'f',
                  'numpy.number': 'if', 'numpy.bool_': 'b',
                  'numpy.int64': 'i', 'numpy.float64': 'f',
                  'builtins.int': 'i', 'builtins.float': 'f',
                  'numpy.signedinteger': 'i', 'numpy.character': 's'}.get(
                      b.name)
        if kb is None:
            self.unsup('issubdtype')
        return ka in kb

    def np_can_cast(self, args, kw):
        self.unsup('can_cast')

    def np_ix_(self, args, kw):
        I = self.i
        n = len(args)
        out = []
        for k, a in enumerate(args):
            a = I.new(I.av(a))
            if I.read(a).dt == 'b':
                a = self.np_nonzero([a], {})[0]
            key = tuple(slice(None) if j == k else None for j in range(n))
            out.append(I.getitem(a, key))
        return tuple(out)

    def np_meshgrid(self, args, kw):
        self.unsup('meshgrid')

    def np_vectorize(self, args, kw):
        self.unsup('vectorize')

    def np_genfromtxt(self, args, kw):
        from . import tables
        return tables.genfromtxt(self, args, kw)

    # ==================================================================
    # random numbers
    def global_random(self, name, args, kw):
        I = self.i
        if name in ('RandomState', 'default_rng'):
            o = self.B('seed=None', args, kw, name)
            return self.mkrng(o.seed)
        I.effect('globalrng', name)
        r = self.grng()
        if name == 'seed':
            I.heap[r.id] = RNGCell(mk('tup', (tt('seed'), I.tot(args[0])
                                              if args else tt(None)),
                                      sort='o'), 0)
            return None
        return self.draw(r, name, args, kw)

    def grng(self):
        """the generator behind numpy.random"""
        I = self.i
        r = I.config.get('grng')
        if r is None or r.id not in I.heap:
            r = I.ref(RNGCell(mk('sym', 'globalrng', sort='o'), 0))
            I.config['grng'] = r
        return r

    def mkrng(self, seed, shared=False):
        I = self.i
        if seed is None:
            I.effect('globalrng', 'check_random_state(None)')
            if shared:
                return self.grng()
            return I.ref(RNGCell(mk('sym', 'globalrng', sort='o'), 0))
        if isinstance(seed, Ref) and isinstance(I.cell(seed), RNGCell):
            return seed
        if is_scalar(seed):
            return I.ref(RNGCell(mk('tup', (tt('seed'), tt(seed)), sort='o'),
                                 0))
        if isinstance(seed, Opq):
            return I.ref(RNGCell(seed.term, 0))
        I.raise_('ValueError', 'cannot be used to seed')

    def draw(self, r, name, args, kw):
        I = self.i
        c = I.cell(r)
        sigs = {'normal': 'loc=0.0,scale=1.0,size=None',
                'standard_normal': 'size=None',
                'uniform': 'low=0.0,high=1.0,size=None',
                'random_sample': 'size=None', 'random': 'size=None',
                'sample': 'size=None', 'ranf': 'size=None'}
        if name in ('randn', 'rand'):
            size = tuple(args) if args else None
            args = []
            kw = {'size': size}
            name = 'standard_normal' if name == 'randn' else 'random_sample'
        if name in sigs:
            o = self.B(sigs[name], args, kw, name)
            size = o.size
            dims = () if size is None else self.shape_of(size)
            dist = 'normal' if name in ('normal', 'standard_normal') else \
                'uniform'
            n = prod_(dims)
            ctr = tt(c.ctr)
            t = X.arrop('draw', c.key, ZERO, dist, (), ())
            X.DIMS.pop(t.id, None)
            I.heap[r.id] = RNGCell(c.key, fix(add(ctr, n)))
            I.effect('draw', (r, dist, c.key))

            def f(*ix):
                p = ZERO
                for i, d in zip(ix, dims):
                    p = add(mul(p, d), i)
                return elem(t, add(ctr, p))
            if not dims:
                z = f()
                base = fix(z)
            else:
                base = I.arr(dims, f, 'f')
            if name == 'normal':
                return I.binop('+', I.binop('*', base, o.scale), o.loc)
            if name == 'uniform':
                w = I.binop('-', o.high, o.low)
                return I.binop('+', I.binop('*', base, w), o.low)
            return base
        I.effect('draw', (r, name, c.key))
        ctr = tt(c.ctr)
        I.heap[r.id] = RNGCell(c.key, fix(add(ctr, ONE)))
        if name == 'permutation':
            x = I.scalarize(args[0])
            if is_num(x):
                n = tt(x)
                t = X.arrop('draw', c.key, ctr, 'permutation', (n,), (n,),
                            dims=(n,), sort='i')
                return I.arr((n,), lambda i: elem(t, i), 'i')
            a = I.av(x)
            n = a.dims[0]
            t = X.arrop('draw', c.key, ctr, 'permutation', (n,), (n,),
                        dims=(n,), sort='i')
            return I.arr(a.dims, lambda i, *ix: a.at(elem(t, i), *ix), a.dt)
        if name == 'shuffle':
            a = I.read(args[0])
            n = a.dims[0]
            t = X.arrop('draw', c.key, ctr, 'permutation', (n,), (n,),
                        dims=(n,), sort='i')
            I.write(args[0], lambda i, *ix: a.at(elem(t, i), *ix))
            return None
        if name == 'dirichlet':
            o = self.B('alpha,size=None', args, kw, name)
            al = I.av(o.alpha)
            dims = () if o.size is None else self.shape_of(o.size)
            dims = tuple(dims) + (al.dims[0],)
            t = X.arrop('draw', c.key, ctr, 'dirichlet', (al.term(),), dims,
                        dims=dims)
            return I.arr(dims, lambda *ix: elem(t, *ix), 'f')
        if name in ('randint', 'random_integers', 'integers'):
            o = self.B('low,high=None,size=None,dtype=None', args, kw, name)
            dims = () if o.size is None else self.shape_of(o.size)
            lo, hi = (0, o.low) if o.high is None else (o.low, o.high)
            t = X.arrop('draw', c.key, ctr, 'randint',
                        (tt(lo), tt(hi)), dims, dims=dims, sort='i')
            if not dims:
                return elem(t, ZERO)
            return I.arr(dims, lambda *ix: elem(t, *ix), 'i')
        if name == 'seed':
            I.heap[r.id] = RNGCell(mk('tup', (tt('seed'), I.tot(args[0])),
                                      sort='o'), 0)
            return None
        if name in ('get_state',):
            return Opq('object', mk('tup', (tt('state'), c.key, ctr),
                                    sort='o'))
        self.unsup('random ' + name)

    def sk_check_random_state(self, args, kw):
        o = self.B('seed', args, kw, 'check_random_state')
        return self.mkrng(o.seed, True)

    # ---- sklearn utilities -------------------------------------------------
    def sk_check_array(self, args, kw):
        I = self.i
        o = self.B("array,accept_sparse=False,accept_large_sparse=True,"
                   "dtype='numeric',order=None,copy=False,"
                   "force_all_finite=True,ensure_all_finite=None,"
                   "ensure_2d=True,allow_nd=False,ensure_min_samples=1,"
                   "ensure_min_features=1,estimator=None", args, kw,
                   'check_array')
        x = o.array
        if isinstance(x, Ref) and isinstance(I.cell(x), SpCell):
            if o.accept_sparse is False:
                I.raise_('TypeError', 'sparse matrix was passed')
            return x
        if isinstance(x, Opq):
            self.unsup('check_array of an object')
        cur = self.asarray(x, None, False)
        if isinstance(I.heap[cur.cid], CArrCell):
            self.unsup('check_array of an object array')
        av = I.read(cur)
        dt = o.dtype
        if dt == 'numeric':
            if av.dt in ('s', 'o'):
                k = 'f'
            else:
                k = None
        elif isinstance(dt, (tuple,)) or isinstance(dt, Ref) and isinstance(
                I.cell(dt), ListC):
            ks = [self.dtk(q) for q in I.iterate(dt)[1]]
            k = None if av.dt in ks else ks[0]
        else:
            k = self.dtk(dt)
        r = self.asarray(cur, None if k is None else DtypeV(k)
                         if not isinstance(k, DtypeV) else k,
                         o.copy is True)
        av = I.read(r)
        nd = len(av.dims)
        if o.ensure_2d is True and nd != 2:
            if nd < 2:
                I.raise_('ValueError', 'Expected 2D array')
        if o.allow_nd is not True and nd >= 3:
            I.raise_('ValueError', 'Found array with dim %d' % nd)
        fin = o.force_all_finite if o.ensure_all_finite is None else \
            o.ensure_all_finite
        if fin is True and av.dt == 'f':
            c = app('isfinite', av.body)
            for v, d in zip(av.ivs, av.dims):
                c = X.all_(v, d, c)
            I.partial(c, 'ValueError', 'Input contains NaN or infinity')
        if nd and const(o.ensure_min_samples):
            I.partial(le(tt(o.ensure_min_samples), av.dims[0]), 'ValueError',
                      'Found array with 0 samples')
        return r

    def sk_as_float_array(self, args, kw):
        o = self.B('X,copy=True,force_all_finite=True,'
                   'ensure_all_finite=None', args, kw, 'as_float_array')
        a = self.i.av(o.X)
        if not isinstance(o.X, Arr):
            self.finite(o.X)
        if a.dt == 'f':
            return self.asarray(o.X, None, o.copy is True)
        return self.asarray(o.X, DtypeV('f'), True)

    def sk_assert_all_finite(self, args, kw):
        self.finite(args[0])
        return None

    def finite(self, x):
        I = self.i
        a = I.av(x)
        if a.dt == 'f':
            c = app('isfinite', a.body)
            for v, d in zip(a.ivs, a.dims):
                c = X.all_(v, d, c)
            I.partial(c, 'ValueError', 'Input contains NaN or infinity')

    def nrows(self, x):
        I = self.i
        if isinstance(x, Ref) and isinstance(I.cell(x), SpCell):
            return I.cell(x).av.dims[0]
        if isinstance(x, Arr) and isinstance(I.heap[x.cid], CArrCell):
            return num(I.heap[x.cid].shape[0])
        if isinstance(x, Ref) and isinstance(I.cell(x), ListC):
            return num(len(I.cell(x).items))
        a = I.av(x)
        if not a.dims:
            I.raise_('TypeError', 'Expected sequence or array-like')
        return a.dims[0]

    def sk_check_consistent_length(self, args, kw):
        ns = [self.nrows(a) for a in args if a is not None]
        for n in ns[1:]:
            self.i.partial(eq(n, ns[0]), 'ValueError', 'Found input '
                           'variables with inconsistent numbers of samples')
        return None

    def sk_indexable(self, args, kw):
        self.sk_check_consistent_length(args, kw)
        out = []
        for a in args:
            if a is None or isinstance(a, Arr):
                out.append(a)
            elif isinstance(a, Ref) and isinstance(self.i.cell(a), (
                    ListC, SeqC)):
                out.append(a)
            else:
                out.append(a)
        return self.i.newlist(out)

    def sk_column_or_1d(self, args, kw):
        return self.np_ravel(args[:1], {})

    def sk__num_samples(self, args, kw):
        return fix(self.nrows(args[0]))

    def sk_mean_absolute_error(self, args, kw):
        I = self.i
        o = self.B('y_true,y_pred,sample_weight=None', args, kw, 'mae')
        self.sk_check_consistent_length([o.y_true, o.y_pred], {})
        self.finite(o.y_true)
        self.finite(o.y_pred)
        d = I.map_av(lambda x, y: app('abs', sub(x, y)),
                     [o.y_true, o.y_pred], 'f')
        return self.np_average([d], {'weights': o.sample_weight})

    def sk_mean_squared_error(self, args, kw):
        I = self.i
        kw = dict(kw)
        sq = kw.pop('squared', True)
        o = self.B('y_true,y_pred,sample_weight=None', args, kw, 'mse')
        self.sk_check_consistent_length([o.y_true, o.y_pred], {})
        self.finite(o.y_true)
        self.finite(o.y_pred)
        d = I.map_av(lambda x, y: mul(sub(x, y), sub(x, y)),
                     [o.y_true, o.y_pred], 'f')
        return self.np_average([d], {'weights': o.sample_weight})

    def sk_roc_auc_score(self, args, kw):
        I = self.i
        o = self.B("y_true,y_score,average='macro',sample_weight=None", args,
                   kw, 'roc_auc_score')
        self.sk_check_consistent_length([o.y_true, o.y_score], {})
        self.finite(o.y_true)
        self.finite(o.y_score)
        a, b = I.av(o.y_true), I.av(o.y_score)
        i, j = iv(a.dims[0]), iv(a.dims[0])
        d = a.dims[0]
        hi, lo = self.posneg(a, i), self.posneg(a, j)
        w = add(lt(b.at(j), b.at(i)), mul(num(Fraction(1, 2)),
                                          eq(b.at(i), b.at(j))))
        p = X.sum_(i, d, X.sum_(j, d, mul(mul(hi, not_(lo)), w)))
        z = iv(d)
        n1 = X.sum_(z, d, self.posneg(a, z))
        n0 = X.sum_(z, d, not_(self.posneg(a, z)))
        I.partial(and_(lt(ZERO, n1), lt(ZERO, n0)), 'ValueError',
                  'Only one class present in y_true')
        return fix(div(p, mul(n1, n0)))

    def posneg(self, a, i):
        """is entry i of the positive class (the larger label)?"""
        x = a.at(i)
        if a.dt == 'b' or x.sort == 'b':
            return X.truth(x)
        m = X.red('amax', a.ivs[0], a.dims[0], a.body)
        return eq(x, m)

    # ==================================================================
    # sparse matrices
    def sparse(self, fmt, args, kw):
        I = self.i
        o = self.B('arg1,shape=None,dtype=None,copy=False', args, kw,
                   'sparse')
        a = o.arg1
        if isinstance(a, Ref) and isinstance(I.cell(a), SpCell):
            return I.ref(SpCell(fmt, I.cell(a).av))
        if isinstance(a, tuple) and len(a) == 2 and isinstance(
                a[1], (tuple, Ref)) and len(I.iterate(a[1])[1]) == 2:
            d = I.av(a[0])
            r, c = [I.av(q) for q in I.iterate(a[1])[1]]
            if o.shape is None:
                self.unsup('sparse matrix without a shape')
            n, m = [tt(x) for x in I.iterate(o.shape)[1]]
            L = r.dims[0]
            ri = I.nidx(r.body, n)
            ci = I.nidx(c.body, m)
            for e, dim, w in ((r, n, ri), (c, m, ci)):
                if w is not e.body:
                    I.partial(X.all_(e.ivs[0], e.dims[0], le(ZERO, e.body)),
                              'ValueError', 'negative index found')
            dt = self.dtk(o.dtype, d.dt)

            def f(i, j):
                z = iv(L)
                v = d.at(z) if d.dims else d.body
                return X.sum_(z, L, mul(and_(eq(r.at(z), i), eq(c.at(z), j)),
                                        I.cast(v, dt)))
            av = mkav((n, m), f, dt)
            return I.ref(SpCell(fmt, av))
        if isinstance(a, tuple) and all(is_num(x) for x in a):
            k = self.dtk(o.dtype, 'f')
            return I.ref(SpCell(fmt, mkav([tt(x) for x in a],
                                          lambda i, j: ZERO, k)))
        av = I.av(a)
        if len(av.dims) == 2:
            return I.ref(SpCell(fmt, av))
        self.unsup('sparse matrix')

    def sp_nnz(self, c):
        i, j = [iv(d) for d in c.av.dims]
        b = not_(eq(c.av.at(i, j), ZERO))
        return fix(X.sum_(i, c.av.dims[0], X.sum_(j, c.av.dims[1], b)))

    def sp_sum(self, r, c, axis):
        I = self.i
        a = c.av
        if axis is None:
            return self.reduce('sum', I.new(AV(a.dims, a.ivs, a.body, a.dt)))
        k = const(axis)
        if k < 0:
            k += 2
        b = AV(a.dims, a.ivs, a.body, a.dt, True)
        return self.reduce('sum', I.new(b), k)

    def sp_dot(self, a, b):
        I = self.i
        sa = isinstance(a, Ref) and isinstance(I.cell(a), SpCell)
        sb = isinstance(b, Ref) and isinstance(I.cell(b), SpCell)
        x = I.new(I.cell(a).av) if sa else a
        y = I.new(I.cell(b).av) if sb else b
        r = self.dot(x, y)
        if sa and sb:
            return I.ref(SpCell('csr', I.read(r)))
        return r

    def sp_binop(self, op, a, b):
        I = self.i
        sa = isinstance(a, Ref) and isinstance(I.cell(a), SpCell)
        sb = isinstance(b, Ref) and isinstance(I.cell(b), SpCell)
        if op in ('@',) or op == '*' and not (is_num(a) or is_num(b)):
            return self.sp_dot(a, b)
        x = I.cell(a).av if sa else a
        y = I.cell(b).av if sb else b
        if (is_num(x) or is_num(y)) and op in '*/':
            r = I.binop(op, I.new(x) if isinstance(x, AV) else x,
                        I.new(y) if isinstance(y, AV) else y)
            return I.ref(SpCell('csr', I.read(r)))
        if sa and sb and op in '+-':
            r = I.binop(op, I.new(x), I.new(y))
            return I.ref(SpCell('csr', I.read(r)))
        self.unsup('operator %s of a sparse matrix' % op)

    def sp_get(self, o, c, k):
        I = self.i
        if c.fmt == 'coo':
            I.raise_('TypeError', 'coo_matrix object is not subscriptable')
        if isinstance(k, tuple) and len(k) == 2 and all(
                is_num(I.scalarize(x)) for x in k):
            return I.getitem(I.new(c.av), k)
        a = I.new(c.av)
        if not isinstance(k, tuple):
            k = (k, slice(None))
        if len(k) == 2:
            ks = [slice(x, add(tt(x), ONE)) if is_num(x) else x
                  for x in [I.scalarize(y) for y in k]]
            if any(isinstance(x, Arr) for x in ks) and not any(
                    isinstance(x, slice) for x in ks):
                self.unsup('fancy index of a sparse matrix')
            r = I.getitem(a, tuple(ks))
            return I.ref(SpCell(c.fmt, I.read(r)))
        self.unsup('index of a sparse matrix')

    def sp_set(self, o, c, k, v):
        I = self.i
        a = I.new(c.av)
        I.setitem(a, k, v)
        I.heap[o.id] = SpCell(c.fmt, I.read(a))

    def sp_method(self, r, c, name, args, kw):
        I = self.i
        if name in ('tocsr', 'tocsc', 'tocoo', 'tolil', 'todok', 'tobsr'):
            return I.ref(SpCell(name[2:], c.av))
        if name == 'asformat':
            return I.ref(SpCell(args[0], c.av))
        if name in ('copy',):
            return I.ref(SpCell(c.fmt, c.av))
        if name == 'astype':
            dt = self.dtk(args[0])
            a = c.av
            return I.ref(SpCell(c.fmt, AV(a.dims, a.ivs, I.cast(a.body, dt),
                                          dt)))
        if name == 'toarray':
            a = c.av
            return I.new(AV(a.dims, a.ivs, a.body, a.dt))
        if name == 'todense':
            a = c.av
            return I.new(AV(a.dims, a.ivs, a.body, a.dt, True))
        if name == 'sum':
            o = self.B('axis=None', args, kw, 'sum')
            return self.sp_sum(r, c, o.axis)
        if name == 'mean':
            self.unsup('mean of a sparse matrix')
        if name in ('getrow', 'getcol'):
            k = args[0]
            z = slice(k, add(tt(k), ONE))
            return self.sp_get(r, SpCell('csr', c.av), (
                z, slice(None)) if name == 'getrow' else (slice(None), z))
        if name == 'dot':
            return self.sp_dot(r, args[0])
        if name == 'transpose':
            return self.cell_attr(r, c, 'T')
        if name == 'multiply':
            b = args[0]
            y = I.cell(b).av if isinstance(b, Ref) and isinstance(
                I.cell(b), SpCell) else b
            q = I.emap(mul, [I.new(c.av), I.new(y) if isinstance(y, AV)
                             else y])
            return I.ref(SpCell('csr', I.read(q)))
        if name in ('count_nonzero', 'getnnz'):
            if args or kw:
                o = self.B('axis=None', args, kw, name)
                a = c.av
                b = AV(a.dims, a.ivs, not_(eq(a.body, ZERO)), 'b')
                return self.reduce('sum', I.new(b), o.axis)
            return self.sp_nnz(c)
        if name == 'nonzero':
            return self.np_nonzero([I.new(c.av)], {})
        if name == 'power':
            a = c.av
            return I.ref(SpCell(c.fmt, AV(a.dims, a.ivs, X.power(
                a.body, tt(args[0])), a.dt)))
        if name in ('sum_duplicates', 'eliminate_zeros', 'sort_indices',
                    'sorted_indices'):
            return None
        if name in ('max', 'min'):
            return self.reduce('a' + name, I.new(c.av), *args, **kw)
        self.unsup('sparse method ' + name)

    # ==================================================================
    # optimisation
    def minimize(self, args, kw):
        I = self.i
        o = self.B("fun,x0,args=(),method=None,jac=None,hess=None,"
                   "hessp=None,bounds=None,constraints=(),tol=None,"
                   "callback=None,options=None", args, kw, 'minimize')
        k = 'opt%d' % self.nmin
        self.nmin += 1
        drv = I.config.get('minimize')
        if drv is not None:
            drv = I.world.module('drv').ns
            nm = drv.get('OPT_NAME')
            if isinstance(nm, Ref):
                nm = I.cell(nm).items[0]
            if isinstance(nm, str):
                k = nm
        x0 = o.x0
        c = I.heap[x0.cid] if isinstance(x0, Arr) else None
        ar = o.args if isinstance(o.args, tuple) else (o.args,)
        I.effect('minimize', dict(fun=o.fun, x0=x0, args=ar, method=o.method,
                                  jac=o.jac, options=o.options, tol=o.tol,
                                  x0cell=c, opts=None if o.options is None
                                  or not isinstance(o.options, Ref) else
                                  I.cell(o.options), k=k))
        if o.options is not None and isinstance(o.options, Ref) and \
                isinstance(I.cell(o.options), DictC):
            pass
        if isinstance(c, SegCell) and x0.whole():
            segs = []
            for j, s in enumerate(c.segs):
                A = X.asym('%s.x%d' % (k, j), len(s.dims), 'f')
                X.DIMS[A.id] = tuple(s.dims)
                segs.append(mkav(s.dims, lambda *ix: elem(A, *ix), 'f')
                            if s.dims else AV((), (), X.sym(
                                '%s.x%d' % (k, j), 'f'), 'f'))
            x = Arr(I.alloc(SegCell(segs)))
        else:
            av = I.av(x0)
            A = X.asym('%s.x' % k, len(av.dims), 'f')
            X.DIMS[A.id] = tuple(av.dims)
            x = I.arr(av.dims, lambda *ix: elem(A, *ix), 'f')
        p = '%s.' % k
        at = {'x': x, 'fun': X.sym(p + 'fun', 'f'),
              'nit': X.sym(p + 'nit', 'i'), 'nfev': X.sym(p + 'nfev', 'i'),
              'status': X.sym(p + 'status', 'i'),
              'success': X.sym(p + 'success', 'b'),
              'message': X.sym(p + 'message', 's')}
        if I.config.get('njev', True):
            at['njev'] = X.sym(p + 'njev', 'i')
            at['jac'] = Opq('object', X.sym(p + 'jac', 'o'))
        cls = ClassV('OptimizeResult', [], {
            'get': Ext('method:get'), 'keys': Ext('method:keys'),
            '__contains__': Ext('method:__contains__')}, None, None)
        at['res'] = True
        res = I.ref(Inst(cls, at))
        if drv is not None:
            I.call(drv[I.config['minimize']], [
                res, o.fun, x0, ar, o.method, o.jac, o.options, o.tol], {})
        return res

    # ==================================================================
    # copying
    def copy(self, v):
        I = self.i
        if isinstance(v, Arr):
            return self.asarray(v, None, True)
        if isinstance(v, Ref):
            c = I.cell(v)
            if isinstance(c, ListC):
                return I.ref(ListC(c.items, c.base))
            if isinstance(c, DictC):
                return I.ref(DictC(c.items, c.base))
            if isinstance(c, DictS):
                return I.ref(DictS(c.term, c.sort))
            if isinstance(c, SetC):
                return I.ref(SetC(c.items))
            if isinstance(c, Inst):
                return I.ref(Inst(c.cls, dict(c.attrs)))
            if isinstance(c, SpCell):
                return I.ref(SpCell(c.fmt, c.av))
            if isinstance(c, SeqC):
                return I.ref(SeqC(c.n, c.v, c.item))
            if isinstance(c, RNGCell):
                return I.ref(RNGCell(c.key, c.ctr))
            self.unsup('copy of %s' % type(c).__name__)
        return v

    def deepcopy(self, v, memo):
        I = self.i
        if isinstance(v, tuple):
            return tuple(self.deepcopy(x, memo) for x in v)
        if isinstance(v, Arr):
            c = I.heap[v.cid]
            if isinstance(c, CArrCell):
                return Arr(I.alloc(CArrCell(c.shape, [
                    self.deepcopy(x, memo) for x in c.vals])))
            return self.asarray(v, None, True)
        if isinstance(v, Ref):
            if v.id in memo:
                return memo[v.id]
            r = self.copy(v)
            memo[v.id] = r
            c = I.cell(r)
            if isinstance(c, ListC):
                I.heap[r.id] = ListC([self.deepcopy(x, memo)
                                      for x in c.items], c.base)
            elif isinstance(c, DictC):
                I.heap[r.id] = DictC([(k, self.deepcopy(x, memo))
                                      for k, x in c.items], c.base)
            elif isinstance(c, Inst):
                I.heap[r.id] = Inst(c.cls, {k: self.deepcopy(x, memo)
                                            for k, x in c.attrs.items()})
            return r
        return v

    # ==================================================================
    # built-in functions
    def b_len(self, args, kw):
        I = self.i
        x = args[0]
        if isinstance(x, (tuple, str)):
            return len(x)
        if isinstance(x, Arr):
            c = I.heap[x.cid]
            if isinstance(c, CArrCell) and x.view is None:
                return c.shape[0]
            a = I.read(x)
            if not a.dims:
                I.raise_('TypeError', 'len() of unsized object')
            return fix(a.dims[0])
        if isinstance(x, Ref):
            c = I.cell(x)
            if isinstance(c, (ListC, DictC, SetC)):
                if getattr(c, 'base', None) is not None:
                    self.unsup('length of a partial container')
                return len(c.items)
            if isinstance(c, SeqC):
                return fix(c.n)
            if isinstance(c, DictS):
                return mk('dlen', c.term, sort='i')
            if isinstance(c, SpCell):
                I.raise_('TypeError', 'sparse matrix length is ambiguous')
            if isinstance(c, Inst):
                m = I.lookup_opt(x, '__len__')
                if m is not None:
                    return I.call(m, [], {})
            I.raise_('TypeError', 'object has no len()')
        if isinstance(x, RangeV):
            it = I.iterate(x)
            return len(it[1]) if it[0] == 'list' else fix(it[1])
        if isinstance(x, T) and x.sort == 's':
            return app('len', x, sort='i')
        if isinstance(x, Opq):
            if x.cls == 'numpy.void' and x.classes and \
                    x.classes[0].fields:
                return len(x.classes[0].fields)
            t = app('obj:len', x.term, sort='i')
            X.NONNEG.add(t)
            return t
        if isinstance(x, DictView):
            return self.b_len([x.ref], {})
        I.raise_('TypeError', 'object has no len()')

    def b_range(self, args, kw):
        a = [self.i.scalarize(x) for x in args]
        for x in a:
            if isinstance(x, float) or isinstance(x, T) and x.sort == 'f':
                self.i.raise_('TypeError', 'float cannot be interpreted as '
                              'an integer')
            if not is_num(x):
                self.i.raise_('TypeError', 'range')
        if len(a) == 1:
            return RangeV(0, a[0], 1)
        if len(a) == 2:
            return RangeV(a[0], a[1], 1)
        return RangeV(*a)

    b_xrange = b_range

    def b_enumerate(self, args, kw):
        o = self.B('it,start=0', args, kw, 'enumerate')
        return EnumV(o.it, o.start)

    def b_zip(self, args, kw):
        return ZipV(list(args))

    def b_iter(self, args, kw):
        it = self.i.iterate(args[0])
        if isinstance(args[0], Ref) and isinstance(self.i.cell(args[0]),
                                                   IterC):
            return args[0]
        if it[0] != 'list':
            self.unsup('iterator')
        return self.i.ref(IterC(it[1]))

    def b_next(self, args, kw):
        I = self.i
        x = args[0]
        if isinstance(x, Ref) and isinstance(I.cell(x), IterC):
            r = I.gen_next(x)
            if r is None:
                if len(args) > 1:
                    return args[1]
                I.raise_('StopIteration')
            return r[0]
        self.unsup('next')

    def lst(self, x):
        it = self.i.iterate(x)
        if it[0] == 'list':
            return list(it[1] if len(it) < 3 else it[2]())
        return None

    def b_list(self, args, kw):
        I = self.i
        if not args:
            return I.newlist([])
        x = args[0]
        l = self.lst(x)
        if l is not None:
            return I.newlist(l)
        it = I.iterate(x)
        v = iv(it[1])
        return I.ref(SeqC(it[1], v, it[2](v)))

    def b_tuple(self, args, kw):
        if not args:
            return ()
        l = self.lst(args[0])
        if l is None:
            it = self.i.iterate(args[0])
            v = iv(it[1])
            return self.i.ref(SeqC(it[1], v, it[2](v)))
        return tuple(l)

    def b_set(self, args, kw):
        I = self.i
        if not args:
            return I.ref(SetC([]))
        l = self.lst(args[0])
        if l is None:
            self.unsup('set of unknown size')
        out = []
        for x in l:
            x = I.scalarize(x)
            if not any(tt(I.equal(x, y)) is TRUE for y in out):
                out.append(x)
        if any(isinstance(x, T) for x in out):
            self.unsup('set of symbolic values')
        return I.ref(SetC(out))

    b_frozenset = b_set

    def b_dict(self, args, kw):
        I = self.i
        if args and isinstance(args[0], Ref) and isinstance(
                I.cell(args[0]), DictS) and not kw:
            c = I.cell(args[0])
            return I.ref(DictS(c.term, c.sort))
        r = I.newdict({})
        if args:
            o = args[0]
            if isinstance(o, Ref) and isinstance(I.cell(o), DictC):
                I.dict_update(r, o)
            else:
                it = I.iterate(o)
                if it[0] == 'list':
                    for kv in it[1]:
                        k, v = I.iterate(kv)[1]
                        I.setsub(r, k, v)
                else:
                    v = iv(it[1])
                    kv = it[2](v)
                    q = I.iterate(kv)
                    if q[0] != 'list' or len(q[1]) != 2:
                        self.unsup('dictionary')
                    if kw:
                        self.unsup('dictionary')
                    return I.sdict(it[1], v, q[1][0], q[1][1])
        for k, v in kw.items():
            I.setsub(r, k, v)
        return r

    def b_print(self, args, kw):
        f = kw.get('file')
        if isinstance(f, Ref) and isinstance(self.i.cell(f), Inst) and \
                'vfs' in self.i.world.extra:
            return self.i.call(self.i.world.module('vfs').ns['print_'],
                               [self.i.newlist(list(args))], kw)
        self.i.effect('print', (list(args), dict(kw)))
        return None

    def b_open(self, args, kw):
        if 'vfs' in self.i.world.extra:
            return self.i.call(self.i.world.module('vfs').ns['open_'],
                               args, kw)
        return self.opaque_call('builtins.open', args, kw)

    def b_cast(self, k, args):
        I = self.i
        if not args:
            return {'i': 0, 'f': 0.0, 'b': False, 's': ''}[k]
        x = I.scalarize(args[0])
        if isinstance(x, Arr):
            a = I.av(x)
            if all(numval(d) == 1 for d in a.dims):
                x = fix(a.at(*[ZERO] * len(a.dims)))
            else:
                if k in 'if':
                    if all(numval(d) is not None for d in a.dims):
                        I.raise_('TypeError', 'only size-1 arrays can be '
                                 'converted to Python scalars')
                    self.unsup('conversion of an array')
        if k == 'b':
            return fix(I.truth(x))
        if k == 's':
            if isinstance(x, (str, int, float, bool)) or x is None:
                return str(x)
            if isinstance(x, T):
                return x if x.sort == 's' else app('str', x, sort='s')
            if isinstance(x, Opq):
                return app('str', x.term, sort='s')
            if isinstance(x, Ref) or isinstance(x, tuple):
                return self.strval(x)
            return app('str', I.tot(x), sort='s') if isinstance(
                x, Arr) else tt('<%s>' % type(x).__name__)
        if isinstance(x, (int, float, str, bool)):
            try:
                return {'i': int, 'f': float}[k](x)
            except ValueError:
                I.raise_('ValueError', 'invalid literal')
            except OverflowError:
                I.raise_('OverflowError', 'cannot convert float infinity')
        if isinstance(x, T):
            if x.sort == 's':
                I.partial(app('isnumstr', x, sort='b'), 'ValueError',
                          'invalid literal')
                return app('tonum', x, sort=k)
            if x.sort not in 'ifb':
                return app('tonum', x, sort=k)
            if k == 'i':
                if x.sort == 'f':
                    return fix(app('trunc', x))
                return fix(add(x, ZERO)) if x.sort == 'b' else x
            return x if x.sort != 'b' else fix(add(x, ZERO))
        if isinstance(x, Opq):
            if 'numpy.generic' in x.classes:
                return self.b_cast(k, [x.term])
            return app('tonum', x.term, sort=k)
        I.raise_('TypeError', 'conversion to a number')

    def b_int(self, args, kw):
        return self.b_cast('i', args)

    def b_float(self, args, kw):
        r = self.b_cast('f', args)
        return float(r) if isinstance(r, int) else r

    def b_bool(self, args, kw):
        return self.b_cast('b', args)

    def b_str(self, args, kw):
        return self.b_cast('s', args[:1])

    b_unicode = b_str

    def b_repr(self, args, kw):
        x = args[0]
        if isinstance(x, (int, float, str)):
            return repr(x)
        return self.b_str(args, kw)

    def b_abs(self, args, kw):
        if isinstance(args[0], (int, float)):
            return abs(args[0])
        return self.np_abs(args, kw)

    def b_round(self, args, kw):
        x = self.i.scalarize(args[0])
        if len(args) > 1 and args[1] is not None:
            if isinstance(x, float) and const(args[1]) is not None:
                return round(x, const(args[1]))
            return self.round(x, args[1])
        if isinstance(x, (int, float)):
            return round(x)
        return self.i.num1(lambda y: app('round', y), x)

    def b_pow(self, args, kw):
        return self.i.binop('**', args[0], args[1])

    def b_divmod(self, args, kw):
        return (self.i.binop('//', *args), self.i.binop('%', *args))

    def extreme(self, args, kw, name, op):
        I = self.i
        key = kw.get('key')
        if len(args) == 1:
            it = I.iterate(args[0])
            if it[0] == 'sym':
                if key is not None:
                    self.unsup('extreme with a key')
                v = iv(it[1])
                x = I.scalarize(it[2](v))
                if not is_num(x):
                    self.unsup('extreme of objects')
                if 'default' in kw:
                    self.unsup('extreme with default')
                I.partial(lt(ZERO, it[1]), 'ValueError', 'empty sequence')
                return fix(X.red('amax' if name == 'max' else 'amin', v,
                                 it[1], tt(x)))
            items = it[1]
        else:
            items = list(args)
        if not items:
            if 'default' in kw:
                return kw['default']
            I.raise_('ValueError', 'empty sequence')
        items = [I.scalarize(x) for x in items]
        if key is None and all(is_num(x) for x in items):
            if all(isinstance(x, (int, float)) for x in items):
                return (max if name == 'max' else min)(items)
            r = tt(items[0])
            for x in items[1:]:
                r = app(op, r, tt(x))
            return fix(r)
        best = items[0]
        bk = best if key is None else I.call(key, [best], {})
        for x in items[1:]:
            k = x if key is None else I.call(key, [x], {})
            c = I.truth(I.compare('>' if name == 'max' else '<', k, bk))
            if I.decide(c):
                best, bk = x, k
        return best

    def b_max(self, args, kw):
        return self.extreme(args, kw, 'max', 'max2')

    def b_min(self, args, kw):
        return self.extreme(args, kw, 'min', 'min2')

    def b_sum(self, args, kw):
        I = self.i
        it = I.iterate(args[0])
        start = args[1] if len(args) > 1 else 0
        if it[0] == 'sym':
            v = iv(it[1])
            x = it[2](v)
            if is_num(x):
                return fix(add(tt(start), X.sum_(v, it[1], tt(x))))
            if isinstance(x, Arr):
                a = I.av(x)
                b = AV(a.dims, a.ivs, add(tt(start), X.sum_(
                    v, it[1], a.body)), a.dt)
                return fix(b.body) if not b.dims else I.new(b)
            self.unsup('sum of objects')
        r = start
        for x in (it[1] if len(it) < 3 else it[2]()):
            r = I.binop('+', r, x)
        return r

    def quant(self, args, isall):
        I = self.i
        it = I.iterate(args[0])
        if it[0] == 'sym':
            v = iv(it[1])
            c = I.truth(it[2](v))
            return fix(X.all_(v, it[1], c) if isall else
                       X.any_(v, it[1], c))
        cs = [I.truth(x) for x in (it[1] if len(it) < 3 else it[2]())]
        return fix(and_(*cs) if isall else or_(*cs))

    def b_all(self, args, kw):
        return self.quant(args, True)

    def b_any(self, args, kw):
        return self.quant(args, False)

    def b_map(self, args, kw):
        I = self.i
        if len(args) != 2:
            self.unsup('map')
        it = I.iterate(args[1])
        if it[0] == 'list':
            return I.ref(IterC([I.call(args[0], [x], {})
                                for x in it[1]]))
        v = iv(it[1])
        r = I.loopbody(v, it[1], lambda: I.call(args[0], [it[2](v)], {}))
        return I.ref(SeqC(it[1], v, r))

    def b_filter(self, args, kw):
        I = self.i
        it = I.iterate(args[1])
        if it[0] != 'list':
            self.unsup('filter')
        out = []
        for x in it[1]:
            c = I.truth(x if args[0] is None else I.call(args[0], [x], {}))
            if I.decide(c):
                out.append(x)
        return I.ref(IterC(out))

    def b_reversed(self, args, kw):
        l = self.lst(args[0])
        if l is None:
            it = self.i.iterate(args[0])
            v = iv(it[1])
            return self.i.ref(SeqC(it[1], v, it[2](fix(
                sub(sub(it[1], ONE), v)))))
        return self.i.ref(IterC(l[::-1]))

    def b_sorted(self, args, kw):
        I = self.i
        l = self.lst(args[0])
        rev = kw.get('reverse', False)
        key = kw.get('key')
        if l is None:
            a = I.av(args[0])
            if key is None and rev is False and len(a.dims) == 1:
                r = self.np_sort([I.new(a)], {})
                b = I.read(r)
                return I.ref(SeqC(b.dims[0], b.ivs[0], fix(b.body)))
            self.unsup('sorted')
        ks = [x if key is None else I.call(key, [x], {}) for x in l]
        try:
            if all(isinstance(k, (int, float, str)) or isinstance(k, tuple)
                   and all(isinstance(q, (int, float, str)) for q in k)
                   for k in ks):
                ix = sorted(range(len(l)), key=lambda i: ks[i],
                            reverse=bool(rev))
                return I.newlist([l[i] for i in ix])
        except TypeError:
            I.raise_('TypeError', 'unorderable')
        if len(l) <= 1:
            return I.newlist(l)
        self.unsup('sort of symbolic values')

    def b_isinstance(self, args, kw):
        I = self.i
        x, c = args
        cs = list(c) if isinstance(c, tuple) else [c]
        out = []
        for k in cs:
            if isinstance(k, tuple):
                out.append(self.b_isinstance([x, k], {}))
                continue
            r = self.inst1(x, k)
            if r is True:
                return True
            out.append(r)
        if any(r is None for r in out):
            self.unsup('isinstance')
        return False

    def inst1(self, x, k):
        I = self.i
        if isinstance(k, ClassV):
            if isinstance(x, Ref) and isinstance(I.cell(x), Inst):
                return k in I.cell(x).cls.mro
            if isinstance(x, Opq):
                return k.name in [str(q) for q in x.classes]
            return False
        if not isinstance(k, Ext):
            I.raise_('TypeError', 'isinstance() arg 2')
        n = k.name
        if isinstance(x, Opq):
            if x.classes or x.cls not in ('object?',):
                return n == x.cls or n in x.classes or \
                    n == 'builtins.object'
            return None
        if n == 'builtins.object':
            return True
        if isinstance(x, bool):
            return n in ('builtins.bool', 'builtins.int', 'numbers.Integral',
                         'numbers.Number', 'numbers.Real')
        if isinstance(x, int):
            return n in ('builtins.int', 'six.integer_types',
                         'numbers.Integral', 'numbers.Number',
                         'numbers.Real')
        if isinstance(x, float):
            return n in ('builtins.float', 'numbers.Number', 'numbers.Real')
        if isinstance(x, str):
            return n in ('builtins.str', 'six.string_types',
                         'builtins.unicode')
        if isinstance(x, T):
            if I.config.get('numpy_scalars') and x.sort in 'if':
                return n in NPSCALAR[x.sort]
            if n.startswith('numpy.'):
                if n == 'numpy.ndarray' or I.config.get('python_scalars'):
                    return False
                return None
            if n in ('builtins.int', 'numbers.Integral'):
                return x.sort == 'i' or (x.sort == 'b') or (
                    None if x.sort == 'o' else False)
            if n == 'builtins.float':
                return x.sort == 'f' or (None if x.sort == 'o' else False)
            if n in ('builtins.str', 'six.string_types'):
                return x.sort == 's' or (None if x.sort == 'o' else False)
            if n in ('numbers.Number', 'numbers.Real'):
                return x.sort in 'ifb'
            if n == 'builtins.bool':
                return x.sort == 'b'
            return None if x.sort == 'o' else False
        if isinstance(x, Arr):
            return n == 'numpy.ndarray'
        if isinstance(x, tuple):
            return n in ('builtins.tuple', 'collections.abc.Sequence')
        if isinstance(x, Ref):
            c = I.cell(x)
            if isinstance(c, (ListC, SeqC)):
                return n in ('builtins.list', 'collections.abc.Sequence',
                             'collections.abc.Iterable')
            if isinstance(c, (DictC, DictS)):
                return n in ('builtins.dict', 'collections.abc.Mapping',
                             'collections.Mapping', 'collections.OrderedDict'
                             ) and n != 'collections.OrderedDict'
            if isinstance(c, SetC):
                return n in ('builtins.set', 'builtins.frozenset')
            if isinstance(c, Inst):
                for b in c.cls.mro:
                    if isinstance(b, Ext) and (
                            b.name == n or b.name.split('.')[-1] ==
                            n.split('.')[-1]):
                        return True
                return False
            if isinstance(c, RNGCell):
                return n.endswith('RandomState')
            if isinstance(c, SpCell):
                return 'sparse' in n
            return False
        return False

    def b_issubclass(self, args, kw):
        a, b = args
        bs = b if isinstance(b, tuple) else (b,)
        if isinstance(a, ClassV):
            return any(k in a.mro for k in bs)
        self.unsup('issubclass')

    def b_type(self, args, kw):
        I = self.i
        x = args[0]
        if len(args) != 1:
            self.unsup('type')
        if isinstance(x, Ref) and isinstance(I.cell(x), Inst):
            return I.cell(x).cls
        if isinstance(x, bool):
            return Ext('builtins.bool')
        if isinstance(x, int):
            return Ext('builtins.int')
        if isinstance(x, float):
            return Ext('builtins.float')
        if isinstance(x, str):
            return Ext('builtins.str')
        if isinstance(x, tuple):
            return Ext('builtins.tuple')
        if isinstance(x, Arr):
            return Ext('numpy.ndarray')
        if isinstance(x, Opq):
            return Ext(x.cls)
        if x is None:
            return Ext('builtins.NoneType')
        if isinstance(x, Ref):
            c = I.cell(x)
            for k, n in ((ListC, 'list'), (SeqC, 'list'), (DictC, 'dict'),
                         (DictS, 'dict'), (SetC, 'set')):
                if isinstance(c, k):
                    return Ext('builtins.' + n)
        self.unsup('type of a symbolic value')

    def b_getattr(self, args, kw):
        I = self.i
        if not isinstance(args[1], str):
            self.unsup('getattr of a computed name')
        if len(args) == 2:
            return I.get_attr(args[0], args[1])
        try:
            return I.get_attr(args[0], args[1])
        except PyRaise as e:
            if e.name() == 'AttributeError':
                return args[2]
            raise

    def b_hasattr(self, args, kw):
        I = self.i
        if isinstance(args[0], Opq) and args[0].cls == 'object?':
            self.unsup('hasattr of an object')
        try:
            I.get_attr(args[0], args[1])
            return True
        except PyRaise as e:
            if e.name() == 'AttributeError':
                return False
            raise

    def b_setattr(self, args, kw):
        if not isinstance(args[1], str):
            self.unsup('setattr of a computed name')
        self.i.set_attr(args[0], args[1], args[2])
        return None

    def b_delattr(self, args, kw):
        I = self.i
        c = I.cell(args[0])
        if args[1] not in c.attrs:
            I.raise_('AttributeError', args[1])
        a = dict(c.attrs)
        del a[args[1]]
        I.heap[args[0].id] = Inst(c.cls, a)
        return None

    def b_vars(self, args, kw):
        I = self.i
        if args and isinstance(args[0], Opq):
            return Opq('object?', app('obj:vars', args[0].term, sort='o'))
        if args and isinstance(args[0], Ref):
            c = I.cell(args[0])
            if isinstance(c, Inst):
                return I.newdict(dict(c.attrs))
        self.unsup('vars')

    def b_callable(self, args, kw):
        x = args[0]
        if isinstance(x, (Func, Bound, ClassV, Partial, Meth)):
            return True
        if is_scalar(x) or isinstance(x, (tuple, Arr)):
            return False
        self.unsup('callable')

    def b_id(self, args, kw):
        self.unsup('id')

    def b_format(self, args, kw):
        return self.format_value(args[0], args[1] if len(args) > 1 else '')

    def b_slice(self, args, kw):
        if len(args) == 1:
            return slice(None, args[0])
        return slice(*args)

    def b_object(self, args, kw):
        self.nfresh += 1
        return Opq('object', X.sym('object%d' % self.nfresh, 'o'))

    def b_staticmethod(self, args, kw):
        args[0].kind = 'staticmethod'
        return args[0]

    def b_classmethod(self, args, kw):
        args[0].kind = 'classmethod'
        return args[0]

    def b_property(self, args, kw):
        if len(args) != 1:
            self.unsup('property')
        args[0].kind = 'property'
        return args[0]

    def b_complex(self, args, kw):
        self.unsup('complex')

    def b_ord(self, args, kw):
        return ord(args[0]) if isinstance(args[0], str) else self.unsup('ord')

    def b_chr(self, args, kw):
        return chr(args[0]) if isinstance(args[0], int) else self.unsup('chr')

    def b_bytes(self, args, kw):
        return self.b_str(args, kw)

    def b_hash(self, args, kw):
        self.unsup('hash')

    # ==================================================================
    # methods
    def method(self, o, name, args, kw):
        I = self.i
        if isinstance(o, Arr):
            return self.arr_method(o, name, args, kw)
        if isinstance(o, str) or isinstance(o, T) and o.sort == 's':
            return self.str_method(o, name, args, kw)
        if isinstance(o, tuple):
            return self.list_method(None, ListC(list(o)), name, args, kw)
        if isinstance(o, Ref):
            c = I.cell(o)
            if isinstance(c, (ListC, SeqC)):
                return self.list_method(o, c, name, args, kw)
            if isinstance(c, (DictC, DictS)):
                return self.dict_method(o, c, name, args, kw)
            if isinstance(c, SetC):
                return self.set_method(o, c, name, args, kw)
            if isinstance(c, RNGCell):
                return self.draw(o, name, args, kw)
            if isinstance(c, SpCell):
                return self.sp_method(o, c, name, args, kw)
            if isinstance(c, IterC):
                if name == '__next__':
                    return self.b_next([o], {})
                return o
            if isinstance(c, Inst):
                if name == 'get':
                    k = args[0]
                    if k in c.attrs and k != 'res':
                        return c.attrs[k]
                    return args[1] if len(args) > 1 else None
                if name == 'keys':
                    return I.newlist([k for k in c.attrs if k != 'res'])
                if name == '__contains__':
                    return args[0] in c.attrs and args[0] != 'res'
                if name == 'get_params':
                    return self.get_params(o, c)
                if name == 'set_params':
                    for k, v in kw.items():
                        I.set_attr(o, k, v)
                    return o
                if name.startswith('builtins.') or name.endswith('__init__'):
                    return None
        if isinstance(o, Opq):
            if o.cls.startswith('logging'):
                I.effect('log', (o, name, list(args), dict(kw)))
                return None
            if o.cls.startswith('numpy.') and name in ('item', 'tolist'):
                return o.term
            return self.call_opq(Opq('object?', app('attr:' + name, o.term,
                                                    sort='o')), args, kw)
        if isinstance(o, (T, int, float)):
            x = tt(o)
            if name in ('item', 'copy', 'squeeze', 'conjugate', 'tolist'):
                return o
            if name == 'astype':
                return fix(I.cast(x, self.dtk(args[0])))
            if name in ('sum', 'max', 'min', 'mean'):
                return o
            if name == 'is_integer':
                return fix(eq(app('floor', x), x))
            a = I.new(I.av(o))
            return self.arr_method(a, name, args, kw)
        self.unsup('method %s of %r' % (name, o))

    def get_params(self, o, c):
        I = self.i
        init, k = I.find_class(c.cls, '__init__')
        names = [a.arg for a in init.node.args.args[1:]] if isinstance(
            init, Func) else []
        return I.newdict({n: I.get_attr(o, n) for n in sorted(names)})

    def arr_method(self, a, name, args, kw):
        I = self.i
        c = I.heap[a.cid]
        if isinstance(c, CArrCell) and a.view is None:
            if name == 'copy':
                return Arr(I.alloc(CArrCell(c.shape, c.vals)))
            if name == 'tolist':
                return I.newlist(c.vals)
            if name == 'fill':
                I.heap[a.cid] = CArrCell(c.shape, [args[0]] * len(c.vals))
                return None
            if name == '__len__':
                return c.shape[0]
        if name in ('sum', 'prod', 'any', 'all', 'argmax', 'argmin', 'mean',
                    'std', 'var', 'cumsum', 'round', 'clip', 'ravel',
                    'squeeze', 'take', 'repeat', 'nonzero', 'argsort',
                    'transpose', 'dot', 'max', 'min', 'ptp', 'swapaxes',
                    'searchsorted'):
            if name == 'transpose' and args:
                ax = args if len(args) > 1 else [args[0]]
                return self.np_transpose([a] + [tuple(
                    args) if len(args) > 1 else args[0]], {})
            return getattr(self, 'np_' + name)([a] + list(args), kw)
        if name == 'compress':
            return self.np_compress([args[0], a] + list(args[1:]), kw)
        if name == 'flatten':
            if isinstance(c, SegCell) and a.whole():
                return Arr(I.alloc(SegCell(c.segs)))
            return self.asarray(self.np_ravel([a], {}), None, True)
        if name == 'copy':
            return self.asarray(a, None, True)
        if name == 'astype':
            o = self.B("dtype,order='K',casting='unsafe',subok=True,"
                       "copy=True", args, kw, 'astype')
            return self.asarray(a, o.dtype, o.copy is not False)
        if name == 'reshape':
            kw = dict(kw)
            kw.pop('order', None)
            if kw or not args:
                self.unsup('reshape')
            return self.reshape(a, args[0] if len(args) == 1 else
                                tuple(args))
        if name == 'view':
            if not args:
                return a
            dt = args[0]
            if isinstance(dt, DtypeV) and dt.fields:
                lay = [tuple(f[2]) for f in dt.fields]
                cell = I.heap[a.cid]
                if not a.whole():
                    self.unsup('structured view of a view')
                I.heap[a.cid] = I.seg(cell, lay)
                return SegStruct(a.cid, dt)
            self.unsup('view with a dtype')
        if name == 'tolist':
            av = I.read(a)
            if not av.dims:
                return fix(av.body)
            n = numval(av.dims[0])
            if isinstance(n, int) and n <= 400:
                out = []
                for k in range(n):
                    x = I.getitem(a, k)
                    out.append(self.arr_method(x, 'tolist', [], {})
                               if isinstance(x, Arr) else x)
                return I.newlist(out)
            v = iv(av.dims[0])
            x = I.getitem(a, v)
            if isinstance(x, Arr):
                x = self.arr_method(x, 'tolist', [], {})
            return I.ref(SeqC(av.dims[0], v, x))
        if name == 'fill':
            x = tt(I.scalarize(args[0]))
            I.write(a, lambda *ix: x)
            return None
        if name == 'item':
            av = I.read(a)
            if not args:
                if not all(numval(d) == 1 for d in av.dims):
                    if all(numval(d) is not None for d in av.dims):
                        I.raise_('ValueError', 'can only convert an array of '
                                 'size 1 to a Python scalar')
                    self.unsup('item')
                return fix(av.at(*[ZERO] * len(av.dims)))
            return I.getitem(a, args[0] if len(args) == 1 else tuple(args))
        if name == 'sort':
            r = I.read(self.np_sort([a], {}))
            I.write(a, lambda *ix: r.at(*ix))
            return None
        if name == '__len__':
            return self.b_len([a], {})
        if name == '__getitem__':
            return I.getsub(a, args[0])
        self.unsup('array method ' + name)

    def list_method(self, o, c, name, args, kw):
        I = self.i
        if isinstance(c, SeqC):
            if name == 'copy':
                return I.ref(SeqC(c.n, c.v, c.item))
            if name == 'append':
                x = I.scalarize(args[0])
                if is_num(x) and is_num(c.item):
                    n = add(c.n, ONE)
                    v = iv(n)
                    it = ite(lt(v, c.n), subst(tt(c.item), {c.v.id: v}),
                             tt(x))
                    I.heap[o.id] = SeqC(n, v, fix(it))
                    return None
            self.unsup('method %s of a list of unknown length' % name)
        if name == 'append':
            I.heap[o.id] = ListC(c.items + [args[0]], c.base)
            return None
        if name == 'extend':
            l = self.lst(args[0])
            if l is None:
                it = I.iterate(args[0])
                if not c.items and c.base is None:
                    v = iv(it[1])
                    I.heap[o.id] = SeqC(it[1], v, it[2](v))
                    return None
                self.unsup('extend')
            c = I.cell(o)
            I.heap[o.id] = ListC(c.items + l, c.base)
            return None
        if c.base is not None:
            self.unsup('method of a partial list')
        if name == 'copy':
            return I.newlist(c.items)
        if name == 'pop':
            k = const(args[0]) if args else -1
            items = list(c.items)
            try:
                x = items.pop(k)
            except IndexError:
                I.raise_('IndexError', 'pop')
            I.heap[o.id] = ListC(items)
            return x
        if name == 'insert':
            items = list(c.items)
            items.insert(const(args[0]), args[1])
            I.heap[o.id] = ListC(items)
            return None
        if name == 'reverse':
            I.heap[o.id] = ListC(c.items[::-1])
            return None
        if name == 'clear':
            I.heap[o.id] = ListC([])
            return None
        if name in ('index', 'count', 'remove'):
            hits = []
            for k, x in enumerate(c.items):
                e = tt(I.equal(x, args[0]))
                if I.decide(e):
                    hits.append(k)
                    if name != 'count':
                        break
            if name == 'count':
                return len(hits)
            if not hits:
                I.raise_('ValueError', 'not in list')
            if name == 'index':
                return hits[0]
            items = list(c.items)
            del items[hits[0]]
            I.heap[o.id] = ListC(items)
            return None
        if name == 'sort':
            r = self.b_sorted([o], kw)
            I.heap[o.id] = ListC(I.cell(r).items)
            return None
        if name == '__len__':
            return len(c.items)
        if name == '__getitem__':
            return I.getsub(o, args[0])
        self.unsup('list method ' + name)

    def dict_method(self, o, c, name, args, kw):
        I = self.i
        if name in ('items', 'keys', 'values'):
            return DictView(o, name)
        if name == 'get':
            k = I.scalarize(args[0])
            d = args[1] if len(args) > 1 else kw.get('default')
            if isinstance(c, DictS):
                h = I.known(X.dhas(c.term, tt(k)))
                if h is TRUE:
                    return fix(X.dget(c.term, tt(k)))
                g = X.dget(c.term, tt(k))
                dd = I.scalarize(d)
                if is_num(dd) or isinstance(dd, str):
                    return fix(ite(h, g, tt(dd)))
                if I.decide(h):
                    return fix(g)
                return d
            i = I.dfind(c, k)
            return d if i is None else c.items[i][1]
        if name == 'copy':
            return self.copy(o)
        if name == '__contains__':
            return fix(tt(I.contains(o, args[0])))
        if name == '__getitem__':
            return I.getsub(o, args[0])
        if name == '__setitem__':
            I.setsub(o, args[0], args[1])
            return None
        if name == 'update':
            if args:
                I.dict_update(o, args[0])
            for k, v in kw.items():
                I.setsub(o, k, v)
            return None
        if isinstance(c, DictS):
            self.unsup('method %s of a symbolic dictionary' % name)
        if name == 'setdefault':
            i = I.dfind(c, args[0])
            if i is not None:
                return c.items[i][1]
            d = args[1] if len(args) > 1 else None
            I.setsub(o, args[0], d)
            return d
        if name == 'pop':
            i = I.dfind(c, args[0])
            if i is None:
                if len(args) > 1:
                    return args[1]
                I.raise_('KeyError', args[0])
            v = c.items[i][1]
            I.heap[o.id] = DictC(c.items[:i] + c.items[i + 1:], c.base)
            return v
        if name == 'clear':
            I.heap[o.id] = DictC([])
            return None
        if name == '__len__':
            return len(c.items)
        self.unsup('dict method ' + name)

    def set_method(self, o, c, name, args, kw):
        I = self.i
        if name in ('union', 'intersection', 'difference'):
            op = {'union': '|', 'intersection': '&', 'difference': '-'}[name]
            return I.set_op(op, o, self.b_set([args[0]], {}))
        if name == 'add':
            x = args[0]
            if not any(tt(I.equal(x, y)) is TRUE for y in c.items):
                I.heap[o.id] = SetC(c.items + [x])
            return None
        if name == 'update':
            for x in self.lst(args[0]):
                self.set_method(o, I.cell(o), 'add', [x], {})
            return None
        self.unsup('set method ' + name)

    # ==================================================================
    def obj_eq_none(self, op, a):
        I = self.i
        c = I.heap[a.cid]
        vals = [tt(I.is_same(x, None)) for x in c.vals]
        if op == '!=':
            vals = [not_(x) for x in vals]
        return I.new(AV((num(len(vals)),), (w_ := iv(len(vals)),),
                        elem(X.tab(vals), w_), 'b'))

    def dtype_eq(self, a, b):
        if isinstance(a, DtypeV) or isinstance(b, DtypeV):
            try:
                x = a if isinstance(a, DtypeV) else self.mkdtype(a)
                y = b if isinstance(b, DtypeV) else self.mkdtype(b)
            except Unsupported:
                return FALSE
            return TRUE if x == y else FALSE
        if isinstance(a, type(b)):
            return TRUE if a == b else FALSE
        return FALSE

    def iter_dicts(self, d, what):
        t = d.term
        if t.op != 'dmap':
            self.unsup('iteration over a symbolic dictionary')
        lv, dim, k, v = t.args
        # keys have to be distinct

        def item(i):
            m = {X.bv(lv).id: tt(i)}
            kk, vv = fix(subst(k, m)), fix(subst(v, m))
            return kk if what == 'keys' else vv if what == 'values' else (
                kk, vv)
        if not (k.op == 'elem' and k.args[0].op == 'uniq'):
            self.unsup('iteration over a symbolic dictionary')
        return ('sym', dim, item)

    def iter_opq(self, o):
        I = self.i
        cf = I.config.get('opqiter')
        if cf is not None:
            r = cf(I, o)
            if r is not None:
                return r
        n = app('obj:len', o.term, sort='i')
        X.NONNEG.add(n)
        return ('sym', n, lambda v: Opq('object?', app(
            'obj:item', o.term, tt(v), sort='o')))

    def opq_sub(self, o, k):
        I = self.i
        cf = I.config.get('opqsub')
        if cf is not None:
            r = cf(I, o, k)
            if r is not None:
                return r
        if o.cls == 'numpy.void':
            dt = o.classes[0]
            if isinstance(k, str):
                for (n, kind, dims) in dt.fields:
                    if n == k:
                        if dims:
                            return I.arr(dims, lambda *ix: app(
                                'fld:' + n, o.term, *ix, sort=kind), kind)
                        if isinstance(kind, DtypeV):
                            return Opq('numpy.void', app(
                                'fld:' + n, o.term, sort='o'), (kind,))
                        return app('fld:' + n, o.term, sort=kind)
                I.raise_('ValueError', 'no field of name ' + k)
            c = const(k)
            if c is not None:
                return self.opq_sub(o, dt.fields[int(c)][0])
        if isinstance(k, slice):
            kt = I.tot_key(k)
        else:
            kt = I.tot(k)
        return Opq('object?', app('obj:sub', o.term, kt, sort='o'))

    def field(self, a, name):
        I = self.i
        if a.fld is not None:
            self.unsup('nested fields')
        av = I.read(a)
        if not isinstance(av.dt, DtypeV) or not av.dt.fields:
            I.raise_('IndexError', 'only integers, slices are valid indices')
        try:
            r = fieldof(av, name)
        except PyRaise:
            I.raise_('ValueError', 'no field of name ' + name)
        if len(r.dims) == len(av.dims) and a.view is None:
            return Arr(a.cid, a.seg, None, name)
        return I.new(r)

    def seg_index(self, o, k):
        I = self.i
        if isinstance(o, SegStruct):
            if isinstance(k, str):
                for j, f in enumerate(o.dt.fields):
                    if f[0] == k:
                        return SegField(o.cid, j)
                I.raise_('ValueError', 'no field of name ' + k)
            if const(k) == 0:
                return o
            self.unsup('record of a structured view')
        # field of the single record
        if const(I.scalarize(k)) in (0, -1):
            c = I.heap[o.cid]
            s = c.segs[o.k]
            if not s.dims:
                return fix(s.body)
            return Arr(o.cid, o.k)
        if isinstance(k, tuple) and k and const(k[0]) == 0:
            return I.getsub(self.seg_index(o, 0), k[1:] if len(k) > 2
                            else k[1])
        self.unsup('record of a structured view')

    def seq_get(self, c, k):
        I = self.i
        k = I.scalarize(k)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                self.unsup('slice of a list')
            st, step, n = I.slice_of(k, c.n)
            v = iv(n)
            return I.ref(SeqC(n, v, I.subst_value(c.item, {
                c.v.id: add(st, v)})))
        if not is_num(k):
            I.raise_('TypeError', 'list indices must be integers')
        e = I.nidx(tt(k), c.n)
        return I.subst_value(c.item, {c.v.id: e})

    def seq_set(self, o, c, k, v):
        I = self.i
        v = I.scalarize(v)
        if is_num(v) and is_scalar(c.item) and not isinstance(k, slice):
            e = I.nidx(tt(k), c.n)
            I.heap[o.id] = SeqC(c.n, c.v, fix(ite(eq(c.v, e), tt(v),
                                                  tt(c.item))))
            return
        self.unsup('store into a list of unknown length')
