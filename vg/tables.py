"""Text files as tables: texts with symbolic parts, and numpy.genfromtxt."""
from .values import *   # noqa
from .values import mkav
from . import terms as X
from .terms import T, tt, mk, app, num, iv, numval
from .interp import fix

ROWS = {}


def parts(s):
    """constant and symbolic parts of a text"""
    if isinstance(s, str):
        return [s] if s else []
    if s.op == 'app' and s.args[0] == 'strcat':
        return [fix(x) for x in s.args[1]]
    return [fix(s)]


def method(np, s, name, args, kw):
    """string methods; symbolic parts are nonempty fields without
    separators"""
    cs = list(args)
    ps = parts(s)
    for a in cs:
        if not isinstance(a, (str, int, tuple)) and a is not None:
            return NotImplemented
    if kw and name == 'splitlines':
        cs = [kw['keepends']]
        kw = {}
    if kw:
        return NotImplemented
    if name in ('rstrip', 'lstrip', 'strip'):
        c = cs[0] if cs else None
        ps = list(ps)
        if c is not None and not all(separator(x, True) for x in c):
            ends = {'rstrip': ps[-1:], 'lstrip': ps[:1]}.get(
                name, ps[:1] + ps[-1:])
            if not all(isinstance(e, str) and e.strip(c) for e in ends):
                return NotImplemented
        if name in ('rstrip', 'strip'):
            while ps and isinstance(ps[-1], str):
                x = ps[-1].rstrip(c)
                ps.pop()
                if x:
                    ps.append(x)
                    break
        if name in ('lstrip', 'strip'):
            while ps and isinstance(ps[0], str):
                x = ps[0].lstrip(c)
                ps.pop(0)
                if x:
                    ps.insert(0, x)
                    break
        return np.strcat(ps)
    if name == 'splitlines' or name == 'split' and (not cs or len(cs) == 1):
        sep = cs[0] if cs else None
        if name == 'split' and (sep is None or not all(
                isinstance(p, str) or separator(sep, p.op == 'app' and
                                                p.args[0] == 'str')
                for p in ps)):
            return NotImplemented
        out, cur = [], []
        for p in ps:
            if not isinstance(p, str):
                cur.append(p)
                continue
            if name == 'split':
                xs = p.split(sep)
                cur.append(xs[0])
                for x in xs[1:]:
                    out.append(np.strcat(cur))
                    cur = [x]
            else:
                for x in p.splitlines(True):
                    y = x.rstrip('\r\n')
                    cur.append(x if sep else y)
                    if x != y:
                        out.append(np.strcat(cur))
                        cur = []
        if name == 'split' or np.strcat(cur) != '':
            out.append(np.strcat(cur))
        return np.i.newlist(out)
    if name == 'replace' and len(cs) == 2 and isinstance(cs[0], str) and \
            isinstance(cs[1], str) and separator(cs[0]):
        return np.strcat([x.replace(*cs) if isinstance(x, str) else x
                          for x in ps])
    if name == 'count' and len(cs) == 1 and isinstance(cs[0], str) and \
            separator(cs[0]):
        return sum(x.count(cs[0]) for x in ps if isinstance(x, str))
    if name in ('partition', 'rpartition') and len(cs) == 1 and \
            isinstance(cs[0], str) and separator(cs[0]):
        ix = [i for i, x in enumerate(ps) if isinstance(x, str) and
              cs[0] in x]
        if not ix:
            z = np.strcat(ps)
            return (z, '', '') if name == 'partition' else ('', '', z)
        i = ix[0 if name == 'partition' else -1]
        a, m, b = getattr(ps[i], name)(cs[0])
        return (np.strcat(ps[:i] + [a]), m, np.strcat([b] + ps[i + 1:]))
    if name in ('split', 'rsplit') and len(cs) == 2 and \
            isinstance(cs[0], str) and separator(cs[0]) and \
            isinstance(cs[1], int):
        out, z = [], np.strcat(ps)
        p = 'partition' if name == 'split' else 'rpartition'
        while cs[1] < 0 or len(out) < cs[1]:
            a, m, b = method(np, z, p, [cs[0]], {})
            if not m:
                break
            if name == 'split':
                out.append(a)
                z = b
            else:
                out.insert(0, b)
                z = a
        out.insert(len(out) if name == 'split' else 0, z)
        return np.i.newlist(out)
    if name == 'rsplit' and len(cs) == 1:
        return method(np, s, 'split', cs, {})
    if name in ('startswith', 'endswith') and isinstance(cs[0], str) and \
            len(cs) == 1:
        e = ps[0] if name == 'startswith' else ps[-1]
        if isinstance(e, str):
            if len(e) >= len(cs[0]) or not (
                    cs[0].startswith(e) if name == 'startswith'
                    else cs[0].endswith(e)):
                return getattr(e, name)(cs[0])
        elif cs[0] and not cs[0][0].isalnum():
            return False
    return NotImplemented


def separator(x, number=False):
    """it occurs in no field (in no number)"""
    if number:
        return bool(x) and any(not c.isalnum() and c not in '.+' for c in x)
    return bool(x) and (any(c in '\t\r\n|' for c in x) or '::' in x)


def subscript(np, s, k):
    ps = parts(s)
    if isinstance(k, slice):
        a, b, c = k.start, k.stop, k.step
        if c is None and a in (None, 0) and isinstance(b, int) and b >= 0:
            if ps and isinstance(ps[0], str) and len(ps[0]) >= b:
                return ps[0][:b]
            if len(ps) == 1:
                return app('cut', tt(s), num(b), sort='s')
        return NotImplemented
    if k == 0 and ps and isinstance(ps[0], str):
        return ps[0][0]
    if k == -1 and ps and isinstance(ps[-1], str):
        return ps[-1][-1]
    return NotImplemented


def row(k, i):
    return mk('app', 'row', (num(k), tt(i)), sort='o')


def field_of_row(name, r, ix):
    """app('fld:name', row(k, i), *ix)"""
    f = ROWS[int(numval(r.args[1][0]))].get(name)
    if f is None:
        return None
    i = r.args[1][1]
    if f[0] == 'row':
        return row(f[1], i)
    cols = f[1]
    if not f[2]:
        return cols[0](i)
    j = ix[0]
    c = numval(j)
    if c is not None:
        return cols[int(c)](i)
    return X.elem(X.tab([g(i) for g in cols]), j)


X.FIELD[0] = field_of_row


# ---------------------------------------------------------------------------
OPT = ('fname,dtype=float,comments="#",delimiter=None,skip_header=0,'
       'skip_footer=0,converters=None,missing_values=None,'
       'filling_values=None,usecols=None,names=None,excludelist=None,'
       'deletechars=0,replace_space=0,autostrip=False,case_sensitive=True,'
       'defaultfmt=0,unpack=None,usemask=False,loose=True,'
       'invalid_raise=True,max_rows=None,encoding="bytes"')


def genfromtxt(np, args, kw):
    I = np.i
    o = np.B(OPT, args, dict(kw), 'numpy.genfromtxt')
    for k in ('missing_values', 'filling_values', 'names', 'excludelist',
              'unpack'):
        if getattr(o, k) not in (None, False):
            np.unsup('genfromtxt with ' + k)
    if o.usemask is not False or not o.loose or not o.invalid_raise:
        np.unsup('genfromtxt')
    n, cols = source(np, o)
    dt = np.mkdtype(o.dtype)
    flat = []

    def walk(d, path):
        for name, kind, dims in d.fields:
            if isinstance(kind, DtypeV):
                if dims:
                    np.unsup('array of records')
                walk(kind, path + [name])
                continue
            m = 1
            for q in dims:
                if numval(q) is None:
                    np.unsup('dtype')
                m *= int(numval(q))
            if len(dims) > 1:
                np.unsup('dtype')
            w = d.widths.get(name)
            for j in range(m):
                flat.append((tuple(path + [name]), kind, w, bool(dims)))
    conv = {}
    if o.converters is not None:
        for k, f in I.cell(o.converters).items:
            if not isinstance(k, int):
                np.unsup('converters')
            conv[k] = f
    uni = isinstance(o.encoding, str) and o.encoding.lower().replace(
        '_', '-') in ('utf-8', 'utf8')
    if not uni and o.encoding not in (None, 'bytes'):
        np.unsup('encoding')

    def column(c, kind, w):
        src, g = cols[c]
        f = conv.get(c)
        if f is not None and not (
                isinstance(f, Ext) and f.name == 'numpy.char.decode') \
                and not decodes(np, f):
            np.unsup('converter')
        dec = uni or f is not None
        if f is not None and kind != 's':
            np.unsup('converter of a number')

        if isinstance(g, list):
            tab = X.tab([cast(np, x, src, kind, w, dec) for x in g])
            return lambda i: X.elem(tab, i)
        return lambda i: cast(np, g(i), src, kind, w, dec)
    if not dt.fields:
        kind = dt.kind
        if kind not in 'if':
            np.unsup('dtype')
        fs = [column(c, kind, None) for c in range(len(cols))]
        m = len(fs)
        if numval(n) == 1:
            return I.new(mkav((num(m),), lambda j: X.elem(X.tab(
                [f(num(0)) for f in fs]), j), kind))
        return I.new(mkav((n, num(m)), lambda i, j: X.elem(X.tab(
            [f(i) for f in fs]), j), kind))
    walk(dt, [])
    if len(flat) > len(cols):
        I.raise_('ValueError', 'could not assign tuple of length %d to '
                 'structure with %d fields' % (len(cols), len(flat)))
    vals = {}
    for c, (path, kind, w, sub) in enumerate(flat):
        vals.setdefault(path, (kind, sub, []))[2].append(column(c, kind, w))

    def reg(d, path):
        fs = {}
        for name, kind, dims in d.fields:
            if isinstance(kind, DtypeV):
                fs[name] = ('row', reg(kind, path + (name,)))
            else:
                k, sub, fns = vals[path + (name,)]
                fs[name] = ('col', fns, sub)
        ROWS[len(ROWS)] = fs
        return len(ROWS) - 1
    k = reg(dt, ())
    if numval(n) == 1:
        return I.new(mkav((), lambda: row(k, 0), dt))
    return I.new(mkav((n,), lambda i: row(k, i), dt))


def decodes(np, f):
    """a function decoding UTF-8 bytes"""
    n = getattr(f, 'node', None)
    import ast
    if n is None:
        return False
    b = n.body
    if isinstance(b, list):
        if len(b) != 1 or not isinstance(b[0], ast.Return):
            return False
        b = b[0].value
    return isinstance(b, ast.Call) and isinstance(
        b.func, ast.Attribute) and b.func.attr == 'decode' and all(
            isinstance(a, ast.Constant) and str(a.value).lower().replace(
                '_', '-') in ('utf-8', 'utf8') for a in b.args)


def cast(np, t, src, kind, w, dec):
    """value of a field of a text table"""
    if kind == 's':
        if src in 'if':
            t = app('str', t, sort='s')
        if isinstance(t, str):
            r = t if dec else t.encode('utf8').decode('latin1')
            return tt(r[:w] if w is not None else r)
        if not dec:
            t = app('latin1', tt(t), sort='s')
        return app('cut', t, num(w), sort='s') if w is not None else t
    if isinstance(t, str):
        try:
            return num(int(t) if kind == 'i' else float(t))
        except ValueError:
            return num(-1 if kind == 'i' else float('nan'))
    if src == 'x' or src == 's':
        t = tt(t)
        if t.op == 'app' and t.args[0] == 'str' and t.args[1][0].sort in (
                'i' if kind == 'i' else 'if'):
            return t.args[1][0]
        return app('gtext', t, sort=kind)
    if kind == 'i' and src == 'f':
        return num(-1)
    if kind in 'if':
        return tt(t)
    np.unsup('genfromtxt of kind %r' % (kind,))


def source(np, o):
    """number of rows and columns (kind, function of the row)"""
    I = np.i
    f = o.fname
    tabs = I.config.get('tables', {})
    name = f
    if isinstance(f, Ref) and isinstance(I.cell(f), Inst):
        name = I.cell(f).attrs.get('name')
    if not isinstance(name, str):
        np.unsup('genfromtxt of %r' % (f,))
    import os.path as op
    t = tabs.get(op.basename(name)) or tabs.get(name)
    if t is not None:
        n, cols = t
        if o.delimiter != '\t':
            if o.delimiter is not None:
                cols = cols[:1]
            elif any(c[0] == 's' for c in cols):
                np.unsup('whitespace')
        sk = o.skip_header
        if o.skip_footer or o.max_rows is not None:
            np.unsup('skipped rows')
        if not isinstance(sk, int):
            np.unsup('skipped rows')
        if sk and any(isinstance(c[1], list) for c in cols):
            np.unsup('skipped rows')
        if sk:
            n = fix(X.sub(tt(n), num(sk)))
            cols = [(s, (lambda i, g=g: g(X.add(i, num(sk)))))
                    for s, g in cols]
        return tt(n), select(np, o, cols)
    if 'vfs' not in np.i.world.extra:
        np.unsup('genfromtxt')
    if isinstance(f, str):
        f = I.call(I.world.module('vfs').ns['open_'], [f], {
            'encoding': 'utf-8'})
    text = I.call(I.get_attr(f, 'read'), [], {})
    if not isinstance(text, (str, T)):
        np.unsup('text')
    lines = I.iterate(method(np, text, 'splitlines', [False], {}))[1]
    sk = o.skip_header
    if not isinstance(sk, int) or not isinstance(o.skip_footer, int):
        np.unsup('skipped rows')
    lines = lines[sk:]
    rows = []
    for l in lines:
        ps = []
        for p in parts(l):
            if isinstance(p, str) and isinstance(o.comments, str) and \
                    o.comments and o.comments in p:
                ps.append(p[:p.index(o.comments)])
                break
            ps.append(p)
        l = method(np, np.strcat(ps), 'strip', [' \r\n'], {})
        if isinstance(l, str) and l == '':
            continue
        if o.delimiter is None:
            np.unsup('whitespace')
        rows.append(I.iterate(method(np, l, 'split', [o.delimiter], {}))[1])
    if o.max_rows is not None:
        rows = rows[:o.max_rows]
    if o.skip_footer:
        rows = rows[:-o.skip_footer]
    if not rows:
        np.unsup('empty file')
    if any(len(r) != len(rows[0]) for r in rows):
        I.raise_('ValueError', 'Some errors were detected')
    cols = []
    for c in range(len(rows[0])):
        cols.append(('x', [r[c] for r in rows]))
    return num(len(rows)), select(np, o, cols)


def select(np, o, cols):
    u = o.usecols
    if u is None:
        return cols
    if isinstance(u, int):
        u = (u,)
    us = np.i.iterate(u)[1]
    if not all(isinstance(k, int) for k in us):
        np.unsup('usecols')
    return [cols[k] for k in us]



def recode(np, s, src, dst):
    """a text written in one encoding and read in another"""
    from .evalm import recode as rc
    out = []
    for p in parts(s):
        if isinstance(p, str):
            out.append(rc(p, src, dst))
        elif p.op == 'app' and p.args[0] == 'str':
            out.append(p)
        else:
            out.append(app('recode', p, src, dst, sort='s'))
    return np.strcat(out)
