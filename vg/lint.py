"""Resolution of names over the syntax trees of the library, and the call
sites that write to a stream, log, or configure other libraries.

Every name is resolved to the set of things it may stand for: modules and
their attributes, loggers, constants, library functions, or unknown."""
import ast
import builtins
import os

from .world import REPO

UNK = ('unknown',)


def library():
    """module name -> (path from the root, tree)"""
    out = {}
    top = os.path.join(REPO, 'kamrecsys')
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__'))
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, REPO)
            m = rel[:-3].replace(os.sep, '.')
            if m.endswith('.__init__'):
                m = m[:-9]
            with open(p, encoding='utf-8') as h:
                out[m] = (rel, ast.parse(h.read(), rel))
    return out


def bindings(body):
    """(name, node) pairs of one scope, nested scopes excluded"""
    out = []

    def target(t, v):
        if isinstance(t, ast.Name):
            out.append((t.id, v))
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(
                v.elts) == len(t.elts) else [None] * len(t.elts)
            for a, b in zip(t.elts, vs):
                target(a, b)
        elif isinstance(t, ast.Starred):
            target(t.value, None)

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.append((n.name, n))
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.append((a.asname or a.name.split('.')[0], (n, a)))
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                target(t, n.value)
        elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)):
            target(n.target, n.value if not isinstance(
                n, ast.AugAssign) else None)
        elif isinstance(n, (ast.For, ast.comprehension)):
            target(n.target, None)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    target(i.optional_vars, None)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.append((n.name, None))
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in body:
        go(s)
    return out


class Scope(object):
    def __init__(self, lint, mod, parent, body, params=()):
        self.lint = lint
        self.mod = mod
        self.parent = parent
        self.vals = {}
        for p, d in params:
            self.vals.setdefault(p, []).append(d)
        for k, v in bindings(body):
            self.vals.setdefault(k, []).append(v)
        self.busy = set()

    def name(self, k):
        s = self
        while s is not None:
            if k in s.vals:
                return s.values(k)
            s = s.parent
        if hasattr(builtins, k):
            return {('ref', 'builtins.' + k)}
        return {UNK}

    def values(self, k):
        if k in self.busy:
            return set()
        self.busy.add(k)
        try:
            out = set()
            for v in self.vals[k]:
                out |= self.bound(v)
            return out
        finally:
            self.busy.discard(k)

    def bound(self, v):
        if v is None:
            return {UNK}
        if isinstance(v, tuple) and isinstance(v[0], ast.AST):
            n, a = v
            if isinstance(n, ast.Import):
                return {('ref', a.name if a.asname else
                         a.name.split('.')[0])}
            base = n.module or ''
            if n.level:
                pk = self.mod.split('.')
                if not self.lint.mods[self.mod][0].endswith('__init__.py'):
                    pk = pk[:-1]
                pk = pk[:len(pk) - (n.level - 1)]
                base = '.'.join(pk + ([base] if base else []))
            return self.lint.member(base, a.name)
        if isinstance(v, (ast.FunctionDef, ast.ClassDef)):
            return {('def', self.mod, v.name)}
        return self.ev(v)

    def ev(self, e):
        if isinstance(e, ast.Constant):
            return {('const', e.value if not isinstance(
                e.value, (bytes,)) else None)}
        if isinstance(e, ast.Name):
            if e.id == '__name__':
                return {('const', self.mod)}
            return self.name(e.id)
        if isinstance(e, ast.Attribute):
            out = set()
            for b in self.ev(e.value):
                if b[0] == 'ref':
                    if b[1] in self.lint.mods:
                        out |= self.lint.member(b[1], e.attr)
                    else:
                        out.add(('ref', b[1] + '.' + e.attr))
                elif b[0] == 'logger':
                    out.add(('logm', b[1], e.attr))
                else:
                    out.add(UNK)
            return out
        if isinstance(e, ast.IfExp):
            return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.BoolOp):
            out = set()
            for x in e.values:
                out |= self.ev(x)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.ev(e.value)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mod)):
            a, b = self.ev(e.left), self.ev(e.right)
            out = set()
            for x in a:
                for y in b:
                    if x[0] == y[0] == 'const' and isinstance(
                            x[1], str) and isinstance(y[1], str):
                        try:
                            out.add(('const', x[1] + y[1] if isinstance(
                                e.op, ast.Add) else x[1] % y[1]))
                            continue
                        except (TypeError, ValueError):
                            pass
                    out.add(UNK)
            return out
        if isinstance(e, ast.Call):
            out = set()
            for f in self.ev(e.func):
                if f == ('ref', 'logging.getLogger'):
                    a = e.args[0] if e.args else None
                    for k in e.keywords:
                        if k.arg == 'name':
                            a = k.value
                    for n in ({('const', None)} if a is None else
                              self.ev(a)):
                        out.add(('logger', n[1]) if n[0] == 'const' else
                                ('logger', UNK))
                elif f[0] == 'logm' and f[2] == 'getChild':
                    for n in (self.ev(e.args[0]) if e.args else ()):
                        out.add(('logger', '%s.%s' % (f[1], n[1]))
                                if n[0] == 'const' and f[1] != UNK else
                                ('logger', UNK))
                elif f == ('ref', 'logging.NullHandler'):
                    out.add(('null handler',))
                elif f[0] == 'ref' and f[1].startswith('logging.') and \
                        f[1].endswith('Handler'):
                    out.add(('handler', f[1]))
                elif f[0] == 'def':
                    out |= self.lint.returned(f[1], f[2])
                else:
                    out.add(UNK)
            return out
        return {UNK}


class Lint(object):
    def __init__(self):
        self.mods = library()
        self.scopes = {}
        self.busy = set()
        self.ret = {}
        for m, (rel, tree) in self.mods.items():
            self.scopes[m] = Scope(self, m, None, tree.body)

    def member(self, mod, name):
        if mod in self.mods:
            s = self.scopes[mod]
            if name in s.vals:
                if (mod, name) in self.busy:
                    return {UNK}
                self.busy.add((mod, name))
                try:
                    return s.values(name)
                finally:
                    self.busy.discard((mod, name))
            if mod + '.' + name in self.mods:
                return {('ref', mod + '.' + name)}
            return {UNK}
        return {('ref', mod + '.' + name if mod else name)}

    def returned(self, mod, name):
        """what a function of the library may return"""
        if (mod, name) in self.ret:
            return self.ret[mod, name]
        self.ret[mod, name] = {UNK}
        for f, sc, q in self.functions(mod):
            if f.name == name and isinstance(f, ast.FunctionDef):
                out = set()
                for n in ast.walk(f):
                    if isinstance(n, ast.Return) and n.value is not None:
                        out |= sc.ev(n.value)
                self.ret[mod, name] = out or {('const', None)}
        return self.ret[mod, name]

    def functions(self, mod):
        """(function, scope, qualified name), methods included"""
        out = []

        def go(body, scope, q):
            for n in body:
                if isinstance(n, ast.FunctionDef):
                    a = n.args
                    ps = [(x.arg, None) for x in a.posonlyargs + a.args +
                          a.kwonlyargs]
                    ps += [(x.arg, None) for x in (a.vararg, a.kwarg) if x]
                    # a parameter is its default or what callers give
                    al = a.posonlyargs + a.args
                    ps += [(x.arg, d) for x, d in zip(
                        al[len(al) - len(a.defaults):], a.defaults)]
                    s = Scope(self, mod, scope, n.body, ps)
                    out.append((n, s, q + n.name))
                    go(n.body, s, q + n.name + '.')
                elif isinstance(n, ast.ClassDef):
                    go(n.body, scope, q + n.name + '.')
                else:
                    for f in ('body', 'orelse', 'finalbody', 'handlers'):
                        go(getattr(n, f, []), scope, q)
        go(self.mods[mod][1].body, self.scopes[mod], '')
        return out

    def sites(self):
        """every call of the library: (module, function, scope, call,
        enclosing managers)"""
        for mod in sorted(self.mods):
            rel, tree = self.mods[mod]
            fs = {id(f): (s, q) for f, s, q in self.functions(mod)}
            todo = []

            def go(n, scope, q, fn, withs):
                if id(n) in fs:
                    scope, q = fs[id(n)]
                    fn = n
                    for d in n.args.defaults + n.decorator_list:
                        go(d, scope.parent, q, fn, withs)
                    for b in n.body:
                        go(b, scope, q, fn, [])
                    return
                if isinstance(n, ast.With):
                    withs = withs + [i.context_expr for i in n.items]
                if isinstance(n, (ast.Call, ast.Assign)):
                    todo.append((mod, rel, q, fn, scope, n, withs))
                if isinstance(n, ast.If) and is_main(n.test):
                    return
                for c in ast.iter_child_nodes(n):
                    go(c, scope, q, fn, withs)
            for b in tree.body:
                go(b, self.scopes[mod], '<module>', None, [])
            for t in todo:
                yield t


def is_main(t):
    return (isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and
            t.left.id == '__name__')


# configuration of other libraries and of the process
GLOBAL = ('numpy.seterr', 'numpy.seterrcall', 'numpy.setbufsize',
          'numpy.set_printoptions', 'numpy.set_string_function',
          'warnings.filterwarnings', 'warnings.simplefilter',
          'warnings.resetwarnings', 'logging.basicConfig',
          'logging.disable', 'logging.captureWarnings',
          'logging.setLoggerClass', 'logging.setLogRecordFactory',
          'logging.addLevelName', 'logging.config.dictConfig',
          'logging.config.fileConfig', 'logging.shutdown',
          'sys.settrace', 'sys.setprofile', 'sys.setrecursionlimit',
          'locale.setlocale', 'os.chdir', 'os.putenv', 'os.umask',
          'signal.signal', 'atexit.register', 'sklearn.set_config',
          'scipy.seterr', 'random.seed', 'numpy.random.seed',
          'numpy.random.set_state')
ROOTLOG = tuple('logging.' + m for m in (
    'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical',
    'fatal', 'log'))
MESSAGE = ('debug', 'info', 'warning', 'warn', 'error', 'exception',
           'critical', 'fatal', 'log')
STDOUT = ('sys.stdout', 'sys.__stdout__')
STDERR = ('sys.stderr', 'sys.__stderr__')


def own(name):
    return name == 'kamrecsys' or str(name).startswith('kamrecsys.')


def classify(lint, site):
    """(verdict, text) pairs of a call: 'bad', 'stderr', 'ok', 'unknown'"""
    mod, rel, q, fn, scope, n, withs = site
    out = []
    if isinstance(n, ast.Assign):
        for t in n.targets:
            if isinstance(t, ast.Attribute):
                for b in scope.ev(t):
                    if b[0] == 'ref' and b[1] in STDOUT + STDERR:
                        out.append(('bad', 'replaces ' + b[1]))
                    if b[0] == 'logm' and b[1] != UNK and not own(b[1]):
                        out.append(('bad', 'changes the logger %r' % b[1]))
        return out
    fs = scope.ev(n.func)
    args = list(n.args) + [k.value for k in n.keywords]
    quiet = any(('ref', 'warnings.catch_warnings') in scope.ev(w.func)
                for w in withs if isinstance(w, ast.Call))

    def stream(e, what):
        for v in scope.ev(e):
            if v[0] == 'ref' and v[1] in STDOUT or v == ('const', None):
                out.append(('bad', '%s writes to standard output' % what))
            elif v[0] == 'ref' and v[1] in STDERR:
                out.append(('stderr', what))
            else:
                out.append(('unknown', '%s to an unresolved stream' % what))
    for f in fs:
        if f == ('ref', 'builtins.print') or f == (
                'ref', 'six.print_') or f == ('ref', 'pprint.pprint'):
            key = 'stream' if f[1] == 'pprint.pprint' else 'file'
            v = [k.value for k in n.keywords if k.arg == key]
            if any(k.arg is None for k in n.keywords):
                out.append(('unknown', 'print with unresolved options'))
            elif v:
                stream(v[0], f[1])
            elif key == 'stream' and len(n.args) > 1:
                stream(n.args[1], f[1])
            else:
                out.append(('bad', '%s writes to standard output' % f[1]))
        elif f[0] == 'ref' and f[1] in GLOBAL:
            if not (quiet and f[1].startswith('warnings.')):
                out.append(('bad', '%s changes the settings of the process'
                            % f[1]))
        elif f[0] == 'ref' and f[1] in ROOTLOG:
            out.append(('bad', '%s sends to the root logger' % f[1]))
        elif f[0] == 'ref' and f[1].startswith(
                'logging.root.'):
            out.append(('bad', '%s uses the root logger' % f[1]))
        elif f == ('ref', 'logging.Logger'):
            out.append(('bad', 'a logger outside the logger hierarchy'))
        elif f[0] == 'ref' and f[1] in ('warnings.warn',
                                        'warnings.warn_explicit'):
            out.append(('bad', '%s is not a message to the logger' % f[1]))
        elif f[0] == 'ref' and f[1].startswith(STDOUT):
            if f[1].rsplit('.', 1)[1] in ('write', 'writelines'):
                out.append(('bad', '%s writes to standard output' % f[1]))
        elif f[0] == 'ref' and f[1].startswith(STDERR):
            if f[1].rsplit('.', 1)[1] in ('write', 'writelines'):
                out.append(('stderr', f[1]))
        elif f == ('ref', 'os.write'):
            for v in scope.ev(n.args[0]) if n.args else ():
                if v == ('const', 1):
                    out.append(('bad', 'os.write to standard output'))
                elif v == ('const', 2):
                    out.append(('stderr', 'os.write'))
        elif f == ('ref', 'logging.getLogger'):
            for v in scope.ev(n):
                if v[0] == 'logger' and v[1] == UNK:
                    out.append(('unknown', 'logger of unresolved name'))
                elif not own(v[1]):
                    out.append(('bad', 'logger %r is not that of the '
                                'library' % (v[1],)))
                else:
                    out.append(('ok', 'logger %r' % v[1]))
        elif f[0] == 'logm':
            if f[1] == UNK:
                out.append(('unknown', 'logger of unresolved name'))
            elif not own(f[1]):
                out.append(('bad', '%s of the logger %r' % (f[2], f[1])))
            elif f[2] == 'addHandler':
                for v in scope.ev(n.args[0]) if n.args else {UNK}:
                    if v == ('null handler',):
                        out.append(('ok', 'null handler'))
                    elif v[0] == 'handler':
                        out.append(('bad', 'handler %s writes messages'
                                    % v[1]))
                    else:
                        out.append(('unknown', 'handler'))
            elif f[2] in MESSAGE:
                out.append(('ok', 'message to the logger %r' % f[1]))
        elif f[0] == 'ref' and f[1].startswith(('builtins.', 'numpy.')) is \
                False and f[1] not in ('builtins.isinstance',):
            for a in args:
                for v in scope.ev(a):
                    if v[0] == 'ref' and v[1] in STDOUT:
                        out.append(('bad', '%s is given standard output'
                                    % f[1]))
                    elif v[0] == 'ref' and v[1] in STDERR:
                        out.append(('stderr', f[1]))
    return out
