"""Tuning constants of the analysed source.

A whole number that the code compares with a size, uses as a slice bound, a
step or a block length does not belong to any of the properties: they hold
for every number of events, users, folds.  Random finite models are small,
so code behind a bound like ``len(x) > 4096`` would stay out of their reach.
When the analysed functions contain such constants, the obligations are
decided a second time for the program with these constants scaled down."""
import ast
import copy

LOW, HIGH = 8, 5 * 10 ** 6
SIZED = {'min', 'max', 'range', 'xrange', 'islice', 'array_split', 'split',
         'minimum', 'maximum', 'batched', 'linspace', 'arange'}


def fold(n):
    """integer value of an expression of literals"""
    if isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, float) and v == int(v) and abs(v) < 1e15:
            v = int(v)
        if isinstance(v, int) and not isinstance(v, bool):
            return v
        return None
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = fold(n.operand)
        return None if v is None else -v
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left), fold(n.right)
        if a is None or b is None:
            return None
        try:
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Pow) and 0 <= b < 64:
                return a ** b
            if isinstance(n.op, ast.LShift) and 0 <= b < 64:
                return a << b
        except Exception:    # noqa
            return None
    return None


def tail(f):
    return f.attr if isinstance(f, ast.Attribute) else \
        f.id if isinstance(f, ast.Name) else ''


def names(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Name):
            yield x.id
        elif isinstance(x, ast.Attribute):
            yield x.attr


RAW = {'itemsize', 'nbytes', 'tobytes', 'frombuffer'}


def sizing(tree):
    """names compared with sizes or used as bounds, blocks or steps, less
    those that are default values of parameters"""
    used, given = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Compare, ast.Slice)):
            used.update(names(n))
        elif isinstance(n, ast.BinOp) and isinstance(
                n.op, (ast.Mod, ast.FloorDiv)):
            used.update(names(n.right))
        elif isinstance(n, ast.Call) and (
                tail(n.func) in SIZED or tail(n.func).startswith('_')):
            for x in n.args + [k.value for k in n.keywords]:
                used.update(names(x))
        elif isinstance(n, ast.arguments):
            for x in n.defaults + [x for x in n.kw_defaults if x]:
                given.update(names(x))
    return used - given


class Finder(ast.NodeVisitor):
    def __init__(self, inside, sized):
        self.sized = sized
        self.found = {}         # value -> lines
        self.inside = inside    # qualified names of analysed functions
        self.path = []
        self.on = True
        self.raw = False

    def hit(self, n, what):
        v = fold(n)
        if v is not None and self.raw and abs(v) in (8, 16, 32, 64):
            return      # a number of bytes or bits
        if v is not None and LOW <= abs(v) <= HIGH and self.on:
            self.found.setdefault(abs(v), []).append((n.lineno, what))

    def visit_FunctionDef(self, n):
        on = self.on
        self.path.append(n.name)
        q = '.'.join(self.path)
        self.on = len(self.path) > 0 and any(
            q == x or q.startswith(x + '.') for x in self.inside)
        if self.on and n.name.startswith('_') and n.name != '__init__':
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.hit(d, 'default')
        raw = self.raw
        self.raw = raw or any(
            isinstance(x, ast.Attribute) and x.attr in RAW
            for x in ast.walk(n))
        for s in n.body:
            self.visit(s)
        self.path.pop()
        self.on = on
        self.raw = raw

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.path.append(n.name)
        for s in n.body:
            self.visit(s)
        self.path.pop()

    def visit_Compare(self, n):
        xs = [n.left] + list(n.comparators)
        if not all(fold(x) is not None for x in xs):
            for x in xs:
                self.hit(x, 'comparison')
                # x > len(y) - 4096
                if isinstance(x, ast.BinOp) and isinstance(
                        x.op, (ast.Add, ast.Sub)):
                    self.hit(x.left, 'comparison')
                    self.hit(x.right, 'comparison')
        self.generic_visit(n)

    def visit_Slice(self, n):
        for x in (n.lower, n.upper, n.step):
            if x is not None:
                self.hit(x, 'slice')
                if isinstance(x, ast.BinOp):
                    self.hit(x.left, 'slice')
                    self.hit(x.right, 'slice')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.op, (ast.Mod, ast.FloorDiv)) and not isinstance(
                n.left, (ast.Constant, ast.JoinedStr)):
            self.hit(n.right, 'block')
        self.generic_visit(n)

    def visit_Call(self, n):
        t = tail(n.func)
        if t in SIZED or (t.startswith('_') and not t.startswith('__')):
            for x in n.args:
                self.hit(x, 'argument of ' + t)
                if isinstance(x, ast.BinOp):
                    self.hit(x.left, 'argument of ' + t)
                    self.hit(x.right, 'argument of ' + t)
            for k in n.keywords:
                self.hit(k.value, 'argument of ' + t)
        self.generic_visit(n)

    def visit_Assign(self, n):
        if all(isinstance(x, (ast.Name, ast.Attribute)) and
               tail(x) in self.sized for x in n.targets):
            self.hit(n.value, 'named constant')
        self.generic_visit(n)


class Scale(ast.NodeTransformer):
    def __init__(self, cmap):
        self.cmap = cmap

    def generic_visit(self, n):
        if isinstance(n, (ast.Constant, ast.BinOp, ast.UnaryOp)):
            v = fold(n)
            if v is not None and abs(v) in self.cmap:
                m = self.cmap[abs(v)] * (1 if v > 0 else -1)
                r = ast.Constant(m)
                ast.copy_location(r, n)
                r.end_lineno = getattr(n, 'end_lineno', n.lineno)
                return r
        return ast.NodeTransformer.generic_visit(self, n)

    def visit_Constant(self, n):
        return self.generic_visit(n)


def scaled(values):
    """small values that keep neighbours and multiples related"""
    out = {}
    for v in sorted(values):
        for w in sorted(out):
            if v - w <= 3:
                out[v] = out[w] + v - w
                break
            if v % w == 0 and v // w <= 8:
                out[v] = out[w] * (v // w)
                break
        else:
            out[v] = 2
    return out


def candidates(world, functions):
    """{module: {constant: small value}}, [descriptions]"""
    mods = {}
    for f in functions:
        m, _, q = f.partition(':')
        mods.setdefault(m, set()).add(q)
    out, text = {}, []
    for m in sorted(mods):
        r = world.find(m)
        if r is None or not r[0].startswith(world.repo) or \
                r[0].startswith(world.repo + '/data/'):
            continue
        with open(r[0], 'rb') as f:
            tree = ast.parse(f.read())
        fd = Finder(mods[m], sizing(tree))
        fd.visit(tree)
        if fd.found:
            out[m] = scaled(fd.found)
            for v in sorted(fd.found):
                text.append('%s:%s %d (%s) as %d' % (
                    m, fd.found[v][0][0], v, fd.found[v][0][1], out[m][v]))
    return out, text


def apply(tree, cmap):
    return ast.fix_missing_locations(Scale(cmap).visit(copy.deepcopy(tree)))
