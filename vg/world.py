"""Modules of the analysed program, read from the source tree, and the names
of external libraries."""
import ast
import os

from .poly import POLY
from . import thresholds
from .values import (ModV, Ext, Unknown, Unsupported, PyRaise, UNDEF, ClassV,
                     Func)
from .interp import Frame

REPO = os.environ.get('VG_REPO', '/repo')

# sources of library classes that analysed classes inherit from or drive;
# interpreted by the same engine
STUBS = {
    'vgpoly': POLY,
    'sklearn.model_selection': '''
from abc import abstractmethod
import numpy as np
from sklearn.utils import indexable, check_random_state
from sklearn.utils.validation import _num_samples


class BaseCrossValidator(object):
    def split(self, X, y=None, groups=None):
        X, y, groups = indexable(X, y, groups)
        indices = np.arange(_num_samples(X))
        for test_index in self._iter_test_masks(X, y, groups):
            train_index = indices[np.logical_not(test_index)]
            test_index = indices[test_index]
            yield train_index, test_index

    def _iter_test_masks(self, X=None, y=None, groups=None):
        for test_index in self._iter_test_indices(X, y, groups):
            test_mask = np.zeros(_num_samples(X), dtype=bool)
            test_mask[test_index] = True
            yield test_mask

    def _iter_test_indices(self, X=None, y=None, groups=None):
        raise NotImplementedError

    @abstractmethod
    def get_n_splits(self, X=None, y=None, groups=None):
        pass


class KFold(BaseCrossValidator):
    def __init__(self, n_splits=5, *, shuffle=False, random_state=None):
        if n_splits <= 1:
            raise ValueError('n_splits')
        if not shuffle and random_state is not None:
            raise ValueError('random_state')
        self.n_splits = int(n_splits)
        self.shuffle = shuffle
        self.random_state = random_state

    def split(self, X, y=None, groups=None):
        X, y, groups = indexable(X, y, groups)
        n_samples = _num_samples(X)
        if self.n_splits > n_samples:
            raise ValueError('n_splits')
        for train, test in super(KFold, self).split(X, y, groups):
            yield train, test

    def _iter_test_indices(self, X, y=None, groups=None):
        n_samples = _num_samples(X)
        indices = np.arange(n_samples)
        if self.shuffle:
            check_random_state(self.random_state).shuffle(indices)
        n_splits = self.n_splits
        fold_sizes = np.full(n_splits, n_samples // n_splits, dtype=int)
        fold_sizes[:n_samples % n_splits] += 1
        current = 0
        for fold_size in fold_sizes:
            start, stop = current, current + fold_size
            yield indices[start:stop]
            current = stop

    def get_n_splits(self, X=None, y=None, groups=None):
        return self.n_splits


class PredefinedSplit(BaseCrossValidator):
    def __init__(self, test_fold):
        self.test_fold = np.array(test_fold, dtype=int)
        self.unique_folds = np.unique(self.test_fold)
        self.unique_folds = self.unique_folds[self.unique_folds != -1]

    def split(self, X=None, y=None, groups=None):
        ind = np.arange(len(self.test_fold))
        for test_index in self._iter_test_masks():
            train_index = ind[np.logical_not(test_index)]
            test_index = ind[test_index]
            yield train_index, test_index

    def _iter_test_masks(self):
        for f in self.unique_folds:
            test_index = np.where(self.test_fold == f)[0]
            test_mask = np.zeros(len(self.test_fold), dtype=bool)
            test_mask[test_index] = True
            yield test_mask

    def get_n_splits(self, X=None, y=None, groups=None):
        return len(self.unique_folds)


def _sizes(n, test_size, train_size):
    if test_size is None and train_size is None:
        test_size = 0.25
    if test_size is None:
        n_test = None
    elif isinstance(test_size, float):
        n_test = int(np.ceil(test_size * n))
    else:
        n_test = test_size
    if train_size is None:
        n_train = n - n_test
    elif isinstance(train_size, float):
        n_train = int(np.floor(train_size * n))
    else:
        n_train = train_size
    if n_test is None:
        n_test = n - n_train
    if n_train + n_test > n:
        raise ValueError('sizes')
    if n_train == 0:
        raise ValueError('train set will be empty')
    return n_train, n_test


def train_test_split(a, test_size=None, train_size=None, random_state=None,
                     shuffle=True, stratify=None):
    n = _num_samples(a)
    n_train, n_test = _sizes(n, test_size, train_size)
    if shuffle is False:
        train = np.arange(n_train)
        test = np.arange(n_train, n_train + n_test)
    else:
        rng = check_random_state(random_state)
        perm = rng.permutation(n)
        test = perm[:n_test]
        train = perm[n_test:n_test + n_train]
    return [a[train], a[test]]
''',
}

ALIAS = {'numpy': 'numpy', 'scipy': 'scipy'}


def rebound(m, tree):
    """names of the module that functions rebind, attributes that are stored
    through something other than self"""
    g, st = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Global):
            g.update(n.names)
        elif isinstance(n, ast.Attribute) and isinstance(
                n.ctx, ast.Store) and not (isinstance(
                    n.value, ast.Name) and n.value.id == 'self'):
            st.add(n.attr)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id == 'setattr' and len(n.args) == 3 and \
                isinstance(n.args[1], ast.Constant):
            st.add(n.args[1].value)
    m.rebinds = sorted(g)
    m.stores = sorted(x for x in st if isinstance(x, str))


class World(object):
    _asts = {}
    constmap = {}      # module -> constants to scale down

    def __init__(self, repo=None, extra=None):
        self.repo = repo or REPO
        self.mods = {}
        self.interp = None
        self.files = {}
        self.extra = dict(extra or {})    # module name -> source text

    # ------------------------------------------------------------------
    def find(self, name):
        """(path, is package) of a module of the repository"""
        if name in self.extra:
            return ('<%s>' % name, False)
        parts = name.split('.')
        roots = [self.repo]
        if parts[0] != 'kamrecsys':
            if parts[0] in ('tests', 'data'):
                return None
            roots = [os.path.join(self.repo, 'scripts'),
                     os.path.join(self.repo, 'data')]
        for r in roots:
            p = os.path.join(r, *parts)
            if os.path.isfile(os.path.join(p, '__init__.py')):
                return (os.path.join(p, '__init__.py'), True)
            if os.path.isfile(p + '.py'):
                return (p + '.py', False)
        return None

    def parse(self, name, path):
        if name in self.extra:
            src = self.extra[name]
        elif name in STUBS:
            src = STUBS[name]
        else:
            with open(path, 'rb') as f:
                src = f.read()
        cm = World.constmap.get(name)
        key = (path, src, cm is None)
        if key not in World._asts:
            t = ast.parse(src, filename=path)
            if cm is not None:
                t = thresholds.apply(t, cm)
            World._asts[key] = t
        return World._asts[key]

    def module(self, name):
        """module of the repository, interpreted; None if there is none"""
        m = self.mods.get(name)
        if m is not None:
            return m
        pk = False
        if name in STUBS:
            path = '<%s>' % name
        else:
            r = self.find(name)
            if r is None:
                return None
            path, pk = r
        I = self.interp
        if '.' in name and name not in STUBS and name not in self.extra:
            par = self.module(name.rpartition('.')[0])
            if par is None:
                return None
            m = self.mods.get(name)
            if m is not None:
                return m
        shown = path
        if path.startswith(self.repo + os.sep):
            shown = os.path.relpath(path, self.repo)
        m = ModV(name, shown, {})
        m.pkg = pk
        m.external = name in STUBS
        self.mods[name] = m
        tree = self.parse(name, path)
        m.tree = tree
        self.files[name] = path
        rebound(m, tree)
        self.execute(m, tree)
        if m.rebinds:
            I.over_new(m, m.rebinds)
        if '.' in name and name not in STUBS:
            p, _, l = name.rpartition('.')
            par = self.mods.get(p)
            if par is not None and isinstance(par, ModV):
                par.ns.setdefault(l, m)
        return m

    def execute(self, m, tree):
        I = self.interp
        fr = Frame(m.ns, None, m)
        m.state = 'loading'
        m.failed = []
        m.unsup = []
        saved = (I.frames, I.loc, I.pc, I.oracles, I.handlers, I.depth,
                 I.active)
        I.frames = [fr]
        I.pc = []
        I.handlers = []
        ne = len(I.effects)
        try:
            for s in tree.body:
                if isinstance(s, ast.If) and is_main(s.test) and \
                        m.name not in I.config.get('mains', ()):
                    continue
                try:
                    if isinstance(s, ast.If) and is_main(s.test):
                        for q in s.body:
                            I.stmt(q)
                    else:
                        I.stmt(s)
                except Unsupported as e:
                    m.unsup.append((s.lineno, e.msg))
                    self.fail(m, s, e.msg)
                except PyRaise as e:
                    m.failed.append((s.lineno, e))
                    self.fail(m, s, 'raises %s' % e.name())
                I.frames[:] = [fr]
        finally:
            (I.frames, I.loc, I.pc, I.oracles, I.handlers, I.depth,
             I.active) = saved
        m.import_effects = I.effects[ne:]
        del I.effects[ne:]
        m.state = 'done'

    def fail(self, m, s, why):
        names = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is s:
                names.add(n.name)
            elif isinstance(n, ast.alias):
                names.add((n.asname or n.name).split('.')[0])
        for n in names:
            m.ns.setdefault(n, Unknown('%s:%s %s' % (
                m.path, getattr(s, 'lineno', '?'), why)))

    # ------------------------------------------------------------------
    def absname(self, modname, level, module):
        if not level:
            return modname
        p = module.name if getattr(module, 'pkg', False) else \
            module.name.rpartition('.')[0]
        for k in range(level - 1):
            p = p.rpartition('.')[0]
        return p + ('.' + modname if modname else '')

    def load(self, name, module, interp):
        m = self.module(name)
        if m is not None:
            return m
        if name.split('.')[0] == 'kamrecsys':
            interp.raise_('ImportError', name)
        return Ext(name)

    def load_from(self, modname, level, name, module, interp):
        full = self.absname(modname, level, module)
        if full == '__future__':
            return Ext('__future__.' + name)
        if full == 'six.moves' and name in ('xrange', 'range', 'zip', 'map',
                                            'filter', 'input'):
            return Ext('builtins.' + name.replace('xrange', 'range'))
        m = self.module(full)
        if m is None:
            if level or full.split('.')[0] == 'kamrecsys':
                interp.raise_('ImportError', full)
            if name == '*':
                interp.unsup('import * from ' + full)
            return Ext(full + '.' + name)
        if name == '*':
            al = m.ns.get('__all__')
            out = {}
            if al is not None:
                for k in interp.np.lst(al):
                    out[k] = self.member(m, k, interp)
            else:
                for k, v in m.ns.items():
                    if not k.startswith('_'):
                        out[k] = v
            return out
        return self.member(m, name, interp)

    def member(self, m, name, interp):
        v = m.ns.get(name, UNDEF)
        if v is not UNDEF:
            return v
        s = self.submodule(m, name, interp)
        if s is not None:
            return s
        if m.external:
            return Ext(m.name + '.' + name)
        interp.raise_('ImportError', 'cannot import name %s from %s' % (
            name, m.name))

    def submodule(self, m, name, interp):
        full = m.name + '.' + name
        r = self.mods.get(full)
        if r is not None:
            return r
        if getattr(m, 'pkg', False) and self.find(full) is not None and \
                m.state != 'x':
            return self.module(full)
        return None

    # ------------------------------------------------------------------
    def get(self, dotted):
        """object by dotted name, e.g. kamrecsys.data.EventData.to_eid"""
        parts = dotted.split('.')
        for k in range(len(parts), 0, -1):
            n = '.'.join(parts[:k])
            if n in self.mods or n in STUBS or self.find(n) is not None:
                m = self.module(n)
                if m is None:
                    continue
                o = m
                for p in parts[k:]:
                    if isinstance(o, ModV):
                        o = self.member(o, p, self.interp)
                    else:
                        o = self.interp.get_attr(o, p)
                return o
        raise KeyError(dotted)


def is_main(t):
    return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and \
        t.left.id == '__name__'
