"""Library functions written in Python and analysed like the code that calls
them.  Names are those of the library with dots replaced by underscores."""

POLY = '''
import numpy as np


def unmodelled():
    # a form of a call that has no model here
    return np._unmodelled()


def numpy_put(a, ind, v, mode='raise'):
    if mode != 'raise':
        return unmodelled()
    ind = np.asarray(ind)
    if np.ndim(v) > 0 and np.size(v) != np.size(ind):
        return unmodelled()
    if a.ndim == 1:
        a[ind] = v
    elif a.ndim == 2:
        a[ind // a.shape[1], ind % a.shape[1]] = v
    else:
        return unmodelled()


def numpy_putmask(a, mask, values):
    if np.ndim(values) == 0:
        a[np.asarray(mask)] = values
    elif np.shape(values) == np.shape(a):
        a[np.asarray(mask)] = np.asarray(values)[np.asarray(mask)]
    else:
        return unmodelled()


def numpy_place(arr, mask, vals):
    if np.ndim(vals) == 0:
        arr[np.asarray(mask)] = vals
    elif len(vals) == 1:
        arr[np.asarray(mask)] = vals[0]
    else:
        return unmodelled()


def numpy_copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    elif np.ndim(src) == 0:
        dst[np.asarray(where)] = src
    else:
        dst[...] = np.where(where, src, dst)


def numpy_fill_diagonal(a, val, wrap=False):
    n = min(a.shape[0], a.shape[1])
    i = np.arange(n)
    a[i, i] = val


def numpy_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if copy is not True:
        return unmodelled()
    hi = 1.7976931348623157e308 if posinf is None else posinf
    lo = -1.7976931348623157e308 if neginf is None else neginf
    x = np.asarray(x)
    x = np.where(np.isnan(x), nan, x)
    x = np.where(x == np.inf, hi, x)
    return np.where(x == -np.inf, lo, x)


def numpy_nanmax(a, axis=None):
    a = np.asarray(a, dtype=float)
    return np.max(np.where(np.isnan(a), -np.inf, a), axis=axis)


def numpy_nanmin(a, axis=None):
    a = np.asarray(a, dtype=float)
    return np.min(np.where(np.isnan(a), np.inf, a), axis=axis)


def numpy_isposinf(x):
    return np.asarray(x) == np.inf


def numpy_isneginf(x):
    return np.asarray(x) == -np.inf


def numpy_signbit(x):
    return np.asarray(x) < 0


def numpy_hypot(a, b):
    return np.sqrt(np.square(a) + np.square(b))


def numpy_exp2(x):
    return np.power(2.0, x)


def numpy_ediff1d(a):
    return np.diff(np.ravel(a))


def numpy_diag(v, k=0):
    if k != 0:
        return unmodelled()
    v = np.asarray(v)
    if v.ndim == 2:
        i = np.arange(min(v.shape[0], v.shape[1]))
        return v[i, i]
    i = np.arange(v.shape[0])
    return np.where(i[:, None] == i[None, :], v, 0)


def numpy_diagonal(v):
    v = np.asarray(v)
    i = np.arange(min(v.shape[0], v.shape[1]))
    return v[i, i]


def numpy_trace(v):
    return np.sum(numpy_diagonal(v))


def numpy_roll(a, shift, axis=None):
    a = np.asarray(a)
    if a.ndim == 1 or axis == 0:
        n = a.shape[0]
        return a[(np.arange(n) - shift) % n]
    if a.ndim == 2 and axis in (1, -1):
        n = a.shape[1]
        return a[:, (np.arange(n) - shift) % n]
    return unmodelled()


def numpy_ravel_multi_index(multi_index, dims, mode='raise', order='C'):
    if mode != 'raise' or order != 'C' or len(dims) != len(multi_index):
        return unmodelled()
    r = 0
    for k in range(len(dims)):
        m = np.asarray(multi_index[k])
        if np.any(m < 0) or np.any(m >= dims[k]):
            raise ValueError('invalid entry in coordinates array')
        r = r * dims[k] + m
    return r


def numpy_unravel_index(indices, shape, order='C'):
    if order != 'C' or len(shape) != 2:
        return unmodelled()
    indices = np.asarray(indices)
    if np.any(indices < 0) or np.any(indices >= shape[0] * shape[1]):
        raise ValueError('index is out of bounds for array')
    return indices // shape[1], indices % shape[1]


def numpy_fromiter(iter, dtype, count=-1):
    if count != -1:
        r = np.array([x for x in iter], dtype=dtype)
        if len(r) < count:
            raise ValueError('iterator too short')
        return r[:count]
    return np.array([x for x in iter], dtype=dtype)


def numpy_fliplr(m):
    return np.asarray(m)[:, ::-1]


def numpy_flipud(m):
    return np.asarray(m)[::-1]


def numpy_tril(m, k=0):
    m = np.asarray(m)
    i = np.arange(m.shape[0])[:, None]
    j = np.arange(m.shape[1])[None, :]
    return np.where(j <= i + k, m, 0)


def numpy_triu(m, k=0):
    m = np.asarray(m)
    i = np.arange(m.shape[0])[:, None]
    j = np.arange(m.shape[1])[None, :]
    return np.where(j >= i + k, m, 0)


def numpy_take_along_axis(arr, indices, axis):
    if arr.ndim == 1:
        return arr[indices]
    if arr.ndim == 2 and axis in (1, -1):
        return arr[np.arange(arr.shape[0])[:, None], indices]
    if arr.ndim == 2 and axis == 0:
        return arr[indices, np.arange(arr.shape[1])[None, :]]
    return unmodelled()


def numpy_apply_along_axis(func1d, axis, arr, *args):
    arr = np.asarray(arr)
    if arr.ndim == 1:
        return func1d(arr, *args)
    if arr.ndim == 2 and axis in (1, -1):
        return np.array([func1d(arr[i], *args)
                         for i in range(arr.shape[0])])
    if arr.ndim == 2 and axis == 0:
        return np.array([func1d(arr[:, i], *args)
                         for i in range(arr.shape[1])]).T
    return unmodelled()


def numpy_ndenumerate(arr):
    arr = np.asarray(arr)
    if arr.ndim == 1:
        return [((i,), arr[i]) for i in range(arr.shape[0])]
    if arr.ndim == 2:
        return [((i, j), arr[i, j]) for i in range(arr.shape[0])
                for j in range(arr.shape[1])]
    return unmodelled()


def numpy_ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    if len(shape) == 1:
        return [(i,) for i in range(shape[0])]
    if len(shape) == 2:
        return [(i, j) for i in range(shape[0]) for j in range(shape[1])]
    return unmodelled()


def numpy_row_stack(tup):
    return np.vstack(tup)


def numpy_dstack(tup):
    return np.stack([np.asarray(a) for a in tup], axis=-1)


def numpy_hsplit(a, n):
    return np.split(a, n, axis=0 if np.ndim(a) == 1 else 1)


def numpy_vsplit(a, n):
    return np.split(a, n, axis=0)


def numpy_moveaxis(a, s, d):
    if np.ndim(a) != 2:
        return unmodelled()
    return a if s % 2 == d % 2 else np.transpose(a)


def numpy_fmax(a, b):
    return np.where(np.isnan(a), b, np.where(
        np.isnan(b), a, np.maximum(a, b)))


def numpy_fmin(a, b):
    return np.where(np.isnan(a), b, np.where(
        np.isnan(b), a, np.minimum(a, b)))


def numpy_choose(a, choices):
    a = np.asarray(a)
    if np.any(a < 0) or np.any(a >= len(choices)):
        raise ValueError('invalid entry in choice array')
    r = choices[len(choices) - 1]
    for k in range(len(choices) - 2, -1, -1):
        r = np.where(a == k, choices[k], r)
    return r


def scipy_special_xlogy(x, y):
    return np.where(np.asarray(x) == 0, 0.0, x * np.log(
        np.where(np.asarray(x) == 0, 1.0, y)))


def scipy_special_logit(p):
    return np.log(p / (1 - np.asarray(p)))


def scipy_special_softmax(x, axis=None):
    e = np.exp(x)
    return e / np.sum(e, axis=axis, keepdims=True)


def functools_reduce(function, iterable, *initial):
    seq = list(iterable)
    if len(initial) == 1:
        value = initial[0]
        rest = seq
    elif len(seq) == 0:
        raise TypeError('reduce() of empty iterable with no initial value')
    else:
        value = seq[0]
        rest = seq[1:]
    for x in rest:
        value = function(value, x)
    return value


def functools_wraps(wrapped):
    def same(f):
        return f
    return same


def itertools_product(*iterables, **kw):
    pools = [list(x) for x in iterables] * kw.get('repeat', 1)
    result = [()]
    for pool in pools:
        result = [x + (y,) for x in result for y in pool]
    return result


def itertools_chain_from_iterable(iterables):
    out = []
    for it in iterables:
        for x in it:
            out.append(x)
    return out


def itertools_starmap(function, iterable):
    return [function(*args) for args in iterable]


def itertools_repeat(x, times=None):
    if times is None:
        return unmodelled()
    return [x for i in range(times)]


def itertools_islice(iterable, *args):
    if len(args) == 1:
        a, b, s = 0, args[0], 1
    elif len(args) == 2:
        a, b, s = args[0] or 0, args[1], 1
    else:
        a, b, s = args[0] or 0, args[1], args[2] or 1
    return [x for x in iterable][a:b:s]


def itertools_compress(data, selectors):
    return [d for d, s in zip(data, selectors) if s]


def itertools_filterfalse(function, iterable):
    return [x for x in iterable if not function(x)]


def itertools_combinations(iterable, r):
    pool = list(iterable)
    if r == 1:
        return [(x,) for x in pool]
    if r == 2:
        return [(pool[i], pool[j]) for i in range(len(pool))
                for j in range(i + 1, len(pool))]
    return unmodelled()


def itertools_accumulate(iterable, *func):
    out = []
    for x in iterable:
        if len(out) == 0:
            out.append(x)
        elif func:
            out.append(func[0](out[-1], x))
        else:
            out.append(out[-1] + x)
    return out


def operator_itemgetter(*keys):
    def get(x):
        if len(keys) == 1:
            return x[keys[0]]
        return tuple([x[k] for k in keys])
    return get


def operator_attrgetter(*names):
    def get(x):
        if len(names) == 1:
            return getattr(x, names[0])
        return tuple([getattr(x, k) for k in names])
    return get


def operator_methodcaller(name, *args):
    def call(x):
        return getattr(x, name)(*args)
    return call


def operator_add(a, b):
    return a + b


def operator_sub(a, b):
    return a - b


def operator_mul(a, b):
    return a * b


def operator_truediv(a, b):
    return a / b


def operator_neg(a):
    return -a


def operator_eq(a, b):
    return a == b


def operator_ne(a, b):
    return a != b


def operator_lt(a, b):
    return a < b


def operator_le(a, b):
    return a <= b


def operator_gt(a, b):
    return a > b


def operator_ge(a, b):
    return a >= b


def operator_getitem(a, k):
    return a[k]


def operator_setitem(a, k, v):
    a[k] = v


def operator_contains(a, k):
    return k in a


def operator_matmul(a, b):
    return a @ b


def operator_not_(a):
    return not a


def operator_is_(a, b):
    return a is b


def operator_index(a):
    return int(a)


class collections_defaultdict(object):

    def __init__(self, factory=None, items=None):
        self.default_factory = factory
        self._d = {}
        if items is not None:
            self._d.update(items)

    def __getitem__(self, k):
        if k not in self._d:
            if self.default_factory is None:
                raise KeyError(k)
            self._d[k] = self.default_factory()
        return self._d[k]

    def __setitem__(self, k, v):
        self._d[k] = v

    def __delitem__(self, k):
        del self._d[k]

    def __contains__(self, k):
        return k in self._d

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(list(self._d))

    def keys(self):
        return self._d.keys()

    def values(self):
        return self._d.values()

    def items(self):
        return self._d.items()

    def get(self, k, default=None):
        return self._d.get(k, default)

    def setdefault(self, k, default=None):
        return self._d.setdefault(k, default)

    def update(self, other):
        self._d.update(other)

    def pop(self, *args):
        return self._d.pop(*args)


def collections_Counter(*args):
    r = collections_defaultdict(int)
    if len(args) == 1:
        for x in args[0]:
            r[x] += 1
    return r


def collections_deque(*args):
    if len(args) > 1:
        return unmodelled()
    return list(*args)


def contextlib_suppress(*errors):
    return unmodelled()


def bisect_bisect_left(a, x):
    return np.searchsorted(a, x, side='left')


def bisect_bisect_right(a, x):
    return np.searchsorted(a, x, side='right')


def bisect_bisect(a, x):
    return np.searchsorted(a, x, side='right')


def six_moves_reduce(*args):
    return functools_reduce(*args)


def six_moves_filterfalse(f, it):
    return itertools_filterfalse(f, it)


def six_itemsview(d):
    return d.items()


def six_viewitems(d):
    return d.items()


def six_viewkeys(d):
    return d.keys()


def six_viewvalues(d):
    return d.values()
'''
