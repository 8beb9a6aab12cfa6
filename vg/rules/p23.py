from .mf import *
from ..values import Opq

SRC23 = '''
import numpy as np
import scipy.sparse as sps
from kamrecsys.utils import json_decodable


def kind(x):
    """a value with the kinds of everything in it"""
    if isinstance(x, np.ndarray):
        return ('array', x)
    if sps.issparse(x):
        return ('sparse', x)
    if isinstance(x, dict):
        return ('dict', [(k, kind(x[k])) for k in x])
    if isinstance(x, list):
        return ('list', [kind(y) for y in x])
    if isinstance(x, bool):
        return ('bool', x)
    if isinstance(x, float):
        return ('float', float(x))
    if isinstance(x, int):
        return ('int', x)
    if isinstance(x, str):
        return ('str', x)
    if isinstance(x, np.generic):
        return ('numpy', x)
    return ('other', x)


def plain(x):
    """the serializable form"""
    if isinstance(x, dict):
        r = {}
        for k in x:
            r[k] = plain(x[k])
        return r
    if isinstance(x, list):
        return [plain(y) for y in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if sps.issparse(x):
        return plain(x.toarray().tolist())
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, (bool, int, float)):
        return x
    return str(x)


class Thing(object):

    def __init__(self, a):
        self.a = a

    def __str__(self):
        return 'thing'


def matrix(a, fmt):
    return {'csr': sps.csr_matrix, 'csc': sps.csc_matrix,
            'lil': sps.lil_matrix, 'coo': sps.coo_matrix}[fmt](a)


def case(where, leaf, other):
    def top():
        if where == 'dict':
            return {'a': 1, 'x': leaf, 'b': other}
        if where == 'list':
            return [1, leaf, other]
        if where == 'dict in dict':
            return {'o': {'x': leaf, 'b': [other]}, 'z': 2}
        if where == 'list in dict':
            return {'o': ['u', leaf, {}], 'e': [], 'b': other}
        if where == 'dict in list':
            return [{'x': leaf}, [], {'b': other}]
        if where == 'list in list':
            return [[[leaf]], [other, 'w']]
        return {'l1': [{'l2': {'l3': [0, [leaf, {'l4': leaf}]]}}],
                'b': [[{'c': other}]]}
    x, y = top(), top()
    z = plain(y)
    r = json_decodable(x)
    return kind(x), kind(z)


def objects(y):
    return np.array([y, None, 'w', Thing(1)], dtype=object)


def thing(a):
    return Thing(a)


def shared(leaf):
    """one container at two places"""
    def top():
        c = {'x': leaf}
        return {'a': c, 'b': [c, c]}
    x = top()
    json_decodable(x)
    return kind(x), kind(plain(top()))
'''

WHERE23 = 'kamrecsys/utils/kamexputils.py:json_decodable'
G = ('numpy.generic', 'numpy.number', 'builtins.object')
INT = G + ('numpy.integer',)
FLT = G + ('numpy.floating', 'numpy.inexact')


def check(R):
    R.rule('the container after json_decodable equals the reference form: '
           'same keys and positions, leaves converted by type, every leaf '
           'of a serializable type; every leaf type at every position of '
           'nested dicts and lists')

    def one(where, nm):
        S = Sess(SRC23, config={'python_scalars': True})
        I = Inp(S)
        a = I.arr('a', (2, 3), 'i' if nm == 'int matrix' else 'f')
        v = I.arr('v', (3,), 'i' if nm == 'int vector' else 'f')
        n = I.int('n', -9, 9, False)
        x = I.realf('x', lambda r, v: float('inf') if r.random() < 0.2
                    else r.uniform(-9, 9))
        s = I.str('s', lambda r, v: r.choice(('', 'a', 'b c')))
        b = I.bool('b')
        D = Opq
        leaf = {
            'int': n, 'float': x, 'bool': b, 'str': s, 'zero': 0,
            'empty': '', 'true': True, 'half': 0.5,
            'None': None, 'tuple': (1, 2), 'int vector': v,
            'float vector': v, 'int matrix': a, 'float matrix': a,
            'int64': D('numpy.int64', n, INT + ('numpy.signedinteger',
                                                'numpy.int_')),
            'int32': D('numpy.int32', n, INT + ('numpy.signedinteger',)),
            'uint8': D('numpy.uint8', n, INT + ('numpy.unsignedinteger',)),
            'float64': D('numpy.float64', x, FLT + (
                'builtins.float', 'numpy.float_', 'numbers.Real')),
            'float32': D('numpy.float32', x, FLT),
            'float16': D('numpy.float16', x, FLT),
        }
        if nm in leaf:
            y = leaf[nm]
        elif nm == 'object':
            y = S.do('thing', n)
        elif nm == 'object array':
            y = S.do('objects', leaf['int64'])
        else:
            y = S.do('matrix', a, nm)
        if nm == 'shared':
            pass
        other = leaf['int32' if nm != 'int32' else 'float32']
        name = 'json_decodable: %s at %s' % (nm, where)
        if where == 'two places':
            f, args = 'shared', (y,)
        else:
            f, args = 'case', (where, y, other)
        R.guard(name, lambda: R.decide_pair(name, S, S.run(f, *args),
                                            I.gen, WHERE23))
    jobs = []
    for nm in ('int', 'float', 'bool', 'str', 'zero', 'empty', 'true',
               'half', 'None', 'tuple', 'int vector', 'float vector',
               'int matrix', 'float matrix', 'int64', 'int32', 'uint8',
               'float64', 'float32', 'float16', 'object', 'object array', 'csr', 'csc',
               'lil', 'coo'):
        for where in ('dict', 'list', 'dict in dict', 'list in dict',
                      'dict in list', 'list in list', 'deep', 'two places'):
            jobs.append(lambda a=(where, nm): R.guard(str(a),
                                                      lambda: one(*a)))
    R.fan(jobs)
