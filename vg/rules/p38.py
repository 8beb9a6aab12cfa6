from .common import *
from . import p21
from .. import stubs

PLATFORM = '''
import vgname

NODE = 'secret-host'


class Uname(object):
    def __init__(self):
        self.system = vgname.SYSTEM[0]
        self.node = NODE
        self.release = 'r1'
        self.version = 'v2'
        self.machine = 'm3'
        self.processor = 'p4'

    def __iter__(self):
        return iter([self.system, self.node, self.release, self.version,
                     self.machine, self.processor])

    def __getitem__(self, i):
        return [self.system, self.node, self.release, self.version,
                self.machine, self.processor][i]

    def _asdict(self):
        return {'system': self.system, 'node': self.node,
                'release': self.release, 'version': self.version,
                'machine': self.machine, 'processor': self.processor}


def uname():
    return Uname()


def system():
    return vgname.SYSTEM[0]


def release():
    return 'r1'


def version():
    return 'v2'


def machine():
    return 'm3'


def processor():
    return 'p4'


def node():
    return NODE


def platform(aliased=0, terse=0):
    return 'Linux-r1'


def python_compiler():
    return 'c5'


def python_implementation():
    return 'i6'


def python_version():
    return '3.1.4'
'''

NAME = '''
SYSTEM = ['Linux']
OUTPUT = ['']
'''

SUBPROCESS = '''
import vgname
PIPE = -1
STDOUT = -2
DEVNULL = -3


class Bytes(object):

    def __init__(self, s):
        self.s = s

    def decode(self, encoding='utf-8', errors='strict'):
        return self.s


class Popen(object):

    def __init__(self, args, **kw):
        self.out = Bytes(vgname.OUTPUT[0])
        self.returncode = 0

    def communicate(self, input=None):
        return self.out, None

    def wait(self):
        return 0


def check_output(args, **kw):
    return Bytes(vgname.OUTPUT[0])
'''

SRC = '''
import vgname
from kamrecsys.utils import get_system_info, get_version_info


def info(system, out, how):
    vgname.SYSTEM[0] = system
    vgname.OUTPUT[0] = out
    if how == 'default':
        return get_system_info()
    if how == 'keyword':
        return get_system_info(output_node_info=True)
    return get_system_info(how)


def shown(x):
    """names and plain values"""
    return [(k, [y for y in x[k]] if isinstance(x[k], (list, tuple))
             else x[k]) for k in sorted(x)]


def record(system, out, how, lines):
    got = shown(info(system, out, how))
    need = {'system': system, 'release': 'r1', 'version': 'v2',
            'machine': 'm3', 'processor': 'p4', 'hardware': lines}
    if how is True or how == 'keyword':
        need['node'] = 'secret-host'
    return got, shown(need)


def fresh(system, out):
    """asking for the host once does not disclose it later"""
    info(system, out, 'keyword')
    a = info(system, out, 'default')
    return sorted(a), ['hardware', 'machine', 'processor', 'release',
                       'system', 'version']


def versions(np_, sp_, sk):
    return (shown(get_version_info()), shown({
        'numpy': np_, 'scipy': sp_, 'sklearn': sk, 'python': '3.1.4',
        'python_compiler': 'c5', 'python_implementation': 'i6'}))
'''
SRC38 = '''
import vgname
import kamrecsys


def task_record(E, SC, E2, SC2, scheme, kind, explicit, seed):
    vgname.SYSTEM[0] = 'Other'
    d = make(E, SC, None, None, 2, None, (1, 5, 1))
    d2 = make(E2, SC2, None, None, 2, None, (1, 5, 1))
    r, log, is_open = run({'TR': d, 'TE': d2}, 0.5, 2, seed, scheme, 2,
                          None, False)
    m = r['model']
    e = r['environment']
    got = [m['task_type'], m['explicit_ratings'], m['name'], m['module'],
           m['method'], m['options']['C'], m['options']['k'],
           m['options']['random_state'], e['script'], e['system'],
           e['version']]
    need = [kind, explicit, 'Rec', Rec.__module__, 'rec', 0.5, 2, seed,
            {'name': 'exp.py', 'version': X.__version__},
            {'system': 'Other', 'release': 'r1', 'version': 'v2',
             'machine': 'm3', 'processor': 'p4', 'hardware': []},
            {'numpy': 'np7', 'scipy': 'sp8', 'sklearn': 'sk9',
             'python': '3.1.4', 'python_compiler': 'c5',
             'python_implementation': 'i6', 'kamrecsys': kamrecsys.__version__}]
    return got, need
'''
W = 'kamrecsys/utils/kamexputils.py:'


def check(R):
    R.rule('the dictionaries of the two functions equal the required ones '
           'for models of the platform and process modules on four kinds '
           'of systems; the host name is a value only when asked for')
    extra = {'platform': PLATFORM, 'subprocess': SUBPROCESS, 'vgname': NAME}
    attr = {'numpy.__version__': 'np7', 'scipy.__version__': 'sp8',
            'sklearn.__version__': 'sk9'}
    MAC = ''.join('%sline %d\n' % (' ' * (k % 3 * 2), k) for k in range(9))
    CPU = 'processor\t: 0\nmodel name\t: x\n  flags: a b\n\nprocessor\t: 1\n'
    out = {'Linux': CPU, 'FreeBSD': CPU, 'Darwin': MAC, 'Windows': CPU,
           '': CPU}

    def lines(system):
        if system == 'Darwin':
            return [x.lstrip(' ') for x in MAC.split('\n')[4:-2]]
        return CPU.split('\n') if system in ('Linux', 'FreeBSD') else []

    def job(system, how):
        S = Sess(SRC, config={'attr': attr, 'texts': True}, extra=extra)
        ps = S.run('record', system, out[system], how,
                   S.list(lines(system)))
        R.decide_pair('system information on %r, host name by %r' % (
            system, how), S, ps, Inp(S).gen, W + 'get_system_info')

    def fresh(system):
        S = Sess(SRC, config={'attr': attr, 'texts': True}, extra=extra)
        ps = S.run('fresh', system, out[system])
        R.decide_pair('host name not kept from an earlier call on %r'
                      % system, S, ps, Inp(S).gen, W + 'get_system_info')

    def versions():
        S = Sess(SRC, config={'attr': attr, 'texts': True}, extra=extra)
        ps = S.run('versions', 'np7', 'sp8', 'sk9')
        R.decide_pair('version information', S, ps, Inp(S).gen,
                      W + 'get_version_info')
    def task_record(scheme, kind, explicit):
        a = dict(stubs.SCRIPT_ATTR)
        a.update(attr)
        x = dict(stubs.SCRIPT_EXTRA)
        x.update(extra)
        S = p21.sess(attr=a, extra=x, src=SRC38, fix=lambda t: t.replace(
            "task_type = 'score_predictor'", 'task_type = %r' % kind)
            .replace('explicit_ratings = True',
                     'explicit_ratings = %r' % explicit))
        I = Inp(S)
        n = I.int('n', 4, 8)
        k = I.int('m', 1, 4)
        us = lambda r, v, x: x[0] // 2 if x[1] == 0 else r.choice((3, 5))
        E = I.arr('E', (n, 2), 'i', us)
        E2 = I.arr('E2', (k, 2), 'i', us)
        f = lambda r, v, x: r.randint(1, 5) * 1.0
        SC = I.arr('SC', (n,), 'f', f)
        SC2 = I.arr('SC2', (k,), 'f', f)
        ps = S.run('task_record', E, SC, E2, SC2, scheme, kind, explicit,
                   I.int('seed', 0, 99))
        R.decide_pair('record of a %s task, %s, explicit_ratings=%s' % (
            scheme, kind, explicit), S, ps, I.gen,
            'scripts/exp_recsys_util.py:do_task', n=10)
    jobs = []
    for scheme in ('holdout', 'cv'):
        for kind, explicit in (('score_predictor', True),
                               ('item_finder', True),
                               ('item_finder', False)):
            jobs.append(lambda a=(scheme, kind, explicit): R.guard(
                'record %s' % (a,), lambda: task_record(*a)))
    for s in ('Linux', 'FreeBSD', 'Darwin', 'Windows', ''):
        for how in ('default', False, True, 'keyword'):
            jobs.append(lambda s=s, h=how: R.guard(
                'system %s %s' % (s, h), lambda: job(s, h)))
        jobs.append(lambda s=s: R.guard('fresh ' + s, lambda: fresh(s)))
    jobs.append(lambda: R.guard('versions', versions))
    R.fan(jobs)
