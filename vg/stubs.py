"""Interpreted models of library modules used by the scripts: the same engine
analyses them together with the code that calls them."""

JSON = '''
import numpy as np

_TEXTS = []
# objects given to dumps, when they are to be looked at as they are
CAPTURE = [None]


def _copy(x, depth=0):
    if depth > 30:
        raise ValueError('Circular reference detected')
    if isinstance(x, dict):
        r = {}
        for k in x:
            if isinstance(k, str):
                r[k] = _copy(x[k], depth + 1)
            elif isinstance(k, (bool, int, float)) or k is None:
                r[str(k)] = _copy(x[k], depth + 1)
            else:
                raise TypeError('keys must be str, int, float, bool or None')
        return r
    if isinstance(x, (list, tuple)):
        return [_copy(y, depth + 1) for y in x]
    if x is None or isinstance(x, (str, int, float)):
        return x
    raise TypeError('Object is not JSON serializable')


def dumps(obj, skipkeys=False, ensure_ascii=True, check_circular=True,
          allow_nan=True, cls=None, indent=None, separators=None,
          default=None, sort_keys=False):
    if CAPTURE[0] is not None:
        CAPTURE[0].append(obj)
        return ''
    _TEXTS.append(_copy(obj))
    return '$json%d$' % (len(_TEXTS) - 1)


def loads(s):
    s = s.strip()
    if not (s.startswith('$json') and s.endswith('$')):
        raise ValueError('Expecting value')
    return _copy(_TEXTS[int(s[5:-1])])


def dump(obj, fp, skipkeys=False, ensure_ascii=True, check_circular=True,
         allow_nan=True, cls=None, indent=None, separators=None,
         default=None, sort_keys=False):
    fp.write(dumps(obj))


def load(fp):
    return loads(fp.read())
'''

# files of the analysed program; contents are texts with symbolic parts
VFS = '''
import os
import vgre

FILES = {}
ENC = {}


def norm(e):
    if e is None:
        return 'utf8'
    return e.lower().replace('-', '').replace('_', '')


class File(object):

    def __init__(self, name, mode, encoding):
        self.name = name
        self.mode = mode
        self.enc = norm(encoding)
        self.key = os.path.normpath(name)
        self.closed = False
        self.pos = 0
        if 'w' in mode:
            FILES[self.key] = ['']
            ENC[self.key] = self.enc
        elif self.key not in FILES:
            raise IOError('No such file: ' + name)

    def write(self, s):
        if self.closed or 'r' in self.mode:
            raise ValueError('I/O operation on closed file')
        FILES[self.key][0] = FILES[self.key][0] + s

    def read(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if self.pos:
            return ''
        self.pos = 1
        e = ENC.get(self.key, self.enc)
        if e != self.enc:
            return vgre.recode(FILES[self.key][0], e, self.enc)
        return FILES[self.key][0]

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()

    def flush(self):
        pass

    def close(self):
        self.closed = True


def open_(name, mode='r', buffering=-1, encoding=None, errors=None,
          newline=None):
    return File(name, mode, encoding)


def print_(args, sep=' ', end='\\n', file=None, flush=False):
    file.write(sep.join([str(a) for a in args]) + end)


def text(name):
    return FILES[os.path.normpath(name)][0]
'''

ARGPARSE = '''
import sys

SUPPRESS = '==SUPPRESS=='
# what the text of an option stands for
VALUES = {}


class Namespace(object):
    pass


class RawDescriptionHelpFormatter(object):
    pass


class HelpFormatter(object):
    pass


class ArgumentDefaultsHelpFormatter(object):
    pass


class RawTextHelpFormatter(object):
    pass


class Opened(object):
    """a file opened for an option"""

    def __init__(self, name, mode):
        self.name = name
        self.mode = mode
        self.closed = False
        self.pos = 0
        if 'w' in mode:
            CONTENTS[name] = ''
        elif name in MISSING:
            raise SystemExit(2)

    def check(self, c):
        if self.closed or c not in self.mode:
            raise ValueError('I/O operation on closed file')

    def read(self):
        self.check('r')
        if self.pos:
            return ''
        self.pos = 1
        return CONTENTS[self.name]

    def write(self, s):
        self.check('w')
        CONTENTS[self.name] = CONTENTS[self.name] + s

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()

    def close(self):
        self.closed = True


CONTENTS = {}
MISSING = []
STDIN = Opened('<stdin>', 'r')
STDOUT = Opened('<stdout>', 'w')


class FileType(object):

    def __init__(self, mode='r', bufsize=-1, encoding=None, errors=None):
        self.mode = mode

    def __call__(self, s):
        if s == '-':
            if 'r' in self.mode:
                return sys.stdin
            return sys.stdout
        return Opened(s, self.mode)


class Action(object):

    def __init__(self, flags, dest, kw):
        self.flags = flags
        self.dest = dest
        self.kw = kw
        self.group = None

    def get(self, k, d=None):
        if k in self.kw:
            return self.kw[k]
        return d


class Group(object):

    def __init__(self, top, exclusive):
        self.top = top
        self.exclusive = exclusive

    def add_argument(self, *flags, **kw):
        a = self.top.add_argument(*flags, **kw)
        if self.exclusive:
            a.group = self
        return a

    def set_defaults(self, **kw):
        self.top.set_defaults(**kw)

    def add_mutually_exclusive_group(self, required=False):
        return Group(self.top, True)


class ArgumentParser(object):

    def __init__(self, prog=None, usage=None, description=None, epilog=None,
                 parents=(), formatter_class=None, prefix_chars='-',
                 fromfile_prefix_chars=None, argument_default=None,
                 conflict_handler='error', add_help=True,
                 allow_abbrev=True):
        self.actions = []
        self.defaults = {}
        if add_help:
            self.add_argument('-h', '--help', action='help')

    def set_defaults(self, **kw):
        for k in kw:
            self.defaults[k] = kw[k]
            for a in self.actions:
                if a.dest == k:
                    a.kw['default'] = kw[k]

    def add_mutually_exclusive_group(self, required=False):
        return Group(self, True)

    def add_argument_group(self, *args, **kw):
        return Group(self, False)

    def add_argument(self, *flags, **kw):
        for k in kw:
            if k not in ('action', 'nargs', 'const', 'default', 'type',
                         'choices', 'required', 'help', 'metavar', 'dest',
                         'version'):
                raise TypeError('unexpected keyword argument ' + k)
        opts = [f for f in flags if f.startswith('-')]
        if opts:
            for a in self.actions:
                for f in opts:
                    if f in a.flags:
                        raise ValueError('conflicting option string')
            dest = kw.get('dest')
            if dest is None:
                longs = [f for f in opts if f.startswith('--')]
                dest = (longs[0] if longs else opts[0]).lstrip('-').replace(
                    '-', '_')
        else:
            dest = flags[0] if flags else kw['dest']
        a = Action(opts, dest, kw)
        if dest in self.defaults:
            a.kw['default'] = self.defaults[dest]
        self.actions.append(a)
        return a

    def error(self, message):
        raise SystemExit(2)

    def one(self, a, s):
        t = a.get('type')
        v = s
        if t is not None:
            try:
                if s in VALUES:
                    v = VALUES[s]
                    if isinstance(v, float) and t is int:
                        self.error('invalid value')
                    v = t(v)
                else:
                    v = t(s)
            except (TypeError, ValueError):
                self.error('invalid value')
        c = a.get('choices')
        if c is not None and v not in c:
            self.error('invalid choice')
        if t is None and s in VALUES:
            v = str(VALUES[s])
        return v

    def is_flag(self, s):
        if s in VALUES or not s.startswith('-') or s == '-':
            return False
        try:
            float(s)
            return False
        except ValueError:
            return True

    def find(self, s):
        for a in self.actions:
            if s in a.flags:
                return a
        m = []
        if s.startswith('--'):
            for a in self.actions:
                for f in a.flags:
                    if f.startswith(s) and a not in m:
                        m.append(a)
        if len(m) != 1:
            self.error('unrecognized arguments')
        return m[0]

    def parse_args(self, args=None, namespace=None):
        if args is None:
            args = sys.argv[1:]
        args = list(args)
        o = Namespace() if namespace is None else namespace
        for a in self.actions:
            if a.get('action') in ('help', 'version'):
                continue
            d = a.get('default')
            if 'default' not in a.kw:
                if a.get('action') == 'store_true':
                    d = False
                elif a.get('action') == 'store_false':
                    d = True
            if not hasattr(o, a.dest):
                if isinstance(d, str) and a.get('type') is not None:
                    d = a.get('type')(d)
                setattr(o, a.dest, d)
        for k in self.defaults:
            if not hasattr(o, k):
                setattr(o, k, self.defaults[k])
        used = []
        rest = []
        i = 0
        while i < len(args):
            s = args[i]
            i += 1
            if not self.is_flag(s):
                rest.append(s)
                continue
            val = None
            if s.startswith('--') and '=' in s:
                k = s.index('=')
                val = s[k + 1:]
                s = s[:k]
            elif not s.startswith('--') and len(s) > 2:
                val = s[2:]
                s = s[:2]
            a = self.find(s)
            if a.group is not None:
                for b in used:
                    if b.group is a.group and b is not a:
                        self.error('not allowed with argument')
            used.append(a)
            act = a.get('action', 'store')
            if act in ('help', 'version'):
                raise SystemExit(0)
            if act == 'store_true':
                setattr(o, a.dest, True)
            elif act == 'store_false':
                setattr(o, a.dest, False)
            elif act == 'store_const':
                setattr(o, a.dest, a.get('const'))
            elif act == 'append':
                old = getattr(o, a.dest)
                if val is None:
                    val = args[i]
                    i += 1
                setattr(o, a.dest, ([] if old is None else list(old)) + [
                    self.one(a, val)])
            else:
                n = a.get('nargs')
                if n is None or isinstance(n, int):
                    m = 1 if n is None else n
                    vals = [] if val is None else [val]
                    while len(vals) < m:
                        if i >= len(args) or self.is_flag(args[i]):
                            self.error('expected argument')
                        vals.append(args[i])
                        i += 1
                    vals = [self.one(a, x) for x in vals]
                    setattr(o, a.dest, vals[0] if n is None else vals)
                elif n == '?':
                    if val is None and i < len(args) and not self.is_flag(
                            args[i]):
                        val = args[i]
                        i += 1
                    setattr(o, a.dest, a.get('const') if val is None else
                            self.one(a, val))
                else:
                    vals = [] if val is None else [val]
                    while i < len(args) and not self.is_flag(args[i]):
                        vals.append(args[i])
                        i += 1
                    if n == '+' and not vals:
                        self.error('expected at least one argument')
                    setattr(o, a.dest, [self.one(a, x) for x in vals])
        for a in self.actions:
            if a.flags:
                if a.get('required') and a not in used:
                    self.error('required')
                continue
            n = a.get('nargs')
            if n is None:
                if not rest:
                    self.error('required')
                setattr(o, a.dest, self.one(a, rest[0]))
                rest = rest[1:]
            elif n == '?':
                if rest:
                    setattr(o, a.dest, self.one(a, rest[0]))
                    rest = rest[1:]
            elif n in ('+', '*'):
                if n == '+' and not rest:
                    self.error('required')
                if rest:
                    setattr(o, a.dest, [self.one(a, x) for x in rest])
                rest = []
            else:
                if len(rest) < n:
                    self.error('required')
                setattr(o, a.dest, [self.one(a, x) for x in rest[:n]])
                rest = rest[n:]
        if rest:
            self.error('unrecognized arguments')
        return o
'''

DATETIME = '''


class timedelta(object):

    def total_seconds(self):
        return 0.0

    def __str__(self):
        return '0:00:00'


class datetime(object):

    @staticmethod
    def now(tz=None):
        return datetime()

    @staticmethod
    def utcnow():
        return datetime()

    def isoformat(self):
        return '2000-01-01T00:00:00'

    def __sub__(self, o):
        return timedelta()

    def __str__(self):
        return '2000-01-01 00:00:00'
'''

RE = '''
import vgre


class Match(object):

    def __init__(self, g):
        self.g = g

    def group(self, k=0):
        return self.g[k]

    def groups(self):
        return tuple(self.g[1:])


class Pattern(object):

    def __init__(self, p):
        self.pattern = p

    def search(self, s):
        return search(self.pattern, s)

    def match(self, s):
        return match(self.pattern, s)

    def sub(self, r, s):
        return vgre.sub(self.pattern, r, s)


def search(p, s, flags=0):
    g = vgre.search(p, s)
    return None if g is None else Match(g)


def match(p, s, flags=0):
    g = vgre.match(p, s)
    return None if g is None else Match(g)


def sub(p, r, s, count=0, flags=0):
    return vgre.sub(p, r, s)


def compile(p, flags=0):
    return Pattern(p)
'''

PLATFORM = '''


def system():
    return 'Linux'


def release():
    return 'r'


def version():
    return 'v'


def machine():
    return 'm'


def processor():
    return 'p'


def node():
    return 'n'


def platform(aliased=0, terse=0):
    return 'pl'


def python_compiler():
    return 'c'


def python_implementation():
    return 'CPython'


def python_version():
    return '3'
'''

SUBPROCESS = '''

PIPE = -1
STDOUT = -2
DEVNULL = -3


class Bytes(object):

    def decode(self, encoding='utf-8', errors='strict'):
        return 'a: 1\\nb: 2\\n'


class Popen(object):

    def __init__(self, args, **kw):
        pass

    def communicate(self, input=None):
        return Bytes(), None


def check_output(args, **kw):
    return Bytes()
'''

# what is configured, and which messages are sent where
LOGGING = '''
CRITICAL = 50
FATAL = 50
ERROR = 40
WARNING = 30
WARN = 30
INFO = 20
DEBUG = 10
NOTSET = 0
CHANGES = []
MESSAGES = []
LOGGERS = {}
raiseExceptions = True


class Formatter(object):

    def __init__(self, fmt=None, datefmt=None, style='%'):
        self.fmt = fmt


class Handler(object):

    def __init__(self, level=0):
        self.level = level

    def setLevel(self, level):
        self.level = level

    def setFormatter(self, f):
        pass

    def addFilter(self, f):
        pass


class NullHandler(Handler):
    pass


class StreamHandler(Handler):

    def __init__(self, stream=None):
        self.level = 0


class FileHandler(Handler):

    def __init__(self, filename, mode='a', encoding=None, delay=False):
        self.level = 0


class Logger(object):

    def __init__(self, name, level=0):
        self.name = name
        self.level = level
        self.handlers = []
        self.filters = []
        self.propagate = True
        self.disabled = False
        self.parent = None

    def note(self, what):
        CHANGES.append((self.name, what))

    def addHandler(self, h):
        if type(h) is NullHandler:
            self.note('null handler')
        else:
            self.note('handler')
        self.handlers.append(h)

    def removeHandler(self, h):
        self.note('handler removed')
        if h in self.handlers:
            self.handlers.remove(h)

    def hasHandlers(self):
        return len(self.handlers) > 0

    def setLevel(self, level):
        self.note('level')
        self.level = level

    def addFilter(self, f):
        self.note('filter')

    def getEffectiveLevel(self):
        return self.level if self.level else WARNING

    def isEnabledFor(self, level):
        return True

    def getChild(self, suffix):
        return getLogger(self.name + '.' + suffix)

    def log(self, level, msg, *args, **kw):
        if args:
            msg = msg % args
        MESSAGES.append((self.name, level))

    def debug(self, msg, *args, **kw):
        self.log(DEBUG, msg, *args)

    def info(self, msg, *args, **kw):
        self.log(INFO, msg, *args)

    def warning(self, msg, *args, **kw):
        self.log(WARNING, msg, *args)

    def warn(self, msg, *args, **kw):
        self.log(WARNING, msg, *args)

    def error(self, msg, *args, **kw):
        self.log(ERROR, msg, *args)

    def exception(self, msg, *args, **kw):
        self.log(ERROR, msg, *args)

    def critical(self, msg, *args, **kw):
        self.log(CRITICAL, msg, *args)


class LoggerAdapter(object):

    def __init__(self, logger, extra=None):
        self.logger = logger

    def info(self, msg, *args, **kw):
        self.logger.info(msg, *args)

    def debug(self, msg, *args, **kw):
        self.logger.debug(msg, *args)

    def warning(self, msg, *args, **kw):
        self.logger.warning(msg, *args)

    def error(self, msg, *args, **kw):
        self.logger.error(msg, *args)


root = Logger('root', WARNING)


def getLogger(name=None):
    if name is None or name == '' or name == 'root':
        return root
    if name not in LOGGERS:
        LOGGERS[name] = Logger(name)
    return LOGGERS[name]


def basicConfig(**kw):
    CHANGES.append(('root', 'basicConfig'))


def disable(level=CRITICAL):
    CHANGES.append(('root', 'disable'))


def captureWarnings(capture):
    CHANGES.append(('root', 'captureWarnings'))


def setLoggerClass(c):
    CHANGES.append(('root', 'setLoggerClass'))


def addLevelName(level, name):
    CHANGES.append(('root', 'addLevelName'))


def getLevelName(level):
    return str(level)


def log(level, msg, *args, **kw):
    # configures the root logger when it has no handler
    CHANGES.append(('root', 'basicConfig'))
    root.log(level, msg, *args)


def debug(msg, *args, **kw):
    log(DEBUG, msg, *args)


def info(msg, *args, **kw):
    log(INFO, msg, *args)


def warning(msg, *args, **kw):
    log(WARNING, msg, *args)


def warn(msg, *args, **kw):
    log(WARNING, msg, *args)


def error(msg, *args, **kw):
    log(ERROR, msg, *args)


def exception(msg, *args, **kw):
    log(ERROR, msg, *args)


def critical(msg, *args, **kw):
    log(CRITICAL, msg, *args)
'''

WARNINGS = '''
CHANGES = []
SENT = []
DEPTH = [0]


def warn(message, category=None, stacklevel=1, source=None):
    SENT.append(category)


def warn_explicit(message, category, filename, lineno):
    SENT.append(category)


def filterwarnings(action, message='', category=None, module='', lineno=0,
                   append=False):
    if DEPTH[0] == 0:
        CHANGES.append(action)


def simplefilter(action, category=None, lineno=0, append=False):
    if DEPTH[0] == 0:
        CHANGES.append(action)


def resetwarnings():
    if DEPTH[0] == 0:
        CHANGES.append('reset')


class catch_warnings(object):

    def __init__(self, record=False, module=None, action=None,
                 category=None):
        pass

    def __enter__(self):
        DEPTH[0] += 1
        return []

    def __exit__(self, a, b, c):
        DEPTH[0] -= 1
'''

SCRIPT_EXTRA = {'json': JSON, 'argparse': ARGPARSE, 'datetime': DATETIME,
                'vfs': VFS, 'platform': PLATFORM, 'subprocess': SUBPROCESS}
SCRIPT_ATTR = {'numpy.__version__': '1', 'scipy.__version__': '1',
               'sklearn.__version__': '1',
               'sys.argv': lambda I: I.newlist(['/opt/exp.py']),
               'sys.stdin': lambda I: I.world.module('argparse').ns['STDIN'],
               'sys.stdout': lambda I: I.world.module(
                   'argparse').ns['STDOUT']}
