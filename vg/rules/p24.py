from .common import *
from .. import stubs
from ..values import mkav

HEAD24 = '''
import numpy as np
import os
import vfs
import vgin

for k in vgin.files:
    vfs.FILES[k] = [vgin.files[k]]
for k in vgin.encodings:
    vfs.ENC[k] = vgin.encodings[k]

%(imports)s
from kamrecsys.datasets import *
import kamrecsys.datasets as DS


def domain(d):
    return [d.score_domain[0], d.score_domain[1], d.score_domain[2]]


def events(d):
    return [d.n_otypes, [d.event_otypes[0], d.event_otypes[1]],
            d.to_eid_event(d.event), d.score, domain(d)]


def feats(d, o):
    f = d.feature[o]
    return [list(f.dtype.names), np.asarray(d.eid[o]),
            [f[k] for k in f.dtype.names]]


def give(x):
    return x


def norm(s):
    return ''.join([c for c in s.lower() if c.isalnum()])


def labels(info, key):
    return [norm(str(x)) for x in info[key]]
'''

LOADERS = {
    'movielens100k': 'load_movielens100k', 'movielens1m':
    'load_movielens1m', 'sushi3': 'load_sushi3b_score', 'flixster':
    'load_flixster_rating', 'movielens_mini': 'load_movielens_mini'}

OCC100K = ('none other administrator artist doctor educator engineer '
           'entertainment executive healthcare homemaker lawyer librarian '
           'marketing programmer retired salesman scientist student '
           'technician writer').split()
GENRE = ["Action", "Adventure", "Animation", "Children's", "Comedy", "Crime",
         "Documentary", "Drama", "Fantasy", "Film-Noir", "Horror", "Musical",
         "Mystery", "Romance", "Sci-Fi", "Thriller", "War", "Western"]
OCC1M = [
    'Other or Not Specified', 'Academic/Educator', 'Artist',
    'Clerical/Admin', 'College/Grad Student', 'Customer Service',
    'Doctor/Health Care', 'Executive/Managerial', 'Farmer', 'Homemaker',
    'K-12 Student', 'Lawyer', 'Programmer', 'Retired', 'Sales/Marketing',
    'Scientist', 'Self-Employed', 'Technician/Engineer',
    'Tradesman/Craftsman', 'Unemployed', 'Writer']
AGE1M = [('1', 'Under 18'), ('18', '18-24'), ('25', '25-34'),
         ('35', '35-44'), ('45', '45-49'), ('50', '50-55'), ('56', '56+')]
PREF = ('Hokkaido Aomori Iwate Akita Miyagi Yamagata Fukushima Niigata '
        'Ibaraki Tochigi Gunma Saitama Chiba Tokyo Kanagawa Yamanashi '
        'Shizuoka Nagano Aichi Gifu Toyama Ishikawa Fukui Shiga Mie Kyoto '
        'Osaka Nara Wakayama Hyogo Okayama Hiroshima Tottori Shimane '
        'Yamaguchi Ehime Kagawa Tokushima Kochi Fukuoka Nagasaki Saga '
        'Kumamoto Kagoshima Miyazaki Oita Okinawa non-Japan').split()
REGION = ('Hokkaido Tohoku Hokuriku Kanto+Shizuoka Nagano+Yamanashi Chukyo '
          'Kinki Chugoku Shikoku Kyushu Okinawa non-Japan').split()
AGES3 = '15-19 20-29 30-39 40-49 50-59 60-'.split()
NETA = [
    'aomono (blue-skinned fish)', 'akami (red meat fish)',
    'shiromi (white-meat fish)',
    'tare (something like baste; for eel or sea eel)', 'clam or shell',
    'squid or octopus', 'shrimp or crab', 'roe', 'other seafood', 'egg',
    'non-fish meat', 'vegetable']
MONTH = ('Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec').split()


def norm(s):
    return ''.join(c for c in s.lower() if c.isalnum())


class Files(object):
    """source files of a converter, with symbolic fields"""

    def __init__(self):
        self.files, self.enc, self.gens, self.k = {}, {}, [], 0

    def sym(self, sort, f):
        self.k += 1
        n = 'w%d' % self.k
        self.gens.append((n, f))
        return X.sym(n, sort)

    def num(self, lo, hi):
        """an integer and its text"""
        t = self.sym('i', lambda r: r.choice((lo, hi, r.randint(lo, hi))))
        return t, X.app('str', t, sort='s')

    def real(self):
        t = self.sym('f', lambda r: r.randint(0, 99) / 32.0)
        return t, X.app('str', t, sort='s')

    def text(self, lo, hi, alpha):
        return self.sym('s', lambda r: 'A' + ''.join(
            r.choice(alpha) for _ in range(r.choice((lo, hi, hi)) - 1)))

    def put(self, name, rows, sep, enc=None):
        ps = []
        for row in rows:
            for j, x in enumerate(row):
                if j:
                    ps.append(sep)
                ps.append(x)
            ps.append('\n')
        out = []
        for p in ps:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        self.files[name] = out[0] if len(out) == 1 else X.app(
            'strcat', *[tt(p) for p in out], sort='s')
        if enc:
            self.enc[name] = enc

    def gen(self, rng, k):
        return Model({n: f(rng) for n, f in self.gens})


TITLE = "bcd ,.()'0189\xe9\xe8\xc6"
ASC = 'abcXYZ-019'


def ml100k(F):
    users = [7, 3, 12, 1, 5, 10, 11] + list(range(20, 34))
    items = [4, 9, 2, 11, 10, 30] + list(range(40, 48))
    ev = [(u, items[(3 * j) % 6]) for j, u in enumerate(users)] + [
        (3, i) for i in items[:6]] + [(10, 10), (10, 11), (11, 10), (1, 4)]
    E, S, TS, rows = [], [], [], []
    for u, i in ev:
        s, st = F.num(1, 5)
        t, ts = F.num(8 * 10 ** 8, 9 * 10 ** 8)
        rows.append((str(u), str(i), st, ts))
        E.append((u, i))
        S.append(s)
        TS.append(t)
    F.put('data/u.data', rows, '\t')
    U, rows = {}, []
    for j, u in enumerate(users):
        a, at = F.num(7, 73)
        z = F.text(5, 5, ASC)
        if j % 4 == 1:
            z = ('02138', 'V0R2M', '00000', 'T8H1N')[j // 4 % 4]
        rows.append((str(u), at, 'MF'[j % 2], OCC100K[j], z))
        U[u] = [a, j % 2, j, z]
    F.put('data/u.user', rows, '|')
    V, rows = {}, []
    for j, i in enumerate(items):
        n = F.text(7, 81, TITLE)
        link = F.text(1, 134, ASC + ':/?%()')
        d, dt = F.num(1, 31)
        y, yt = F.num(1922, 1998)
        g = [(j * 7 + q * q) % 3 == 0 for q in range(18)]
        if j < 18:
            g[j] = True
        m = j % 12
        date = X.app('strcat', dt, tt('-%s-' % MONTH[m]), yt, sort='s')
        dmy = [d, m + 1, y]
        if j == 3:
            date, dmy = '', [0, 0, 0]
        rows.append((str(i), n, date, '', link, str(int(not any(g)))) +
                    tuple(str(int(q)) for q in g))
        V[i] = [n] + dmy + [[int(q) for q in g], link]
    F.put('data/u.item', rows, '|', 'cp1252')
    return dict(
        E=E, S=S, domain=[1.0, 5.0, 1.0], event=('timestamp', TS),
        users=U, items=V,
        unames=['age', 'gender', 'occupation', 'zip'],
        inames=['name', 'day', 'month', 'year', 'genre', 'imdb'],
        info='MOVIELENS100K_INFO', labels=[
            ('user_occupation', OCC100K), ('item_genre', GENRE)])


def mini(F):
    w = ml100k(F)
    keep = [k for k, (u, i) in enumerate(w['E']) if u <= 10 and i <= 10]
    w['E'] = [w['E'][k] for k in keep]
    w['S'] = [w['S'][k] for k in keep]
    w['event'] = (w['event'][0], [w['event'][1][k] for k in keep])
    return w


def ml1m(F):
    users = [5, 1, 3, 9] + list(range(30, 47))
    items = [7, 2, 3845, 4, 1] + list(range(100, 113))
    ev = [(u, items[(3 * j) % len(items)]) for j, u in enumerate(users)] + [
        (3, i) for i in items if i != 4] + [(5, 2)]
    E, S, TS, rows = [], [], [], []
    for u, i in ev:
        s, st = F.num(1, 5)
        t, ts = F.num(9 * 10 ** 8, 10 ** 9)
        rows.append((str(u), str(i), st, ts))
        E.append((u, i))
        S.append(s)
        TS.append(t)
    F.put('data/ratings.dat', rows, '::')
    U, rows = {}, []
    for j, u in enumerate(users):
        z = F.text(5, 10, ASC)
        if j % 4 == 1:
            z = ('02139', '98107-2117', '00601-12', '55455')[j // 4 % 4]
        rows.append((str(u), 'MF'[j % 2], AGE1M[j % 7][0], str(j), z))
        U[u] = [j % 2, j % 7, j, X.app('cut', z, tt(5), sort='s')]
    F.put('data/users.dat', rows, '::')
    V, rows = {}, []
    for j, i in enumerate(items):
        y = 1919 + 5 * j
        n = 'Caf\xe9 (a.k.a. %s) 2001 (%d)' % ('t' * (j + 1), y)
        if j == 0:
            n = 'x' * 75 + ' (%d)' % y
        m = n
        if i == 3845:
            n = 'And God Created Woman (Et Dieu&#8230;Cr\xe9a la Femme) (%d)' \
                % y
            m = n.replace('&#8230;', '\u2026')
        g = sorted(set([j % 18, (j * 5 + 1) % 18, 17 - j % 9]))
        if j == 4:
            g = [4]
        rows.append((str(i), n, '|'.join(GENRE[q] for q in g)))
        V[i] = [m, y, [int(q in g) for q in range(18)]]
    F.put('data/movies.dat', rows, '::', 'cp1252')
    return dict(
        E=E, S=S, domain=[1.0, 5.0, 1.0], event=('timestamp', TS),
        users=U, items=V,
        unames=['gender', 'age', 'occupation', 'zip'],
        inames=['name', 'year', 'genre'], info='MOVIELENS1M_INFO',
        labels=[('user_occupation', OCC1M), ('item_genre', GENRE),
                ('user_age', [b for a, b in AGE1M])])


def sushi(F):
    nu, ni = 48, 12
    E, S, rows = [], [], []
    for u in range(nu):
        row = []
        for i in range(ni):
            s = (u * 5 + i * 7) % 9 - 4
            if i % 5 == u % 5:
                s = u % 5
            s = max(s, -1)
            if u == 7:
                s = min(s, 0)
            if u == 30:
                s = -1
            row.append(str(s))
            if s >= 0:
                E.append((u, i))
                S.append(s)
        rows.append(row)
    F.put('data/sushi3b.5000.10.score', rows, ' ')
    U, rows = {}, []
    for u in range(nu):
        uid, ut = F.num(0, 9999)
        t, tm = F.num(1, 9999)
        c = [u % 2, u % 6]
        d = [u, u % 12, (u + 1) % 2, (u * 5) % 48, (u + 3) % 12, u % 2,
             (u + 1) % 2]
        rows.append([ut] + [str(q) for q in c] + [tm] + [str(q) for q in d])
        U[u] = [uid] + c + [t] + d
    F.put('data/sushi3.udata', rows, '\t')
    V, rows = {}, []
    for i in range(ni):
        n = F.text(2, 20, 'x\u3059\u3057')
        fs = [F.real() for _ in range(4)]
        c = [i % 2, (i + 1) % 2, i]
        rows.append([str(i), n] + [str(q) for q in c] + [q[1] for q in fs])
        V[i] = [n] + c + [q[0] for q in fs]
    F.put('data/sushi3.idata', rows, '\t', 'utf8')
    return dict(
        E=E, S=S, domain=[0.0, 4.0, 1.0], event=None, users=U, items=V,
        unames=['original_uid', 'gender', 'age', 'answer_time',
                'child_prefecture', 'child_region', 'child_ew',
                'current_prefecture', 'current_region', 'current_ew',
                'moved'],
        inames=['name', 'maki', 'seafood', 'genre', 'heaviness',
                'frequency', 'price', 'supply'], info='SUSHI3_INFO',
        labels=[('user_age', AGES3), ('user_prefecture', PREF),
                ('user_region', REGION), ('item_genre', NETA)])


def flixster(F):
    E, S, rows = [], [], []
    for u, i in ((3, 7), (3, 5), (1, 7), (900000, 5), (8, 66000)):
        s = F.sym('f', lambda r: r.randint(1, 10) / 2.0)
        rows.append((str(u), str(i), X.app('str', s, sort='s')))
        E.append((u, i))
        S.append(s)
    F.put('data/ratings.txt', rows, '\t')
    return dict(E=E, S=S, domain=[0.5, 5.0, 0.5], event=None, users=None,
                items=None, info=None, labels=[])


DATASETS = {
    'movielens100k': (ml100k, ['movielens100k']),
    'movielens_mini': (mini, ['movielens100k', 'movielens_mini']),
    'movielens1m': (ml1m, ['movielens1m']),
    'sushi3': (sushi, ['sushi3']),
    'flixster': (flixster, ['flixster'])}
FNAME = {'movielens100k': 'movielens', 'movielens_mini': 'movielens',
         'movielens1m': 'movielens'}


def check(R):
    R.rule('converters and loaders analysed together over files with '
           'symbolic fields: what a loader returns equals the records of '
           'the original files')

    def one(ds):
        build, mods = DATASETS[ds]
        F = Files()
        w = build(F)
        src = HEAD24 % {'imports': '\n'.join('import ' + m for m in mods)}
        src += '''

def events_(): return events(DS.%(l)s())
def timestamps(): return DS.%(l)s().event_feature['timestamp']
def features(): return [feats(DS.%(l)s(), 0), feats(DS.%(l)s(), 1)]
def bare():
    d = DS.%(l)s(event_dtype=None)
    return events(d), d.event_feature
def nofeature(): return DS.%(l)s().event_feature
def lab(i, key): return labels(getattr(DS, i), key)
''' % {'l': LOADERS[ds]}
        S = Sess(src, config={
            'texts': True, 'mains': tuple(mods), 'attr': {
                'vgin.files': lambda I: I.newdict(list(F.files.items())),
                'vgin.encodings': lambda I: I.newdict(list(F.enc.items())),
                'sys.argv': lambda I: I.newlist(['converter'])}},
            extra={'vfs': stubs.VFS, 're': stubs.RE})
        for m in mods:
            o = S.w.mods[m]
            bad = [(l, e) for l, e in o.failed if e.name() != 'SystemExit']
            for l, e in bad:
                R.violation('converter %s handles valid records' % m,
                      'data/%s.py:%d' % (m, l), 'raises %s on a valid '
                      'record' % e.name())
            if bad:
                return
            if o.unsup:
                raise Unsupported('data/%s.py:%s %s' % (
                    (m,) + tuple(o.unsup[0])))
        conv = 'kamrecsys/datasets/%s.py:%s (data/%s.py)' % (
            FNAME.get(ds, ds), LOADERS[ds], mods[-1])

        def tab(vals, dt=None):
            if vals and isinstance(vals[0], (list, tuple)):
                m = len(vals[0])
                t = [X.tab([v[j] for v in vals]) for j in range(m)]
                return S.I.new(mkav(
                    (tt(len(vals)), tt(m)), lambda i, j: X.elem(X.tab(
                        [X.elem(q, i) for q in t]), j), 'i'))
            t = X.tab(vals)
            return S.I.new(mkav((tt(len(vals)),), lambda i: X.elem(t, i),
                                dt or t.sort))

        L = S.list

        def cmp(name, fn, want, *args):
            nm = '%s: %s' % (ds, name)
            R.guard(nm, lambda: R.decide(
                nm, S, S.run(fn, *args), S, S.run('give', want), F.gen,
                conv))
        cmp('ids, scores, object types and score domain of events',
            'events_', L([2, L([0, 1]), tab(w['E']), tab(w['S'], 'f'),
                          L(w['domain'])]))
        if w['event']:
            cmp('timestamps of events', 'timestamps', tab(w['event'][1]))
        else:
            cmp('no event feature', 'nofeature', None)
        if w['users'] is not None:
            out = []
            for o, names, recs in ((0, w['unames'], w['users']),
                                   (1, w['inames'], w['items'])):
                ids = sorted(set(e[o] for e in w['E']))
                cols = [tab([recs[x][j] for x in ids])
                        for j in range(len(names))]
                out.append(L([L(names), tab(ids), L(cols)]))
            cmp('features of users and items', 'features', L(out))
        for key, ls in w['labels']:
            cmp('labels of ' + key, 'lab', L([norm(x) for x in ls]),
                w['info'], key)
    R.fan([lambda ds=ds: R.guard(ds, lambda: one(ds)) for ds in DATASETS])
