"""Decide properties: python3 -m vg.check P01 [P02 ...]"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def titles():
    out = {}
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        for line in f:
            if line.strip():
                d = json.loads(line)
                out[d['id']] = d['title']
    return out


def known():
    """known findings: property -> list of the sites or obligations listed"""
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith('known:'):
                    rest = line[6:].strip()
                    pid, what = rest.split(None, 1)
                    out.setdefault(pid.replace('property=', ''), []).append(
                        what.strip())
    return out


def one(pid, tier, seed, title):
    from . import terms, rt
    t0 = time.time()
    m = importlib.import_module('vg.rules.' + pid.lower())
    R = rt.Report(pid, title, tier, seed)
    m.check(R)
    scaled = []
    if not R.viol:
        from . import world, thresholds
        cm, scaled = thresholds.candidates(world.World(), R.functions)
        if cm:
            # a second time with bounds and block lengths scaled down
            world.World.constmap = cm
            R2 = rt.Report(pid, title, tier, seed)
            R2.budget = max(60, min(R2.budget, 700 - (time.time() - t0)))
            try:
                m.check(R2)
            except Exception as e:     # noqa
                print('constants scaled: %s %s' % (type(e).__name__, e))
            finally:
                world.World.constmap = {}
            for v in R2.viol:
                v['detail'] = 'with the constants %s: %s' % (
                    '; '.join(scaled), v['detail'])
                R.viol.append(v)
                R.obl.append((v['obligation'] + ', constants scaled',
                              'violated', v['detail']))
            R.paths += R2.paths
            R.models_used += R2.models_used
    wall = time.time() - t0
    kf = known().get(pid, [])
    new = [v for v in R.viol if v['obligation'] not in kf]
    st = {}
    for name, s, d in R.obl:
        st[s] = st.get(s, 0) + 1
    n = len(R.obl)
    decided = st.get('proved', 0) + st.get('agrees', 0) + \
        st.get('violated', 0)
    minimum = getattr(m, 'MINIMUM', 1)
    if decided == 0 and minimum > 0:
        print('analysis of %s decided none of its %d obligations' % (pid, n))
        for o in R.obl[:8]:
            print('   ', o)
        return 2
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'violations': len(new), 'wall_s': round(wall, 3),
        'coverage': {
            'explanation': 'Source of the anchored entry points and all they '
            'call is parsed and translated to value graphs (abstract '
            'interpretation, symbolic sizes); each obligation compares a '
            'derived graph with the required one.  "proved": identical '
            'normal forms; "agrees": equal under random interpretation; '
            '"undecided": outside the modelled language, no verdict.',
            'rules': R.rules,
            'obligations': n,
            'proved': st.get('proved', 0),
            'agrees': st.get('agrees', 0),
            'undecided': st.get('undecided', 0),
            'violated': st.get('violated', 0),
            'interpretations': R.models_used,
            'paths_analysed': R.paths,
            'functions_analysed': len(R.functions),
            'functions': sorted(R.functions),
            'assumptions': R.assume,
            'constants_scaled': scaled,
            'undecided_list': [[a, str(d)[:300]] for a, s, d in R.obl
                               if s == 'undecided'][:40],
            'samples': [[a, s, str(d or '')[:200]] for a, s, d in R.obl[:6]],
        },
    }
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s: %d obligations: %s; %d functions, %d paths, %.1f s' % (
        pid, n, ', '.join('%d %s' % (b, a) for a, b in sorted(st.items())),
        len(R.functions), R.paths, wall))
    if os.environ.get('VG_SHOW'):
        for a, s, dd in R.obl:
            print('   [%s] %s  %s' % (s, a, '' if s in ('proved', 'agrees')
                                      else str(dd)[:1500]))
    for v in R.viol:
        if v['obligation'] in kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, v['obligation']))
    if new:
        p = os.path.join(d, pid + '.violation.txt')
        with open(p, 'w') as f:
            for v in new:
                for k in ('obligation', 'where', 'entry', 'detail', 'model'):
                    if v.get(k):
                        f.write('%s: %s\n' % (k, v[k]))
                f.write('\n')
        for v in new[:5]:
            print('  broken: %s\n   at %s\n   %s' % (
                v['obligation'], v['where'], str(v['detail'])[:1500]))
            if v.get('model'):
                print('   when %s' % str(v['model'])[:600])
        print('VIOLATION property=%s replay=%s' % (
            pid, os.path.relpath(p, HERE)))
        return 1
    return 0


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough', 'debug'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    tt = titles()
    pids = argv or sorted(
        f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'vg', 'rules'))
        if f[0] == 'p' and f[1:3].isdigit())
    rc = 0
    for pid in pids:
        try:
            r = one(pid, tier, seed, tt.get(pid, pid))
        except Exception:
            traceback.print_exc()
            print('analysis of %s broke' % pid)
            r = 2
        rc = max(rc, r) if rc != 1 else 1
        if r == 1:
            rc = 1
    return rc


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(res[0] if res else 2)
