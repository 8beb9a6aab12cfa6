"""Writes MANIFEST.json from the rule modules present."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
    'P33': 'convergence and quality of an optimum quantify over floating '
           'point trajectories of a numerical optimizer (scipy); no static '
           'argument in reach bounds them',
    'P34': 'the counts are facts about the shipped data files, not about '
           'the source; deciding them means reading the data, not analysing '
           'code',
    'P35': 'rounding, overflow and underflow of sums over unbounded data '
           'depend on runtime values; the statically decidable clause (clip '
           'bounds of the sigmoid) is claimed as P13',
}
NOTE = ('Abstract interpretation of the current source to value graphs over '
        'symbolic sizes, for the listed configurations. Identical normal '
        'forms prove an obligation for all inputs of the configuration; '
        'graphs that are not identical are compared by random '
        'interpretation, whose residual error is one-sided (a difference '
        'reported is real in the model). Trusts the model of numpy, scipy, '
        'sklearn and six in vg/npmodel.py and vg/world.py; real arithmetic '
        'except where stated. Obligations the analysis cannot model give no '
        'verdict and are listed as undecided in the evidence.')
SPECIAL = {}
TECH = {}
exec(open(os.path.join(HERE, 'claims.py')).read())

pids = [json.loads(l)['id'] for l in open(os.path.join(
    HERE, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in pids:
    if p in NA:
        na.append({'property': p, 'reason': NA[p]})
    elif os.path.exists(os.path.join(HERE, 'vg', 'rules',
                                     p.lower() + '.py')):
        checks.append({
            'property': p,
            'quick_cmd': 'python3 -m vg.check ' + p,
            'thorough_cmd': 'VERIF_TIER=thorough python3 -m vg.check ' + p,
            'technique': TECH.get(p, 'static value-graph equivalence of '
                                     'entry points against a reference '
                                     '(abstract interpretation of source)'),
            'level': 'other',
            'level_note': SPECIAL.get(p, '') + NOTE})
    else:
        na.append({'property': p, 'reason': 'no check built yet'})
json.dump({'version': 1,
           'setup_cmd': 'python3 -m compileall -q vg',
           'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
