"""Writes MANIFEST.json from properties.jsonl and harness/props.py's CONFIG."""
import json, sys, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'harness'))
import props
NA = {}
TECH = 'TLA+ specification checked with TLC: traces recorded from the real code are validated against spec/Trace.tla'
MC = '; TLC-enumerated behaviours of spec/%s are replayed on the real code'
checks, na = [], []
for ln in open(os.path.join(R, 'properties.jsonl')):
    p = json.loads(ln)['id']
    if p in props.CONFIG:
        c = props.CONFIG[p]
        mods = [m['module'] for m in c.get('mc', [])]
        checks.append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': './check %s --thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': TECH + (MC % ', '.join(mods) if mods else ''),
                       'level': 'model_checking', 'level_note': c['note'] + ' Trusted: TLC, the arithmetic override spec/Num.java, the recorder harness/driver.py.'})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'not built yet')})
json.dump({'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks use only the public API of PyNite. known_findings.txt lists repaired and recorded defects.'}, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
