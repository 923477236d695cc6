"""Write MANIFEST.json from the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = ('TLA+ specification evaluated by TLC as oracle; its behaviours '
          'replayed into the real code, values compared')
TRACE = ('TLA+ state machine; traces recorded from the real code validated '
         'step by step by TLC')
SCHED = 'TLA+ schedule model, behaviours enumerated by TLC and replayed'
TECH = {'C01': TRACE, 'C02': TRACE, 'C10': TRACE, 'C11': TRACE,
        'C12': TRACE + '; constrained-CRP law from ' + ORACLE,
        'C13': TRACE, 'C14': SCHED, 'C15': TRACE, 'C19': TRACE,
        'C20': ORACLE, 'C21': TRACE, 'C22': TRACE}
NOTES = {}
if os.path.exists(os.path.join(ROOT, 'tools', 'notes.json')):
    NOTES = json.load(open(os.path.join(ROOT, 'tools', 'notes.json')))


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(ROOT, 'checks', p.lower() + '.py')):
            checks.append({
                'property': p,
                'quick_cmd': '/opt/venv/bin/python run.py %s quick' % p,
                'thorough_cmd': '/opt/venv/bin/python run.py %s thorough' % p,
                'technique': TECH.get(p, ORACLE),
                'level': 'model_checking',
                'level_note': NOTES.get(p, 'Specification in TLA+ checked with TLC in small '
                                        'constants; the real code is bound to it by conformance '
                                        'over generated configurations, see DESIGN.md.')})
        else:
            na.append({'property': p, 'reason': 'check under construction'})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
