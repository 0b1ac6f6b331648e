"""Write MANIFEST.json from the unit table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pyv import unit as U
U.native_setup()
import all_units
from spec_info import NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    us = [u for u in U.UNITS if i in u.props]
    if not us:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')})
        continue
    full = [u for u in us if u.symbolic and not u.bounded]
    bnd = [u for u in us if not (u.symbolic and not u.bounded)]
    note = '%d proof units, all discharged on every run.' % len(full)
    if bnd:
        note += ' Bounded stand-ins, not counted as proved: %s.' % ', '.join('%s (%s)' % (u.name, u.bounded or 'concrete inputs') for u in bnd[:12]) + ('' if len(bnd) <= 12 else ' and %d more' % (len(bnd) - 12))
    if i in NOTES:
        note = NOTES[i] + ' ' + note
    checks.append({
        'property': i,
        'quick_cmd': './check %s --tier quick' % i,
        'thorough_cmd': './check %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'contract-based deductive verification of the source in /repo: executable contracts and lemmas, verification conditions generated from the AST by pyv, discharged by ring normal form and z3',
        'level': 'proof' if full else 'exploration',
        'level_note': note,
        'theorems': sorted({u.name for u in full})[:60],
    })
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check re-reads /repo, regenerates all obligations and re-proves them; failing inputs are replayed on the real code. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
