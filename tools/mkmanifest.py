"""writes MANIFEST.json"""
import json, sys
sys.path.insert(0, '/verif/vc')
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA = {}
TECH = 'contract-based deductive verification: VCs generated from the MIR of /repo, discharged by Verus/Z3; bounded differential replay as counterexample search'
NOTE = {}
import specs
checks = []
for p in ids:
    if p in NA: continue
    n = [k for k, s in specs.S.items() if p in s.props]
    checks.append({'property': p, 'quick_cmd': './check %s' % p, 'thorough_cmd': './check %s --thorough' % p, 'technique': TECH,
                   'level': 'proof' if n else 'exploration',
                   'level_note': NOTE.get(p) or ('Proved for all inputs, function by function, for the %d functions under contract listed in the evidence; the rest of the property is explored by bounded replay only. Trusted: models of std functions, the MIR executor, Verus/Z3.' % len(n) if n else 'Bounded replay only so far.')})
json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': [{'property': p, 'reason': r} for p, r in NA.items()],
           'notes': 'No hooks are needed in /repo: MIR is extracted from the unmodified crate on every run.'}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks))
