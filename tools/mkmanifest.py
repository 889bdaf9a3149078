import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = ('function contracts verified by symbolic execution of the MIR of /repo (every path, loops by invariant), '
        'failed obligations replayed on the real macro')
NOTE = ('proof: every function of the core crate that the property depends on is checked against its contract for all '
        'inputs, callers against the contracts of their callees; trusted: rustc\'s MIR, the verifier with its models of '
        'syn/quote/std, the contracts as statement of the property. Functions a change puts beyond the verifier are '
        'reported as bounded and decided by replaying the contract of the whole macro on generated inputs.')
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 check.py ' + p['id'],
        'thorough_cmd': 'python3 check.py ' + p['id'],
        'technique': TECH,
        'level': 'proof',
        'level_note': NOTE,
    } for p in props],
    'not_applicable': [],
}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
