#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the list of claimed checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'N01': 'number formatting, parsing and escaping are pure functions of their argument: no schedule, clock, I/O, crash or second party for a simulator to control (DESIGN.md)',
 'N03': 'the hash is a pure function of its input bytes and seed: nothing nondeterministic for a simulator to decide (DESIGN.md)',
 'N04': 'the command-line stub only inspects argv and prints: no state, concurrency, I/O protocol or failure handling to simulate (DESIGN.md)',
}
import re
claimed = re.findall(r'^\s*\{"([A-Z]\d\d)"', open(V + '/sim/props.cc').read(), re.M)
NOTES = {}
exec(open(V + '/tools/notes.py').read())
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 tools/build.py', 'checks': [], 'not_applicable': []}
for p in props:
    if p in claimed:
        m['checks'].append({'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
            'technique': 'deterministic simulation with fault injection: seeded search over schedules, faults and workloads', 'level': 'exploration',
            'level_note': NOTES.get(p, 'sampled simulated executions against an executable oracle; see DESIGN.md')})
    else: m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
