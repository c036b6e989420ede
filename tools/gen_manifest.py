#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
}
DEFNOTE = ('Seeded search over schedules, inputs and faults; the real code runs in one process under the simulator. '
           'Evidence, not proof: only the executions that were simulated are covered. Trusts the simulator, the oracle and sequentially consistent execution with race detection.')
CLAIMED = ['C%02d' % i for i in range(1, 21)] + ['C24', 'C25', 'C26', 'C27']
NA = {
 'C21': 'A pure function of its arguments: no schedule, clock, I/O, crash or second party can change its value, so there is nothing for a simulator to decide.',
 'C22': 'Derivatives of pure functions of (x, u, multipliers): no nondeterminism or fault for the simulator to control.',
 'C23': 'Pure vector functions with no concurrency, time, I/O or multi-party behaviour.',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 check.py build', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                            'technique': 'deterministic simulation with fault injection (seeded search over schedules and faults)',
                            'level': 'exploration', 'level_note': NOTE.get(i, DEFNOTE)})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'Check under construction.')})
m['notes'] = 'No hooks in /repo: the seams are the instrumentation calls of -fsanitize=thread and the interposed C library, see DESIGN.md.'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
