"""Writes MANIFEST.json from properties.jsonl and what is claimed: manifest.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import gen
NOT = {
    'B01': 'pure function of its input: no concurrency, time, I/O or other party for a simulation to vary',
    'K01': 'pure function of its input: no concurrency, time, I/O or other party for a simulation to vary',
}
props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
checks, no = [], []
for p in props:
    i = p['id']
    if i in gen.WORLDS:
        checks.append({'property': i, 'quick_cmd': 'python3 check/run.py %s quick' % i, 'thorough_cmd': 'python3 check/run.py %s thorough' % i,
                       'technique': 'deterministic simulation with fault injection (seeded search over schedules and faults of whole domains in one process)',
                       'level': 'exploration',
                       'level_note': 'All of casual runs unchanged, in simulated processes, on a simulated kernel. ' + gen.NOTE.get(i, '') + 'Sampled schedules and faults, not all of them; trusts that the simulated kernel behaves as Linux does.'})
    else:
        no.append({'property': i, 'reason': NOT.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 sim/build.py', 'checks': checks, 'not_applicable': no,
     'notes': 'No hooks in /repo: the seam is the C library. Commits in /repo are repairs (fix:) only, listed in known-findings.json.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', [n['property'] for n in no])
