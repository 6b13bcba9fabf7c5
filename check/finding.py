"""finding.py PROPERTY KIND first 'what fails' [PROPERTY whose scenarios to search]: finds a run that shows it, minimises it, and lists it in known-findings.json"""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, oracle, simlib, run
prop, kind, first, what = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
world = sys.argv[5] if len(sys.argv) > 5 else prop
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sim = simlib.Simulator()
seed = first
while True:
    s = gen.scenario(world, seed)
    try:
        if any(p == prop and k == kind for p, k, d in run.judge(sim, s)[1]):
            break
    except simlib.Crashed:
        pass
    seed += 1
def fails(t):
    try:
        return any(p == prop and k == kind for p, k, d in run.judge(sim, t)[1])
    except Exception:
        return False
progress = True
while progress:
    progress = False
    for t in simlib.candidates(s):
        if simlib.size(t) < simlib.size(s) and fails(t):
            s = t; progress = True; break
h, found = run.judge(sim, s)
name = 'findings/%s-%s.json' % (prop, kind)
json.dump({'property': prop, 'kind': kind, 'detail': [d for p, k, d in found if k == kind][0], 'seed': seed, 'hash': h.hash, 'scenario': s,
           'how': 'python3 check/replay.py ' + name}, open(os.path.join(root, name), 'w'), indent=1)
p = os.path.join(root, 'known-findings.json')
d = json.load(open(p))
d['findings'] = [f for f in d['findings'] if (f['property'], f['kind']) != (prop, kind)] + [{'property': prop, 'kind': kind, 'what': what, 'replay': name}]
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
print(seed, found)
