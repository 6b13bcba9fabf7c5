"""shows one run: show.py (PROPERTY seed | replay-file) [trace]; minimises with 'min KIND'"""
import sys, json, os, subprocess
sys.path.insert(0, __file__.rsplit('/', 1)[0])
import gen, oracle, simlib
args = sys.argv[1:]
if os.path.exists(args[0]):
    s = json.load(open(args[0])); s = s.get('scenario', s); args = args[1:]
else:
    s = gen.scenario(args[0], int(args[1])); args = args[2:]
sim = simlib.Simulator()
if args and args[0] == 'min':
    kind = args[1]
    def fails(t):
        try: h = sim.run(t)
        except simlib.Crashed: return False
        try: return any(k == kind for p, k, d in oracle.check(h, t))
        except Exception: return False
    assert fails(s)
    progress = True
    while progress:
        progress = False
        for t in simlib.candidates(s):
            if simlib.size(t) < simlib.size(s) and fails(t):
                s = t; progress = True; break
    json.dump(s, open('/tmp/min.json', 'w'), indent=1)
    args = args[2:]
open('/tmp/show.plan', 'w').write(simlib.render(s))
env = dict(os.environ)
if 'trace' in args: env['SIM_TRACE'] = '1'
for k in list(env):
    if k.startswith('CASUAL'): del env[k]
subprocess.call([simlib.BUILD + '/sim', simlib.BUILD + '/node.so', '/tmp/show.plan', '/tmp/show.out'], env=env)
h = simlib.History('/tmp/show.out', '/tmp')
h.dump = lambda e: '/tmp/show.out.dump%d' % e['n']
names = {e['pid']: e['tag'] for e in h.of('spawn')}
for c in s['clients']:
    print('client', c['name']); [print('    ', simlib.op_text(o)) for o in c['ops']]
for m in s['machines']:
    print(json.dumps(m['config']))
print('opt', s.get('opt'), 'faults', s['faults'])
for e in h.events:
    x = {k: v for k, v in e.items() if k not in ('i', 't', 'e', 'tag', 'pid')}
    if x.get('text') and len(x['text']) > 30: x['text'] = x['text'][:30]
    print('%5d %12.6f %-26s %-14s %s' % (e['i'], e['t'] / 1e9, (names.get(e.get('pid'), e.get('tag', '')) or '').replace('casual-', ''), e['e'], ' '.join('%s=%s' % i for i in x.items())))
for x in oracle.check(h, s): print(x)
print(h.summary['hash'], h.summary['counters'])
sim.close()
