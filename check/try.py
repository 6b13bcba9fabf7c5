"""runs some scenarios and shows what the oracles say: try.py PROPERTY first count [all]"""
import sys, collections, time, json
sys.path.insert(0, __file__.rsplit('/', 1)[0])
import gen, oracle, simlib
prop, first, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
sim = simlib.Simulator()
kinds = collections.defaultdict(list)
t0 = time.time()
for i in range(first, first + count):
    s = gen.scenario(prop, i)
    try:
        h = sim.run(s)
    except simlib.Crashed as e:
        kinds[('-', 'crashed', str(e))].append((i, str(e))); continue
    if h.summary['outcome'] != 'done':
        kinds[('-', 'outcome', h.summary['outcome'])].append((i, ''))
    for p, k, d in oracle.check(h, s):
        kinds[(p, k, '')].append((i, d))
dt = time.time() - t0
for k, v in sorted(kinds.items()):
    print(k, len(v), len({i for i, _ in v}), 'runs')
    for i, d in v[:6]:
        print('     ', i, d)
print('%.1f runs/s' % (count / dt))
sim.close()
