"""many runs on all cores: sweep.py PROPERTY first count; prints what the oracles say"""
import sys, collections, time, multiprocessing, traceback
sys.path.insert(0, __file__.rsplit('/', 1)[0])
import gen, oracle, simlib
def work(a):
    prop, first, count, step = a
    sim = simlib.Simulator()
    r = []
    for i in range(first, first + count, step):
        s = gen.scenario(prop, i)
        try:
            h = sim.run(s)
        except simlib.Crashed as e:
            r.append(('-', 'crashed', str(e), i)); continue
        if h.summary['outcome'] != 'done':
            r.append(('-', 'outcome', h.summary['outcome'], i))
        try:
            for p, k, d in oracle.check(h, s):
                r.append((p, k, d, i))
        except Exception:
            r.append(('-', 'oracle', traceback.format_exc(limit=-2), i))
    sim.close()
    return r
if __name__ == '__main__':
    prop, first, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    n = 8
    t0 = time.time()
    kinds = collections.defaultdict(list)
    with multiprocessing.Pool(n) as pool:
        for r in pool.imap_unordered(work, [(prop, first + i, count - i, n) for i in range(n)]):
            for p, k, d, i in r:
                kinds[(p, k)].append((i, d))
    for k, v in sorted(kinds.items()):
        print(k, len({i for i, _ in v}), 'runs')
        for i, d in sorted(v)[:int(sys.argv[4]) if len(sys.argv) > 4 else 4]:
            print('     ', i, d)
    print('%.1f runs/s' % (count / (time.time() - t0)))
