"""Replays a file that a check wrote: replay.py FILE [trace]; exit 1 and the VIOLATION line if it still fails, and says whether the history is the same"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib, run


def main():
    with open(sys.argv[1]) as f:
        r = json.load(f)
    run.build()
    sim = simlib.Simulator()
    h, found = run.judge(sim, r['scenario'])
    sim.close()
    print('history %s, %s' % (h.hash, 'as recorded' if h.hash == r.get('hash') else 'recorded was %s' % r.get('hash')))
    bad = [(p, k, d) for p, k, d in found if p == r['property'] and k == r['kind']]
    for p, k, d in bad:
        print('%s: %s' % (k, d))
    if bad:
        print('VIOLATION property=%s replay=%s' % (r['property'], os.path.abspath(sys.argv[1])))
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
