"""The check of one property: run.py PROPERTY [quick|thorough]

Builds the simulator from /repo's working tree, runs as many simulated executions as the time allows on all cores, judges every
history, and reports a violation with a minimised, exactly repeatable replay file.
VERIF_SEED decides the scenarios, each of which decides everything in its run.
"""
import sys, os, json, time, subprocess, multiprocessing, traceback, collections, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib
VERIF, BUILD = simlib.VERIF, simlib.BUILD
SECONDS = {'quick': 40, 'thorough': 600}
CAP = {'quick': 60000, 'thorough': 10 ** 9}


def known(prop):
    with open(os.path.join(VERIF, 'known-findings.json')) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def judge(sim, scenario):
    """-> (history, [(property, kind, detail)])"""
    import oracle
    h = sim.run(scenario)
    found = []
    if h.summary['outcome'] != 'done':
        found.append(('-', 'outcome-' + h.summary['outcome'], 'the run ended with ' + h.summary['outcome']))
    found += list(oracle.check(h, scenario))
    return h, found


def explore(prop, base, counter, stop, deadline, cap, queue):
    import gen, oracle
    sim = simlib.Simulator()
    st = {'runs': 0, 'nontrivial': 0, 'sim_ns': 0, 'steps': 0, 'counters': collections.Counter(), 'events': collections.Counter(), 'worlds': collections.Counter(),
          'orders': set(), 'bigrams': set(), 'repeated': 0, 'mismatch': [], 'errors': [], 'known': collections.Counter(), 'found': [], 'samples': [], 'faulty': 0}
    listed = {k['kind'] for k in known(prop)}
    others = collections.Counter()
    try:
        while time.time() < deadline and not stop.value:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= cap:
                break
            seed = base + i
            s = gen.scenario(prop, seed)
            try:
                h, found = judge(sim, s)
            except simlib.Crashed as e:
                st['errors'].append((seed, str(e)))
                continue
            st['runs'] += 1
            st['worlds'][s['world']] += 1
            st['sim_ns'] += h.summary['t']
            st['steps'] += h.summary['steps']
            st['counters'].update(h.summary['counters'])
            if any(k.startswith('fault:') for k in h.summary['counters']):
                st['faulty'] += 1
            for k, v in h.by.items():
                st['events'][k] += len(v)
            if gen.nontrivial(prop, h, s):
                st['nontrivial'] += 1
                st['orders'].add(h.summary['order'])
            if len(st['bigrams']) < 3000000:
                st['bigrams'].update(h.summary['bigrams'])
            for p, kind, detail in found:
                if p == prop:
                    if kind in listed:
                        st['known'][kind] += 1
                    else:
                        st['found'].append((seed, kind, detail))
                        if not stop.value:
                            stop.value = 1
                elif p == '-':
                    st['errors'].append((seed, detail))
                else:
                    others[(p, kind)] += 1
            if st['runs'] % 40 == 7:
                again = sim.run(s)
                st['repeated'] += 1
                if again.hash != h.hash:
                    st['mismatch'].append(seed)
            if len(st['samples']) < 1 and gen.nontrivial(prop, h, s) and s.get('faults'):
                st['samples'].append({'seed': seed, 'faults': s['faults'], 'opt': s.get('opt', {}), 'clients': [[simlib.op_text(o) for o in c['ops']][:6] for c in s['clients']][:3],
                                      'hash': h.hash, 'simulated_ms': h.summary['t'] // 1000000, 'counters': h.summary['counters']})
    except Exception:
        st['errors'].append((-1, traceback.format_exc()))
    sim.close()
    st['others'] = others
    queue.put(st)


_sim = None


def _has(a):
    global _sim
    scenario, prop, kind = a
    if _sim is None:
        _sim = simlib.Simulator()
    try:
        h, found = judge(_sim, scenario)
    except Exception:
        return False
    return any(p == prop and k == kind for p, k, d in found)


def minimise(scenario, prop, kind, seconds):
    end = time.time() + seconds
    with multiprocessing.Pool(8) as pool:
        progress = True
        while progress and time.time() < end:
            progress = False
            cs = [t for t in simlib.candidates(scenario) if simlib.size(t) < simlib.size(scenario)]
            for at in range(0, len(cs), 32):
                if time.time() > end:
                    break
                part = cs[at:at + 32]
                ok = pool.map(_has, [(t, prop, kind) for t in part], 1)
                good = [t for t, o in zip(part, ok) if o]
                if good:
                    scenario = min(good, key=simlib.size)
                    progress = True
                    break
    return scenario


def build():
    r = subprocess.run([sys.executable, os.path.join(VERIF, 'sim', 'build.py')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-6000:])
        print('ERROR: the build failed')
        sys.exit(2)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    build()
    built = time.time() - t0
    import gen
    seconds = float(os.environ.get('VERIF_SECONDS', SECONDS[tier] * gen.EFFORT.get(prop, 1.0)))
    base = seed * 100000007
    n = os.cpu_count() or 8
    counter, stop = multiprocessing.Value('q', 0), multiprocessing.Value('i', 0)
    queue = multiprocessing.Queue()
    t1 = time.time()
    ps = [multiprocessing.Process(target=explore, args=(prop, base, counter, stop, t1 + seconds, CAP[tier], queue)) for _ in range(n)]
    for p in ps:
        p.start()
    results = [queue.get() for _ in ps]
    for p in ps:
        p.join()
    took = time.time() - t1
    total = results[0]
    for r in results[1:]:
        for k, v in r.items():
            if isinstance(v, set):
                total[k] |= v
            elif isinstance(v, collections.Counter):
                total[k].update(v)
            else:
                total[k] += v

    # what is known is shown, whether or not this run met it
    sim = simlib.Simulator()
    findings = []
    for k in known(prop):
        again = ''
        if k.get('replay'):
            with open(os.path.join(VERIF, k['replay'])) as f:
                rep = json.load(f)
            try:
                h, found = judge(sim, rep['scenario'])
                again = 'replayed: %s' % ('yes' if any(p == prop and kind == k['kind'] for p, kind, d in found) else 'no')
            except simlib.Crashed as e:
                again = 'replay: %s' % e
        print('KNOWN-FINDING: property=%s %s (%s; %d times in this run)' % (prop, k['what'], again, total['known'][k['kind']]))
        findings.append({'kind': k['kind'], 'what': k['what'], 'replay': again, 'times': total['known'][k['kind']]})

    status = 0
    replay = None
    if total['found']:
        found = sorted(total['found'])
        print('%d violations in %d runs: %s' % (len(found), total['runs'], dict(collections.Counter(k for _, k, _ in found))))
        # the same run has to give the same history, in this and in a new process
        confirmed = None
        for s_, kind, detail in found[:6]:
            scenario = gen.scenario(prop, s_)
            h1, f1 = judge(sim, scenario)
            fresh = simlib.Simulator()
            h2, f2 = judge(fresh, scenario)
            fresh.close()
            if h1.hash == h2.hash and any(p == prop and k == kind for p, k, d in f1):
                confirmed = (s_, kind, scenario)
                break
            print('ERROR: seed %d does not repeat exactly' % s_)
        if confirmed is None:
            sys.exit(2)
        s_, kind, scenario = confirmed
        small = minimise(scenario, prop, kind, 60 if tier == 'quick' else 240)
        h, f = judge(sim, small)
        if not any(p == prop and k == kind for p, k, d in f):
            small = scenario
            h, f = judge(sim, small)
        detail = [d for p, k, d in f if p == prop and k == kind][0]
        os.makedirs(os.path.join(BUILD, 'replays'), exist_ok=True)
        replay = os.path.join(BUILD, 'replays', '%s-%s-%d.json' % (prop, kind, s_))
        with open(replay, 'w') as out:
            json.dump({'property': prop, 'kind': kind, 'detail': detail, 'seed': s_, 'hash': h.hash, 'scenario': small,
                       'faults_and_schedule': [e for e in h.events if e['e'] in ('fault', 'kill', 'exit', 'spawn', 'machine-crash', 'partition', 'disk-error', 'tcp-reset')],
                       'how': 'python3 check/replay.py ' + replay}, out, indent=1)
        print('%s: %s' % (kind, detail))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        status = 1
    elif total['mismatch'] or len(total['errors']) > max(2, total['runs'] // 200):
        print('ERROR: %d runs did not repeat exactly %s, %d runs failed %s' % (len(total['mismatch']), total['mismatch'][:3], len(total['errors']), total['errors'][:3]))
        status = 2
    sim.close()

    c = total['counters']
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 1), 'violations': len(total['found']),
        'coverage': {
            'evaluations': total['runs'],
            'distinct_nontrivial': len(total['orders']),
            'rule': 'One evaluation is one simulated execution of a whole domain (or several), whose configuration, programs, scheduling, delays and faults are all drawn from one seed. '
                    + 'Non-trivial: ' + gen.NONTRIVIAL[prop][0] + '. Distinct: by the hash of the order of all context switches, messages and system calls.',
            'nontrivial_runs': total['nontrivial'],
            'samples': total['samples'][:3],
            'runs_per_hour': int(total['runs'] / took * 3600),
            'seeds': {'first': base, 'count': counter.value, 'per_hour': int(total['runs'] / took * 3600)},
            'simulated_seconds': round(total['sim_ns'] / 1e9, 1),
            'simulated_steps': total['steps'],
            'runs_with_faults': total['faulty'],
            'faults_injected': {k[6:]: v for k, v in sorted(c.items()) if k.startswith('fault:')},
            'other_simulator_counters': {k: v for k, v in sorted(c.items()) if not k.startswith('fault:')},
            'history_events': dict(sorted(total['events'].items())),
            'worlds': dict(total['worlds']),
            'interleavings': {'distinct_orders': len(total['orders']), 'distinct_bigrams': len(total['bigrams']),
                              'measure': 'orders: hash of the whole sequence of (process, system call, message type). bigrams: distinct pairs of consecutive such steps in different processes, over all runs'},
            'runs_given_up': {'count': len(total['errors']), 'first': [str(e) for e in total['errors'][:3]], 'why': 'took more than a minute of processor time'},
            'repeatability': {'runs_repeated': total['repeated'], 'differing': len(total['mismatch'])},
            'seen_of_other_properties': {'%s %s' % k: v for k, v in sorted(total['others'].items())},
            'known_findings': findings,
            'real_code': 'every process: domain, service, transaction, queue and gateway managers, queue groups, forwards, discovery, gateway groups, the xatmi/queue libraries in servers and clients; sqlite, yaml-cpp',
            'simulated': 'the kernel interface (processes, signals, unix datagram sockets, tcp, files and their durability, clocks, timers, randomness); resource managers (xa switch) are a model; servers and clients are scripted programs',
            'build_s': round(built, 1),
        },
        'assumptions': ['the simulated kernel behaves as Linux does where casual uses it', 'the processes are single threaded, which they are',
                        'schedules are sampled, not enumerated'],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('%s: %d runs (%d distinct and non-trivial), %.0f simulated seconds, %.0f runs/s, %s' % (prop, total['runs'], len(total['orders']), total['sim_ns'] / 1e9, total['runs'] / took,
          'violated' if status == 1 else 'error' if status else 'held'))
    sys.exit(status)


if __name__ == '__main__':
    main()
