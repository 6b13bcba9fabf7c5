"""What the history of a domain has to satisfy: what it starts, keeps running and stops. Yields (property, kind, detail)."""
MS = 1000000
SEC = 1000 * MS


class Domain:
    def __init__(self, v, m):
        self.v, self.m = v, m
        self.config = v.machines[m]['config']
        self.entities = {e['alias']: e for e in self.config.get('servers', []) + self.config.get('executables', [])}
        self.groups = {g['name']: g for g in self.config.get('groups', [])}
        self.instances = {a: [] for a in self.entities}
        self.manager = None
        for pid, p in v.procs.items():
            if p['m'] != m:
                continue
            rest = p['tag'].split('/', 1)[1].split('#')[0]
            if rest == 'casual-domain-manager' and self.manager is None:
                self.manager = pid
            exe, _, alias = rest.partition(':')
            if alias in self.instances and exe != 'sim-client':
                self.instances[alias].append(pid)
        self.connected = {}
        for e in v.h.of('msg-whole'):
            if e['type'] == 1000:
                self.connected.setdefault(e['tag'], e)
        self.failed = {}
        for e in v.h.of('spawn-failed'):
            self.failed.setdefault(e.get('alias'), []).append(e)

    def closure(self, names):
        """the groups that these depend on, directly or not"""
        seen, todo = set(), list(names)
        while todo:
            for d in self.groups.get(todo.pop(), {}).get('dependencies', []):
                if d not in seen:
                    seen.add(d)
                    todo.append(d)
        return seen

    def members(self, alias):
        return self.entities[alias].get('memberships') or ['.global']

    def before(self):
        """[(a, b)] a is to be started before b"""
        r = set()
        for b in self.entities:
            deps = self.closure(self.members(b))
            for a in self.entities:
                # one of several groups is started with the last of them
                if a != b and set(self.members(a)) <= deps:
                    r.add((a, b))
        return sorted((a, b) for a, b in r if (b, a) not in r and not set(self.members(a)) & set(self.members(b)))

    def server(self, alias):
        return 'sim-server' in self.entities[alias]['path']

    def requests(self):
        """[(alias, count, from, to or None, sure)] in the order they were made"""
        r = [(a, e.get('instances', 1), 0, 0, True) for a, e in self.entities.items()]
        done = {}
        for e in self.v.h.of('admind'):
            done.setdefault((e['pid'], e['op'], e['name']), []).append(e)
        for e in self.v.h.of('admin'):
            if e['op'] == 'scale':
                l = [d for d in done.get((e['pid'], 'scale', e['name']), []) if d['i'] > e['i']]
                d = l[0] if l else None
                r.append((e['name'], e['count'], e['i'], d['i'] if d else None, bool(d) and d['rc'] == 0))
        return r


def started(v, d):
    asked = {}
    for a, n, lo, hi, sure in d.requests():
        asked.setdefault(a, []).append(n)
    down = v.down()
    for a, b in d.before():
        if not d.instances[b]:
            continue
        first = v.procs[d.instances[b][0]]['born']
        if first['i'] > down:
            continue
        n = min(asked[a])
        mine = d.instances[a][:n]
        there = [p for p in mine if v.procs[p]['born']['i'] < first['i']]
        failed = [e for e in d.failed.get(a, []) if e['i'] < first['i']]
        if len(there) + len(failed) < n:
            yield 'D01', 'started-before', '%s was started when %d of %d of %s were, which it depends on (%s after %s)' % (v.name(d.instances[b][0]), len(there), n, a, d.members(b), d.members(a))
            continue
        if d.server(a):
            for p in there:
                c, end = d.connected.get(v.name(p)), v.procs[p]['end']
                if not (c and c['i'] < first['i']) and not (end and end['i'] < first['i']):
                    yield 'D01', 'started-before-ready', '%s was started before %s was ready, which it depends on' % (v.name(d.instances[b][0]), v.name(p))


def own_choice(v, pid):
    """it ended because of a fault, or because its program says so"""
    p = v.procs[pid]
    end = p['end']
    if end['cause'] in ('fault', 'machine', 'segv', 'abort'):
        return True
    if [e for e in v.h.of('fault') if e.get('kind') == 'kill' and e.get('pid') == pid]:
        return True
    return bool([e for e in v.h.of('app-exit') if e['pid'] == pid])


def stopped(v, d):
    shutdown = v.h.of('shutdown')
    if not shutdown or (v.procs[d.manager]['end'] and v.procs[d.manager]['end']['i'] < shutdown[0]['i']):
        return
    begin = shutdown[0]
    # these may be ended because of something else that was asked for
    def asked(alias):
        for e in v.h.of('admin'):
            if e['op'] == 'restart-group' or e['op'] in ('scale', 'restart') and e['name'] == alias:
                done = [x for x in v.h.of('admind') if x['pid'] == e['pid'] and x['i'] > e['i']]
                if not done or done[0]['t'] > begin["t"] - 20 * SEC:
                    return True
        return False
    for a, b in d.before():
        if asked(a):
            continue
        for p in d.instances[a]:
            end = v.procs[p]['end']
            if not end or end['i'] < begin['i'] or own_choice(v, p) or (not d.server(a) and 'exit=' in ' '.join(d.entities[a]['arguments'])):
                continue
            if d.server(a):
                # one that had not connected is refused, and ends by itself
                c = d.connected.get(v.name(p))
                if not c or c['i'] > begin['i'] or v.when(begin['i']) - v.when(c['i']) < 20 * MS:
                    continue
            for x in d.instances[b]:
                q = v.procs[x]
                if q['born']['i'] > begin['i'] or (q['end'] and q['end']['i'] < end['i']):
                    continue
                c = d.connected.get(v.name(x))
                if d.server(b) and (not c or c['i'] > begin['i']):
                    continue
                yield 'D01', 'stopped-before', '%s was stopped before %s, which depends on it (%s after %s)' % (v.name(p), v.name(x), d.members(b), d.members(a))
    gone = [e for e in v.h.of('phase') if e['name'] == 'gone' and e['i'] > begin['i']]
    if gone and not gone[0]['done']:
        left = sorted(e['tag'] for e in v.h.of('ps') if e['i'] > gone[0]['i'] and '/sim-client' not in e['tag'])
        kind = 'never-ended' if any('casual-domain-manager' in t for t in left) else 'left-behind'
        if kind == 'never-ended' and v.leaked():
            kind += '-leaked'
        # a server that had asked the service manager that died waits for it for ever
        done = {(e['pid'], e['id']) for e in v.h.of('svc-end')}
        there = {e['pid'] for e in v.h.of('ps') if e['i'] > gone[0]['i']}
        waiting = [e for e in v.h.of('svc') if (e['pid'], e['id']) not in done and e['pid'] in there]
        if kind == 'never-ended' and waiting and [p for p in v.procs.values() if 'casual-service-manager:' in p['tag'] and p['end'] and p['end']['cause'] in ('fault', 'segv', 'abort')]:
            kind += '-manager-died'
        if kind == 'left-behind' and all(parentless(v, e['pid']) for e in v.h.of('ps') if e['i'] > gone[0]['i'] and '/sim-client' not in e['tag']):
            kind += '-manager-died'
        yield 'D01', kind, 'after the shutdown these are left: %s' % left[:8]
    # what was in progress
    ended = {}
    for e in v.h.of('svc-end'):
        ended.setdefault((e['pid'], e['id']), []).append(e)
    for e in v.h.of('svc'):
        if e['i'] > begin['i'] or (e['pid'], e['id']) in ended or e['pid'] not in v.procs or v.procs[e['pid']]['m'] != d.m:
            continue
        end = v.procs[e['pid']]['end']
        if end and end['i'] > begin['i'] and not own_choice(v, e['pid']) and not v.assassinated(e['pid']):
            yield 'D01', 'cut-short', '%s was in %s when the shutdown began, it was ended (%s) before that was done' % (v.name(e['pid']), e['svc'], end['cause'])


def living(v, lo, hi):
    alive = {}
    for e in v.h.of('ps'):
        if lo < e['i'] < hi and e['state'] != 'zombie':
            alive.setdefault(e['tag'].split('/', 1)[1].split('#')[0].partition(':')[2], []).append(e)
    return alive


def again(v, d, alive, begin, end):
    """when nothing is asked for any more, those that die are restarted if they are to be, and only then"""
    manager = v.procs[d.manager]['end']
    if manager and manager['i'] < end['i']:
        return
    done = {}
    for e in v.h.of('admind'):
        done.setdefault((e['pid'], e['op'], e['name']), []).append(e['i'])
    for e in v.h.of('admin'):
        # one that was not answered may be in progress
        if e['i'] < end['i'] and not [i for i in done.get((e['pid'], e['op'], e['name']), []) if e['i'] < i < begin['i']]:
            return
    now = living(v, begin['i'], end['i'])
    suffix = '-leaked' if v.leaked() else ''
    for alias, x in d.entities.items():
        if 'exit=' in ' '.join(x['arguments']):
            continue
        there = {e['pid'] for e in alive.get(alias, [])}
        born = [p for p in d.instances[alias] if begin['i'] < v.procs[p]['born']['i'] < end['i']]
        died = [p for p in d.instances[alias] if v.procs[p]['end'] and begin['i'] < v.procs[p]['end']['i'] < end['i']]
        failed = [e for e in d.failed.get(alias, []) if begin['i'] < e['i'] < end['i']]
        if not x.get('restart') and born:
            yield 'D02', 'restarted' + suffix, '%s was started when nothing was asked for, %s is not to be restarted' % (v.name(born[0]), alias)
        if x.get('restart') and len(born) + len(failed) < len(died):
            yield 'D02', 'not-restarted' + suffix, '%d of %s have died, %d were started (%d are running)' % (len(died), alias, len(born), len(now.get(alias, [])))


def running(v, d):
    settled = v.mark.get('settled')
    if not settled or v.h.of('shutdown') and v.h.of('shutdown')[0]['i'] < settled['i']:
        return
    if v.procs[d.manager]['end'] and v.procs[d.manager]['end']['i'] < settled['i']:
        return
    end = v.mark.get('after', v.mark.get('probes', {})).get('i', v.last)
    alive = living(v, settled['i'], end)
    if 'after-end' in v.mark:
        yield from again(v, d, alive, v.mark['after'], v.mark['after-end'])
    requests = d.requests()
    restarts = v.h.of('admin')
    for alias, x in d.entities.items():
        mine = [r for r in requests if r[0] == alias]
        sure = [r for r in mine if r[4]]
        # those that may have been the last one
        last = [r for r in mine if not any(s[2] > (r[3] if r[3] is not None else v.last) for s in sure)]
        hi = max(r[1] for r in last)
        lo = min(r[1] for r in last)
        since = min(r[2] for r in last)
        until = max(r[3] if r[3] is not None else v.last for r in last)
        n = len(alive.get(alias, []))
        # the manager may get to know of one that has died after it got the request
        deaths = [p for p in d.instances[alias] if v.procs[p]['end'] and v.procs[p]['end']['i'] < settled['i'] and (since < v.procs[p]['end']['i'] or since and v.when(since) - v.procs[p]['end']['t'] < 5 * SEC)]
        told = {e['tag'] for e in v.h.of('kill') if e['by'].startswith('A/casual-domain-manager')}
        chosen = [p for p in deaths if own_choice(v, p) or v.procs[p]['end']['cause'] != 'kill' and not d.server(alias) and v.procs[p]['tag'] not in told]
        lo -= len([e for e in d.failed.get(alias, []) if e['i'] > since])
        ended = 'exit=' in ' '.join(x['arguments']) or v.leaked()
        if not x.get('restart'):
            lo -= len(deaths)
            # it is restarted all the same while a restart is asked for
            if not [e for e in restarts if e['op'] in ('restart', 'restart-group')]:
                quiet = [p for p in chosen if until and v.when(until) + SEC < v.procs[p]['end']['t'] or not until]
                if 'exit=' not in ' '.join(x['arguments']):
                    hi = max(0, hi - len(quiet))
        if n > hi:
            yield 'D02', 'too-many' + ('-leaked' if v.leaked() else ''), '%d of %s are running, %d were asked for last: %s' % (n, alias, hi, [e['tag'] for e in alive[alias]])
        if n < lo and not ('exit=' in ' '.join(x['arguments'])):
            suffix = '-leaked' if v.leaked() else ''
            yield 'D02', 'too-few' + suffix, '%d of %s are running, %d were asked for last (restart: %s)' % (n, alias, lo, x.get('restart', False))
    # every one of them serves, as long as the service manager is the one that they told about their services
    probes = v.mark.get('probes')
    if not probes or [p for p in v.procs.values() if 'casual-service-manager:' in p['tag'] and p['end'] and p['end']['i'] < probes['i']]:
        return
    for alias, x in d.entities.items():
        if not d.server(alias):
            continue
        svc = [a[4:].split(':')[0] for a in x['arguments'] if a.startswith('svc=')][0]
        live = [e['pid'] for e in alive.get(alias, [])]
        live = [p for p in live if not (v.procs[p]['end'] and v.procs[p]['end']['i'] < v.mark.get('probes-end', {}).get('i', v.last))]
        served = {e['pid'] for e in v.h.of('svc') if e['i'] > probes['i'] and e['svc'] == svc}
        calls = [e for e in v.h.of('call') if e['i'] > probes['i'] and e['svc'] == svc]
        if len(calls) == 6 and len(live) <= 6 and set(live) - served and v.calm():
            idle = sorted(set(live) - served)
            suffix = '-leaked' if v.leaked() else ''
            yield 'D02', 'not-used' + suffix, '%s runs, but got none of 6 calls at once to %s' % (v.name(idle[0]), svc)


def parentless(v, pid):
    """the one that started it has died"""
    parent = v.procs[v.procs[pid]['ppid']] if v.procs[pid].get('ppid') in v.procs else None
    return bool(parent and parent['end'] and parent['end']['cause'] in ('fault', 'segv', 'abort') and 'casual-domain-manager' not in parent['tag'])


def domains(v):
    for m in v.machines:
        d = Domain(v, m)
        # without its managers it is no domain
        if d.manager is None or [a for a in d.failed if a and a.startswith('casual-')]:
            continue
        yield from started(v, d)
        yield from stopped(v, d)
        yield from running(v, d)
