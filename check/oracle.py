"""What a history has to satisfy. Every function yields (property, kind, detail)."""
MS = 1000000
SEC = 1000 * MS

(BADDESC, EBLOCK, EINVAL, ELIMIT, ENOENT, EOS, EPROTO, SVCERR, SVCFAIL, ESYSTEM, ETIME, ETRAN, GOTSIG) = (2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15)


class View:
    """The history, indexed."""
    def __init__(self, h, s):
        self.h, self.s = h, s
        self.ev = h.events
        self.procs = {}
        for e in h.of('spawn'):
            self.procs[e['pid']] = {'tag': e['tag'], 'born': e, 'ppid': e['ppid'], 'end': None, 'up': None, 'm': e['tag'].split('/')[0]}
        for e in h.of('exit'):
            if e['pid'] in self.procs:
                self.procs[e['pid']]['end'] = e
        for e in h.of('server-up', 'client-up'):
            self.procs[e['pid']]['up'] = e
        self.mark = h.marks()
        self.last = self.ev[-1]['i'] if self.ev else 0
        self.tend = self.ev[-1]['t'] if self.ev else 0
        self.stuck = {e['pid'] for e in h.of('client-stuck')}
        self.machines = {m['name']: m for m in s['machines']}
        self.hard = [e for e in h.of('fault', 'disk-error', 'machine-crash', 'spawn-failed', 'tcp-reset', 'partition') if e.get('kind') not in ('stall', 'slow', 'cap', 'eintr')]

    def when(self, i):
        """the time of the event with that number, they begin with 1"""
        return self.ev[min(i, len(self.ev)) - 1]['t']

    def name(self, pid):
        return self.procs[pid]['tag'] if pid in self.procs else str(pid)

    def at(self, mark, default=None):
        e = self.mark.get(mark)
        return e['i'] if e else (self.last + 1 if default is None else default)

    def down(self):
        """when the shutdown began"""
        e = self.h.of('shutdown')
        return e[0]['i'] if e else self.last + 1

    def died(self, pid):
        """ended in a way that it did not choose, or was told to"""
        e = self.procs[pid]['end']
        return e

    def gone_before(self, pid, i):
        e = self.procs[pid]['end'] if pid in self.procs else None
        return e is not None and e['i'] < i

    def gone_at(self, pid, t):
        """died at that very moment, so that what it did last did not get out"""
        e = self.procs[pid]['end'] if pid in self.procs else None
        return e is not None and e['t'] - t < 2 * MS

    # --- services
    def offers(self):
        """service name -> [(pid, from event, to event or None)]"""
        if hasattr(self, '_offers'):
            return self._offers
        r = {}
        open_ = {}
        for e in self.h.of('server-up', 'advertise', 'unadvertise', 'exit', 'server-done'):
            pid = e['pid']
            if e['e'] == 'server-up':
                for svc in self.config_services(pid):
                    open_[(pid, svc)] = e
            elif e['e'] == 'advertise' and e['rc'] == 0:
                open_.setdefault((pid, e['svc']), e)
            elif e['e'] == 'unadvertise' and e['rc'] == 0:
                a = open_.pop((pid, e['svc']), None)
                if a:
                    r.setdefault(e['svc'], []).append((pid, a, e))
            elif e['e'] in ('exit', 'server-done'):
                for k in [k for k in open_ if k[0] == pid]:
                    r.setdefault(k[1], []).append((pid, open_.pop(k), e))
        for (pid, svc), a in open_.items():
            r.setdefault(svc, []).append((pid, a, None))
        self._offers = r
        return r

    def config_services(self, pid):
        tag = self.procs[pid]['tag']
        m, rest = tag.split('/', 1)
        alias = rest.split('#')[0].split(':')[-1]
        for sv in self.machines[m]['config'].get('servers', []):
            if sv.get('alias') == alias:
                return [x.split(':')[0] for a in sv.get('arguments', []) if a.startswith('svc=') for x in a[4:].split(',')]
        return []

    def service_config(self, m, svc):
        for sv in self.machines[m]['config'].get('services', []):
            if sv['name'] == svc or svc in sv.get('routes', []):
                return sv
        return {}

    def offers_to(self, m, svc):
        """[(pid, from, to)] of all that a call to svc from machine m may end up in"""
        names = [svc] + [sv['name'] for x in self.machines.values() for sv in x['config'].get('services', []) if svc in sv.get('routes', [])]
        r = [o for n in names for o in self.offers().get(n, [])]
        return r if len(self.machines) > 1 else [o for o in r if self.procs[o[0]]['m'] == m]

    def died_within(self, offers, lo, hi, before=0):
        """those of the offers that ended between the two, or so short before it that it was not known everywhere"""
        t = self.when(lo) - before
        def within(end):
            # one that ends itself is not there any more a while before that
            return end and end['t'] >= t and (end['i'] < hi or end['cause'] == 'exit' and end['t'] < self.when(hi) + SEC)
        return [o for o in offers if within(self.procs[o[0]]['end'])]

    def assassinated(self, pid):
        """ended by the domain manager because of a timeout"""
        tag = self.procs[pid]['tag']
        return any(k['tag'] == tag and 'casual-domain-manager' in k['by'] and k['sig'] in (6, 9) for k in self.h.of('kill'))

    def leaked(self):
        """lookups that were answered with an instance, to a caller that died before it sent the call"""
        if hasattr(self, '_leaked'):
            return self._leaked
        called = {(e['c'], e['tag']) for e in self.h.of('msg-whole') if e['type'] in (3102, 3210)}
        self._leaked = []
        tags = {p['tag']: (pid, p) for pid, p in self.procs.items()}
        done = {}
        for e in self.h.events:
            if e['e'] in self.FINISH and 'pid' in e:
                done.setdefault(e['pid'], []).append(e['i'])
        for e in self.h.of('msg-sent'):
            if e['type'] == 3002 and (e['c'], e['peer']) not in called and e['peer'] in tags and tags[e['peer']][1]['end']:
                # it got on with something else: the operation that it was looked up for has ended
                if done.get(tags[e['peer']][0], [0])[-1] < e['i']:
                    self._leaked.append(e)
        return self._leaked

    def origin(self, svc):
        for m in self.machines.values():
            for sv in m['config'].get('services', []):
                if svc in sv.get('routes', []):
                    return sv['name']
        return svc

    def wanted(self, e):
        """the services that an operation may wait for"""
        own = [x for x in self.h.of('call', 'acall', 'connect') if x['pid'] == e['pid'] and x['i'] <= e['i']]
        if 'id' in e and any(x['id'] == e['id'] for x in own):
            own = [x for x in own if x['id'] == e['id']]
        return {self.origin(x['svc']) for x in own}

    def blocked(self):
        """the services that may wait for ever because of leaked(): they share an instance with what the dead caller looked up, or with
        a service that waits for such a one itself"""
        if hasattr(self, '_blocked'):
            return self._blocked
        tags = {p['tag']: pid for pid, p in self.procs.items()}
        names = set()
        for e in self.leaked():
            pid = tags[e['peer']]
            last = [x for x in self.h.of('call', 'acall', 'connect') if x['pid'] == pid]
            names.add(self.origin(last[-1]['svc']) if last else None)
        if None in names:
            names |= set(self.offers())
        self._blocked = self.spread(names)
        return self._blocked

    def spread(self, names):
        """the services that may wait for ever, when there is somebody that does of each of these services"""
        serves = {}
        for svc, l in self.offers().items():
            for pid, a, b in l:
                serves.setdefault(pid, set()).add(svc)
        hanging = self.hanging()
        # one step over shared instances
        shared = set(names)
        for svcs in serves.values():
            if svcs & names:
                shared |= svcs
        again = True
        while again:
            again = False
            for pid, e in hanging.items():
                if pid in serves and not serves[pid] <= shared and self.wanted(e) & shared:
                    shared |= serves[pid]
                    again = True
        return shared

    def forgotten(self):
        """the pids that wait for a reply from another domain, over a group of connections that is gone, and the services that have to
        wait because of that"""
        if hasattr(self, '_forgotten'):
            return self._forgotten
        pids = set()
        forwards = {l['to'] for l in self.s.get('links', []) if l.get('forward')}
        for p in self.procs.values():
            if '/casual-gateway-outbound' in p['tag'] and p['end']:
                for pid, e in self.hanging().items():
                    own = [x['i'] for x in self.h.of('call', 'acall', 'connect') if x['pid'] == pid and x['i'] <= e['i']]
                    if own and own[0] < p['end']['i'] and (self.procs[pid]['m'] == p['m'] or p['m'] in forwards):
                        pids.add(pid)
        names = set()
        for svc, l in self.offers().items():
            if any(o[0] in pids for o in l):
                names.add(svc)
        self._forgotten = pids, self.spread(names)
        return self._forgotten

    def calm(self):
        """nothing made time pass where work should have been done"""
        o = self.s.get('opt', {})
        return not o.get('stall_ppm') and not o.get('wake_hi') and not [f for f in self.h.of('fault') if f['kind'] in ('stall', 'slow', 'cap', 'clock', 'eintr')] and o.get('dgram_cap', 100) > 2

    def excused(self, c, id, e):
        """in a transaction the state of it may turn a good reply to an error"""
        return bool(c.started[id]['g']) or any(x['g'] for x in c.runs.get(id, []))

    START = {'call', 'acall', 'getrply', 'connect', 'recv', 'enq', 'deq', 'peek', 'bdeq', 'wdeq', 'browse', 'draining', 'tx-start'}
    FINISH = {'ended', 'svc-end', 'client-done', 'result', 'acalled', 'enqd', 'deqd', 'peekd', 'bdeqd', 'wdeqd', 'browse-end', 'drain', 'drained', 'tx', 'received', 'connected', 'areply', 'noreply', 'getany-failed', 'unexpected-reply', 'spawn'}

    def tx_deadline(self, g):
        """when the timeout that the application set for its transaction passes"""
        if not hasattr(self, '_tx_deadline'):
            self._tx_deadline, value = {}, {}
            for e in self.h.of('tx'):
                if e.get('op') == 'timeout' and e['rc'] == 0:
                    value[e['pid']] = e['value']
                elif e.get('op') == 'begin' and e['rc'] == 0 and value.get(e['pid']):
                    self._tx_deadline[e['g']] = e['t'] + value[e['pid']] * SEC
        return self._tx_deadline.get(g)

    def grids(self):
        """the transactions that resources took part in"""
        return sorted({e['g'] for e in self.h.of('xa', 'branch-left') if e.get('g')})

    def hanging(self):
        """pid -> the operation that it never came out of, of those that live when everything has settled"""
        r, end = {}, self.at('settled')
        for e in self.ev:
            if e['i'] > end:
                break
            k = e['e']
            if k in self.START:
                r[e['pid']] = e
            elif k in self.FINISH or k == 'exit':
                r.pop(e['pid'], None)
        # clients that were stuck are killed before that
        for e in self.ev:
            if e['i'] > end:
                break
            if e['e'] in self.START and e['pid'] in self.stuck:
                r[e['pid']] = e
            elif e['e'] in self.FINISH and e['pid'] in self.stuck:
                r.pop(e['pid'], None)
        return r


def duration(text):
    n = ''.join(c for c in text if c.isdigit() or c == '.')
    return int(float(n) * {'ms': MS, 's': SEC, 'us': 1000, 'min': 60 * SEC, 'h': 3600 * SEC}[text[len(n):]])


def is_route(v, asked, executed):
    for m in v.machines.values():
        for sv in m['config'].get('services', []):
            if asked in sv.get('routes', []) and sv['name'] == executed:
                return True
    return False


def timeout_of(v, e):
    """the execution timeout that is configured for the service of this call, in ns"""
    m = e['tag'].split('/')[0]
    d = v.service_config(m, e['svc']).get('execution', {}).get('timeout', {}).get('duration')
    if not d:
        d = v.machines[m]['config'].get('global', {}).get('service', {}).get('execution', {}).get('timeout', {}).get('duration')
    return duration(d) if d else None


def chain(calls, id):
    """the calls that led to this one, and itself"""
    parts = id.split('.')
    return [calls[x] for x in ('.'.join(parts[:n]) for n in range(1, len(parts) + 1)) if x in calls]


class Calls:
    def __init__(self, v):
        h = v.h
        self.started = {e['id']: e for e in h.of('call', 'acall', 'connect')}
        self.runs, self.ends, self.results = {}, {}, {}
        for e in h.of('svc'):
            self.runs.setdefault(e['id'], []).append(e)
        for e in h.of('svc-end'):
            self.ends.setdefault(e['id'], []).append(e)
        for e in h.of('result', 'areply'):
            self.results.setdefault(e['id'], []).append(e)
        self.cancelled = {e['id']: e for e in h.of('cancel') if e['rc'] == 0}


def timed(v, name):
    """the service has an execution timeout, by whichever of its names"""
    for m in v.s['machines']:
        for x in m['config'].get('services', []):
            if name == x['name'] or name in x.get('routes', []):
                return bool(x.get('execution'))
    return False


def calls(v):
    c = Calls(v)
    h = v.h
    for id, r in c.runs.items():
        if len(r) > 1:
            yield 'S01', 'executed-twice', 'request %s was executed %d times' % (id, len(r))
        for e in r:
            if not e['intact']:
                for p in ('S01', 'C01'):
                    yield p, 'request-altered', 'request %s reached the service altered' % id
            if id in c.started and c.started[id]['svc'] != e['svc'] and not is_route(v, c.started[id]['svc'], e['svc']):
                yield 'S01', 'wrong-service', 'request %s for %s was executed by %s' % (id, c.started[id]['svc'], e['svc'])
    for id, rs in c.results.items():
        if len(rs) > 1:
            yield 'S01', 'two-results', '%s ended %d times' % (id, len(rs))
        e = rs[0]
        if e['bad']:
            for p in ('S01', 'C01'):
                yield p, 'reply-' + e['bad'], 'the reply of %s is %s (%s)' % (id, e['bad'], e['text'])
        if id in c.cancelled and c.cancelled[id]['i'] < e['i']:
            yield 'S01', 'reply-after-cancel', '%s was cancelled and got a reply' % id
        if id in c.started:
            yield from outcome(v, c, id, e)
    for e in h.of('acalled'):
        if e['cd'] == -1:
            yield from justify(v, c, e['id'], e)
    # one that is not to be answered is executed all the same, if no server has died
    if not v.hard and not v.leaked() and not [p for p in v.procs.values() if '/sim-server:' in p['tag'] and p['end'] and p['end']['i'] < v.at('settled')] and v.s.get('world') in ('services', 'events'):
        for e in h.of('acalled'):
            x = c.started.get(e['id'])
            if e['cd'] != -1 and x and x['flags'] & 4 and e['id'] not in c.runs and e['i'] < v.at('settled') and not timed(v, x['svc']):
                yield 'S02', 'not-executed', '%s, that is not to be answered, to %s was accepted and never executed' % (e['id'], x['svc'])
    for e in h.of('areply'):
        if e['err'] == BADDESC and e['id'] in c.started:
            yield 'S01', 'lost-reply', 'nothing is known of the pending call %s' % e['id']
    for e in h.of('cd-reused'):
        yield 'S01', 'descriptor-reused', '%s got descriptor %d, that is in use' % (e['id'], e['cd'])
    for e in h.of('unexpected-reply'):
        yield 'S01', 'unexpected-reply', '%s got a reply for descriptor %d that is not pending' % (e['who'], e['cd'])
    for e in h.of('getany-failed'):
        if e['err'] == BADDESC:
            yield 'S01', 'stale-reply', '%s got a reply for a call that is not pending' % e['who']
    # every call ends
    for pid, e in v.hanging().items():
        if e['e'] in ('call', 'getrply'):
            suffix = '-leaked' if v.leaked() and v.wanted(e) & v.blocked() else ''
            pids, services = v.forgotten()
            if pid in pids or v.wanted(e) & services:
                suffix = '-outbound-died'
            yield 'S01', 'never-ended' + suffix, '%s: %s never ended' % (v.name(pid), e.get('id', e.get('who')))
            yield 'S02', 'never-served' + suffix, '%s: %s never ended' % (v.name(pid), e.get('id', e.get('who')))


def outcome(v, c, id, e):
    err = e['err']
    ends = c.ends.get(id, [])
    if err == 0 or err == SVCFAIL:
        good = [x for x in ends if x['i'] < e['i'] and x['ok'] == (err == 0)]
        if not good:
            yield 'S01', 'result-not-from-service', '%s ended with %d, but the service %s' % (id, err, 'ended it with %s' % [(x['ok'], x['code']) for x in ends] if ends else 'did not end it')
        else:
            g = good[0]
            if e['urcode'] != g['code']:
                yield 'S01', 'user-code', '%s returned user code %d, the caller got %d' % (id, g['code'], e['urcode'])
            if e['text'] != g['text'] or e['size'] != g['size']:
                for p in ('S01', 'C01'):
                    yield p, 'reply-content', '%s: the service returned %d bytes, the caller got %d' % (id, g['size'], e['size'])
        return
    yield from justify(v, c, id, e)


def justify(v, c, id, e):
    """an error result has to have a reason"""
    start, err = c.started[id], e['err']
    svc = start['svc']
    m = start['tag'].split('/')[0]
    lo, hi = start['i'], e['i']
    name = '%s to %s ended with error %d' % (id, svc, err)
    if hi > v.down():
        return
    offers = v.offers_to(m, svc)
    boot = v.at('faults-begin', 0)
    if v.s.get('world') == 'gateways':
        yield from net.justify(v, c, id, e, offers, name)
    elif err == ENOENT:
        for pid, a, b in offers:
            if v.procs[pid]['m'] == m and a['i'] < boot and (b is None or b['i'] > hi):
                for p in ('S01', 'S02'):
                    yield p, 'no-entry', name + ', but %s offered it all the time' % v.name(pid)
                break
    elif err == ETIME:
        if not any(timeout_of(v, x) for x in chain(c.started, id)) and not start['g']:
            for p in ('S01', 'S03'):
                yield p, 'timeout-without-reason', name
    elif err in (SVCERR, ESYSTEM):
        dead = v.died_within(offers, lo, hi, before=5 * SEC)
        if not dead and not v.excused(c, id, e):
            yield 'S01', 'error-without-reason', name + ', nobody died'
        elif err == SVCERR and dead and not v.excused(c, id, e) and all(v.assassinated(pid) for pid, a, b in dead):
            yield 'S03', 'collateral', name + ', its instance was ended for the timeout of another call'
    elif err == EBLOCK:
        if not start['flags'] & 1:
            yield 'S01', 'error-without-reason', name
    elif err == GOTSIG:
        if not [f for f in v.h.of('fault') if f['kind'] in ('signal', 'eintr')] and not [k for k in v.h.of('kill') if k['tag'] == e['tag']]:
            yield 'S01', 'error-without-reason', name
    elif err == EINVAL:
        if not (start['flags'] & 4 and not start['flags'] & 8 and start['g']):
            yield 'S01', 'error-without-reason', name
    elif err == ETRAN:
        if not start['g']:
            yield 'S01', 'error-without-reason', name
    else:
        yield 'S01', 'error-without-reason', name


def deadline_of(v, c, id):
    """the first of the deadlines this call is under, and the service that it belongs to"""
    r = None
    for x in chain(c.started, id):
        d = timeout_of(v, x)
        if d and (r is None or x['t'] + d < r):
            r = x['t'] + d
    return r


def timeouts(v):
    c = Calls(v)
    if [f for f in v.h.of('fault') if f['kind'] == 'clock']:
        return
    calm = v.calm()
    waits = {}
    for e in v.h.of('getrply'):
        waits.setdefault(e['pid'], []).append(e)
    for id, rs in c.results.items():
        if id not in c.started:
            continue
        e, start = rs[0], c.started[id]
        d = deadline_of(v, c, id)
        if e['err'] == ETIME and d:
            over = v.tx_deadline(start.get('g'))
            if e['t'] < (min(d, over) if over else d) - MS:
                yield 'S03', 'timeout-too-early', '%s to %s timed out %.3f ms before its deadline' % (id, start['svc'], (d - e['t']) / MS)
            ends = c.ends.get(id, [])
            if calm and ends and ends[0]['t'] < d - 60 * MS:
                yield 'S03', 'timed-out-in-time', '%s to %s was done %.3f ms before its deadline' % (id, start['svc'], (d - ends[0]['t']) / MS)
            contract = v.service_config(start['tag'].split('/')[0], start['svc']).get('execution', {}).get('timeout', {}).get('contract', 'linger')
            if contract in ('kill', 'abort') and calm:
                for run in c.runs.get(id, []):
                    if run['i'] > e['i'] or [x for x in ends if x['t'] < e['t'] + SEC]:
                        continue
                    end = v.procs[run['pid']]['end']
                    if not end or end['t'] > e['t'] + SEC:
                        yield 'S03', 'late-instance-lives', '%s to %s timed out, its instance was not ended' % (id, start['svc'])
        if calm and d and not any(x['flags'] & 0x20 for x in chain(c.started, id)):
            since = start['t']
            if e['e'] == 'areply':
                since = max([w['t'] for w in waits.get(e['pid'], []) if w['i'] < e['i']] + [since])
            if e['t'] > max(d, since) + SEC:
                yield 'S03', 'timeout-too-late', '%s to %s ended %.3f ms after its deadline' % (id, start['svc'], (e['t'] - max(d, since)) / MS)
    for pid, e in v.hanging().items():
        if e['e'] == 'call' and deadline_of(v, c, e['id']):
            yield 'S03', 'never-timed-out', '%s: %s never ended' % (v.name(pid), e['id'])


def instances(v):
    """an instance gets one request at a time, and in the end all of them are of use"""
    busy = {}
    for e in v.h.of('msg-sent', 'svc-end', 'exit'):
        if e['e'] == 'exit':
            busy.pop(v.name(e['pid']), None)
        elif e['e'] == 'msg-sent' and e['type'] == 3104:
            busy.pop(e['tag'], None)
        elif e['e'] == 'msg-sent' and e['type'] == 3102 and '/sim-server' in e['peer']:
            if e['peer'] in busy:
                yield 'S02', 'two-at-a-time', '%s got a request from %s before it was done with that from %s' % (e['peer'], e['tag'], busy[e['peer']])
            busy[e['peer']] = e['tag']
    c = Calls(v)
    probes = v.at('probes', 1 << 60)
    for id, start in c.started.items():
        if start['i'] < probes or start['e'] != 'call' or id not in c.results:
            continue
        e = c.results[id][0]
        m = start['tag'].split('/')[0]
        good = [o for o in v.offers_to(m, start['svc']) if v.procs[o[0]]['m'] == m and o[1]['i'] < start['i'] and (o[2] is None or o[2]['i'] > e['i'])]
        if e['err'] and good and not (e['err'] == ETIME and (not v.calm() or (timeout_of(v, start) or 0) < 100 * MS)):
            # the one that it was for may be gone, before the others got to know
            if [o for o in v.offers_to(m, start['svc']) if o[2] is not None and start['t'] - 10 * SEC < o[2]['t'] and o[2]['i'] < e['i']]:
                continue
            suffix = '-leaked' if v.leaked() else ''
            yield 'S02', 'probe-failed' + suffix, '%s to %s ended with %d, but %s is there' % (id, start['svc'], e['err'], v.name(good[0][0]))


ONEPHASE = 0x40000000
COMMITTED, ROLLED = 'committed', 'rolled back'


class Branches:
    """what the resource managers saw, per branch"""
    def __init__(self, v):
        self.by = {}                # (rm, g, b) -> events
        self.trans = {}             # g -> keys
        for e in v.h.of('xa', 'branch-left'):
            if not e.get('g'):
                continue
            k = (e['rm'], e['g'], e['b'])
            self.by.setdefault(k, []).append(e)
            self.trans.setdefault(e['g'], [])
            if k not in self.trans[e['g']]:
                self.trans[e['g']].append(k)

    def outcomes(self, k):
        """[(what, event, had work)] of a branch, there is more than one if it was made again"""
        r = []
        for e in self.by[k]:
            if e['e'] == 'branch-left':
                r.append(('left ' + e['state'], e, bool(e['items'])))
            elif e['op'] == 'lost' or (e['op'] == 'rollback' and e['rc'] == 0) or (e['op'] in ('prepare', 'commit') and 100 <= e['rc'] < 108):
                r.append((ROLLED, e, bool(e.get('items'))))
            elif e['op'] == 'commit' and e['rc'] == 0:
                r.append((COMMITTED, e, bool(e.get('items'))))
        return r

    def of(self, g):
        return [(k,) + o for k in self.trans.get(g, []) for o in self.outcomes(k)]


def transactions(v):
    if not v.h.of('xa') and not v.h.of('branch-left'):
        return
    b = Branches(v)
    h = v.h
    disrupted = bool(h.of('machine-crash')) or any('casual-transaction-manager' in v.name(e['pid']) and e['i'] < v.down() for e in h.of('exit'))
    asked = {}
    for e in h.of('tx-start'):
        if e['op'] in ('commit', 'rollback'):
            asked.setdefault(e['g'], []).append(e)
    began = {e['g']: e for e in h.of('tx') if e.get('op') == 'begin' and e['rc'] == 0}
    told = {}
    for e in h.of('tx'):
        if e.get('op') in ('commit', 'rollback') and e['g']:
            told.setdefault(e['g'], []).append(e)
    # T01: all or nothing
    loose = '-proxy-died' if any('rm-proxy' in v.name(e['pid']) and e['i'] < v.down() for e in h.of('exit')) else ''
    c = Calls(v)
    for g in b.trans:
        o = b.of(g)
        committed = [x for x in o if x[1] == COMMITTED and x[3]]
        rolled = [x for x in o if x[1] == ROLLED and x[3]]
        # one that is still at work, and waits for something that is not the transaction, is not left yet
        still = set(v.hanging())
        left = [x for x in o if x[1].startswith('left') and (x[3] or x[1] == 'left prepared') and not (x[1] == 'left active' and {y['pid'] for y in b.by[x[0]] if y['e'] == 'xa'} & still)]
        if disrupted:
            continue
        if committed and rolled:
            yield 'T01', 'mixed' + cause(v, c, g, rolled), '%s: %s committed, %s rolled back (%s)' % (g[:8], committed[0][0][0], rolled[0][0][0], rolled[0][2]['op'])
        for k, what, e, items in left:
            yield 'T01', ('left-ended' if loose and what == 'left active' else what.replace(' ', '-')) + (loose or orphan(v, began, g, b, k)), '%s: %s was left %s' % (g[:8], k[0], what[5:])
        # T02: what was told
        for e in told.get(g, []):
            if e['op'] == 'commit' and e['rc'] in (0, -100) and rolled:
                yield 'T02', 'ok-but-rolled-back' + cause(v, c, g, rolled), '%s: commit returned TX_OK, %s rolled back (%s)' % (g[:8], rolled[0][0][0], rolled[0][2]['op'])
            if e['op'] == 'commit' and e['rc'] in (0, -100) and left and not rolled:
                yield 'T02', 'ok-but-left' + loose, '%s: commit returned TX_OK, %s is left %s' % (g[:8], left[0][0][0], left[0][1][5:])
            if (e['op'] == 'commit' and e['rc'] in (-2, -102) or e['op'] == 'rollback' and e['rc'] in (0, -100)) and committed:
                yield 'T02', 'rolled-back-but-committed', '%s: %s returned %d, %s committed' % (g[:8], e['op'], e['rc'], committed[0][0][0])
    # T02: nothing of what failed is committed
    for ends in c.ends.values():
        for e in ends:
            if not e['ok'] and e['g'] and not disrupted and not v.gone_at(e['pid'], e['t']):
                done = [x for x in b.of(e['g']) if x[1] == COMMITTED and x[3]]
                if done and not reported_lost(v, c, e):
                    yield 'T02', 'failed-but-committed', '%s: %s failed in it, %s committed' % (e['g'][:8], e['id'], done[0][0][0])
    for id, rs in c.results.items():
        for e in rs:
            g = c.started[id]['g'] if id in c.started else ''
            if not g or e['err'] not in (SVCERR, SVCFAIL, ETIME, ESYSTEM) or c.started[id]['flags'] & 8 or disrupted:
                continue
            # the callee did not have to take part
            if not any(x['g'] == g for x in c.runs.get(id, [])):
                continue
            late = [x for x in asked.get(g, []) if x['op'] == 'commit' and x['i'] > e['i']]
            done = [x for x in b.of(g) if x[1] == COMMITTED and x[3]]
            if late and done:
                yield 'T02', 'call-failed-but-committed', '%s: %s failed with %d in it, %s committed' % (g[:8], id, e['err'], done[0][0][0])
    # T03: what the transaction manager asks of resources
    hurt = bool(v.hard) or any(k.startswith('rm_') and k != 'rm_rdonly' for k in v.s.get('opt', {})) or any(e['i'] < v.down() and 'sim-server' in v.name(e['pid']) for e in h.of('exit'))
    timed = {c.started[id]['g'] for id, rs in c.results.items() if id in c.started and any(e['err'] in (ETIME, SVCERR) for e in rs)}
    for k, es in b.by.items():
        state, vote = None, None
        for e in es:
            if e['e'] != 'xa':
                continue
            op, rc = e['op'], e['rc']
            owner = began.get(k[1])
            abandoned = owner and v.procs[owner['pid']]['end'] and v.procs[owner['pid']]['end']['i'] < e['i']
            if op == 'start' and rc == 0:
                state = state if state == 'active' else 'active'
            elif op == 'prepare':
                if rc in (-4, -6) and not disrupted and not hurt and not loose and k[1] not in timed:
                    yield 'T03', 'prepare-of-' + (state or 'none'), '%s %s: xa_prepare got %d' % (k[0], k[1][:8], rc)
                if rc == 0:
                    state = 'prepared'
                elif rc == 3 or 100 <= rc < 108:
                    state = 'voted %d' % rc
                    vote = rc
            elif op == 'commit':
                if state in ('rolled back',) or state and state.startswith('voted 1'):
                    yield 'T03', 'commit-of-' + state.split()[0], '%s %s: xa_commit after %s' % (k[0], k[1][:8], state)
                if rc == -6 and not disrupted and not hurt and not loose and k[1] not in timed:
                    yield 'T03', 'commit-of-' + (state or 'none'), '%s %s: xa_commit got %d' % (k[0], k[1][:8], rc)
                if rc == 0:
                    state = 'committed' if 'rm-proxy' in v.name(e['pid']) else 'committed by itself'
            elif op == 'rollback':
                if state and state.startswith('voted 1') and not disrupted:
                    yield 'T03', 'rollback-of-voted', '%s %s: xa_rollback after %s' % (k[0], k[1][:8], state)
                if state == 'committed' and rc == -4 and not abandoned and not disrupted and not hurt and not loose:
                    yield 'T03', 'rollback-of-committed', '%s %s: xa_rollback after it was committed' % (k[0], k[1][:8])
                if rc == 0:
                    state = 'rolled back'
            elif op == 'lost':
                state = 'lost'
    for g, ks in b.trans.items():
        voted, started = set(), set()
        first = None
        events = sorted((e for k in ks for e in b.by[k] if e['e'] == 'xa'), key=lambda e: e['i'])
        for e in events:
            k = (e['rm'], e['b'])
            if e['op'] == 'start' and e['rc'] == 0:
                started.add(k)
            elif e['op'] == 'prepare' and e['rc'] in (0, 3):
                voted.add(k)
            elif e['op'] in ('lost',) or e['op'] == 'rollback' and e['rc'] == 0 and first is None:
                started.discard(k)
            elif e['op'] == 'prepare' and 100 <= e['rc'] < 108:
                pass
            elif e['op'] == 'commit' and not e['flags'] & ONEPHASE and first is None:
                first = e
                missing = started - voted
                if missing and not disrupted:
                    yield 'T03', 'commit-before-votes', '%s: %s is told to commit, %s has not voted' % (g[:8], e['rm'], sorted(missing)[0][0])
            elif e['op'] == 'commit' and e['flags'] & ONEPHASE and len(started) > 1 and not disrupted:
                # the others may be done, and read only
                rest = [x for x in started if x != k and x not in voted]
                if rest:
                    yield 'T03', 'one-phase-of-several', '%s: %s is told to commit in one phase, %s takes part too' % (g[:8], e['rm'], sorted(rest)[0][0])
    yield from tx_ends(v, loose)
    yield from tx_log(v, b, loose or disrupted)


def reported_lost(v, c, e):
    """the reply never got to where it would have told about the failure"""
    call = c.started.get(e['id'])
    if not call:
        return True
    end = v.procs[call['pid']]['end']
    return end is not None and end['i'] < v.down() and not any(True for r in c.results.get(e['id'], []))


def cause(v, c, g, rolled):
    """in which way work was lost, for those that are known not to be noticed"""
    if all(x[2]['op'] == 'lost' for x in rolled):
        return '-lost'
    # a call that ended just when it timed out: the caller has the reply, the transaction is rolled back
    for id, s in c.started.items():
        if s.get('g') != g:
            continue
        d = min((x for x in (deadline_of(v, c, id), v.tx_deadline(g)) if x), default=None)
        acked = [x['t'] for x in c.ends.get(id, [])]
        if d and acked and acked[0] + 50 * MS > d:
            return '-timed-out'
    return ''


def orphan(v, began, g, b, k):
    """a branch that nobody is left to complete, in a way that is known"""
    events = [x for y in b.trans[g] for x in b.by[y] if x['e'] == 'xa']
    starts = [x for x in b.by[k] if x['e'] == 'xa' and x['op'] == 'start' and x['rc'] == 0]
    if not starts:
        return ''
    # a call that was on its way when the transaction was rolled back
    over, t = [(x['i'], x['t']) for x in b.by[k] if x['e'] == 'xa'][-1]
    if any(x['op'] == 'rollback' and x['t'] < t + 100 * MS and 'rm-proxy' in v.name(x['pid']) for x in events):
        return '-started-late'
    if any(x['g'] == g and x['op'] == 'rollback' and x['i'] < over for x in v.h.of('tx-start')):
        return '-started-late'
    e = began.get(g)
    pid = e['pid'] if e else min(events, key=lambda x: x['i'])['pid']
    end = v.procs[pid]['end']
    if not end:
        # it was interrupted (the contract of the service) before it had told the transaction manager to complete
        if e is None and any(x['tag'] == v.name(pid) and x['sig'] == 2 and x['i'] > over and x['t'] < t + 100 * MS for x in v.h.of('kill')):
            return '-owner-interrupted'
        return ''
    # the part of the transaction was not known yet when the owner was found dead
    if over > end['i']:
        return '-owner-died'
    # nobody has told the transaction manager
    if all(x['pid'] == pid for x in starts):
        return '-owner-died'
    # nobody tells when a process that is not part of the domain is gone
    if e and 'sim-client' in v.name(pid) and not any(c.get('child') and c['name'] == v.name(pid).split(':')[1].split('#')[0] for c in v.s['clients']):
        return '-owner-died'
    return ''


def tx_ends(v, loose):
    """tx calls come back"""
    for pid, e in v.hanging().items():
        if e['e'] == 'tx-start':
            yield 'T01', 'never-ended' + loose, '%s: tx_%s never ended' % (v.name(pid), e['op'])


def tx_log(v, b, hurt):
    """what the log held when the power went, against what resources had been told"""
    import sqlite3, shutil, tempfile, os, glob
    for e in v.h.of('dump'):
        if not e['path'].endswith('tm.log'):
            continue
        d = tempfile.mkdtemp(dir='/dev/shm')
        try:
            for x in v.h.of('dump'):
                if x['i'] - e['i'] < 4 and x['i'] >= e['i'] and x['path'].startswith(e['path']):
                    shutil.copy(v.h.dump(x), os.path.join(d, os.path.basename(x['path'])))
            known = None
            try:
                con = sqlite3.connect(os.path.join(d, 'tm.log'))
                known = {bytes(r[0]).hex() for r in con.execute('select gtrid from trans')}
                con.close()
            except sqlite3.DatabaseError as x:
                # before the table was made there can not be anything that needs it
                known = set()
                why = str(x)
        finally:
            shutil.rmtree(d)
        if e['i'] > v.at('down'):
            # after an orderly shutdown: nothing that is complete
            tm = [p for p in v.procs.values() if 'casual-transaction-manager' in p['tag']]
            if hurt or not tm or any(not p['end'] or p['end']['status'] or p['end']['signal'] for p in tm) or v.h.of('disk-error'):
                continue
            for g in sorted(known):
                if g in b.trans and all(b.outcomes(k) and not [o for o in b.outcomes(k) if o[0].startswith('left')] for k in b.trans[g]):
                    yield 'T04', 'record-left', '%s: all of its resources are done, the log still has it' % g[:8]
            continue
        for g, ks in b.trans.items():
            prepared, done = set(), set()
            for k in ks:
                for x in b.by[k]:
                    if x['i'] > e['i'] or x['e'] != 'xa':
                        continue
                    if x['op'] == 'prepare' and x['rc'] == 0:
                        prepared.add(k)
                    if x['op'] == 'commit' and x['rc'] == 0 and not x['flags'] & ONEPHASE:
                        done.add(k)
            # a user that does not wait for the completion has been told that the transaction is committed
            told = [x for x in v.h.of('tx') if x['op'] == 'commit' and x['g'] == g and x['rc'] == 0 and x['i'] < e['i']]
            if told and prepared - done and g not in known:
                yield 'T04', 'told-before-logged', '%s: the user was told that it is committed, %s is prepared, and the log that is left does not know it' % (g[:8], sorted(prepared - done)[0][0])
            if done and prepared - done and g not in known:
                yield 'T04', 'committed-before-logged', '%s: %s was committed, %s is prepared, and the log that is left does not know it' % (g[:8], sorted(done)[0][0], sorted(prepared - done)[0][0])


import queues as q
import domain
import events
import gateways as net

ALL = [calls, timeouts, instances, transactions, q.queues, q.forwarded, domain.domains, events.events, net.networks, lambda v: upright(v)]


# who answers for it that no part of casual falls over by itself
UPRIGHT = {'services': ('S01', 'S02', 'S03'), 'events': ('E01',), 'transactions': ('T01',), 'queues': ('Q01', 'Q02'), 'forwards': ('Q06',), 'domains': ('D01', 'D02'), 'gateways': ('G01', 'G02', 'G03')}


def upright(v):
    """nothing that casual consists of crashes"""
    for p in v.procs.values():
        x = p['end']
        if x and '/casual-' in p['tag'] and x['cause'] in ('segv', 'abort'):
            for prop in UPRIGHT.get(v.s.get('world'), ()):
                yield prop, 'crashed', '%s crashed: %s' % (p['tag'], x['cause'])


def check(h, s):
    v = View(h, s)
    seen = set()
    for f in ALL:
        for p, kind, detail in f(v):
            if s.get('world') == 'gateways':
                # the same guarantees, across domains
                p = net.PROPERTY.get(p)
                if p is None:
                    continue
                if kind in ('left-ended', 'ok-but-left') or kind.startswith('left-prepared'):
                    lost = net.parted(v, next(g for g in v.grids() if g.startswith(detail[:8])))
                    if lost:
                        kind = kind.replace('-started-late', '').replace('-owner-died', '') + lost
            if (p, kind, detail) not in seen:
                seen.add((p, kind, detail))
                yield p, kind, detail
