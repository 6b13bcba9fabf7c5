"""What subscribers to service events have to be told. Yields (property, kind, detail)."""
MS = 1000000
SEC = 1000 * MS
CODE = {'OK': True, 'TPESVCFAIL': False}


def parse(v, e):
    """[line] of the log of a subscriber"""
    out, bad = [], []
    text = open(v.h.dump(e), 'rb').read().decode('utf-8', 'replace')
    for n, l in enumerate(text.split('\n')):
        if not l:
            continue
        x = l.split('|')
        if len(x) != 13 or not x[2].isdigit() or not all(y.lstrip('-').isdigit() for y in x[5:8] + x[12:13]):
            bad.append((n, l))
            continue
        out.append({'n': n, 'svc': x[0], 'parent': x[1], 'pid': int(x[2]), 'execution': x[3], 'trid': x[4], 'start': int(x[5]), 'end': int(x[6]), 'pending': int(x[7]), 'result': x[8], 'type': x[9],
                    'span': x[10], 'parent_span': x[11], 'user': int(x[12])})
    if text and not text.endswith('\n'):
        bad.append((n, l))
    return out, bad


def events(v):
    logs = [e for e in v.h.of('dump') if e['path'].endswith('.elog')]
    if v.s.get('world') != 'events' or not logs:
        return
    # the service manager tells them, no one else can
    if [p for p in v.procs.values() if 'casual-service-manager:' in p['tag'] and p['end']]:
        return
    # one that is slow, or dies, delays no call
    if all('casual-event-service-log' in f for f in v.s['faults']):
        asked, running, since = set(), set(), 0
        for e in v.ev:
            if e['e'] not in ('call', 'acall', 'result', 'areply', 'cancel', 'svc', 'svc-end', 'exit'):
                continue
            if asked and not running and e['t'] - since > 10 * SEC and e['i'] < v.at('clients-end'):
                yield 'E01', 'delayed', 'nothing was executed from %d to %d ms, while %s were to be' % (since // MS, e['t'] // MS, sorted(asked)[:4])
            since = e['t']
            if e['e'] in ('call', 'acall') and not e['flags'] & 4:
                asked.add(e['id'])
            elif e['e'] in ('result', 'areply', 'cancel'):
                asked.discard(e.get('id'))
            elif e['e'] == 'svc':
                running.add((e['pid'], e['id']))
            elif e['e'] == 'svc-end':
                running.discard((e['pid'], e['id']))
            elif e['e'] == 'exit':
                running = {x for x in running if x[0] != e['pid']}
                if '/sim-client:' in v.name(e['pid']) or '/sim-server:' in v.name(e['pid']):
                    asked = set()
    epoch = v.h.summary['epoch']
    wall = lambda t: (epoch + t) // 1000
    apps = {pid for pid, p in v.procs.items() if '/sim-server:' in p['tag']}
    ends = {}
    for e in v.h.of('svc-end'):
        ends.setdefault((e['pid'], e['id']), e)
    done = {}       # pid -> the calls that it executed to the end, in order
    for e in v.h.of('svc'):
        if (e['pid'], e['id']) in ends:
            done.setdefault(e['pid'], []).append((e, ends[(e['pid'], e['id'])]))
    calls = {e['id']: e for e in v.h.of('call', 'acall')}
    # the name that it was called by
    asked = lambda b: calls[b['id']]['svc'] if b['id'] in calls else b['svc']
    for e in logs:
        alias = e['path'].rsplit('/', 1)[1].split('.')[0]
        lines, bad = parse(v, e)
        mine = sorted((p for p in v.procs if v.procs[p]['tag'].split('/', 1)[1].startswith('casual-event-service-log:%s#' % alias)), key=lambda p: v.procs[p]['born']['i'])
        # when each of them had subscribed, and until when it listened
        subscribed = {}
        for x in v.h.of('msg-received', 'msg-whole'):
            if x['type'] == 4000:
                subscribed.setdefault(x['peer'] if x['e'] == 'msg-received' else x['tag'], x)
        listening = []
        for p in mine:
            s = subscribed.get(v.name(p))
            if s:
                listening.append((s, v.procs[p]['end']))
        died = any(v.procs[p]['end'] for p in mine)
        for n, l in bad:
            # one that is killed may have written a part of it
            if not died:
                yield 'E01', 'garbled', '%s line %d is %r' % (alias, n, l[:80])
        told = {}
        for l in lines:
            if l['pid'] in apps:
                told.setdefault(l['pid'], []).append(l)
        where = {}
        for pid in apps:
            mine_done, mine_told = done.get(pid, []), told.get(pid, [])
            end = v.procs[pid]['end']
            k = 0
            for l in mine_told:
                # the call that this line is about
                j = k
                while j < len(mine_done) and not (l['start'] <= wall(mine_done[j][0]['t']) and wall(mine_done[j][1]['t']) <= l['end'] + 1 and l['svc'] == asked(mine_done[j][0])):
                    j += 1
                if j == len(mine_done):
                    before = [x for x in mine_told if x['n'] < l['n'] and x['start'] == l['start'] and x['span'] == l['span']]
                    if before:
                        yield 'E01', 'twice', '%s was told twice about a call to %s in %s' % (alias, l['svc'], v.name(pid))
                    else:
                        yield 'E01', 'not-executed', '%s was told about a call to %s in %s from %d to %d, that agrees with none' % (alias, l['svc'], v.name(pid), l['start'] - wall(0), l['end'] - wall(0))
                    continue
                where[mine_done[j][0]['id']] = (l, mine_done[j])
                k = j + 1
            for j, (b, f) in enumerate(mine_done):
                if b['id'] in where:
                    continue
                # it may have died before it said that it was done
                if end and j == len(mine_done) - 1:
                    continue
                if any(s['t'] + SEC < b['t'] and (x is None or v.when(x['i']) > f['t'] + (60 * SEC if v.s['faults'] else SEC)) for s, x in listening):
                    yield 'E01', 'missing', '%s was not told about %s (%s in %s)' % (alias, b['id'], b['svc'], v.name(pid))
        for id, (l, (b, f)) in where.items():
            # a prepared rollback turns it into an error
            want = 'OK' if f['ok'] else 'TPESVCFAIL'
            if l['result'] != want and not (want == 'OK' and l['result'] == 'TPESVCERR' and l['trid']):
                yield 'E01', 'result', '%s: %s ended with %s, %s was told %s' % (id, b['svc'], want, alias, l['result'])
            if l['user'] != f['code']:
                yield 'E01', 'result', '%s: %s returned %d, %s was told %d' % (id, b['svc'], f['code'], alias, l['user'])
            if l['type'] != 'S':
                yield 'E01', 'type', '%s: %s was told that %s is of type %s' % (id, alias, b['svc'], l['type'])
            c = calls.get(id)
            if c and not 0 <= l['pending'] <= l['start'] - wall(c['t']) + 2:
                yield 'E01', 'pending', '%s: %s was told that it waited for %d us, it was called %d us before' % (id, alias, l['pending'], l['start'] - wall(c['t']))
            outer = id.rsplit('.', 1)[0]
            if outer in where:
                o = where[outer][0]
                if l['execution'] != o['execution']:
                    yield 'E01', 'execution', '%s: %s was told another execution id than of %s, which it was called from' % (id, alias, outer)
                if l['parent'] not in (o['svc'], where[outer][1][0]['svc']) or l['parent_span'] != o['span']:
                    yield 'E01', 'parent', '%s: %s was told that it was called from %r, not %r' % (id, alias, l['parent'] + '/' + l['parent_span'], o['svc'] + '/' + o['span'])
            elif '.' in id and id.count('.') == 1 and l['parent']:
                yield 'E01', 'parent', '%s: %s was told that it was called from %r, not from a client' % (id, alias, l['parent'])
        spans = {}
        for id, (l, x) in where.items():
            if spans.setdefault(l['span'], id) != id:
                yield 'E01', 'span', '%s: %s and %s have the same span' % (alias, id, spans[l['span']])
    # what the service manager itself has counted
    state = [e for e in v.h.of('admind') if e['op'] == 'service-state' and e['rc'] == 0]
    if state and not [p for p in apps if v.procs[p]['end']]:
        counts = {x.split(':')[0]: [int(y) for y in x.split(':')[1:]] for x in state[-1]['text'].split()}
        executed = {}
        for l in done.values():
            for b, f in l:
                if f['i'] < state[-1]['i']:
                    executed.setdefault(asked(b), []).append(b['id'])
        for svc, c in counts.items():
            n = len(executed.get(svc, []))
            if c[0] != n:
                yield 'E01', 'counter', '%s was executed %d times, the service manager says %d' % (svc, n, c[0])
