"""Calls, and transactions, that go over several domains."""
from oracle import MS, SEC, ENOENT, ETIME, SVCERR, ESYSTEM, EBLOCK, GOTSIG, EINVAL, ETRAN

# what is asked of one domain is asked of several, and reported as what it is then
PROPERTY = {'S01': 'G01', 'C01': 'G01', 'T01': 'G02', 'T02': 'G02', 'G01': 'G01', 'G02': 'G02', 'G03': 'G03', 'S02': None}

# a connection is tried every 3 s, and what both ends do when one is lost takes its time
RECOVERS = 30 * SEC


def disturbed(v, lo, hi):
    """something was hurt while the call went on, or before it and it may not be whole again"""
    t = v.when(lo)
    end = max([v.when(hi)] + [0])
    for e in v.hard:
        if e['e'] == 'fault' and e.get('kind') in ('partition', 'crash', 'reset', 'kill', 'signal', 'spawnfail', 'disk') or e['e'] != 'fault':
            if e['i'] < hi and e['t'] + dur(v, e) + RECOVERS > t:
                return True
    for p in v.procs.values():
        x = p['end']
        if x and x['i'] < hi and x['t'] + RECOVERS > t and ('/sim-server' in p['tag'] or '/casual-' in p['tag'] and 'logical-connect' not in p['tag']):
            return True
        # one that ends itself is not there any more a while before that
        if x and x['cause'] == 'exit' and x['i'] >= hi and x['t'] < end + SEC and '/sim-server' in p['tag']:
            return True
    return False


def dur(v, e):
    """how long it may last"""
    d = 0
    for f in v.s.get('faults', []):
        if 'kind=' + str(e.get('kind', e['e'])) in f:
            for x in f.split():
                if x.startswith(('dur=', 'restart=')):
                    d = max(d, int(x.split('=')[1]))
    return d


def reaches(v, m, svc):
    """domains with the service that are known to m, other than over another domain"""
    near = {l['to'] for l in v.s['links'] if l['from'] == m}
    return [o for o in v.offers_to(m, svc) if v.procs[o[0]]['m'] == m or v.procs[o[0]]['m'] in near]


def justify(v, c, id, e, offers, name):
    start, err = c.started[id], e['err']
    lo, hi = start['i'], e['i']
    m = start['tag'].split('/')[0]
    if err == ENOENT:
        if disturbed(v, lo, hi):
            return
        # the first that asks for a service that one domain doesn't have any more, finds out
        if [1 for pid, a, b in v.offers_to(m, start['svc']) if b and b['i'] < hi]:
            return
        for pid, a, b in reaches(v, m, start['svc']):
            if a['i'] < v.at('faults-begin', 0) and (b is None or b['i'] > hi):
                yield 'G01', 'no-entry' + ('-leaked' if v.leaked() else ''), name + ', but %s offered it all the time' % v.name(pid)
                break
    elif err == ETIME:
        # the deadline of a transaction comes along with a call, also when the transaction doesn't
        parts = id.split('.')
        if not any(c.started.get('.'.join(parts[:k]), start)['g'] for k in range(1, len(parts) + 1)):
            yield 'G01', 'timeout-without-reason', name
    elif err in (SVCERR, ESYSTEM):
        if not disturbed(v, lo, hi) and not v.excused(c, id, e):
            yield 'G01', 'error-without-reason', name + ', nothing happened'
    elif err == EBLOCK:
        if not start['flags'] & 1:
            yield 'G01', 'error-without-reason', name
    elif err == GOTSIG:
        if not [f for f in v.h.of('fault') if f['kind'] in ('signal', 'eintr')] and not [k for k in v.h.of('kill') if k['tag'] == e['tag']]:
            yield 'G01', 'error-without-reason', name
    elif err == EINVAL:
        if not (start['flags'] & 4 and not start['flags'] & 8 and start['g']):
            yield 'G01', 'error-without-reason', name
    elif err == ETRAN:
        if not start['g']:
            yield 'G01', 'error-without-reason', name
    else:
        yield 'G01', 'error-without-reason', name


def parted(v, g):
    """a connection between domains was lost while the transaction went on

    The domain that did work for another isn't told what became of it: nobody connects to complete."""
    starts = [e for e in v.h.of('xa') if e.get('g') == g]
    if not starts:
        return ''
    t = min(e['t'] for e in starts) - RECOVERS
    down = v.down()
    for e in v.h.of('tcp-reset', 'tcp-timeout', 'partition', 'machine-crash'):
        if e['t'] + dur(v, e) > t and e['i'] < down:
            return '-connection-lost'
    for p in v.procs.values():
        x = p['end']
        if x and x['i'] < down and x['t'] > t and '/casual-gateway' in p['tag'] and 'logical-connect' not in p['tag']:
            return '-connection-lost'
    return ''


def paths(v, m):
    """the domains that m can call -> (order, hops) of the best way there"""
    best = {m: (-1, 0)}
    for l in v.s['links']:
        if l['from'] == m:
            best[l['to']] = min(best.get(l['to'], (99, 99)), (l['order'], 1))
    for l in v.s['links']:
        if l['from'] == m and l['forward']:
            for k in v.s['links']:
                if k['from'] == l['to'] and k['to'] not in best:
                    best[k['to']] = (l['order'], 2)
    return best


def networks(v):
    """when all is calm again, every service is found, where it is to be found

    The first that asks finds out what has changed: a service that another domain doesn't have any more
    is unknown the first time it is asked for, and a call that waits for a service goes to who says first
    that it's there. So it's the second time that counts."""
    if v.s.get('world') != 'gateways':
        return
    from oracle import Calls
    c = Calls(v)
    probes = v.at('probes', 1 << 60)
    again = {e['tag']: e['i'] for e in v.h.of('mark') if e['name'] == 'again' and 'tag' in e}
    for id, start in c.started.items():
        if start['i'] < probes or start['e'] != 'call' or id not in c.results or start['i'] < again.get(start['tag'], 1 << 60):
            continue
        e = c.results[id][0]
        m = start['tag'].split('/')[0]
        ways = paths(v, m)
        stays = lambda o: o[1]['i'] < v.at('settled', 0) and (o[2] is None or o[2]['i'] > e['i'])
        good = [o for o in v.offers().get(start['svc'], []) if v.procs[o[0]]['m'] in ways and stays(o)]
        if not good:
            continue
        if e['err']:
            suffix = '-leaked' if v.leaked() else ''
            yield 'G03', 'probe-failed' + suffix, '%s to %s ended with %d, but %s is there' % (id, start['svc'], e['err'], v.name(good[0][0]))
            continue
        # one that comes back isn't asked again, as long as there is another
        steady = [o for o in good if o[1]['i'] < v.at('faults-begin', 0)]
        if not steady:
            continue
        wanted = min(ways[v.procs[o[0]]['m']] for o in steady)
        allowed = {x for x in ways if ways[x] <= wanted}
        for run in c.runs.get(id, [])[:1]:
            x = v.procs[run['pid']]['m']
            if x not in allowed:
                yield 'G03', 'not-preferred', '%s to %s was executed in %s, and not in %s' % (id, start['svc'], x, ' or '.join(sorted(allowed)))
