"""What histories with queues have to satisfy. Every function yields (property, kind, detail)."""
import glob, os, shutil, sqlite3, tempfile

MS = 1000000
SEC = 1000 * MS
INF = 1 << 60

DONE, NEVER, MAYBE = 'done', 'never', 'maybe'


def unit(text):
    n = ''.join(c for c in text if c.isdigit() or c == '.')
    return int(float(n) * {'ms': MS, 's': SEC, 'us': 1000, 'min': 60 * SEC}[text[len(n):]])


def killed(v, pid):
    end = v.procs[pid]['end']
    return end if end and end['cause'] != 'exit' else None


class Transactions:
    """what the applications know about the outcome of each of their transactions"""
    def __init__(self, v):
        h = v.h
        self.v = v
        self.began = {e['g']: e for e in h.of('tx') if e.get('op') == 'begin' and e['rc'] == 0}
        self.asked, self.told = {}, {}
        for e in h.of('tx-start'):
            if e['op'] in ('commit', 'rollback') and e.get('g'):
                self.asked.setdefault(e['g'], []).append(e)
        # an application that does not wait for the second phase
        early, self.early = {}, set()
        for e in h.of('tx'):
            if e.get('op') == 'control-return' or e.get('op') == 'commit-return':
                if e['rc'] == 0:
                    early[e['pid']] = e['value'] == 1
            if e.get('op') in ('commit', 'rollback') and e['g']:
                self.told.setdefault(e['g'], []).append(e)
                if early.get(e['pid']):
                    self.early.add(e['g'])
        self.svc, self.end, self.result = {}, {}, {}
        for e in h.of('svc'):
            if e['g'] and e['g'] not in self.began:
                self.svc.setdefault(e['g'], []).append(e)
        for e in h.of('svc-end'):
            if e['g'] and e['g'] not in self.began:
                self.end.setdefault(e['g'], []).append(e)
        for e in h.of('result', 'areply'):
            self.result.setdefault(e['id'], e)
        self.memo = {}

    def of(self, g):
        """(outcome, from which event, to which event): when it happened"""
        if g not in self.memo:
            self.memo[g] = self.find(g)
        return self.memo[g]

    def find(self, g):
        v = self.v
        if g in self.began:
            lo = self.asked[g][0]['i'] if g in self.asked else INF
            owner = self.began[g]['pid']
            gone = v.procs[owner]['end']
            if gone:
                lo = min(lo, gone['i'])
            limit = v.tx_deadline(g)
            late = False
            if limit is not None:
                for e in v.ev[self.began[g]['i'] - 1:]:
                    if e['t'] >= limit - 2 * MS:
                        late = e['i'] < lo or any(x['i'] > e['i'] for x in self.told.get(g, []))
                        lo = min(lo, e['i'])
                        break
            for e in self.told.get(g, []):
                if e['op'] == 'commit' and e['rc'] in (0, -100):
                    return (MAYBE if late else DONE), lo, (INF if g in self.early else e['i'])
                if e['op'] == 'commit' and e['rc'] in (-2, -102) or e['op'] == 'rollback' and e['rc'] in (0, -100):
                    return NEVER, lo, e['i']
            return MAYBE, lo, INF
        # the transaction of a service: it ends before the reply
        es = self.end.get(g, [])
        if es and g in self.svc:
            first = self.svc[g][0]
            own = [e for e in es if e['id'] == first['id']]
            if own:
                e = own[0]
                r = self.result.get(e['id'])
                if not e['ok']:
                    return NEVER, e['i'], (r['i'] if r and r['i'] > e['i'] else INF)
                if r and r['err'] == 0 and r['i'] > e['i']:
                    return DONE, e['i'], r['i']
                return MAYBE, e['i'], INF
        lo = min([e['i'] for e in self.v.h.of('exit') if e['pid'] in {x['pid'] for x in self.svc.get(g, [])}] + [INF])
        return MAYBE, lo if g in self.svc else 0, INF


class Message:
    def __init__(self, e):
        self.id, self.q, self.g, self.e, self.prop = e['id'], e['q'], e['g'], e, e['prop']
        self.reply = None
        self.taken = []         # deliveries


class Take:
    """a delivery of a message to someone"""
    def __init__(self, start, end, op):
        self.start, self.end, self.op, self.q, self.g, self.pid = start, end, op, start['q'], start.get('g', ''), start['pid']
        self.sel = start.get('sel', '-')
        self.outcome, self.lo, self.hi = MAYBE, 0, INF


class Queues:
    OPS = {'deq': 'deqd', 'bdeq': 'bdeqd', 'wdeq': 'wdeqd'}

    def __init__(self, v):
        self.v = v
        h = v.h
        self.tx = Transactions(v)
        self.conf, self.forwards = {}, []
        for name, m in v.machines.items():
            q = m['config'].get('queue', {})
            d = q.get('default', {}).get('queue', {}).get('retry', {})
            for g in q.get('groups', []):
                for x in g['queues']:
                    r = x.get('retry', {})
                    self.conf[(name, x['name'])] = {'count': r.get('count', d.get('count', 0)), 'delay': unit(r.get('delay', d.get('delay', '0s'))), 'group': g['alias'], 'm': name, 'enable': x.get('enable', {})}
            for g in q.get('forward', {}).get('groups', []):
                for f in g.get('services', []) + g.get('queues', []):
                    self.forwards.append((name, f))
        self.sources = {f['source'] for _, f in self.forwards}
        self.targets = {t for _, f in self.forwards for t in [f['target'].get('queue') or f.get('reply', {}).get('queue')] if t}
        down = v.down()
        self.crashed = bool(h.of('machine-crash'))
        self.died = sorted(e['i'] for e in h.of('exit') if 'casual-queue-group' in v.name(e['pid']) and e['i'] < down)
        self.managers_died = [e for e in h.of('exit') if ('casual-transaction-manager' in v.name(e['pid']) or 'casual-queue-manager' in v.name(e['pid'])) and e['i'] < down]
        self.broken = bool(self.died or self.crashed or self.managers_died)

        self.messages = {}
        for e in h.of('enq'):
            self.messages[e['id']] = Message(e)
        for e in h.of('enqd'):
            if e['id'] in self.messages:
                self.messages[e['id']].reply = e
        self.strange, self.takes, self.open, self.empty, self.errors = [], [], [], [], []
        for op, end in self.OPS.items():
            starts = {e['id']: e for e in h.of(op)}
            for e in h.of(end):
                s = starts.pop(e['id'])
                if e['rc'] == 0:
                    self.add(Take(s, e, op))
                elif e['err'] == 1 and op == 'deq':
                    self.empty.append((s, e))
                else:
                    self.errors.append((s, e))
            self.open += starts.values()
        last = {}
        for e in h.of('draining', 'drain', 'drained'):
            if e['e'] == 'draining':
                last[e['pid']] = e
            elif e['e'] == 'drain':
                self.add(Take(last.pop(e['pid']), e, 'drain'))
            else:
                s = last.pop(e['pid'], None)
                if s and e['err'] == 1:
                    self.empty.append((s, e))
        self.open += last.values()
        for m in self.messages.values():
            m.taken.sort(key=lambda t: t.end['i'])

    def add(self, t):
        if not t.g:
            t.outcome, t.lo, t.hi = DONE, t.start['i'], t.end['i']
        else:
            t.outcome, t.lo, t.hi = self.tx.of(t.g)
            if t.outcome == NEVER and self.late(t.start, t.end):
                t.outcome, t.hi = MAYBE, INF
        self.takes.append(t)
        m = self.messages.get(t.end['msg'])
        if m is None:
            self.strange.append(t)
        else:
            m.taken.append(t)

    def base(self, q):
        return q[:-6] if q.endswith('.error') else q

    def enqueued(self, m):
        """(outcome, from, to)"""
        r = m.reply
        if not m.g:
            if r is None:
                return MAYBE, m.e['i'], INF
            if r['rc'] == 0:
                return DONE, m.e['i'], r['i']
            return (NEVER if r['err'] in (10, 20) else MAYBE), m.e['i'], r['i']
        if r is not None and r['rc'] != 0 and r['err'] in (10, 20):
            return NEVER, m.e['i'], r['i']
        o, lo, hi = self.tx.of(m.g)
        if r is None or r['rc'] != 0:
            return (NEVER if o == NEVER else MAYBE), lo, INF
        return o, lo, hi

    def group_died(self, name, before=None):
        c = self.where(name)
        return c and any(':%s#' % c['group'] in self.v.name(e['pid']) for e in self.v.h.of('exit') if e['i'] in self.died and (before is None or e['i'] < before))

    def late(self, e, end):
        """an operation by somebody that takes part in a transaction that was over before the operation was"""
        began = self.tx.began.get(e.get('g'))
        if not began or began['pid'] == e['pid']:
            return False
        outcome, lo, hi = self.tx.of(e['g'])
        return outcome != DONE and (end or {'i': INF})['i'] > lo

    def left(self, row):
        """what kind of left behind: the owner of the transaction may have died before it got an answer"""
        g = bytes(row[2] or b'').hex()
        waits = [e for e in self.open if e.get('g') == g] + [m.e for m in self.messages.values() if m.g == g and not m.reply]
        owner = [e for e in self.v.h.of('tx') if e['op'] == 'begin' and e['g'] == g]
        gone = killed(self.v, owner[0]['pid']) if owner else None
        if gone:
            # on its way when the owner died
            waits += [m.e for m in self.messages.values() if m.g == g and m.e['i'] < gone['i'] < (m.reply or {'i': 1 << 60})['i'] and m.e['pid'] != owner[0]['pid']] and owner
        if any(killed(self.v, e['pid']) for e in waits):
            return 'left-state-%d-owner-died' % row[1]
        took = [(t.start, t.end) for t in self.takes if t.g == g] + [(m.e, m.reply) for m in self.messages.values() if m.g == g]
        return 'left-state-%d' % row[1] + ('-started-late' if any(self.late(e, end) for e, end in took) else '')

    def gaps(self, lo, hi):
        """a group went down in between"""
        return self.crashed or bool(self.managers_died) or any(lo <= i <= hi for i in self.died)

    def reach(self, m, q):
        """the queues a message may end up in"""
        r, todo = set(), [q]
        while todo:
            x = todo.pop()
            if x in r:
                continue
            r.add(x)
            if not x.endswith('.error'):
                todo.append(x + '.error')
            for _, f in self.forwards:
                if f['source'] == x:
                    t = f['target'].get('queue') or f.get('reply', {}).get('queue')
                    if t:
                        todo.append(t)
        return r

    def where(self, q):
        for (m, name), c in self.conf.items():
            if name == self.base(q):
                return c
        return None

    def available_at(self, m, upto):
        """the time from which it is available for certain, given what happened before the event, or None"""
        o, lo, hi = self.enqueued(m)
        if o != DONE or hi >= upto:
            return None
        t = self.v.when(hi)
        if m.e['available']:
            t = max(t, m.e['t'] + (m.e['available'] + 2) * MS)
        c = self.where(m.q)
        n = 0
        for k in m.taken:
            if k.start['i'] >= upto:
                break
            if k.outcome != NEVER or k.hi >= upto:
                return None
            n += 1
            t = max(t, self.v.when(k.hi) + c['delay'] + 2 * MS)
            if n > c['count']:
                return None
        return t


def rows(v, q):
    """[(event, {path: [rows]})] of the queuebases that were dumped"""
    groups = {}
    for e in v.h.of('dump'):
        if '.qb' in e['path']:
            base = e['path'][:e['path'].index('.qb') + 3]
            for key in groups:
                if key[1] == base and 0 <= e['i'] - key[0] < 40:
                    groups[key].append(e)
                    break
            else:
                groups[(e['i'], base)] = [e]
    for (i, base), es in sorted(groups.items()):
        d = tempfile.mkdtemp(dir='/dev/shm')
        try:
            for e in es:
                shutil.copy(v.h.dump(e), os.path.join(d, os.path.basename(e['path'])))
            try:
                con = sqlite3.connect(os.path.join(d, os.path.basename(base)))
                r = con.execute('select m.payload, m.state, m.gtrid, q.name, m.redelivered, m.available, m.timestamp from message m join queue q on m.queue = q.id').fetchall()
                con.close()
                yield i, base, r
            except sqlite3.DatabaseError as x:
                yield i, base, None
        finally:
            shutil.rmtree(d)


def name_of(payload):
    if payload is None:
        return None
    p = bytes(payload[:200])
    if p.startswith(b'id '):
        return p[3:].split(b' ')[0].decode('latin1')
    return p.split(b'|')[0].decode('latin1')


def queues(v):
    if not v.h.of('enq') and not v.h.of('deq', 'bdeq', 'wdeq'):
        return
    q = Queues(v)
    end = v.at('settled')
    # --- what comes out is what was put in
    for t in q.strange:
        yield 'Q01', 'unknown-message', '%s delivered %r, that nobody enqueued' % (t.q, t.end['msg'])
    for e in v.h.of('deqd', 'bdeqd', 'wdeqd', 'drain', 'browsed', 'peekd'):
        if e['rc'] != 0:
            continue
        m = q.messages.get(e['msg'])
        if not e['good']:
            yield 'Q01', 'corrupt', '%s from %s is not what was enqueued' % (e['msg'], e['q'])
        elif m and e['type'] != 'reply' and e['prop'] != m.prop:
            yield 'Q01', 'other-properties', '%s has property %s' % (e['msg'], e['prop'])
        if m and e['q'] not in q.reach(m, m.q):
            yield 'Q01', 'other-queue', '%s was enqueued to %s, and delivered from %s' % (e['msg'], m.q, e['q'])
            yield 'Q04', 'other-queue', '%s was enqueued to %s, and delivered from %s' % (e['msg'], m.q, e['q'])
    found = {}
    for t in q.takes:
        if t.op == 'drain':
            found.setdefault(t.end['msg'], []).append(t)
    left = {}
    for i, base, r in rows(v, q):
        if i > end:
            for row in r or []:
                left.setdefault(name_of(row[0]), []).append(row)
    drained = {e['q'] for e in v.h.of('drained') if e['err'] == 1}

    for m in q.messages.values():
        outcome, lo, hi = q.enqueued(m)
        forwarded = bool(q.reach(m, m.q) & q.sources)
        if outcome == NEVER and m.taken:
            yield 'Q01', 'rolled-back-delivered', '%s was delivered from %s, its enqueue did not take effect' % (m.id, m.taken[0].q)
        if m.taken and m.taken[0].end['i'] < lo:
            yield 'Q01', 'uncommitted-delivered', '%s was delivered from %s before its transaction was committed' % (m.id, m.taken[0].q)
        for a, t in enumerate(m.taken):
            for u in m.taken[a + 1:]:
                if t.end['type'] != u.end['type']:
                    continue
                if t.outcome == DONE and u.outcome == DONE:
                    yield 'Q01', 'consumed-twice', '%s was consumed by %s and by %s' % (m.id, v.name(t.pid), v.name(u.pid))
                elif t.outcome == DONE and u.start['i'] > t.end['i']:
                    yield 'Q01', 'delivered-after-consumed', '%s was delivered to %s, it was consumed by %s' % (m.id, v.name(u.pid), v.name(t.pid))
                elif u.outcome == DONE and t.start['i'] > u.end['i']:
                    yield 'Q01', 'delivered-after-consumed', '%s was delivered to %s, it was consumed by %s' % (m.id, v.name(t.pid), v.name(u.pid))
                elif u.end['i'] < t.lo and not q.gaps(t.start['i'], u.end['i']):
                    yield 'Q01', 'delivered-while-held', '%s was delivered to %s, and to %s that is not done with it' % (m.id, v.name(u.pid), v.name(t.pid))
        # --- what went in comes out
        places = q.reach(m, m.q)
        if outcome == DONE and hi < end and not [t for t in m.taken if t.outcome != NEVER]:
            # those that never told what they got
            lost = [e for e in q.open if e['q'] in places and not (v.gone_before(e['pid'], lo) and v.when(lo) - v.procs[e['pid']]['end']['t'] > SEC)]
            lost += [s for s, e in q.errors if s['q'] in places and not s.get('g') and e['i'] > lo]
            if all(x in drained for x in places) and not lost and not forwarded:
                if m.id not in left:
                    yield ('Q02' if q.broken else 'Q01'), 'lost', '%s was enqueued to %s, nobody consumed it, and it is not there' % (m.id, m.q)
                elif not q.broken:
                    yield 'Q01', q.left(left[m.id][0]), '%s in %s can not be dequeued, its state is %d' % (m.id, left[m.id][0][3], left[m.id][0][1])
                elif not m.g and left[m.id][0][1] == 1:
                    yield 'Q02', 'left-state-1', '%s in %s' % (m.id, m.q)
        elif not q.broken and m.id in left:
            for r in left[m.id]:
                if r[1] in (1, 3):
                    yield 'Q01', q.left(r), '%s in %s is left in state %d' % (m.id, r[3], r[1])
    # --- answers
    for s, e in q.errors:
        if not v.hard and not q.broken:
            yield ('Q01' if s['e'] == 'deq' else 'Q05'), 'failed', '%s of %s failed with %d' % (s['e'], s['q'], e['err'])
    full = any(g.get('capacity') for m in v.machines.values() for g in m['config'].get('queue', {}).get('groups', []))
    for m in q.messages.values():
        if m.reply and m.reply['rc'] != 0 and not v.hard and not q.broken and not full and q.where(m.q):
            yield 'Q01', 'failed', 'enqueue of %s to %s failed with %d' % (m.id, m.q, m.reply['err'])
    for pid, e in v.hanging().items():
        if e['e'] in ('enq', 'deq', 'peek', 'browse', 'draining') and v.when(v.at('clients-end')) - e['t'] > 3 * SEC:
            yield ('Q01' if not q.broken else 'Q02'), 'never-answered' + ('-group-died' if q.group_died(e['q']) else ''), '%s: %s of %s was never answered' % (v.name(pid), e['e'], e['q'])
    yield from crashed(v, q)
    yield from order(v, q)
    yield from retries(v, q)
    yield from waiting(v, q)


def crashed(v, q):
    """what is on disk when the machine goes down"""
    for i, base, r in rows(v, q):
        if i > v.at('clients-end'):
            continue
        if r is None:
            yield 'Q02', 'unreadable', '%s can not be read' % base
            continue
        there = {}
        for row in r:
            if row[3] not in q.targets:
                there.setdefault(name_of(row[0]), row)
        for m in q.messages.values():
            c = q.where(m.q)
            if not c or m.q in q.sources or m.q in q.targets or not base.endswith('/%s.qb' % c['group']):
                continue
            o, lo, hi = q.enqueued(m)
            row = there.get(m.id)
            takes = [t for t in m.taken if t.start['i'] < i]
            perhaps = [t for t in takes if t.outcome != NEVER] or [e for e in q.open if q.base(e['q']) == q.base(m.q) and e['i'] < i] or [x for x, e in q.errors if q.base(x['q']) == q.base(m.q) and x['i'] < i]
            if [t for t in takes if t.outcome == DONE and t.hi < i]:
                if row:
                    yield 'Q02', 'consumed-on-disk', '%s was consumed from %s, and is on disk' % (m.id, m.q)
            elif o == NEVER and hi < i and row and not (row[1] == 1 and q.group_died(m.q, i)):
                yield 'Q02', 'rolled-back-on-disk', '%s was rolled back, and is on disk' % m.id
            elif o == DONE and hi < i and not perhaps and not row:
                yield 'Q02', 'not-on-disk', '%s was enqueued to %s, and is not on disk' % (m.id, m.q)
            elif o == DONE and hi < i and row and row[1] == 1:
                yield 'Q02', 'uncommitted-on-disk', '%s was enqueued to %s, its state on disk is %d' % (m.id, m.q, row[1])
            elif o == DONE and hi < i and row and row[1] == 3 and all(t.outcome == NEVER and t.hi < i for t in takes) and not perhaps:
                yield 'Q02', 'held-on-disk', '%s was rolled back, and is held on disk' % m.id


def order(v, q):
    """Q03, and that an empty answer is right"""
    if q.broken or any(f['kind'] == 'clock' for f in v.h.of('fault')):
        return
    byq = {}
    for m in q.messages.values():
        byq.setdefault(m.q, []).append(m)
    for start, end, got in [(t.start, t.end, t) for t in q.takes if t.op in ('deq', 'drain')] + [(s, e, None) for s, e in q.empty]:
        name = start['q']
        sel = start.get('sel', '-')
        if name in q.sources or name in q.targets or sel[0] == '#':
            continue
        mine = q.messages.get(got.end['msg']) if got else None
        if got and not mine:
            continue
        # someone that died may have got it
        dead = [e for e in q.open if e['q'] == name and e['i'] < end['i']] + [s for s, e in q.errors if s['q'] == name and s['i'] < end['i']]
        if dead:
            continue
        for n in byq.get(name, []):
            if n is mine or (sel[0] == '=' and n.prop != sel[1:]):
                continue
            if mine and not (n.reply and n.reply['i'] < mine.e['i']):
                continue
            if any(t.start['i'] < end['i'] and t.end['i'] > start['i'] for t in n.taken):
                continue
            at = q.available_at(n, start['i'])
            if at is not None and at <= start['t'] and not [t for t in n.taken if t.start['i'] < end['i'] and t.hi > start['i']]:
                if mine:
                    yield 'Q03', 'overtaken', '%s was delivered from %s, %s was enqueued before it and available' % (mine.id, name, n.id)
                else:
                    yield 'Q01', 'not-found', 'nothing was found in %s for %s, %s was there' % (name, v.name(start['pid']), n.id)
                break


def retries(v, q):
    """Q04"""
    if any(f['kind'] == 'clock' for f in v.h.of('fault')):
        return
    for m in q.messages.values():
        if m.q in q.sources or m.q in q.targets or m.q.endswith('.error'):
            continue
        c = q.where(m.q)
        if not c:
            continue
        byid = any(e['sel'][0] == '#' and e['sel'][1:] == m.id for e in v.h.of('deq'))
        unknown = [e for e in q.open if e['q'] == m.q and e.get('g')] + [s for s, e in q.errors if s['q'] == m.q and s.get('g')]
        for a, t in enumerate(m.taken):
            before = [u for u in m.taken[:a] if u.q == m.q]
            sure = [u for u in before if u.outcome == NEVER and u.hi < t.start['i']]
            possible = [u for u in before if u.outcome != DONE] + [e for e in unknown if e['i'] < t.end['i']]
            if t.q == m.q:
                if len(sure) > c['count'] and not q.broken:
                    yield 'Q04', 'beyond-retry-count', '%s was delivered from %s again, after %d rollbacks' % (m.id, m.q, len(sure))
                if t.sel[0] != '#' and not byid:
                    if m.e['available'] and t.end['t'] < m.e['t'] + (m.e['available'] - 2) * MS and not sure:
                        yield 'Q04', 'before-available', '%s was delivered %d ms too early' % (m.id, (m.e['t'] + m.e['available'] * MS - t.end['t']) // MS)
                    if before and c['delay'] and not q.broken:
                        u = before[-1]
                        if u.outcome == NEVER and u.lo < INF and t.end['t'] < v.when(u.lo) + c['delay'] - 2 * MS:
                            yield 'Q04', 'before-retry-delay', '%s was delivered again %d us after it was rolled back, the delay is %d us' % (m.id, (t.end['t'] - v.when(u.lo)) // 1000, c['delay'] // 1000)
            elif t.q == m.q + '.error':
                if len(possible) <= c['count']:
                    yield 'Q04', 'error-queue-too-early', '%s is in %s after %d rollbacks, %d retries are configured' % (m.id, t.q, len(possible), c['count'])
        # what has been in the error queue does not come back
        first = next((a for a, t in enumerate(m.taken) if t.q.endswith('.error')), None)
        if first is not None and any(t.q == m.q and t.start['i'] > m.taken[first].end['i'] for t in m.taken):
            yield 'Q04', 'back-from-error-queue', '%s was delivered from %s again' % (m.id, m.q)


def waiting(v, q):
    """Q05"""
    drains = [t for t in q.takes if t.op == 'drain' and t.start['i'] < v.at('clients-end')]
    if not q.broken:
        for e in q.open:
            if e['e'] not in ('bdeq', 'wdeq'):
                continue
            for t in drains:
                m = q.messages.get(t.end['msg'])
                if t.q == e['q'] and e['i'] < t.start['i'] and not v.gone_before(e['pid'], t.start['i']) and m and (e['sel'] == '-' or e['sel'][1:] == m.prop):
                    yield 'Q05', 'not-woken', '%s waits for a message in %s, %s was there' % (v.name(e['pid']), e['q'], m.id)
                    break
    if v.calm() and not v.hard and not q.broken and not v.s.get('opt', {}).get('slow_ppm') and not v.s.get('opt', {}).get('disk_hi'):
        for t in q.takes:
            m = q.messages.get(t.end['msg'])
            if t.op not in ('bdeq', 'wdeq') or not m or len(m.taken) != 1 or t.q != m.q or t.q in q.targets or t.q in q.sources:
                continue
            at = q.available_at(m, INF) if False else None
            o, lo, hi = q.enqueued(m)
            if o != DONE or hi >= INF:
                continue
            at = max(v.when(hi), t.start['t'], m.e['t'] + m.e['available'] * MS)
            if t.end["t"] - at > 2500 * MS:
                yield 'Q05', 'woken-late', '%s waited for %s in %s, and got it %d ms after it was available' % (v.name(t.pid), m.id, t.q, (t.end['t'] - at) // MS)


def forwarded(v):
    """Q06"""
    q = None
    if v.s.get('world') != 'forwards':
        return
    if [e for e in v.h.of('phase') if e['name'] == 'gone' and not e['done'] and e['i'] < v.at('probes')]:
        return  # what is left of the old domain disturbs the new one
    q = Queues(v)
    h = v.h
    from oracle import Branches, COMMITTED
    b = Branches(v)
    settled = v.at('settled')
    # where everything is at the end
    places = {}
    for t in q.takes:
        if t.op == 'drain':
            places.setdefault(t.end['msg'], []).append((t.q, t.end['type'], None, t.end))
    for i, base, r in rows(v, q):
        if i < settled:
            continue
        if r is None:
            yield 'Q02', 'unreadable', '%s can not be read' % base
            return
        for row in r:
            places.setdefault(name_of(row[0]), []).append((row[3], None, row[1], row))
    probed = [e for e in h.of('client-done') if e['i'] > v.at('probes')]
    if not probed:
        yield 'Q06', 'never-answered', 'the queues can not be drained'
        return
    services = {f['source']: f for _, f in q.forwards if 'service' in f['target']}
    died = [v.name(e['pid']) for e in h.of('exit') if e['i'] < v.down() and e['cause'] != 'exit']
    tm_or_proxy = [x for x in died if 'rm-proxy' in x or 'transaction-manager' in x]
    owner = [x for x in died if 'forward-group' in x]
    runs = {}
    for e in h.of('svc'):
        runs.setdefault(e['id'], []).append(e)
    ends = {(e['id'], e['pid'], e['g']): e for e in h.of('svc-end')}
    for m in q.messages.values():
        o, lo, hi = q.enqueued(m)
        at = places.get(m.id, [])
        if o == NEVER:
            # a group that died does not know of what was rolled back meanwhile; it keeps it, for no one to see
            if [p for p in at if p[2] != 1 or not q.group_died(m.q)] and not q.crashed:
                yield 'Q06', 'rolled-back-delivered', '%s is in %s, its enqueue did not take effect' % (m.id, at[0][0])
            continue
        for p in at:
            if p[0] not in q.reach(m, m.q):
                yield 'Q06', 'other-queue', '%s was enqueued to %s, and is in %s' % (m.id, m.q, p[0])
            if p[1] and not p[3]['good']:
                yield 'Q06', 'corrupt', '%s in %s is not what it should be' % (m.id, p[0])
        committed = [e for e in runs.get(m.id, []) if any(w == COMMITTED and x for k, w, _, x in b.of(e['g']))]
        rolled = [e for e in runs.get(m.id, []) if any(w != COMMITTED and x for k, w, _, x in b.of(e['g']))]
        if len(committed) > 1 and not tm_or_proxy:
            yield 'Q06', 'processed-twice', 'the work of %s was committed %d times' % (m.id, len(committed))
        f = services.get(m.q)
        # the service had done it, but too late: the service-manager has the transaction rolled back, and the forward goes on with it
        late = ''
        if f and [e for e in rolled if timeout_of(v, q.where(m.q)['m'], f['target']['service']) and ends.get((e['id'], e['pid'], e['g']), {}).get('ok')]:
            late = '-timed-out'
        # rows in the states 1 and 3 are the same message seen from within transactions that never ended
        if any(p[2] in (1, 3) for p in at):
            if not q.broken and not owner and not tm_or_proxy:
                yield 'Q06', 'left-state', '%s in %s is left in state %d' % (m.id, at[0][0], [p[2] for p in at if p[2] in (1, 3)][0])
            continue
        if len(at) > 1:
            yield 'Q06', 'duplicated' + late, '%s is in %s' % (m.id, ' and in '.join(p[0] for p in at))
            continue
        p = at[0] if at else None
        source = p and (p[0] == m.q or p[0] == m.q + '.error')
        if o == DONE and not p:
            if not f or f.get('reply'):
                yield 'Q06', 'lost', '%s was enqueued to %s, and is nowhere' % (m.id, m.q)
            elif not [e for e in runs.get(m.id, []) if ends.get((e['id'], e['pid'], e['g']), {}).get('ok')]:
                yield 'Q06', 'lost', '%s was enqueued to %s, and is nowhere, no service has processed it' % (m.id, m.q)
            elif rolled and not committed and not tm_or_proxy:
                yield 'Q06', 'removed-but-rolled-back' + late, '%s was removed from %s, the work was rolled back' % (m.id, m.q)
        if f and p and p[1] and not source and p[1] != 'reply':
            yield 'Q06', 'not-processed', '%s is in %s as it was enqueued' % (m.id, p[0])
        if f and p and source and committed and not tm_or_proxy:
            yield 'Q06', 'processed-but-kept' + late, '%s is in %s, its work was committed' % (m.id, p[0])
        if f and p and not source and not tm_or_proxy:
            good = [e for e in runs.get(m.id, []) if ends.get((e['id'], e['pid'], e['g']), {}).get('ok')]
            if not good:
                yield 'Q06', 'reply-of-nothing', 'there is a reply to %s in %s, no service has processed it' % (m.id, p[0])
            elif not committed and all(e in rolled for e in good):
                yield 'Q06', 'reply-but-rolled-back' + late, 'there is a reply to %s in %s, its work was rolled back' % (m.id, p[0])
        # it goes on
        if p and p[0] in q.sources and p[2] == 2 and (not q.broken and not owner or h.of('mark') and any(e['name'] == 'again' for e in h.of('mark'))) and not full(v):
            yield 'Q06', 'stuck', '%s is still in %s' % (m.id, p[0])
        # as often as it is to be tried
        if f and not v.hard and not died and not q.broken and p and p[0] == m.q + '.error' and not v.s['faults']:
            n = len(runs.get(m.id, []))
            if n != q.where(m.q)['count'] + 1 and not any('execution' in c for c in v.machines[q.where(m.q)['m']]['config']['services']) and not full(v):
                yield 'Q06', 'other-attempts', '%s is in %s after %d attempts, %d retries are configured' % (m.id, p[0], n, q.where(m.q)['count'])


def timeout_of(v, machine, service):
    config = v.machines[machine]['config']
    given = [x for x in config['services'] if x['name'] == service]
    return any('timeout' in x.get('execution', {}) for x in given) or 'timeout' in config.get('global', {}).get('service', {}).get('execution', {})


def full(v):
    return any(g.get('capacity') for m in v.machines.values() for g in m['config'].get('queue', {}).get('groups', []))
