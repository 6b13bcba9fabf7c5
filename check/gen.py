"""Makes scenarios. Everything is drawn from one random.Random that is seeded with the number of the run."""
import random

# message types of casual, faults are tied to them
T = dict(call=3102, reply=3103, ack=3110, lookup=3106)


def pick(r, weighted):
    total = sum(w for w, _ in weighted)
    x = r.random() * total
    for w, v in weighted:
        x -= w
        if x < 0:
            return v() if callable(v) else v
    return weighted[-1][1]


def knobs(r, heavy=True):
    """how the machines behave, apart from faults"""
    o = {}
    style = r.random()
    if style < 0.3:
        o['cost_lo'], o['cost_hi'] = 500, 3000
    elif style < 0.6:
        o['cost_lo'], o['cost_hi'] = 1000, 60000
    if r.random() < 0.4:
        o['cost_mode'] = 1
    if r.random() < 0.4:
        o['wake_hi'] = r.choice([2000, 100000, 1000000, 5000000])
    if r.random() < 0.3:
        o['stall_ppm'] = r.choice([500, 3000, 20000])
        o['stall_max'] = r.choice([1, 5, 40]) * 1000000
    if r.random() < 0.3:
        o['slow_ppm'] = 200000
    if r.random() < 0.35:
        o['dgram_cap'] = r.choice([1, 2, 4, 8, 16])
    if r.random() < 0.3:
        o['disk_hi'] = r.choice([20000, 200000, 2000000])
    if heavy and r.random() < 0.3:
        o['short_ppm'] = r.choice([10000, 300000])
    return o


def size(r):
    return pick(r, [(5, lambda: r.randint(0, 100)), (2, lambda: r.randint(100, 4000)), (1, lambda: r.randint(4000, 70000)), (0.3, lambda: r.randint(70000, 400000))])


# ------------------------------------------------------------------ services
class Services:
    def __init__(self, r, **kw):
        self.r = r
        self.kw = kw
        r_ = r
        n = r.randint(1, 4)
        # few instances that everyone waits for, and that are not replaced
        tight = r.random() < kw.get('tight', 0.25)
        if tight:
            n = pick(r, [(3, 1), (1, 2)])
        self.names = ['svc%d' % i for i in range(r.randint(2 if tight else 1, 5))]
        self.servers = []
        for i in range(n):
            offered = [s for s in self.names if r.random() < (0.9 if tight else 0.5)] or [r.choice(self.names)]
            self.servers.append({'alias': 's%d' % i, 'layer': i, 'svcs': offered, 'instances': 1 if tight else pick(r, [(4, 1), (3, 2), (1, 3)]), 'restart': r.random() < (0.2 if tight else 0.6)})
        offered = {s for sv in self.servers for s in sv['svcs']}
        self.names = [s for s in self.names if s in offered]
        self.lo = {s: min(sv['layer'] for sv in self.servers if s in sv['svcs']) for s in self.names}
        self.hi = {s: max(sv['layer'] for sv in self.servers if s in sv['svcs']) for s in self.names}
        self.timeouts = {}
        self.contract = {}
        self.tight = tight
        if kw.get('timeouts', 0.3) * (1.6 if tight else 1) > r.random():
            for s in self.names:
                if r.random() < (0.4 if tight else 0.6):
                    self.timeouts[s] = r.choice([5, 20, 60, 200, 1000, 3000])
                    self.contract[s] = pick(r, [(4, 'linger'), (4 if tight else 2, 'kill'), (1, 'abort'), (1, 'interrupt')])
        self.txmode = kw.get('txmode', lambda: 3)
        self.routes = {}
        if r.random() < 0.15:
            s = r.choice(self.names)
            self.routes[s] = [s + 'x', s + 'y'] if r.random() < 0.5 else [s, s + 'x']

    def callable(self):
        return [n for s in self.names for n in self.routes.get(s, [s])]

    def origin(self, name):
        for s, ns in self.routes.items():
            if name in ns:
                return s
        return name

    def config(self):
        servers = []
        for sv in self.servers:
            servers.append({'path': '/opt/casual/bin/sim-server', 'alias': sv['alias'], 'instances': sv['instances'], 'restart': sv['restart'], 'memberships': ['user'],
                            'arguments': ['svc=' + ','.join('%s:%d:%d' % (s, self.txmode(), 1) for s in sv['svcs'])] + (['rm=' + ','.join(sv['rms'])] if sv.get('rms') else [])})
        svcs = []
        for s in self.names:
            c = {'name': s}
            if s in self.timeouts:
                c['execution'] = {'timeout': {'duration': '%dms' % self.timeouts[s], 'contract': self.contract[s]}}
            if s in self.routes:
                c['routes'] = self.routes[s]
            if len(c) > 1:
                svcs.append(c)
        return {'name': 'A', 'groups': [{'name': 'user'}], 'servers': servers, 'services': svcs}

    # --- programs
    def sleep(self, svc=None):
        r = self.r
        if svc in self.timeouts and r.random() < 0.7:
            d = self.timeouts[svc]
            return ['sleep', max(0, int(pick(r, [(3, 0), (3, d * 0.5), (2, d * 0.97), (1, d), (2, d * 1.03), (3, d * 1.5), (1, d * 3)])))]
        return ['sleep', pick(r, [(5, lambda: r.randint(0, 3)), (2, lambda: r.randint(3, 30)), (1, lambda: r.randint(30, 300))])]

    def program(self, svc, depth):
        """what a service does"""
        r = self.r
        p = []
        if r.random() < 0.5:
            p.append(self.sleep(svc))
        if self.kw.get('work', 0) > r.random():
            p.append(['work', 'w%d' % r.randint(0, 99)])
        deeper = [n for n in self.callable() if self.lo[self.origin(n)] > self.hi[svc]]
        if depth > 0 and deeper and r.random() < 0.4:
            for _ in range(r.randint(1, 2)):
                p += self.operation(deeper, depth - 1, nested=True)
            if r.random() < 0.3:
                p.append(self.sleep(svc))
        end = r.random()
        if end < 0.12:
            p.append(['reply', 'f%d' % r.randint(0, 99), size(r)])
            p.append(['fail', r.randint(0, 5)])
        elif end < 0.12 + self.kw.get('crash', 0.02):
            p.append(r.choice([['exit', 3], ['crash']]))
        else:
            p.append(['reply', 'r%d' % r.randint(0, 999), size(r)])
            if r.random() < 0.3:
                p.append(['return', r.randint(0, 9)])
        return p

    def call(self, names, depth, how='call', flags=0):
        n = self.r.choice(names)
        return [how, n, flags, size(self.r), self.program(self.origin(n), depth)]

    def operation(self, names, depth, nested=False):
        r = self.r
        def sync():
            return [self.call(names, depth, flags=pick(r, [(8, 0), (1, 0x20), (1, 2), (1, 8)]))]
        def burst():
            n = r.randint(1, 5)
            ops = [self.call(names, depth, 'acall') for _ in range(n)]
            out = []
            style = r.random()
            for o in ops:
                out.append(o)
                if r.random() < 0.15:
                    out.append(['sleep', r.randint(0, 5)])
            if not nested and self.kw.get('cancel', 0.25) > r.random():
                out.insert(r.randint(1, len(out)), ['cancel'])
            any_ = r.random() < self.kw.get('getany', 0.4)
            for _ in range(n):
                out.append(['getany' if any_ else 'getrply', 0 if r.random() < 0.85 else 1])
            if r.random() < 0.3:
                out += [['getrply', 0]] * 2
            return out
        def noreply():
            return [self.call(names, 0, 'acall', 4 | 8)]
        def unknown():
            return [['call', 'nosuch', 0, 5, [['reply', 'x', 1]]]]
        return pick(r, [(6, sync), (3, burst), (0.7, noreply), (0.2, unknown)])

    def transaction(self, own=False, queues=None):
        """what a client does in a transaction"""
        r = self.r
        ops = []
        if r.random() < 0.12:
            ops.append(['tx-timeout', r.choice([1, 1, 2, 3])])
        if r.random() < self.kw.get('commit_return', 0.15):
            ops.append(['commit-return', r.choice([0, 1, 1])])
        ops.append(['begin'])
        for _ in range(pick(r, [(1, 0), (5, 1), (4, 2), (2, 3)])):
            if queues and r.random() < 0.5:
                ops += queues()
            else:
                ops += self.operation(self.callable(), 2)
            if own and r.random() < 0.5:
                ops.append(['work', 'o%d' % r.randint(0, 99)])
            if r.random() < 0.1:
                ops.append(['sleep', r.choice([1, 5, 30, 900, 1100, 2500])])
            if r.random() < 0.06:
                ops += [['suspend']] + self.operation(self.callable(), 1) + [['resume']]
        ops.append(['commit'] if r.random() < 0.82 else ['rollback'])
        if r.random() < 0.9:
            ops.append(['rollback'])
        return ops

    def client(self, name, n):
        r = self.r
        ops = []
        for _ in range(n):
            ops += self.operation(self.callable(), 2)
            if r.random() < 0.2:
                ops.append(['sleep', r.randint(0, 20)])
        return {'m': 'A', 'name': name, 'ops': ops}


def process_faults(r, servers, clients, n, kinds=None):
    """deaths, stalls and full sockets, placed at messages more often than at times"""
    out = []
    for _ in range(n):
        victim = pick(r, [(6, lambda: 'A/sim-server:%s#*' % r.choice(servers)), (2, lambda: 'A/sim-client:%s#*' % r.choice(clients))])
        def when(by):
            return pick(r, [
                (3, lambda: 'on=recv:3102 by=%s n=%d' % (by, r.randint(1, 6))),
                (3, lambda: 'on=send:3103 by=%s n=%d' % (by, r.randint(1, 6))),
                (2, lambda: 'on=sent:3103 by=%s n=%d' % (by, r.randint(1, 6))),
                (2, lambda: 'on=send:0 by=%s n=%d' % (by, r.randint(1, 30))),
                (2, lambda: 'on=recv:0 by=%s n=%d' % (by, r.randint(1, 30))),
                (2, lambda: 'on=syscall by=%s n=%d' % (by, r.randint(1, 400))),
                (2, lambda: 'on=time at=%d' % (r.randint(0, 200) * 1000000))])
        kind = pick(r, kinds or [(6, 'kill'), (2, 'stall'), (1, 'slow'), (1, 'cap'), (1, 'eintr'), (1, 'other')])
        if kind == 'kill':
            w = when(victim)
            out.append('kind=kill %s target=%s delay=%d' % (w, 'self' if 'by=' in w else victim, r.choice([0, 0, 0, r.randint(0, 300000)])))
        elif kind == 'other':
            # something happens to another one, when this one does something
            other = 'A/sim-server:%s#*' % r.choice(servers)
            out.append('kind=kill %s target=%s pick=%d delay=%d' % (when(victim), other, r.randint(0, 3), r.choice([0, r.randint(0, 200000)])))
        elif kind == 'stall':
            who = r.choice([victim, 'A/casual-service-manager*', victim])
            w = when(who)
            out.append('kind=stall %s target=%s dur=%d' % (w, 'self' if 'by=' in w else who, r.choice([1, 10, 80, 400]) * 1000000))
        elif kind == 'slow':
            out.append('kind=slow on=time at=%d target=%s factor=%d' % (r.randint(0, 50) * 1000000, r.choice([victim, 'A/casual-service-manager*']), r.choice([4, 16, 64])))
        elif kind == 'cap':
            out.append('kind=cap on=time at=%d value=%d' % (r.randint(0, 50) * 1000000, r.choice([1, 2, 4])))
        elif kind == 'eintr':
            out.append('kind=eintr on=time at=0 ppm=%d' % r.choice([1000, 20000]))
    return out


def services(r, prop):
    w = Services(r, timeouts={'S03': 1.0, 'S02': 0.4}.get(prop, 0.4))
    nc = r.randint(3, 5) if w.tight else r.randint(1, 5)
    clients = [w.client('c%d' % i, r.randint(1, 6)) for i in range(nc)]
    faults = []
    opt = knobs(r)
    if r.random() < 0.65:
        faults = process_faults(r, [s['alias'] for s in w.servers], [c['name'] for c in clients], pick(r, [(3, 1), (3, 2), (2, 3), (1, 5)]))
    probes = []
    for i in range(2):
        ops = []
        for n in w.callable():
            ops.append(['call', n, 0, 10, [['reply', 'probe', 3]]])
        probes.append({'m': 'A', 'name': 'p%d' % i, 'ops': ops * 2})
    return {'world': 'services', 'opt': opt, 'machines': [{'name': 'A', 'config': w.config()}], 'clients': clients, 'probes': probes, 'faults': faults, 'shutdown': r.random() < 0.3}


def events(r, prop):
    """calls that subscribers are told about"""
    w = Services(r, timeouts=0.3, txmode=lambda: pick(r, [(5, 3), (2, 1), (2, 0)]))
    clients = [w.client('c%d' % i, r.randint(1, 8)) for i in range(r.randint(1, 5))]
    if r.random() < 0.3:
        # more than a batch of them
        n = r.choice(w.callable())
        clients.append({'m': 'A', 'name': 'burst', 'ops': [['repeat', r.choice([30, 60, 130]), [['acall', n, 8, 5, [['reply', 'x', 1]]]] * 2 + [['getrply', 0]] * 2]]})
    config = w.config()
    logs = ['log%d' % i for i in range(pick(r, [(3, 1), (2, 2), (1, 3)]))]
    config['executables'] = [{'path': '/opt/casual/bin/casual-event-service-log', 'alias': a, 'instances': 1, 'restart': r.random() < 0.6, 'memberships': ['user'], 'arguments': ['--file', '/home/a/%s.elog' % a]} for a in logs]
    opt = knobs(r)
    faults = []
    if r.random() < 0.6:
        faults = process_faults(r, [s['alias'] for s in w.servers], [c['name'] for c in clients], pick(r, [(3, 1), (3, 2), (2, 3)]))
    if r.random() < 0.6:
        for _ in range(pick(r, [(3, 1), (1, 3)])):
            who = 'A/casual-event-service-log:%s#*' % r.choice(logs)
            w_ = pick(r, [(2, 'on=time at=%d' % (r.randint(0, 150) * 1000000)), (2, 'on=recv:0 by=%s n=%d' % (who, r.randint(1, 8))), (2, 'on=syscall by=%s n=%d' % (who, r.randint(1, 80)))])
            faults.append(pick(r, [
                (3, 'kind=kill %s target=%s' % (w_, who)),
                (2, 'kind=stall %s target=%s dur=%d' % (w_, who, r.choice([20, 200, 2000, 30000]) * 1000000)),
                (1, 'kind=slow on=time at=0 target=%s factor=%d' % (who, r.choice([4, 64]))),
                (3, 'kind=signal sig=1 %s target=%s' % (w_, who))]))
    ops = [['call', n, 0, 10, [['reply', 'probe', 3]]] for n in w.callable()]
    return {'world': 'events', 'opt': opt, 'machines': [{'name': 'A', 'config': config}], 'clients': clients, 'faults': faults,
            'probes': [{'m': 'A', 'name': 'p0', 'ops': ops * r.choice([1, 2]) + [['sleep', 100], ['service-state']]}], 'last': ['advance 1000', 'dump A /home/a/*.elog'], 'shutdown': False}


def transactions(r, prop):
    """clients that call services in transactions, over resource managers that work, fail and vote as they like"""
    mode = r.random()
    w = Services(r, timeouts=0.1, work=0.75, crash=0.01, cancel=0.05, getany=0.15, commit_return=0.5 if prop == 'T04' else 0.15,
                 txmode=lambda: 0 if mode < 0.6 else pick(r, [(4, 0), (3, 1), (2, 2), (1, 3), (1, 4)]))
    names = ['rm%d' % i for i in range(pick(r, [(1, 1), (4, 2), (3, 3)]))]
    for sv in w.servers:
        sv['rms'] = sorted(r.sample(names, r.randint(0 if r.random() < 0.2 else 1, len(names))))
    # several resources may be the same database
    same = False
    config = w.config()
    config['transaction'] = {'log': '/home/a/tm.log', 'resources': [{'name': n, 'key': 'sim-rm', 'instances': pick(r, [(3, 1), (2, 2), (1, 3)]), 'openinfo': 'db0' if same else 'db' + n[2:]} for n in names]}
    clients = []
    for i in range(pick(r, [(2, 1), (3, 2), (2, 3), (1, 5)])):
        own = sorted(r.sample(names, r.randint(1, len(names)))) if r.random() < 0.3 else []
        ops = []
        for _ in range(r.randint(1, 5)):
            if r.random() < 0.9:
                ops += w.transaction(bool(own))
            else:
                ops += w.operation(w.callable(), 2)
        clients.append({'m': 'A', 'name': 'c%d' % i, 'child': r.random() < 0.8, 'ops': ops, 'args': ['rm=' + ','.join(own)] if own else []})
    faults = []
    opt = knobs(r)
    if r.random() < 0.4:
        opt['rm_prepare_fail'] = r.choice([30000, 200000])
    if r.random() < 0.1:
        opt['rm_fail'] = r.choice([10000, 100000])
    if r.random() < 0.1:
        opt['rm_start_fail'] = r.choice([10000, 50000])
    if r.random() < 0.5:
        opt['rm_rdonly'] = 1
    if r.random() < 0.55:
        faults = process_faults(r, [s['alias'] for s in w.servers], [c['name'] for c in clients], pick(r, [(4, 1), (2, 2), (1, 3)]))
    if r.random() < (0.35 if prop != 'T04' else 0.1):
        faults += transaction_faults(r, [c['name'] for c in clients])
    s = {'world': 'transactions', 'opt': opt, 'machines': [{'name': 'A', 'config': config, 'system': SYSTEM}], 'clients': clients, 'faults': faults, 'shutdown': r.random() < (0.3 if prop != 'T04' else 0.7)}
    if prop == 'T04':
        durable(r, s)
        s['finally'] = ['dump A /home/a/tm.log*']
    return s


def transaction_faults(r, clients):
    """deaths at the steps of the commit protocol"""
    out = []
    client = 'A/sim-client:%s#*' % r.choice(clients)
    proxy = 'A/sim-rm-proxy*'
    tm = 'A/casual-transaction-manager*'
    for _ in range(pick(r, [(3, 1), (1, 2)])):
        t = r.choice([5201, 5202, 5203, 5204, 5205, 5206])
        n = r.randint(1, 8)
        out.append(pick(r, [
            (3, 'kind=kill on=%s:%d by=%s n=%d target=%s' % (r.choice(['send', 'sent']), r.choice([5102, 5104]), client, r.randint(1, 4), 'self')),
            (3, 'kind=kill on=%s:%d by=%s n=%d target=%s delay=%d' % (r.choice(['send', 'recv']), t, tm, n, client, r.choice([0, 0, 100000, 1000000]))),
            (2, 'kind=kill on=%s:%d by=%s n=%d target=self delay=%d' % (r.choice(['recv', 'send', 'sent']), t, proxy, n, r.choice([0, 0, 100000]))),
            (2, 'kind=stall on=%s:%d by=%s n=%d target=self dur=%d' % (r.choice(['recv', 'send', 'sent']), t, proxy, n, r.choice([1, 20, 200]) * 1000000)),
        ]))
    return out


def durable(r, s):
    """power is lost at a moment of the commit protocol"""
    on = pick(r, [(6, 'on=recv:5203 by=A/sim-rm-proxy* n=%d' % r.randint(1, 6)), (4, 'on=send:5204 by=A/sim-rm-proxy* n=%d' % r.randint(1, 6)), (2, 'on=syscall by=A/casual-transaction-manager* n=%d' % r.randint(1, 600)),
                  (2, 'on=sent:5103 by=A/casual-transaction-manager* n=%d' % r.randint(1, 4)),
                  (4, 'on=recv:5103 by=A/sim-client* n=%d' % r.randint(1, 4)), (1, 'on=time at=%d' % (r.randint(1, 100) * 1000000))])
    if r.random() < 0.75:
        delay = r.randint(0, 300000) if 'recv:5103' in on else r.choice([0, 0, 0, r.randint(0, 500000)])
        s['faults'].append('kind=crash %s m=A mode=%s delay=%d dump=/home/a/tm.log*' % (on, 'all', delay))
        if r.random() < 0.4:
            s['faults'].append('kind=slow on=time at=0 target=A/casual-transaction-manager* factor=%d' % r.choice([4, 16]))
    elif r.random() < 0.5:
        s['faults'].append('kind=disk m=A op=%s path=/home/a/tm.log* errno=%d times=%d on=%s' % (r.choice(['write', 'fsync']), r.choice([5, 28]), r.choice([1, 3, 1000]), 'time at=%d' % (r.randint(1, 60) * 1000000)))


class Queues:
    """queues, and what is done with them"""
    def __init__(self, r, prop):
        self.r = r
        self.prop = prop
        self.groups = []
        n = 0
        for g in range(pick(r, [(3, 1), (2, 2)])):
            qs = []
            for _ in range(pick(r, [(3, 1), (3, 2), (1, 3)])):
                x = {'name': 'q%d' % n}
                n += 1
                if r.random() < (0.95 if prop == 'Q04' else 0.7):
                    x['retry'] = {'count': r.choice([0, 1, 2, 5]), 'delay': r.choice(['0s', '0s', '30ms', '300ms', '1500ms'])}
                qs.append(x)
            self.groups.append({'alias': 'g%d' % g, 'queuebase': '/home/a/g%d.qb' % g, 'queues': qs})
        self.names = [x['name'] for g in self.groups for x in g['queues']]
        self.default = {'retry': {'count': r.choice([0, 3, 50]), 'delay': r.choice(['0s', '20ms'])}}
        self.colours = r.choice([0, 1, 2, 3])
        self.forward = None
        self.services = []

    def config(self):
        c = {'default': {'queue': self.default}, 'groups': self.groups}
        if self.forward:
            c['forward'] = self.forward
        return c

    def every(self):
        return [x for n in self.names for x in (n, n + '.error')]

    def put(self, q=None):
        r = self.r
        q = q or r.choice(self.names)
        later = pick(r, [(9, 0), (1, lambda: r.choice([1, 10, 100, 1000]))])
        op = ['enq', q, size(r), later, '-']
        if self.colours:
            op.append('prop=colour%d' % r.randint(0, self.colours))
        return op

    def selector(self):
        r = self.r
        if self.colours and r.random() < 0.25:
            return '=colour%d' % r.randint(0, self.colours)
        return '-'

    def take(self, blocking=0.2, q=None):
        r = self.r
        q = q or (r.choice(self.names) if r.random() < (0.7 if self.prop == 'Q04' else 0.9) else r.choice(self.names) + '.error')
        if r.random() < blocking:
            return [pick(r, [(4, 'bdeq'), (1, 'wdeq')]), q, self.selector()]
        return ['deq', q, self.selector()]

    def look(self):
        r = self.r
        return r.choice([['peek', r.choice(self.every()), self.selector()], ['browse', r.choice(self.every())]])

    def unit(self, blocking, own=None):
        """a transaction, or something outside of one"""
        r = self.r
        ops = []
        style = r.random()
        if style < 0.3:
            for _ in range(r.randint(1, 3)):
                ops.append(pick(r, [(4, self.put), (3, lambda: self.take(blocking)), (0.5, self.look)]))
            return ops
        if r.random() < 0.06:
            ops.append(['tx-timeout', r.choice([1, 1, 2])])
        if r.random() < 0.1:
            ops.append(['commit-return', r.choice([0, 1])])
        ops.append(['begin'])
        for _ in range(pick(r, [(4, 1), (3, 2), (2, 3)])):
            ops.append(pick(r, [(3, self.put), (4, lambda: self.take(blocking)), (0.3, self.look), (1, lambda: self.call()) if self.services else (0, None)]))
            if r.random() < 0.12:
                ops.append(['sleep', r.choice([1, 5, 30, 400, 1100])])
        ops.append(['commit'] if r.random() < (0.45 if self.prop == 'Q04' else 0.7) else ['rollback'])
        if r.random() < 0.9:
            ops.append(['rollback'])
        return ops

    def call(self):
        """a service that does it"""
        r = self.r
        p = [pick(r, [(1, self.put), (1, lambda: self.take(0))]) for _ in range(r.randint(1, 2))]
        if r.random() < 0.2:
            p.append(['fail', 1])
        else:
            p.append(['reply', 'x', size(r)])
        return ['call', r.choice(self.services), 0, 10, p]

    def client(self, name, n, blocking):
        r = self.r
        ops = []
        style = pick(r, [(3, 'mixed'), (2, 'producer'), (2, 'consumer')])
        for _ in range(n):
            if style == 'producer':
                x = [self.put() for _ in range(r.randint(1, 4))]
                if r.random() < 0.5:
                    x = [['begin']] + x + [['commit'] if r.random() < 0.85 else ['rollback'], ['rollback']]
                ops += x
            elif style == 'consumer':
                x = [self.take(blocking * 2) for _ in range(r.randint(1, 2))]
                if r.random() < 0.75:
                    x = [['begin']] + x + [['commit'] if r.random() < 0.6 else ['rollback'], ['rollback']]
                ops += x
            else:
                ops += self.unit(blocking)
            if r.random() < 0.25:
                ops.append(['sleep', pick(r, [(3, lambda: r.randint(0, 3)), (1, lambda: r.randint(3, 50)), (0.5, lambda: r.choice([300, 1500]))])])
        return {'m': 'A', 'name': name, 'child': True, 'ops': ops}


def queue_faults(r, clients, n, group):
    out = []
    for _ in range(n):
        c = 'A/sim-client:%s#*' % r.choice(clients)
        g = 'A/casual-queue-group*'
        tm = 'A/casual-transaction-manager*'
        def at(by, types):
            return 'on=%s:%d by=%s n=%d' % (r.choice(['send', 'sent', 'recv']), r.choice(types), by, r.randint(1, 6))
        def when(by):
            return pick(r, [(5, lambda: at(by, [6100, 6102, 6200, 6202, 5102, 5103, 5104, 5105])), (1, lambda: 'on=syscall by=%s n=%d' % (by, r.randint(1, 600))), (1, lambda: 'on=time at=%d' % (r.randint(0, 300) * MS))])
        kind = pick(r, [(5, 'client'), (5 if group else 0, 'group'), (2, 'stall'), (1, 'slow'), (1, 'cap'), (1, 'eintr')])
        if kind == 'client':
            w = when(c)
            out.append('kind=kill %s target=%s delay=%d' % (w, 'self' if 'by=' in w else c, r.choice([0, 0, r.randint(0, 300000)])))
        elif kind == 'group':
            w = pick(r, [(3, lambda: when(c)), (3, lambda: at(g, [6100, 6102, 6200, 6202, 5201, 5202, 5203, 5204, 5205, 5206])), (2, lambda: 'on=syscall by=%s n=%d' % (g, r.randint(1, 800)))])
            out.append('kind=kill %s target=%s delay=%d' % (w, 'self' if 'group' in w else g, r.choice([0, 0, r.randint(0, 300000)])))
        elif kind == 'stall':
            who = r.choice([c, g, tm])
            out.append('kind=stall %s target=%s dur=%d' % (at(who, [6100, 6102, 6200, 6202, 5201, 5202, 5203, 5204]), 'self', r.choice([1, 10, 80, 400, 1500]) * MS))
        elif kind == 'slow':
            out.append('kind=slow on=time at=%d target=%s factor=%d' % (r.randint(0, 50) * MS, r.choice([c, g, tm]), r.choice([4, 16, 64])))
        elif kind == 'cap':
            out.append('kind=cap on=time at=%d value=%d' % (r.randint(0, 50) * MS, r.choice([1, 2, 4])))
        elif kind == 'eintr':
            out.append('kind=eintr on=time at=0 ppm=%d' % r.choice([1000, 20000]))
    return out


def queue_world(r, prop):
    """producers and consumers, in and outside of transactions"""
    w = Queues(r, prop)
    config = {'name': 'A', 'groups': [{'name': 'user'}], 'servers': [], 'services': [], 'transaction': {'log': '/home/a/tm.log'}, 'queue': w.config()}
    if r.random() < 0.4:
        w.services = ['qsvc']
        config['servers'].append({'path': '/opt/casual/bin/sim-server', 'alias': 's0', 'instances': r.randint(1, 2), 'restart': True, 'memberships': ['user'], 'arguments': ['svc=qsvc:%d:1' % r.choice([0, 0, 1, 2])]})
    blocking = {'Q05': 0.5, 'Q02': 0.05, 'Q04': 0.15}.get(prop, 0.2)
    clients = [w.client('c%d' % i, r.randint(1, 6), blocking) for i in range(pick(r, [(2, 2), (3, 3), (2, 5), (1, 7)]))]
    opt = knobs(r)
    faults = []
    if r.random() < (0.5 if prop != 'Q02' else 0.4):
        faults = queue_faults(r, [c['name'] for c in clients], pick(r, [(4, 1), (2, 2), (1, 4)]), prop == 'Q02' or prop == 'Q01' and r.random() < 0.15)
    if prop == 'Q02' and r.random() < 0.6:
        faults.append(queue_crash(r, [c['name'] for c in clients]))
    order = w.every()
    r.shuffle(order)
    drain = [['drain', q, 300] for q in order]
    # a queue group that died comes back with its domain
    after = ['shutdown A', 'gone A 60000', 'boot A', 'quiet 20000'] if any('kind=crash' in f or 'kill' in f and 'queue-group' in f for f in faults) else []
    return {'world': 'queues', 'opt': opt, 'machines': [{'name': 'A', 'config': config}], 'clients': clients, 'faults': faults, 'limit': 20000, 'limit2': 20000, 'settle_min': 8000,
            'drains': [{'m': 'A', 'name': 'd0', 'ops': drain}], 'probes': [{'m': 'A', 'name': 'p0', 'ops': drain}], 'probe_limit': 60000, 'after': after, 'last': ['dump A /home/a/*.qb*'], 'shutdown': r.random() < 0.2}


def forwards(r, prop):
    """queues that are forwarded to services and to other queues"""
    groups = [{'alias': 'g%d' % i, 'queuebase': '/home/a/g%d.qb' % i, 'queues': []} for i in range(pick(r, [(2, 1), (3, 2)]))]
    def queue(name, n=None):
        g = r.choice(groups)
        g['queues'].append({'name': name, 'retry': {'count': r.choice([0, 1, 1, 3]) if n is None else n, 'delay': r.choice(['0s', '0s', '30ms', '300ms'])}})
        return name
    services, queues, names = [], [], []
    delay = lambda: pick(r, [(4, '0s'), (1, '50ms'), (1, '500ms')])
    for i in range(pick(r, [(3, 1), (3, 2), (1, 3)])):
        src = queue('src%d' % i)
        if r.random() < 0.65:
            f = {'source': src, 'instances': pick(r, [(2, 1), (2, 2), (1, 4)]), 'target': {'service': r.choice(['f0', 'f1'])}}
            if r.random() < 0.75:
                f['reply'] = {'queue': queue('dst%d' % i), 'delay': delay()}
            services.append(f)
        else:
            queues.append({'source': src, 'instances': pick(r, [(2, 1), (2, 2), (1, 4)]), 'target': {'queue': queue('dst%d' % i), 'delay': delay()}})
        # and further on
        if r.random() < 0.2 and 'dst%d' % i in [q['name'] for g in groups for q in g['queues']]:
            queues.append({'source': 'dst%d' % i, 'instances': r.randint(1, 2), 'target': {'queue': queue('end%d' % i), 'delay': delay()}})
        names.append(src)
    groups = [g for g in groups if g['queues']]
    for g in groups:
        if r.random() < 0.06:
            g['capacity'] = {'size': r.choice([400, 3000])}
    forward = []
    for f in services:
        forward.append({'alias': 'fw%d' % len(forward), 'services': [f], 'queues': []})
    for f in queues:
        if forward and r.random() < 0.4:
            r.choice(forward)['queues'].append(f)
        else:
            forward.append({'alias': 'fw%d' % len(forward), 'services': [], 'queues': [f]})
    rms = ['rm%d' % i for i in range(r.randint(1, 2))]
    mode = pick(r, [(3, 0), (1, 1)])
    servers = [{'path': '/opt/casual/bin/sim-server', 'alias': 's%d' % i, 'instances': r.randint(1, 2), 'restart': True, 'memberships': ['user'],
                'arguments': ['svc=f%d:%d:1' % (i, mode), 'rm=' + ','.join(sorted(r.sample(rms, r.randint(1, len(rms)))))]} for i in range(2)]
    svcs = [{'name': 'f%d' % i, 'execution': {'timeout': {'duration': '%dms' % r.choice([50, 300]), 'contract': r.choice(['linger', 'kill'])}}} for i in range(2) if r.random() < 0.12]
    config = {'name': 'A', 'groups': [{'name': 'user'}], 'servers': servers, 'services': svcs, 'queue': {'groups': groups, 'forward': {'groups': forward}},
              'transaction': {'log': '/home/a/tm.log', 'resources': [{'name': n, 'key': 'sim-rm', 'instances': r.randint(1, 2), 'openinfo': 'db' + n[2:]} for n in rms]}}
    to_service = {f['source'] for f in services}
    clients = []
    n = [0]
    def put():
        q = r.choice(names)
        if q in to_service:
            n[0] += 1
            p = [['work', 'w%d' % n[0]]] if r.random() < 0.8 else []
            if r.random() < 0.2:
                p.append(['sleep', r.choice([1, 10, 100])])
            end = r.random()
            if end < 0.15:
                p += [['reply', 'f', size(r)], ['fail', r.randint(0, 5)]]
            elif end < 0.18:
                p.append(['crash'])
            else:
                p.append(['reply', 'r%d' % n[0], size(r)])
            return ['enqs', q, pick(r, [(5, 0), (1, 30)]), '-', p]
        return ['enq', q, size(r), pick(r, [(5, 0), (1, 30)]), '-']
    for i in range(pick(r, [(3, 1), (2, 2), (1, 4)])):
        ops = []
        for _ in range(r.randint(1, 6)):
            x = [put() for _ in range(r.randint(1, 3))]
            if r.random() < 0.4:
                x = [['begin']] + x + [['commit'] if r.random() < 0.85 else ['rollback'], ['rollback']]
            ops += x
            if r.random() < 0.25:
                ops.append(['sleep', r.choice([1, 10, 100])])
        # that the forwards have something to do while there are faults
        ops.append(['sleep', r.choice([10, 100, 500])])
        clients.append({'m': 'A', 'name': 'c%d' % i, 'child': True, 'ops': ops})
    opt = knobs(r)
    faults = []
    if r.random() < 0.65:
        for _ in range(pick(r, [(4, 1), (2, 2), (1, 3)])):
            fw, g, sv, tm, px = 'A/casual-queue-forward-group*', 'A/casual-queue-group*', 'A/sim-server*', 'A/casual-transaction-manager*', 'A/sim-rm-proxy*'
            def at(by, types, n=10):
                return 'on=%s:%d by=%s n=%d' % (r.choice(['send', 'sent', 'recv']), r.choice(types), by, r.randint(1, n))
            steps = [3001, 3002, 3102, 3103, 6100, 6102, 6200, 6202, 5102, 5103, 5104, 5105]
            who = pick(r, [(6, sv), (2.5, fw), (1, g)])
            kind = pick(r, [(6, 'kill'), (2, 'stall'), (1, 'slow'), (0.5, 'cap'), (0.5, 'eintr'), (1, 'crash')])
            if kind == 'kill':
                w = pick(r, [(4, lambda: at(who, steps + ([5400, 5401] if who == sv else []))), (2, lambda: at(fw, steps)), (1, lambda: at(tm, [5201, 5202, 5203, 5204])), (1, lambda: 'on=syscall by=%s n=%d' % (who, r.randint(1, 800)))])
                faults.append('kind=kill %s target=%s delay=%d' % (w, who if 'by=' + who not in w else 'self', r.choice([0, 0, r.randint(0, 300000)])))
            elif kind == 'stall':
                w = r.choice([who, tm])
                faults.append('kind=stall %s target=self dur=%d' % (at(w, steps + [5201, 5203]), r.choice([1, 10, 80, 400]) * MS))
            elif kind == 'slow':
                faults.append('kind=slow on=time at=%d target=%s factor=%d' % (r.randint(0, 50) * MS, r.choice([who, tm]), r.choice([4, 16])))
            elif kind == 'cap':
                faults.append('kind=cap on=time at=%d value=%d' % (r.randint(0, 50) * MS, r.choice([1, 2, 4])))
            elif kind == 'eintr':
                faults.append('kind=eintr on=time at=0 ppm=%d' % r.choice([1000, 20000]))
            else:
                faults.append('kind=crash %s m=A mode=all delay=%d' % (at(r.choice([fw, g, sv]), steps), r.choice([0, 0, r.randint(0, 300000)])))
    gone = any('kind=crash' in f or 'kill' in f and 'queue-' in f for f in faults)
    places = ['dst%d' % i for i in range(3)] + ['end%d' % i for i in range(3)]
    have = [q['name'] for g in groups for q in g['queues']]
    sources = {f['source'] for f in services + queues}
    drain = [['drain', q, 100] for q in [x for x in have if x not in sources] + [x + '.error' for x in have]]
    return {'world': 'forwards', 'opt': opt, 'machines': [{'name': 'A', 'config': config, 'system': SYSTEM}], 'clients': clients, 'faults': faults, 'limit': 20000, 'limit2': 20000, 'settle_min': 12000,
            'after': ['shutdown A', 'gone A 60000', 'boot A', 'quiet 20000', 'advance 12000', 'mark again'] if gone else [], 'probes': [{'m': 'A', 'name': 'p0', 'ops': drain}], 'probe_limit': 60000,
            'last': ['dump A /home/a/*.qb*'], 'shutdown': r.random() < 0.3}


def queue_crash(r, clients):
    """the machine goes down around an acknowledgement"""
    c = 'A/sim-client:%s#*' % r.choice(clients)
    g = 'A/casual-queue-group*'
    on = pick(r, [(4, 'on=recv:%d by=%s n=%d' % (r.choice([6102, 6202, 5103]), c, r.randint(1, 6))), (3, 'on=sent:%d by=%s n=%d' % (r.choice([6102, 6202, 5202, 5204]), g, r.randint(1, 8))),
                  (2, 'on=syscall by=%s n=%d' % (g, r.randint(1, 1500))), (1, 'on=time at=%d' % (r.randint(1, 300) * MS))])
    return 'kind=crash %s m=A mode=all delay=%d dump=/home/a/*.qb*' % (on, r.choice([0, 0, r.randint(0, 300000)]))


def domains(r, prop):
    """a domain with groups that depend on each other, that is scaled, restarted and shut down while things die"""
    k = pick(r, [(2, 1), (3, 3), (4, 4), (2, 6)])
    names = ['g%d' % i for i in range(k)]
    order = names[:]
    r.shuffle(order)
    groups = []
    for i, n in enumerate(names):
        # i depends only on those with a lower number, so there are no cycles
        deps = [d for d in names[:i] if r.random() < (0.6 if i - names.index(d) == 1 else 0.2)]
        r.shuffle(deps)
        groups.append({'name': n, 'dependencies': deps})
    groups.sort(key=lambda g: order.index(g['name']))
    if r.random() < 0.3:
        groups[r.randrange(k)]['dependencies'].append('.global')
    servers, executables = [], []
    svc = {}
    for i in range(pick(r, [(3, 2), (4, 4), (2, 6)])):
        alias = 's%d' % i
        members = [r.choice(names)] if r.random() < 0.85 else (r.sample(names, min(2, k)) if r.random() < 0.7 else [])
        svc['svc%d' % i] = alias
        sv = {'path': '/opt/casual/bin/sim-server', 'alias': alias, 'instances': pick(r, [(1, 0), (5, 1), (3, 2), (2, 3), (1, 5)]), 'restart': r.random() < 0.6, 'memberships': members, 'arguments': ['svc=svc%d:3:1' % i]}
        if r.random() < 0.25:
            sv['arguments'].append('init=sleep_%d' % r.choice([1, 20, 100]))
        servers.append(sv)
    for i in range(pick(r, [(2, 0), (3, 1), (2, 2)])):
        members = [r.choice(names)]
        args = pick(r, [(4, ['sleep=100000000']), (1, lambda: ['sleep=%d' % r.choice([1, 50, 400]), 'exit=%d' % r.randint(0, 1)])])
        # one that is restarted whenever it has ended would go on for ever
        executables.append({'path': '/opt/casual/bin/sim-script', 'alias': 'x%d' % i, 'instances': pick(r, [(3, 1), (2, 2), (1, 3)]), 'restart': len(args) == 1 and r.random() < 0.6, 'memberships': members, 'arguments': args})
    r.shuffle(servers)
    aliases = [s['alias'] for s in servers + executables]
    restartable = aliases
    clients, faults = [], []
    opt = knobs(r)
    # those that ask for something
    n_admin = pick(r, [(2, 0), (4, 1), (2, 2)]) if prop == 'D01' else pick(r, [(1, 0), (5, 1), (3, 2)])
    calm = r.random() < 0.5
    for i in range(n_admin):
        ops = []
        for _ in range(pick(r, [(2, 1), (3, 2), (3, 4)])):
            ops.append(pick(r, [(8, lambda: ['scale', r.choice(aliases), pick(r, [(1, 0), (2, 1), (2, 2), (2, 3), (1, 5)])]), (2, lambda: ['restart', r.choice(restartable)]), (0.7, lambda: ['restart-group', r.choice(names)]), (0.5, lambda: ['domain-state'])]))
            if r.random() < 0.6:
                ops.append(['sleep', r.choice([0, 1, 10, 100, 1000])])
        clients.append({'m': 'A', 'name': 'a%d' % i, 'ops': ops})
    # those that call
    for i in range(pick(r, [(2, 0), (3, 1), (2, 3)])):
        ops = []
        for _ in range(r.randint(1, 5)):
            target = r.randrange(len(svc))
            p = [['sleep', pick(r, [(3, 0), (2, lambda: r.randint(1, 50)), (2, lambda: r.choice([200, 1000]))])]]
            if target + 1 < len(svc) and r.random() < 0.35:
                # never back to where the call comes from, that would wait for itself
                p.append(['call', 'svc%d' % r.randrange(target + 1, len(svc)), 0, size(r), [['sleep', r.choice([0, 10, 100])], ['reply', 'i', 3]]])
            if r.random() < (0.08 if not calm else 0):
                p.append(r.choice([['exit', 3], ['crash']]))
            p.append(['reply', 'r%d' % r.randint(0, 99), size(r)])
            ops.append(['call', 'svc%d' % target, 0, size(r), p])
        clients.append({'m': 'A', 'name': 'c%d' % i, 'ops': ops})
    s = {'world': 'domains', 'opt': opt, 'clients': clients}
    early = r.random() < 0.35
    if r.random() < (0.6 if not calm else 0):
        for _ in range(pick(r, [(3, 1), (3, 2), (2, 4)])):
            # what dies while the domain boots is not restarted until it has booted, and it can't do that without a manager
            victim = pick(r, [(6, lambda: 'A/sim-s*:%s#*' % r.choice(aliases)), (0 if early else 1, lambda: 'A/%s*' % r.choice(['casual-queue-manager', 'casual-gateway-manager', 'casual-domain-discovery'])), (0 if early else 0.4, 'A/casual-transaction-manager*'), (0 if early else 0.4, 'A/casual-service-manager*')])
            when = pick(r, [(3, lambda: 'on=time at=%d' % (r.randint(0, 400) * MS)), (3, lambda: 'on=syscall by=%s n=%d' % (victim, r.randint(1, 300))), (2, lambda: 'on=send:1000 by=%s n=%d' % (victim, r.randint(1, 4))),
                            (2, lambda: 'on=recv:0 by=%s n=%d' % (victim, r.randint(1, 12))), (2, lambda: 'on=recv:502 by=%s n=%d' % (victim, r.randint(1, 3))), (1, lambda: 'on=send:0 by=%s n=%d' % (victim, r.randint(1, 12)))])
            kind = pick(r, [(6, 'kill'), (2, 'stall'), (1, 'spawnfail'), (1, 'slow'), (1, 'client')])
            target = 'self' if 'by=' in when else victim
            if kind == 'kill':
                faults.append('kind=kill %s target=%s delay=%d' % (when, target, r.choice([0, 0, r.randint(0, 300000)])))
            elif kind == 'client' and clients:
                c = 'A/sim-client:%s#*' % r.choice(clients)['name']
                faults.append('kind=kill %s target=self delay=%d' % (pick(r, [(1, 'on=recv:0 by=%s n=%d' % (c, r.randint(1, 12))), (1, 'on=send:0 by=%s n=%d' % (c, r.randint(1, 12)))]), r.choice([0, r.randint(0, 300000)])))
            elif kind == 'stall':
                faults.append('kind=stall %s target=%s dur=%d' % (when, target, r.choice([10, 80, 400, 3000]) * MS))
            elif kind == 'spawnfail':
                faults.append('kind=spawnfail on=time at=%d target=A/casual-domain-manager* times=%d' % (r.randint(0, 300) * MS, r.randint(1, 3)))
            elif kind == 'slow':
                faults.append('kind=slow on=time at=%d target=%s factor=%d' % (r.randint(0, 50) * MS, r.choice([victim, 'A/casual-domain-manager*', 'A/casual-service-manager*']), r.choice([4, 16])))
    s['faults'] = faults
    if not early:
        # it has booted when it starts
        s['before'] = ['advance 2000']
    if early:
        s['faults_at_boot'] = True
        s['boot_quiet'] = r.random() < 0.4
    cfg = {'name': 'A', 'groups': groups, 'servers': servers, 'executables': executables}
    s['machines'] = [{'name': 'A', 'config': cfg}]
    s['shutdown_limit'] = 120000
    if r.random() < (0.5 if prop == 'D01' else 0.15):
        # it is shut down while things go on
        s['during'] = ['advance %d' % pick(r, [(2, 0), (3, lambda: r.randint(1, 30)), (3, lambda: r.randint(30, 500)), (1, 3000)]), 'shutdown A', 'gone A-domain %d' % s['shutdown_limit'], 'ps', 'sockets', 'mark down']
        s['no_restart'] = True
        s['settle_min'] = 0
        s['limit'] = 5000
        s['limit2'] = 5000
    else:
        probes = []
        for i, sv in enumerate(x for x in sorted(servers, key=lambda x: x['alias'])):
            for j in range(6):
                probes.append({'m': 'A', 'name': 'p%d.%d' % (i, j), 'ops': [['call', 'svc' + sv['alias'][1:], 0, 10, [['sleep', 2000], ['reply', 'probe', 3]]]]})
        s['probes'] = probes
        s['probe_limit'] = 30000
        s['shutdown'] = True
        if prop == 'D02' and r.random() < 0.6:
            # when all is said and done, some of them die
            s['after'] = ['mark after']
            for x in r.sample(aliases, min(len(aliases), r.randint(1, 3))):
                s['after'].append('signal A/sim-s*:%s#%s 9' % (x, r.choice(['*', '*', '*[02468]', '*[13579]'])))
                if r.random() < 0.5:
                    s['after'].append('advance %d' % r.choice([1, 50, 1500]))
            s['after'] += ['advance 3000', 'ps', 'mark after-end']
    return s

# ------------------------------------------------------------------ several domains
class Domains(Services):
    """services of several domains, that call each other: only ever from one server to one with a higher number"""
    def __init__(self, r, prop, **kw):
        super().__init__(r, **kw)
        self.prop = prop
        shape = pick(r, [(3, 'pair'), (1.5, 'double'), (2, 'both'), (4, 'star'), (3, 'chain'), (1, 'mesh')])
        self.shape = shape
        n = 2 if shape in ('pair', 'double', 'both') else 3
        self.where = ['A', 'B', 'C'][:n]
        while len(self.servers) < n or r.random() < 0.3 and len(self.servers) < 6:
            i = len(self.servers)
            self.servers.append({'alias': 's%d' % i, 'layer': i, 'svcs': [r.choice(self.names)] if self.names and r.random() < 0.6 else ['svc%d' % (10 + i)], 'instances': pick(r, [(4, 1), (3, 2)]), 'restart': True})
        spots = sorted(r.choice(self.where[1:]) if r.random() < 0.85 else 'A' for _ in self.servers)
        for m in self.where[1:]:
            if m not in spots:
                spots[r.randrange(len(spots)) if m == 'B' else -1] = m
        spots.sort()
        if shape in ('both', 'mesh') and r.random() < 0.6:
            r.shuffle(spots)
        for sv, m in zip(self.servers, spots):
            sv['m'] = m
            sv['restart'] = r.random() < 0.8
        offered = sorted({x for sv in self.servers for x in sv['svcs']})
        self.names = offered
        self.lo = {x: min(sv['layer'] for sv in self.servers if x in sv['svcs']) for x in offered}
        self.hi = {x: max(sv['layer'] for sv in self.servers if x in sv['svcs']) for x in offered}
        self.timeouts = {}
        self.routes = {}
        self.links = []
        def link(a, b, forward=False):
            self.links.append({'from': a, 'to': b, 'reverse': r.random() < 0.35, 'forward': forward, 'order': r.randint(0, 2)})
        if shape == 'pair':
            link('A', 'B')
        elif shape == 'double':
            link('A', 'B'); link('A', 'B')
        elif shape == 'both':
            link('A', 'B'); link('B', 'A')
        elif shape == 'star':
            link('A', 'B'); link('A', 'C')
            if r.random() < 0.3:
                link('B', 'C')
        elif shape == 'chain':
            link('A', 'B', True); link('B', 'C')
        else:
            for a in 'ABC':
                for b in 'ABC':
                    if a != b and r.random() < 0.7:
                        link(a, b)
            if not [l for l in self.links if l['from'] == 'A']:
                link('A', 'B')
        # a group may have several connections
        for i, l in enumerate(self.links):
            l['og'], l['ig'] = i, i
            for k in self.links[:i]:
                if k['reverse'] == l['reverse'] and k['from'] == l['from'] and l['og'] == i and r.random() < 0.5:
                    l['og'], l['order'] = k['og'], k['order']
                if k['reverse'] == l['reverse'] and k['to'] == l['to'] and l['ig'] == i and r.random() < 0.5:
                    l['ig'] = k['ig']

    def machines(self):
        r = self.r
        ip = {'A': '10.0.0.1', 'B': '10.0.0.2', 'C': '10.0.0.3'}
        out = []
        for m in self.where:
            c = {'name': m, 'groups': [{'name': 'user'}], 'services': []}
            c['servers'] = [{'path': '/opt/casual/bin/sim-server', 'alias': sv['alias'], 'instances': sv['instances'], 'restart': sv['restart'], 'memberships': ['user'],
                             'arguments': ['svc=' + ','.join('%s:%d:%d' % (x, self.txmode(), 1) for x in sv['svcs'])] + (['rm=' + ','.join(sv['rms'])] if sv.get('rms') else [])} for sv in self.servers if sv['m'] == m]
            if not self.hidden is None and self.hidden.get(m):
                c['servers'] += self.hidden[m]
            g = {'inbound': {'groups': []}, 'outbound': {'groups': []}, 'reverse': {'inbound': {'groups': []}, 'outbound': {'groups': []}}}
            for i, l in enumerate(self.links):
                address = '%s:%d' % (ip[l['from'] if l['reverse'] else l['to']], 7000 + i)
                where = g['reverse'] if l['reverse'] else g
                if m == l['to']:
                    inb = self.group(where['inbound']['groups'], {'alias': 'in%d' % l['ig'], 'connections': []})
                    inb['connections'].append({'address': address})
                    if l['forward']:
                        inb['connections'][-1]['discovery'] = {'forward': True}
                    if l.get('limit') and 'limit' not in inb:
                        inb['limit'] = l['limit']
                if m == l['from']:
                    self.group(where['outbound']['groups'], {'alias': 'out%d' % l['og'], 'order': l['order'], 'connections': []})['connections'].append({'address': address})
            c['gateway'] = g
            out.append({'name': m, 'config': c})
        return out

    hidden = None

    @staticmethod
    def group(groups, new):
        for g in groups:
            if g['alias'] == new['alias']:
                return g
        groups.append(new)
        return new


def gateway_faults(r, w, clients, n):
    out = []
    for _ in range(n):
        l = r.choice(w.links)
        fr, to = l['from'], l['to']
        outg = '%s/casual-gateway-outbound*:out%d#*' % (fr, l['og'])
        ing = '%s/casual-gateway-inbound*:in%d#*' % (to, l['ig'])
        sv = r.choice([x for x in w.servers])
        server = '%s/sim-server:%s#*' % (sv['m'], sv['alias'])
        client = r.choice(clients)
        client = '%s/sim-client:%s#*' % (client['m'], client['name'])
        def when(by):
            return pick(r, [
                (3, lambda: 'on=recv:3102 by=%s n=%d' % (by, r.randint(1, 6))),
                (3, lambda: 'on=send:3103 by=%s n=%d' % (by, r.randint(1, 6))),
                (2, lambda: 'on=send:%d by=%s n=%d' % (r.choice([5201, 5202, 5203, 5204, 5205, 5206]), by, r.randint(1, 4))) if w.kw.get('work') else (1, lambda: 'on=send:3102 by=%s n=%d' % (by, r.randint(1, 6))),
                (2, lambda: 'on=send:0 by=%s n=%d' % (by, r.randint(1, 40))),
                (2, lambda: 'on=recv:0 by=%s n=%d' % (by, r.randint(1, 40))),
                (2, lambda: 'on=syscall by=%s n=%d' % (by, r.randint(1, 600))),
                (2, lambda: 'on=time at=%d' % (r.randint(0, 200) * MS))])
        w_ = when(r.choice([outg, ing, outg, ing, server, client]))
        kind = pick(r, [(5, 'partition'), (4, 'reset'), (4, 'group'), (2, 'server'), (1, 'client'), (2, 'stall'), (1, 'slow'), (0.6, 'connect'), (0.7, 'crash'), (0.6, 'eintr'), (0.6, 'cap')])
        if kind == 'partition':
            out.append('kind=partition %s a=%s b=%s dur=%d' % (w_, fr, to, r.choice([5, 100, 2000, 15000, 40000]) * MS))
        elif kind == 'reset':
            out.append('kind=reset %s a=%s b=%s' % (w_, fr, to))
        elif kind == 'group':
            v = r.choice([outg, ing])
            w_ = when(v)
            out.append('kind=kill %s target=%s delay=%d' % (w_, 'self' if 'by=' in w_ else v, r.choice([0, 0, r.randint(0, 300000)])))
        elif kind == 'server':
            out.append('kind=kill %s target=%s delay=%d' % (w_, server, r.choice([0, 0, r.randint(0, 300000)])))
        elif kind == 'client':
            out.append('kind=kill %s target=%s delay=%d' % (w_, client, r.choice([0, 0, r.randint(0, 300000)])))
        elif kind == 'stall':
            out.append('kind=stall %s target=%s dur=%d' % (w_, r.choice([outg, ing, server]), r.choice([1, 20, 300, 3000]) * MS))
        elif kind == 'slow':
            out.append('kind=slow on=time at=0 target=%s factor=%d' % (r.choice([outg, ing, '%s/casual-service-manager*' % to]), r.choice([4, 32])))
        elif kind == 'connect':
            out.append('kind=reset %s a=%s b=%s' % (w_, fr, to))
            out.append('kind=%s on=syscall by=%s/casual-gateway-group-tcp-logical-connect* n=%d target=self dur=%d' % (r.choice(['kill', 'stall']), r.choice([fr, to]), r.randint(1, 40), r.choice([10, 1000]) * MS))
        elif kind == 'crash':
            m = r.choice(w.where[1:]) if r.random() < 0.8 else 'A'
            out.append('kind=crash %s m=%s mode=all delay=0 restart=%d' % (w_, m, r.choice([100, 2000]) * MS))
        elif kind == 'eintr':
            out.append('kind=eintr on=time at=0 ppm=%d' % r.choice([1000, 20000]))
        elif kind == 'cap':
            out.append('kind=cap on=time at=%d value=%d' % (r.randint(0, 50) * MS, r.choice([1, 2, 4])))
    return out


def net_knobs(r, o):
    if r.random() < 0.4:
        o['net_lo'], o['net_hi'] = r.choice([(20000, 60000), (100000, 3000000), (1000, 100000000)])
    if r.random() < 0.3:
        o['net_slow_ppm'], o['net_slow_max'] = 20000, 300 * MS
    if r.random() < 0.3:
        o['tcp_buf'] = r.choice([2000, 8000, 40000])
    if r.random() < 0.3:
        o['tcp_timeout'] = r.choice([500, 3000]) * MS
    return o


def gateways(r, prop):
    """domains that call each other"""
    tx = prop == 'G02' or r.random() < (0.5 if prop == 'G03' else 0.25)
    mode = r.random()
    w = Domains(r, prop, timeouts=0, work=0.75 if tx else 0, crash=0.01, cancel=0.1, getany=0.3, tight=0,
                txmode=(lambda: 0 if mode < 0.6 else pick(r, [(4, 0), (3, 1), (2, 2), (1, 3), (1, 4)])) if tx else (lambda: 3))
    for l in w.links:
        if r.random() < 0.2:
            l['limit'] = r.choice([{'messages': r.randint(1, 4)}, {'size': r.choice([1000, 20000])}])
    names = {m: ['rm%s%d' % (m.lower(), i) for i in range(r.randint(1, 2))] for m in w.where}
    if tx:
        for sv in w.servers:
            sv['rms'] = sorted(r.sample(names[sv['m']], r.randint(0 if r.random() < 0.2 else 1, len(names[sv['m']]))))
    machines = w.machines()
    if tx:
        for m in machines:
            m['config']['transaction'] = {'log': '/home/%s/tm.log' % m['name'].lower(), 'resources': [{'name': x, 'key': 'sim-rm', 'instances': pick(r, [(3, 1), (2, 2)]), 'openinfo': 'db' + x[2:]} for x in names[m['name']]]}
            m['system'] = SYSTEM
    clients = []
    for i in range(pick(r, [(2, 1), (3, 2), (2, 3), (1, 5)])):
        m = 'A' if w.shape not in ('both', 'mesh') or r.random() < 0.6 else r.choice(w.where)
        ops = []
        own = sorted(r.sample(names[m], 1)) if tx and r.random() < 0.3 else []
        for _ in range(r.randint(1, 5)):
            if tx and r.random() < 0.9:
                ops += w.transaction(bool(own))
            else:
                ops += w.operation(w.callable(), 2)
            if r.random() < 0.2:
                ops.append(['sleep', r.choice([1, 10, 100, 1000])])
        clients.append({'m': m, 'name': 'c%d' % i, 'child': r.random() < 0.8, 'ops': ops, 'args': ['rm=' + ','.join(own)] if own else []})
    opt = net_knobs(r, knobs(r))
    faults = []
    if r.random() < 0.7:
        faults = gateway_faults(r, w, clients, pick(r, [(4, 1), (3, 2), (1, 4)]))
    probes = []
    for m in w.where:
        probes.append({'m': m, 'name': 'p' + m, 'ops': [['call', n, 0, 10, [['reply', 'probe', 3]]] for n in w.callable()] + [['sleep', 2000], ['mark', 'again']] + [['call', n, 0, 10, [['reply', 'probe', 3]]] for n in w.callable()]})
    return {'world': 'gateways', 'opt': opt, 'machines': machines, 'links': w.links, 'clients': clients, 'probes': probes, 'faults': faults, 'before': ['advance 10000'], 'settle_min': 60000, 'shutdown': r.random() < 0.3}



MS = 1000000
SYSTEM = {'resources': [{'key': 'sim-rm', 'server': '/opt/casual/bin/sim-rm-proxy', 'xa_struct_name': 'sim_xa', 'libraries': []}]}


WORLDS = {
    'T01': [(1, transactions)],
    'T02': [(1, transactions)],
    'T03': [(1, transactions)],
    'T04': [(1, transactions)],
    'Q01': [(1, queue_world)],
    'Q02': [(1, queue_world)],
    'Q03': [(1, queue_world)],
    'Q04': [(1, queue_world)],
    'Q05': [(1, queue_world)],
    'Q06': [(1, forwards)],
    'S01': [(1, services)],
    'S02': [(1, services)],
    'S03': [(1, services)],
    'E01': [(1, events)],
    'D01': [(1, domains)],
    'D02': [(1, domains)],
    'G01': [(1, gateways)],
    'G02': [(1, gateways)],
    'G03': [(1, gateways)],
}


def scenario(prop, seed):
    r = random.Random(seed * 1000003 + sum(ord(c) * 131 ** i for i, c in enumerate(prop)) % 1000000007)
    f = pick(r, [(w, (lambda g=g: g)) for w, g in WORLDS[prop]])
    s = f(r, prop)
    s['seed'] = r.randint(1, 2 ** 40)
    return s


# how much longer than others a check of the property explores
EFFORT = {}

# what a run has to contain to tell something about the property: (in words, test)
def _several(h):
    seen = {}
    for e in h.of('xa'):
        if e['op'] == 'work':
            seen.setdefault(e['g'], set()).add((e['rm'], e['b']))
    return any(len(x) > 1 for x in seen.values())


def _two_phase(h):
    return [e for e in h.of('xa') if e['op'] == 'prepare' and e['rc'] == 0]


def _group_down(h):
    tags = {e['pid']: e['tag'] for e in h.of('spawn')}
    return sorted([e['i'] for e in h.of('exit') if 'casual-queue-group' in tags.get(e['pid'], '') and (not h.of('shutdown') or e['i'] < h.of('shutdown')[0]['i'])])


def _from_one_queue(h):
    n = {}
    for e in h.of('deqd', 'bdeqd', 'wdeqd', 'drain'):
        if e['rc'] == 0:
            n[e['q']] = n.get(e['q'], 0) + 1
    return any(x > 1 for x in n.values())


def _rolled_back_take(h):
    g = {e['g'] for e in h.of('deq', 'bdeq', 'wdeq')}
    return any(e['op'] == 'rollback' and e['rc'] == 0 and e['g'] in g for e in h.of('tx') if e.get('g'))


def _remote(h):
    at = {}
    for e in h.of('call', 'acall'):
        at[e['id']] = e['tag'][0]
    return any(e['tag'][0] != at.get(e['id'], e['tag'][0]) for e in h.of('svc'))


def _spread(h):
    g = {}
    for e in h.of('xa'):
        if e['op'] == 'work':
            g.setdefault(e['g'], set()).add(e['rm'][0])
    return any(len(x) > 1 for x in g.values())


NONTRIVIAL = {
    'T01': ('a transaction did work in at least two branches', lambda h, s: _several(h)),
    'T02': ('an application was told the outcome of a transaction with work', lambda h, s: bool({e['g'] for e in h.of('tx') if e.get('op') in ('commit', 'rollback') and e['rc'] in (0, -2)} & {e['g'] for e in h.of('xa') if e['op'] == 'work'})),
    'T03': ('at least two branches were completed', lambda h, s: len([e for e in h.of('xa') if e['op'] in ('commit', 'rollback')]) >= 2),
    'T04': ('a resource was told to commit in the second phase', lambda h, s: bool([e for e in h.of('xa') if e['op'] == 'commit' and not e['flags'] & 0x40000000])),
    'Q01': ('a message was delivered', lambda h, s: any(e['rc'] == 0 for e in h.of('deqd', 'bdeqd', 'wdeqd'))),
    'Q02': ('a queue operation was acknowledged before a queue group or the machine went down', lambda h, s: bool(_group_down(h)) and any(e['rc'] == 0 and e['i'] < _group_down(h)[0] for e in h.of('enqd', 'deqd', 'bdeqd'))),
    'Q03': ('at least two messages were delivered from a queue', lambda h, s: _from_one_queue(h)),
    'Q04': ('a transaction that held a dequeued message was rolled back', lambda h, s: _rolled_back_take(h)),
    'Q05': ('a consumer waited for a message', lambda h, s: bool(h.of('bdeq', 'wdeq'))),
    'Q06': ('a forward took a message', lambda h, s: bool(h.of('svc')) or any(e['rc'] == 0 and e['q'][:3] in ('dst', 'end') for e in h.of('drain'))),
    'D01': ('the domain was shut down after something had been started', lambda h, s: bool(h.of('shutdown')) and len(h.of('spawn')) > 8),
    'D02': ('instances died or were scaled', lambda h, s: bool(h.of('admin')) or bool(h.of('fault'))),
    'S01': ('at least one service was executed for a caller', lambda h, s: bool(h.of('svc'))),
    'S02': ('at least two requests were handed to instances', lambda h, s: len(h.of('svc')) >= 2),
    'E01': ('a call was executed', lambda h, s: bool(h.of('svc'))),
    'G01': ('a call was executed in another domain', lambda h, s: _remote(h)),
    'G02': ('a transaction did work in more than one domain', lambda h, s: _spread(h)),
    'G03': ('a call was executed in another domain', lambda h, s: _remote(h)),
    'S03': ('a service with an execution timeout was called', lambda h, s: any(sv.get('execution') for m in s['machines'] for sv in m['config'].get('services', [])) and bool(h.of('svc'))),
}


# said in the manifest
NOTE = {}


def nontrivial(prop, h, s):
    return NONTRIVIAL[prop][1](h, s)
