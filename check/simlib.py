"""Scenarios: their text for the simulator, running them, and making them smaller.

A scenario is a dict (it is also what a replay file holds):
  seed      every random choice of the simulator
  opt       knobs of the simulator
  machines  [{name, config, env, clock}]   config is the domain's configuration
  clients   [{m, name, delay, ops}]        run while faults are on
  probes    [{m, name, ops}]               run after faults stopped and everything settled
  faults    [text]
  steps     what happens around that: see render
An operation is a list: words, and lists of operations for { }.
"""
import json, os, subprocess, tempfile, copy, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
EXES = ['casual-domain-manager', 'casual-domain-discovery', 'casual-service-manager', 'casual-service-forward', 'casual-transaction-manager',
        'casual-queue-manager', 'casual-queue-group', 'casual-queue-forward-group', 'casual-gateway-manager', 'casual-gateway-inbound-group',
        'casual-gateway-inbound-reverse-group', 'casual-gateway-outbound-group', 'casual-gateway-outbound-reverse-group',
        'casual-gateway-group-tcp-logical-connect', 'casual-event-service-log', 'sim-server', 'sim-client', 'sim-rm-proxy', 'sim-script']


def op_text(op):
    out = []
    for w in op:
        if isinstance(w, list):
            out.append('{ ' + ' '.join(op_text(o) for o in w) + ' }')
        else:
            out.append(str(w))
    return ' '.join(out)


def render(s):
    L = ['seed %d' % s['seed']]
    # the messages that a history is to show
    msgs = {'services': '3001,3002,3102,3104', 'domains': '1000,3001,3002,3102,3104', 'events': '3104,4000', 'gateways': '3001,3002,3102,3103,3104'}.get(s.get('world'))
    if msgs and 'msgs' not in s.get('opt', {}):
        L.append('opt msgs ' + msgs)
    for k, v in sorted(s.get('opt', {}).items()):
        L.append('opt %s %s' % (k, v))
    for m in s['machines']:
        n = m['name']
        home = '/home/' + n.lower()
        L.append('machine ' + n)
        L += ['exe %s /opt/casual/bin/%s' % (n, e) for e in EXES]
        L += ['dir %s %s' % (n, home), 'dir %s /tmp' % n]
        files = dict(m.get('files', {}))
        config = dict(m['config'])
        children = [c for c in s.get('clients', []) if c.get('child') and c['m'] == n]
        if children:
            # clients that the domain itself starts, so that it knows when they end
            config['executables'] = config.get('executables', []) + [{'path': '/opt/casual/bin/sim-client', 'alias': c['name'], 'arguments': [c['name']] + c.get('args', []), 'instances': 1, 'memberships': c.get('memberships', ['user'])} for c in children]
        files[home + '/domain.yaml'] = json.dumps({'domain': config}, indent=1)
        if m.get('system'):
            files[home + '/system.yaml'] = json.dumps({'system': m['system']}, indent=1)
        for path, text in sorted(files.items()):
            t = text.rstrip('\n').split('\n')
            L.append('file %s %s %d' % (n, path, len(t)))
            L += t
        env = ['CASUAL_DOMAIN_HOME=' + home, 'CASUAL_HOME=/opt/casual', 'CASUAL_LOG=' + m.get('log', 'error')]
        if m.get('system'):
            env.append('CASUAL_SYSTEM_CONFIGURATION_GLOB=' + home + '/system.yaml')
        env += m.get('env', [])
        L.append('bootcmd %s /opt/casual/bin/casual-domain-manager -c %s/domain.yaml %s' % (n, home, ' '.join(env)))
    def clients(cs):
        for c in cs:
            if c.get('child'):
                continue
            text = '\n'.join(op_text(o) for o in c['ops'])
            n = text.count('\n') + 1 if text else 0
            L.append('script %s %d' % (c['name'], n))
            if n:
                L.extend(text.split('\n'))
            L.append(' '.join(['client %s %s %s 0' % (c['m'], c['name'], c['name'])] + c.get('args', [])))
    for c in s.get('clients', []):
        if c.get('child'):
            text = '\n'.join(op_text(o) for o in [['await']] + c['ops'])
            L.append('script %s %d' % (c['name'], text.count('\n') + 1))
            L += text.split('\n')
    for f in s.get('faults', []):
        L.append('fault ' + f)
    early = s.get('faults_at_boot')
    if early:
        L.append('arm')
    for m in s['machines']:
        L.append('boot ' + m['name'])
        if m.get('gap'):
            L.append('advance %d' % m['gap'])
    if not early or s.get('boot_quiet', True):
        L.append('quiet %d' % s.get('boot_limit', 20000))
    if s.get('before'):
        L += s['before']
    L.append('mark faults-begin')
    if not early:
        L.append('arm')
    L.append('go')
    clients(s.get('clients', []))
    L += s.get('during', [])
    L.append('wait-clients %d' % s.get('limit', 60000))
    L.append('mark faults-end')
    L.append('disarm')
    if not s.get('no_restart'):
        L.append('ensure-up')
    L.append('wait-clients %d' % s.get('limit2', 60000))
    if s.get('drains'):
        # before those that wait are told to go
        L.append('advance %d' % s.get('drain_after', 5000))
        L.append('mark drains')
        clients(s['drains'])
        L.append('wait-clients %d' % s.get('drain_limit', 20000))
    L.append('mark clients-end')
    L.append('kill-clients')
    L.append('quiet %d' % s.get('settle', 60000))
    if s.get('settle_min', 15000):
        L.append('advance %d' % s.get('settle_min', 15000))
        L.append('quiet %d' % s.get('settle', 60000))
    L.append('mark settled')
    L.append('ps')
    L += s.get('after', [])
    if s.get('probes'):
        L.append('mark probes')
        clients(s['probes'])
        L.append('wait-clients %d' % s.get('probe_limit', 60000))
        L.append('mark probes-end')
        L.append('kill-clients')
        L.append('quiet %d' % s.get('settle', 60000))
        L.append('mark probes-settled')
    L += s.get('last', [])
    if s.get('shutdown'):
        for m in s['machines']:
            L.append('shutdown ' + m['name'])
        for m in s['machines']:
            L.append('gone %s %d' % (m['name'], s.get('shutdown_limit', 60000)))
        L.append('mark down')
        L.append('ps')
        L.append('sockets')
        L += s.get('finally', [])
    return '\n'.join(L) + '\n'


class Crashed(Exception):
    pass


class Simulator:
    """One simulator process, that runs one scenario after the other, each in a fork of its own."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='sim', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
        self.p = None

    def start(self):
        env = {k: v for k, v in os.environ.items() if not k.startswith(('CASUAL', 'SIM_'))}
        self.p = subprocess.Popen([os.path.join(BUILD, 'sim'), os.path.join(BUILD, 'node.so'), '--server'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)

    def run(self, scenario, keep=None):
        if self.p is None or self.p.poll() is not None:
            self.start()
        plan, out = os.path.join(self.dir, 'plan'), os.path.join(self.dir, 'out')
        with open(plan, 'w') as f:
            f.write(render(scenario))
        for f in os.listdir(self.dir):
            if f.startswith('out'):
                os.unlink(os.path.join(self.dir, f))
        self.p.stdin.write('%s %s\n' % (plan, out))
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise Crashed('the simulator ended')
        status = int(line.split()[0])
        if status != 0 or not os.path.exists(out):
            raise Crashed('simulator status %d' % status)
        return History(out, self.dir)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
        subprocess.call(['rm', '-rf', self.dir])


class History:
    def __init__(self, path, directory):
        self.events = []
        with open(path, 'rb') as f:
            for line in f:
                self.events.append(json.loads(line))
        self.summary = self.events.pop()
        self.dir = directory
        self.hash = self.summary['hash']
        self.by = {}
        for e in self.events:
            self.by.setdefault(e['e'], []).append(e)

    def of(self, *kinds):
        if len(kinds) == 1:
            return self.by.get(kinds[0], [])
        r = [e for k in kinds for e in self.by.get(k, [])]
        r.sort(key=lambda e: e['i'])
        return r

    def marks(self):
        return {e['name']: e for e in self.of('mark') if 'tag' not in e}

    def dump(self, e):
        return os.path.join(self.dir, 'out.dump%d' % e['n'])


def run_fresh(scenario):
    s = Simulator()
    try:
        return s.run(scenario)
    finally:
        s.close()


# ------------------------------------------------------------------ smaller
def paths(ops, prefix=()):
    for i, op in enumerate(ops):
        yield prefix + (i,)
        for j, w in enumerate(op):
            if isinstance(w, list):
                yield from paths(w, prefix + (i, j))


def without(ops, path):
    r = copy.deepcopy(ops)
    at = r
    for p in path[:-1]:
        at = at[p]
    del at[path[-1]]
    return r


def candidates(s):
    """Smaller scenarios, the most radical ones first."""
    for key in ('clients', 'probes'):
        cs = s.get(key, [])
        for i in range(len(cs)):
            t = copy.deepcopy(s); del t[key][i]; yield t
    fs = s.get('faults', [])
    for i in range(len(fs)):
        t = copy.deepcopy(s); del t['faults'][i]; yield t
    for k in sorted(s.get('opt', {})):
        t = copy.deepcopy(s); del t['opt'][k]; yield t
    for key in ('clients', 'probes'):
        for i, c in enumerate(s.get(key, [])):
            n = len(c['ops'])
            if n > 3:
                for lo, hi in ((n // 2, n), (0, n // 2)):
                    t = copy.deepcopy(s); del t[key][i]['ops'][lo:hi]; yield t
            for p in sorted(paths(c['ops']), key=lambda p: (len(p), [-x for x in p])):
                t = copy.deepcopy(s); t[key][i]['ops'] = without(c['ops'], p); yield t
    for i, m in enumerate(s['machines']):
        for key in ('servers', 'executables', 'services'):
            for j in range(len(m['config'].get(key, []))):
                t = copy.deepcopy(s); del t['machines'][i]['config'][key][j]; yield t
        for j, sv in enumerate(m['config'].get('servers', [])):
            if sv.get('instances', 1) > 1:
                t = copy.deepcopy(s); t['machines'][i]['config']['servers'][j]['instances'] = 1; yield t


def size(s):
    return len(json.dumps(s))


def key(s):
    return hashlib.sha1(json.dumps(s, sort_keys=True).encode()).hexdigest()
