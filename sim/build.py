#!/usr/bin/env python3
"""Writes /verif/build/build.ninja: every production source of /repo, compiled unchanged, plus the simulator, and runs ninja.

usage: build.py [targets...]
"""
import os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, 'build')
MW = os.path.join(REPO, 'middleware')
SIM = os.path.join(VERIF, 'sim')

# executables that become simulated processes: name -> source of its main
MAINS = {
    'casual-domain-manager': 'domain/source/manager/main.cpp',
    'casual-domain-discovery': 'domain/source/discovery/main.cpp',
    'casual-service-manager': 'service/source/manager/main.cpp',
    'casual-service-forward': 'service/source/forward/main.cpp',
    'casual-transaction-manager': 'transaction/source/manager/main.cpp',
    'casual-queue-manager': 'queue/source/manager/main.cpp',
    'casual-queue-group': 'queue/source/group/main.cpp',
    'casual-queue-forward-group': 'queue/source/forward/main.cpp',
    'casual-gateway-manager': 'gateway/source/manager/main.cpp',
    'casual-gateway-inbound-group': 'gateway/source/group/inbound/main.cpp',
    'casual-gateway-inbound-reverse-group': 'gateway/source/group/inbound/reverse/main.cpp',
    'casual-gateway-outbound-group': 'gateway/source/group/outbound/main.cpp',
    'casual-gateway-outbound-reverse-group': 'gateway/source/group/outbound/reverse/main.cpp',
    'casual-gateway-group-tcp-logical-connect': 'gateway/source/group/tcp/logical/connect/main.cpp',
    'casual-event-service-log': 'event/source/service/log/main.cpp',
}
DIRS = ['common', 'xatmi', 'serviceframework', 'buffer', 'configuration', 'domain', 'event', 'gateway', 'queue', 'service', 'transaction', 'http']
EXCLUDE = re.compile(r'(^|/)unittest|/cli\.cpp$|documentation|/example|/deprecated/|/tools/|^event/source/service/monitor|^http/source/outbound'
                     r'|^http/source/inbound/caller|^gateway/source/group/connection|^common/source/argument/cardinality|template_build_resource_proxy|^configuration/source/build|^configuration/source/admin|^configuration/source/example')

def sources():
    for d in DIRS:
        base = os.path.join(MW, d, 'source')
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith('.cpp'):
                    continue
                rel = os.path.relpath(os.path.join(root, f), MW)
                if not EXCLUDE.search(rel):
                    yield rel

def symbol(name):
    return 'casual_main_' + re.sub(r'[^a-z]', '_', name[len('casual-'):])

def main():
    os.makedirs(OUT, exist_ok=True)
    includes = ' '.join('-I%s/%s/include' % (MW, d) for d in DIRS + ['cli'])
    includes += ' -I%s/thirdparty/database/include -I%s/thirdparty/function2/include -I%s/shim' % (REPO, REPO, SIM)
    cc = shutil.which('ccache') or ''
    if cc and os.environ.get('VERIF_NO_CCACHE') is None:
        cc = 'CCACHE_DIR=%s/ccache CCACHE_MAXSIZE=3G CCACHE_NOHASHDIR=1 %s ' % (OUT, cc)
    else:
        cc = ''
    mains = {v: k for k, v in MAINS.items()}
    w = []
    w.append('builddir = ' + OUT)
    w.append('flags = -std=c++23 -O1 -g0 -pthread -fPIC -w -fno-gnu-unique -fvisibility-inlines-hidden')
    w.append('includes = ' + includes)
    w.append('rule cxx\n  command = cd %s && %s/usr/bin/g++ $flags $extra $includes -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = compile $in' % (MW, cc))
    w.append('rule cxxmain\n  command = cd %s && %s/usr/bin/g++ $flags $includes -MMD -MF $out.d -c $in -o $out && objcopy --redefine-sym main=$symbol --rename-section .init_array=init_$symbol,alloc,load,data,contents $out\n  depfile = $out.d\n  deps = gcc\n  description = compile $in' % (MW, cc))
    w.append('rule simcxx\n  command = /usr/bin/g++ -std=c++23 -O1 -g1 -pthread -fPIC -Wall -Wno-unused-function $extra -I%s $includes -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = compile $in' % SIM)
    w.append('rule node\n  command = /usr/bin/g++ -shared -fuse-ld=lld -pthread -o $out.raw @$out.rsp -Wl,-Bsymbolic -Wl,--version-script=%s/node.map -Wl,--exclude-libs,ALL -Wl,-z,now '
             '-Wl,-Bstatic -lsqlite3 -lyaml-cpp -lpugixml -Wl,-Bdynamic -ldl -lm && python3 %s/patch.py $out.raw $out && rm -f $out.raw\n  rspfile = $out.rsp\n  rspfile_content = $in\n  description = link $out' % (SIM, SIM))
    w.append('rule exe\n  command = /usr/bin/g++ -fuse-ld=lld -rdynamic -pthread -o $out $in -ldl\n  description = link $out')
    objects = []
    for rel in sources():
        o = os.path.join(OUT, 'obj', rel + '.o')
        rule = 'cxx'
        if rel in mains:
            rule = 'cxxmain'
        elif rel.endswith('/main.cpp') and re.search(r'\bint\s+main\s*\(', open(os.path.join(MW, rel), errors='replace').read()):
            continue
        w.append('build %s: %s %s' % (o, rule, os.path.join(MW, rel)))
        if rel in mains:
            w.append('  symbol = ' + symbol(mains[rel]))
        objects.append(o)
    for f in sorted(os.listdir(os.path.join(SIM, 'node'))):
        if f.endswith('.cpp'):
            o = os.path.join(OUT, 'obj', 'node', f + '.o')
            w.append('build %s: cxx %s' % (o, os.path.join(SIM, 'node', f)))
            w.append('  extra = -I' + SIM)
            objects.append(o)
    node = os.path.join(OUT, 'node.so')
    w.append('build %s: node %s | %s/node.map %s/patch.py' % (node, ' '.join(objects), SIM, SIM))
    host = []
    for f in sorted(os.listdir(os.path.join(SIM, 'host'))):
        if f.endswith('.cpp'):
            o = os.path.join(OUT, 'obj', 'host', f + '.o')
            w.append('build %s: simcxx %s' % (o, os.path.join(SIM, 'host', f)))
            host.append(o)
    sim = os.path.join(OUT, 'sim')
    w.append('build %s: exe %s' % (sim, ' '.join(host)))
    w.append('default %s %s' % (node, sim))
    text = '\n'.join(w) + '\n'
    path = os.path.join(OUT, 'build.ninja')
    if not os.path.exists(path) or open(path).read() != text:
        open(path, 'w').write(text)
    return subprocess.call(['ninja', '-C', OUT] + sys.argv[1:])

if __name__ == '__main__':
    sys.exit(main())
