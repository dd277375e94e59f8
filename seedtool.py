#!/usr/bin/env python3
"""Author's tool: make seeded/<id>/ from a list of (file, old, new) replacements and confirm it (build, demo, check).
usage: seedtool.py make <spec.py>   |   seedtool.py confirm <id>..."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.abspath(__file__)); S = V + '/seeded'
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
B=_build/src
g++ -std=c++11 -O1 -w -DNDEBUG -D_GNU_SOURCE -maes -fno-access-control -Isrc -Iinclude -Iexternal -Iexternal/parallel_hashmap -Isrc/Platform/Linux -I_build/version "$d/demo.cpp" -o "$t/demo" -Wl,--start-group $B/libWallet.a $B/libNodeRpcProxy.a $B/libInProcessNode.a $B/libP2P.a $B/libRpc.a $B/libHttp.a $B/libTransfers.a $B/libSerialization.a $B/libSystem.a $B/libCryptoNoteCore.a $B/libLogging.a $B/libCommon.a $B/libcrypto.a $B/libMnemonics.a $B/libBlockchainExplorer.a -Wl,--end-group -lboost_system -lboost_filesystem -lboost_thread -lboost_date_time -lboost_chrono -lboost_regex -lboost_serialization -lboost_program_options -lboost_atomic -lrt -lresolv -lpthread || exit 3
cd "$t" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def make(fn):
    ns = {}; exec(open(fn).read(), ns)
    for s in ns['SEEDS']:
        d = S + '/' + s['id']; os.makedirs(d, exist_ok=True); ok = True
        for f, o, n in s['edits']:
            p = '/repo/' + f; t = open(p).read()
            if t.count(o) != 1: print(s['id'], 'pattern count', t.count(o), f, repr(o[:60])); ok = False; break
            open(p, 'w').write(t.replace(o, n))
        if ok: open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        sh('git -C /repo checkout -- .')
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755); open(d + '/demo.cpp', 'w').write(s['demo'].lstrip())
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print('made', s['id'])
def confirm(ids, tests):
    for i in ids:
        d = S + '/' + i; prop = json.load(open(d + '/meta.json'))['property']
        clean = sh('cd /repo && bash %s/demo.sh' % d); r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode: print(i, 'APPLY FAILED', r.stdout); continue
        try:
            b = sh('bash /opt/vp/build.sh'); dm = sh('cd /repo && bash %s/demo.sh' % d) if not b.returncode else None
            tr = ''
            if tests:
                t = sh('bash /opt/vp/test.sh /tmp/seedtest.json'); 
                try:
                    base = json.load(open('/opt/vp/BASELINE.json')); res = json.load(open('/tmp/seedtest.json')); tr = compare(base, res)
                except Exception as e: tr = 'tests? %r' % e
            c = sh('cd %s && timeout 900 python3 check.py %s' % (V, prop)) if not os.environ.get('NOCHECK') else None
            print('%s: clean demo %d | build %d | patched demo %s | tests %s | check rc=%s %s' % (i, clean.returncode, b.returncode, dm.returncode if dm else '-', tr, c.returncode if c else '-', [l for l in c.stdout.splitlines() if l.startswith(('VIOLATION', 'PROBLEM', '  '))][:2] if c else ''), flush=True)
            if clean.returncode or b.returncode: print((clean.stdout if clean.returncode else b.stdout)[-1500:])
            elif dm and dm.returncode in (0, 3): print('   ', dm.stdout[-600:])
        finally: sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
def compare(base, res):
    def passed(j):
        if isinstance(j, dict):
            for k in ('passed', 'stable', 'pass'):
                if k in j and isinstance(j[k], list): return set(map(str, j[k]))
            if 'tests' in j: 
                t = j['tests']; return set(k for k, v in t.items() if v in ('passed', 'pass', True)) if isinstance(t, dict) else set(map(str, t))
        return set(map(str, j))
    m = passed(base) - passed(res); return 'ok' if not m else 'BROKEN %d: %s' % (len(m), sorted(m)[:3])
if sys.argv[1] == 'make': make(sys.argv[2])
else: confirm([a for a in sys.argv[2:] if not a.startswith('-')], '-t' in sys.argv)
