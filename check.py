#!/usr/bin/env python3
"""Driver: build bitcode from /repo's current sources, run the symbolic executor on each harness entry of a
property, validate sampled paths natively, replay counterexamples natively, write evidence."""
import sys, os, json, subprocess, time, hashlib, shutil, tempfile, re, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
NCPU = os.cpu_count() or 4
CLANGXX, CLANG = 'clang++-18', 'clang-18'
LLVM_LINK, OPT = 'llvm-link-18', 'opt-18'
BASE = ['-O2', '-std=c++11', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DNDEBUG',
        '-gline-tables-only', '-march=x86-64', '-D_GNU_SOURCE', '-DHAVE_ROTR', '-w', '-fno-strict-aliasing',
        '-mllvm', '-two-entry-phi-node-folding-threshold=8']
def incs(spec):
    dirs = [os.path.join(V, 'rt'), os.path.join(V, 'harness')] + [os.path.join(REPO, d) for d in ('src', 'include', 'external', 'src/Platform/Linux', 'external/parallel_hashmap')] + [os.path.join(V, 'shadow', 'version')]
    return ['-I' + d for d in dirs] + ['-ivfsoverlay', spec['_overlay']]
def make_overlay(spec, wd):
    """Map every file below shadow/<set>/ onto the file of the same path below /repo."""
    m = {}
    for s in spec.get('shadow', ['base']):
        root = os.path.join(V, 'shadow', s)
        for d, _, fs in os.walk(root):
            for f in fs:
                if f.endswith(('.h', '.hpp', '.cpp')): p = os.path.join(d, f); m[os.path.join(REPO, os.path.relpath(p, root))] = p
    fn = os.path.join(wd, 'overlay.yaml')
    json.dump({'version': 0, 'roots': [{'type': 'file', 'name': k, 'external-contents': v} for k, v in sorted(m.items())]}, open(fn, 'w'))
    spec['_overlay'] = fn

class Fail(Exception): pass
def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise Fail('command failed (%d): %s\n%s' % (r.returncode, ' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def srcpath(s): return s if s.startswith('/') else os.path.join(V, s) if s.startswith(('rt/', 'harness/')) else os.path.join(REPO, s)
def compile_one(spec, src, out, mode, extra):
    c = src.endswith('.c')
    fl = list(BASE)
    if c: fl = [f for f in fl if f != '-std=c++11'] + ['-std=c11']
    if mode == 'bc': fl += ['-emit-llvm']
    elif mode == 'asan': fl = [f for f in fl if f not in ('-O2', '-gline-tables-only')] + ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer']
    if src.startswith('rt/') : fl += ['-fno-builtin']
    if src.startswith('harness/') or src == 'rt/locale.cpp': fl += ['-fno-access-control']
    run([CLANG if c else CLANGXX] + fl + incs(spec) + spec.get('flags', []) + extra + ['-c', srcpath(src), '-o', out])

def build_bc(spec, wd):
    srcs = [spec['harness']] + spec.get('srcs', [])
    rt = ['rt/libcxxrt.cpp', 'rt/crt.c'] + spec.get('rt', [])
    objs = {}
    with ThreadPoolExecutor(NCPU) as ex:
        fs = []
        for s in srcs + rt:
            o = os.path.join(wd, hashlib.md5(s.encode()).hexdigest()[:10] + '.bc'); objs[s] = o
            fs.append(ex.submit(compile_one, spec, s, o, 'bc', []))
        for f in fs: f.result()
    entries = [e['name'] for e in spec['entries']]
    app = os.path.join(wd, 'app.bc'); run([LLVM_LINK] + [objs[s] for s in srcs] + ['-o', app])
    allbc = os.path.join(wd, 'all.bc'); run([LLVM_LINK, app] + ['--override=' + objs[s] if s in spec.get('rt_override', []) else objs[s] for s in rt] + ['-o', allbc])
    keep = ','.join(entries + ['__csym_throw_bad_alloc'])
    fin = os.path.join(wd, 'final.bc')
    run([OPT, '-passes=internalize,globaldce', '--internalize-public-api-list=' + keep, allbc, '-o', fin])
    appi = os.path.join(wd, 'appi.bc')
    run([OPT, '-passes=internalize,globaldce', '--internalize-public-api-list=' + keep, app, '-o', appi])
    return fin, appi

def native_bin(spec, wd, entry, appi):
    out = os.path.join(wd, 'native_' + entry)
    if not os.path.exists(out):
        obj = os.path.join(wd, 'appi.o')
        if not os.path.exists(obj): run([CLANGXX, '-O1', '-w', '-c', appi, '-o', obj + '.tmp.o']); os.rename(obj + '.tmp.o', obj)
        run([CLANGXX, '-O1', '-std=c++11', '-w', '-DENTRY=' + entry, '-I' + os.path.join(V, 'rt'), os.path.join(V, 'rt/native.cpp'), obj, '-o', out + '.tmp', '-Wl,--unresolved-symbols=ignore-all', '-no-pie', '-lpthread'] + spec.get('libs', []))
        os.rename(out + '.tmp', out)
    return out
def asan_bin(spec, wd, entry):
    out = os.path.join(wd, 'asan_' + entry)
    if not os.path.exists(out):
        srcs = [spec['harness']] + spec.get('srcs', []); objs = []
        with ThreadPoolExecutor(NCPU) as ex:
            fs = []
            for s in srcs:
                o = os.path.join(wd, hashlib.md5(s.encode()).hexdigest()[:10] + '.asan.o'); objs.append(o)
                if not os.path.exists(o): fs.append(ex.submit(compile_one, spec, s, o, 'asan', []))
            for f in fs: f.result()
        run([CLANGXX, '-O1', '-g', '-fsanitize=address', '-std=c++11', '-w', '-DENTRY=' + entry, '-I' + os.path.join(V, 'rt'), os.path.join(V, 'rt/native.cpp')] + objs + ['-o', out, '-Wl,--unresolved-symbols=ignore-all', '-no-pie', '-lpthread'] + spec.get('libs', []))
    return out
def write_vals(j, fn):
    with open(fn, 'w') as f:
        for n, w, v in j['syms']: f.write('%d %x\n' % (w, int(v, 16)))
def exec_native(b, vals, timeout=60):
    env = dict(os.environ, SYM_REPLAY=vals, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0:exitcode=94')
    try: r = subprocess.run(['bash', '-c', 'ulimit -s 262144; ulimit -c 0; exec "$0"', b], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired: return 'timeout', '', ''
    return r.returncode, r.stdout, r.stderr

def known_findings(pid):
    k = []
    fn = os.path.join(V, 'known-findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r'KNOWN property=(\S+) entry=(\S+) match=/(.*)/ : (.*)', l.strip())
            if m and m.group(1) == pid: k.append((m.group(2), m.group(3), m.group(4)))
    return k

def main():
    from specs import SPECS
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; keepwd = None; verbose = False
    for a in sys.argv[2:]:
        if a.startswith('--entry='): only = a[8:].split(',')
        elif a.startswith('--wd='): keepwd = a[5:]
        elif a == '--thorough': tier = 'thorough'
        elif a == '-v': verbose = True
    t0 = time.time(); spec = dict(SPECS[pid]); seed = int(os.environ.get('VERIF_SEED', '1'))
    wd = keepwd or tempfile.mkdtemp(prefix='csym_%s_' % pid)
    os.makedirs(wd, exist_ok=True)
    try: rc = check(pid, spec, tier, seed, wd, only, t0, verbose)
    except Fail as e: print('ERROR: %s' % e); rc = 2
    finally:
        if not keepwd: shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)

def groups_of(spec): return spec['groups'] if 'groups' in spec else [spec]
def check(pid, spec, tier, seed, wd, only, t0, verbose):
    if not os.path.exists(os.path.join(V, 'engine/csym')): run(['make', '-j8', '-C', os.path.join(V, 'engine')])
    results = []; confirmed = []; problems = []; known = known_findings(pid); knownhit = {}; validated = 0; samples = []; partial = []
    repdir = os.path.join(V, 'replays'); os.makedirs(repdir, exist_ok=True)
    budget_total = 780 if tier == 'quick' else 20000
    for gi, g in enumerate(groups_of(spec)):
        g = dict(g)
        for k in ('shadow', 'flags', 'libs', 'rt'):
            if k in spec and k not in g: g[k] = spec[k]
        ents = [e for e in g['entries'] if (not only or e['name'] in only) and (tier == 'thorough' or not e.get('thorough_only'))]
        if not ents: continue
        gwd = os.path.join(wd, 'g%d' % gi); shutil.rmtree(gwd, ignore_errors=True); os.makedirs(gwd, exist_ok=True)
        bdef = g.get('bounds', {}).get(tier, []); g['flags'] = g.get('flags', []) + ['-D' + d for d in bdef] + (['-DTHOROUGH=1'] if tier == 'thorough' else [])
        make_overlay(g, gwd)
        tb = time.time(); fin, appi = build_bc(g, gwd); tb = time.time() - tb
        if verbose: print('build %.1fs' % tb)
        for e in ents:
            od = os.path.join(gwd, 'out_' + e['name']); shutil.rmtree(od, ignore_errors=True); os.makedirs(od)
            mt = e.get('time_thorough', 3600) if tier == 'thorough' else min(e.get('time', 400), max(30, budget_total - (time.time() - t0)))
            cmd = [os.path.join(V, 'engine/csym'), fin, '--entry', e['name'], '--out', od, '--workers', str(e.get('workers', NCPU)), '--max-time', str(mt), '--ext-timeout', '120' if tier == 'thorough' else '20'] + e.get('args', [])
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
            if verbose: print(e['name'], p.stderr[-3000:])
            if p.returncode not in (0, 1, 2) or not os.path.exists(od + '/result.json'): problems.append('%s: engine failed rc=%s %s' % (e['name'], p.returncode, p.stderr[-600:])); continue
            r = json.load(open(od + '/result.json')); r['build_s'] = round(tb, 1); results.append((e, r))
            viols = [json.load(open(f)) for f in sorted(glob.glob(od + '/viol_*.json'))]
            # validate sampled paths against the native build of the same code
            paths = sorted(glob.glob(od + '/path_*.json'))
            if paths and not e.get('novalidate'):
                nb = native_bin(g, gwd, e['name'], appi)
                def val(f):
                    j = json.load(open(f)); vf = f + '.vals'; write_vals(j, vf); rc, so, se = exec_native(nb, vf)
                    obs = [(l.split()[1], l.split()[-1]) for l in so.splitlines() if l.startswith('OBS ')]
                    exp = [(a.split()[0] if a.split() else a, b) for a, b in j['obs']]
                    return j, rc == 0 and [(a, b) for a, b in obs] == exp, rc, so, se
                with ThreadPoolExecutor(NCPU) as ex: vres = list(ex.map(val, paths))
                for j, ok, rc, so, se in vres:
                    if ok: validated += 1
                    else: problems.append('%s: native run of a sampled path disagrees with the engine (rc=%s): %s %s | obs %s' % (e['name'], rc, so[-400:], se[-300:], j['obs'][:12]))
                for j, *_ in vres[:2]:
                    samples.append({'entry': e['name'], 'inputs': [[n, w, int(v, 16)] for n, w, v in j['syms'][:40]], 'observed': j['obs'][:20]})
            for vi in viols:
                key = vi['kind'] + ': ' + vi['msg'] + ' @ ' + ' < '.join(vi['trace'][:3])
                kf = [d for (en, rx, d) in known if (en == e['name'] or en == '*') and re.search(rx, key)]
                h = hashlib.md5((e['name'] + key).encode()).hexdigest()[:10]
                rp = os.path.join(repdir, '%s_%s_%s' % (pid, e['name'], h)); write_vals(vi, rp + '.vals')
                b = native_bin(g, gwd, e['name'], appi); rc, so, se = exec_native(b, rp + '.vals')
                repro = rc not in (0, 90, 91, 92); how = 'native'
                if not repro:
                    b = asan_bin(g, gwd, e['name']); rc, so, se = exec_native(b, rp + '.vals', 240); repro = rc not in (0, 90, 91, 92); how = 'asan'
                with open(rp + '.txt', 'w') as f:
                    f.write('property %s, harness entry %s\n%s\n\ninputs:\n' % (pid, e['name'], key)); [f.write('  %s (%d bits) = 0x%x\n' % (n, w, int(v, 16))) for n, w, v in vi['syms']]
                    f.write('\nsymbolic trace:\n  ' + '\n  '.join(vi['trace']) + '\n\nnative replay (%s build): rc=%s\n%s\n%s\n\nTo replay: %s/replay.py %s %s %s.vals\n' % (how, rc, so[-3000:], se[-3000:], V, pid, e['name'], rp))
                if not repro: problems.append('%s: counterexample did not reproduce natively: %s (rc=%s %s %s)' % (e['name'], key, rc, so[-200:], se[-200:])); continue
                if kf: knownhit[kf[0]] = knownhit.get(kf[0], 0) + 1
                else: confirmed.append((e['name'], key, rp + '.txt'))
            if r['incomplete']:
                inc = open(od + '/incomplete.txt').read() if os.path.exists(od + '/incomplete.txt') else ''
                soft = [l for l in inc.splitlines() if l and not l.startswith(' ')]
                if soft and all(re.match(r'(solver gave no answer|time budget exhausted|memory budget exhausted)', l) for l in soft) and not os.environ.get('VERIF_STRICT'): partial.append('%s: %d path(s) undecided within the budget: %s' % (e['name'], r['incomplete'], soft[0]))
                elif not (confirmed and r['stopped_early']): problems.append('%s: exploration incomplete (%d): %s' % (e['name'], r['incomplete'], inc[:1500]))
            if not viols:
                for c in e.get('covers', []):
                    if not r['covers'].get(c): problems.append('%s: vacuity guard: %r was never reached' % (e['name'], c))
                if r['asserts'] == 0: problems.append('%s: no assertion was reached' % e['name'])
        if confirmed and tier == 'quick': break
    wall = time.time() - t0
    tot = lambda k: sum(r[k] for _, r in results)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': int(tot('paths')), 'transitions': int(tot('steps')), 'traces_validated_against_impl': validated, 'samples': samples[:6] or [{'note': 'no completed path'}],
                       'explanation': 'symbolic execution of LLVM IR compiled on this run from /repo; states = completed symbolic paths (each stands for every input satisfying its path condition), transitions = IR instructions executed symbolically',
                       'entries': [{'entry': e['name'], 'what': e.get('what', ''), 'bounds': e.get('bounds', ''), 'paths': r['paths'], 'forks': r['forks'], 'queries': r['queries'], 'solver_calls': r['solver_calls'], 'sat': r['sat'], 'unsat': r['unsat'], 'unknown': r['unknown'], 'solver_s': r['solver_s'], 'max_query_s': r['max_query_s'], 'assertions_checked': r['asserts'], 'assertions_by_solver': r['assert_queries'], 'covers': r['covers'], 'wall_s': r['wall_s'], 'incomplete': r['incomplete'], 'violations': r['violations']} for e, r in results],
                       'functions_encoded': sorted({f for _, r in results for f in r['functions'] if not f.startswith('std::') and 'boost::' not in f[:12] and '__gnu' not in f[:8]})[:400],
                       'obligations': int(tot('assert_queries') + tot('concrete_asserts')), 'queries': int(tot('queries')), 'solver_calls': int(tot('solver_calls')), 'solver_s': round(tot('solver_s'), 2),
                       'exhaustive': not problems and not partial, 'undecided': partial},
          'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(confirmed)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if not only: json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for d, n in knownhit.items(): print('KNOWN-FINDING: property=%s %s' % (pid, d))
    for en, key, rp in confirmed: print('VIOLATION property=%s replay=%s' % (pid, rp)); print('  %s: %s' % (en, key))
    for p in partial: print('UNDECIDED: ' + p)
    for p in problems: print('PROBLEM: ' + p)
    print('%s %s: %d entries, %d paths, %d IR instructions, %d queries, solver %.1fs, %d traces validated natively, wall %.1fs' % (pid, tier, len(results), tot('paths'), tot('steps'), tot('queries'), tot('solver_s'), validated, wall))
    return 1 if confirmed else 2 if problems else 0
if __name__ == '__main__': main()
