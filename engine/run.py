#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's code: compile it to LLVM bitcode, link it with the harnesses and
the C-library model, let engine/sx explore every path with Z3 deciding feasibility and assertions, and replay every
counterexample (and one witness per reachability point) on the natively compiled code.
usage: run.py <property-id> [--harness A,B] [--thorough] [--keep]
exit 0: held on everything explored (or listed known findings only); 1: VIOLATION; 2: the check itself failed."""
import sys, os, re, json, subprocess, tempfile, time, shutil, concurrent.futures as cf, hashlib, threading
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VH_REPO', '/repo')
CFLAGS = ['-fPIC', '-w', '-DBIN_WRITE_PLUGIN', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I/usr/include/libxml2']
CLANGXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
LINK = 'llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'
SX = os.path.join(VERIF, 'bin', 'sx')
JOBS = int(os.environ.get('VH_JOBS', '8'))

class Err(Exception): pass
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def load():
    """//@SRC files, //@WRAP symbols, //@H name key=value.., //@B name bounds text"""
    hs = {}
    hd = os.path.join(VERIF, 'harness')
    for fn in sorted(os.listdir(hd)):
        if not fn.endswith('.cpp'): continue
        srcs = []; wrap = []; lines = open(os.path.join(hd, fn)).read().split('\n')
        for L in lines:
            if L.startswith('//@SRC '): srcs += L.split()[1:]
            elif L.startswith('//@WRAP '): wrap += L.split()[1:]
            elif L.startswith('//@H '):
                p = L.split(); kv = dict(x.split('=', 1) for x in p[2:])
                if p[1] in hs: raise Err('duplicate harness ' + p[1])
                hs[p[1]] = dict(name=p[1], file=fn, srcs=srcs, wrap=wrap, props=kv['prop'].split(','), time=int(kv.get('time', '120')), tier=kv.get('tier', 'quick'),
                                shards=int(kv.get('shards', '1')), tshards=int(kv.get('tshards', kv.get('shards', '1'))), steps=int(kv.get('steps', '2000000')), paths=int(kv.get('paths', '3000000')),
                                defs=[d for d in kv.get('defs', '').split(',') if d], tdefs=[d for d in kv.get('tdefs', '').split(',') if d], ttime=int(kv.get('ttime', '600')), merge=kv.get('merge', '') == '1', flow=kv.get('flow', '') == '1', known=kv.get('known', ''), bounds=[], expect=kv.get('expect', ''))
        for L in lines:
            if L.startswith('//@B '):
                _, n, t = L.split(' ', 2); hs[n]['bounds'].append(t)
    return hs

class Build:
    def __init__(self, wd): self.wd = wd; self.locks = {}; self.lock = threading.Lock(); self.done = {}
    def once(self, key, fn):
        with self.lock: l = self.locks.setdefault(key, threading.Lock())
        with l:
            if key not in self.done: self.done[key] = fn()
            return self.done[key]
    def bc(self, src, defs=()):
        def go():
            out = os.path.join(self.wd, hashlib.md5((src + ' '.join(defs)).encode()).hexdigest()[:10] + '_' + os.path.basename(src) + '.bc')
            cc = [CLANG] if src.endswith('.c') else [CLANGXX, '-std=gnu++17', '-fno-exceptions', '-fno-threadsafe-statics']
            fl = ['-O0', '-Xclang', '-disable-O0-optnone', '-fwrapv', '-fno-delete-null-pointer-checks', '-fno-strict-aliasing', '-fno-builtin', '-fno-stack-protector']
            if src.endswith('model/libc.c'): fl = ['-O1', '-ffreestanding', '-fno-builtin', '-fwrapv', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops']
            r = sh(cc + CFLAGS + ['-D' + d for d in defs] + ['-I' + HERE, '-I' + os.path.join(VERIF, 'harness')] + fl + ['-emit-llvm', '-c', src, '-o', out])
            if r.returncode: raise Err('compile failed: ' + src + '\n' + r.stdout[-3000:])
            return out
        return self.once(('bc', src, tuple(defs)), go)
    def srcpath(self, s): return os.path.join(REPO, 'src', s)
    def linked(self, h):
        defs = tuple(h['dn'])
        def go():
            b = [self.bc(os.path.join(VERIF, 'harness', h['file']), defs)] + [self.bc(self.srcpath(s)) for s in h['srcs']] + [self.bc(os.path.join(HERE, 'model', 'libc.c'))]
            out = os.path.join(self.wd, 'link_%s_%s.bc' % (h['file'], hashlib.md5((' '.join(defs) + str(h['flow'])).encode()).hexdigest()[:8]))
            r = sh([LINK] + b + ['-o', out])
            if r.returncode: raise Err('llvm-link: ' + r.stdout[-2000:])
            r = sh([OPT, '-passes=always-inline,function(sroa,instsimplify%s)' % ('' if h['flow'] else ',simplifycfg'), out, '-o', out + '.o'])   # simplifycfg makes branches into selects: fewer paths, bigger terms
            if r.returncode: raise Err('opt: ' + r.stdout[-2000:])
            return out + '.o'
        return self.once(('link', h['file'], defs, h['flow']), go)
    def native(self, h, kind):
        defs = tuple(h['dn'])
        def go():
            d = os.path.join(self.wd, 'nat_%s_%s_%s' % (h['file'], kind, hashlib.md5(' '.join(defs).encode()).hexdigest()[:8])); os.makedirs(d, exist_ok=True)
            cxx, fl = {'asan': (['g++'], ['-fsanitize=address,bounds,shift,integer-divide-by-zero', '-fno-sanitize-recover=all']),
                       'plain': (['g++'], []), 'pattern': ([CLANGXX], ['-ftrivial-auto-var-init=pattern']), 'msan': ([CLANGXX], ['-fsanitize=memory'])}[kind]
            def comp(a):
                src, wrap = a
                o = os.path.join(d, os.path.basename(src) + '.o')
                cmd = list(cxx) if not src.endswith('.c') else ['gcc' if cxx[0] == 'g++' else CLANG]
                r = sh(cmd + CFLAGS + (['-D' + x for x in defs] if not src.startswith(REPO) else []) + ['-I' + HERE, '-I' + os.path.join(VERIF, 'harness'), '-g', '-O0'] + fl + (['-std=gnu++17'] if not src.endswith('.c') else []) + ['-c', src, '-o', o])
                if r.returncode: raise Err('native compile: ' + r.stdout[-3000:])
                if wrap and h['wrap']:
                    args = []
                    for w in h['wrap']: args += ['--redefine-sym', '%s=vh_%s' % (w, w), '--weaken-symbol', 'vh_%s' % w]
                    sh(['objcopy'] + args + [o])
                return o
            todo = [(self.srcpath(s), True) for s in h['srcs']] + [(os.path.join(VERIF, 'harness', h['file']), False), (os.path.join(HERE, 'vh_native.cpp'), False)]
            with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(comp, todo))
            exe = os.path.join(d, 'replay')
            r = sh(cxx + fl + ['-rdynamic', '-Wl,--unresolved-symbols=ignore-all', '-no-pie' if kind != 'msan' else '-pie'] + objs + ['-o', exe, '-ldl'])
            if r.returncode: raise Err('native link: ' + r.stdout[-3000:])
            return exe
        return self.once(('nat', h['file'], kind, defs), go)

def run_sx(b, h, shard, shards, budget, stop=False):
    bc = b.linked(h)
    out = os.path.join(b.wd, '%s.%d.json' % (h['name'], shard))
    cmd = [SX, bc, 'H_' + h['name'], '--time', str(budget), '--steps', str(h['steps']), '--paths', str(h['paths']), '--out', out]
    if h['wrap']: cmd += ['--wrap', ','.join(h['wrap'])]
    if h['merge']: cmd.append('--merge')
    if shards > 1: cmd += ['--shard', '%d/%d' % (shard, shards)]
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=budget + 180, env=dict(os.environ, SX_TMP=b.wd))
    except subprocess.TimeoutExpired: return dict(status='killed', msg='solver did not return')
    try: return json.load(open(out))
    except Exception: return dict(status='crash', msg='sx rc %s %s' % (r.returncode, r.stderr[-300:]))

def replay(b, h, inputs, kinds=('plain', 'asan', 'pattern', 'msan')):
    f = os.path.join(b.wd, '%s.in%d' % (h['name'], abs(hash(tuple(inputs))) % 10**9))
    open(f, 'w').write('\n'.join(map(str, inputs)) + '\n')
    last = ('error', '', '', '')
    for k in kinds:
        try: exe = b.native(h, k)
        except Err as e: last = ('error', k, str(e), ''); continue
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0', UBSAN_OPTIONS='halt_on_error=1', MSAN_OPTIONS='exitcode=77')
        r = subprocess.run(['timeout', '30', exe, h['name'], f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, cwd=b.wd)
        m = re.search(r'VH-FAIL (.*)', r.stdout)
        if m: return ('fail', k, m.group(1), r.stdout)
        if 'VH-ASSUME-FALSE' in r.stdout: last = ('assume', k, '', r.stdout); continue
        if r.returncode in (-14, 142, 124): return ('fail', k, 'does not terminate (killed after 10 s)', r.stdout)
        if r.returncode not in (0, 5, 7):
            m = re.search(r'(ERROR: AddressSanitizer: .*|runtime error: .*|Assertion .*|MemorySanitizer: .*)', r.stdout)
            if k == 'msan' and not m: continue
            return ('fail', k, m.group(1) if m else 'ended with status %d' % r.returncode, r.stdout)
        last = ('pass', k, '', r.stdout)
    return last

def merge(rs):
    o = dict(status='ok', fails=[], reach={}, limits={}, inconclusive=[], functions=set(), msg='')
    for k in ('paths', 'infeasible', 'steps', 'asserts', 'memchecks', 'branches', 'queries', 'cached', 'unsat', 'sat', 'fallback', 'rewritten', 'solver_s', 'wall_s', 'left'): o[k] = 0
    for r in rs:
        if r['status'] != 'ok': o['status'] = r['status']; o['msg'] += r.get('msg', '')
        for k in ('paths', 'infeasible', 'steps', 'asserts', 'memchecks', 'branches', 'queries', 'cached', 'unsat', 'sat', 'fallback', 'rewritten', 'solver_s', 'left'): o[k] += r.get(k, 0)
        o['wall_s'] = max(o['wall_s'], r.get('wall_s', 0))
        o['fails'] += r.get('fails', [])
        for k, v in r.get('reach', {}).items(): o['reach'].setdefault(k, v)
        o['limits'].update(r.get('limits', {})); o['inconclusive'] += r.get('inconclusive', []); o['functions'] |= set(r.get('functions', []))
    return o

def demangle(names):
    if not names: return []
    return sh(['c++filt'] + list(names)).stdout.strip().split('\n')

def known_findings():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    return [json.loads(L) for L in open(p) if L.strip()] if os.path.exists(p) else []

def main():
    args = sys.argv[1:]; prop = args[0]; only = None; keep = None
    if '--harness' in args: only = args[args.index('--harness') + 1].split(',')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in args: tier = 'thorough'
    if '--keep' in args: keep = '/tmp/vh_keep'; shutil.rmtree(keep, ignore_errors=True); os.makedirs(keep)
    t0 = time.time()
    if not os.path.exists(SX):
        r = sh([os.path.join(HERE, 'sx', 'build.sh'), SX])
        if r.returncode: print('ERROR cannot build sx', r.stdout[-2000:]); return 2
    hs = load()
    sel = [h for h in hs.values() if (prop in h['props'] or prop == 'ALL') and (tier == 'thorough' or h['tier'] == 'quick') and (only is None or h['name'] in only)]
    if not sel: print('no harness for', prop); return 2
    wd = keep or tempfile.mkdtemp(prefix='vh_%s_' % prop)
    rdir = os.path.join(VERIF, 'evidence', 'replay_' + prop)
    shutil.rmtree(rdir, ignore_errors=True)
    try: return check(prop, sel, tier, wd, t0, rdir, only)
    except Err as e: print('ERROR', e); return 2
    finally:
        if not keep: shutil.rmtree(wd, ignore_errors=True)

def check(prop, sel, tier, wd, t0, rdir, only):
    b = Build(wd)
    for h in sel: h['dn'] = h['defs'] + (h['tdefs'] if tier == 'thorough' else []); h['ns'] = h['tshards'] if tier == 'thorough' else h['shards']; h['bud'] = h['ttime'] if tier == 'thorough' else h['time']
    with cf.ThreadPoolExecutor(8) as ex:
        srcs = {(os.path.join(HERE, 'model', 'libc.c'), ())}
        for h in sel:
            srcs.add((os.path.join(VERIF, 'harness', h['file']), tuple(h['dn'])))
            for s in h['srcs']: srcs.add((b.srcpath(s), ()))
        list(ex.map(lambda s: b.bc(*s), sorted(srcs)))
    parts = {h['name']: [None] * h['ns'] for h in sel}; results = []; byname = {h['name']: h for h in sel}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {}
        for h in sorted(sel, key=lambda h: -h['time']):
            for i in range(h['ns']): futs[ex.submit(run_sx, b, h, i, h['ns'], h['bud'])] = (h, i)
        for f in cf.as_completed(futs):
            h, i = futs[f]
            try: parts[h['name']][i] = f.result()
            except Err as e: raise
            if all(p is not None for p in parts[h['name']]):
                o = merge(parts[h['name']]); o['h'] = h; results.append(o)
                print('  %-36s %-8s %7d paths %6d queries %7.1fs solver %7.1fs wall  fails=%d incon=%d limits=%d %s' % (h['name'], o['status'], o['paths'], o['queries'], o['solver_s'], o['wall_s'], len(o['fails']), len(o['inconclusive']), len(o['limits']), o['msg'][:200]), flush=True)
    results.sort(key=lambda o: o['h']['name'])
    viol = []; incon = []; known = []; validated = 0; samples = []
    kf = {k['id']: k for k in known_findings() if k.get('kind') == 'known' and k.get('property') == prop}
    def report(h, inp, says, v):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_%d.json' % (h['name'], len(viol)))
        json.dump(dict(property=prop, harness=h['name'], defs=h['dn'], file=h['file'], inputs=list(inp), solver_says=says, real_code_says=v[2], build=v[1], output=v[3][-3000:], how='engine/replay.sh %s' % path), open(path, 'w'), indent=1)
        viol.append((h['name'], says, v[2], path))
    for o in results:
        h = o['h']
        if h['known']:
            k = kf.get(h['known'])
            got = None
            for fl in o['fails'][:6]:
                v = replay(b, h, fl['inputs'])
                if v[0] == 'fail': got = (fl, v); break
            if got and k: known.append(k)
            elif got: report(h, got[0]['inputs'], got[0]['what'], got[1])
            continue
        got = False; notes = []
        seen = set()
        for fl in o['fails'][:16]:
            if tuple(fl['inputs']) in seen: continue
            seen.add(tuple(fl['inputs']))
            v = replay(b, h, fl['inputs'])
            if v[0] == 'fail': report(h, fl['inputs'], '%s [in %s]' % (fl['what'], fl['func']), v); got = True; break
            notes.append('%s [%s] -> native %s' % (fl['what'], fl['func'], v[0]))
        if notes and not got: incon.append((h['name'], 'counterexample not reproduced by the real code: ' + '; '.join(notes[:4])))
        if got: continue
        for what, inp in list(o['limits'].items())[:3]:
            v = replay(b, h, inp)
            if v[0] == 'fail': report(h, inp, what, v); got = True; break
            incon.append((h['name'], what + ' -> native ' + v[0]))
        if got: continue
        if o['status'] != 'ok': incon.append((h['name'], '%s: %d paths explored, %d left %s' % (o['status'], o['paths'], o['left'], o['msg'])))
        for x in o['inconclusive'][:6]: incon.append((h['name'], x))
        if not o['reach'] and not got: incon.append((h['name'], 'vacuous: no reachability point was reached'))
        for w, inp in o['reach'].items():
            v = replay(b, h, inp, ('plain',))
            if v[0] == 'pass' and 'VH-REACHED ' + w in v[3]: validated += 1
            elif v[0] == 'fail': report(h, inp, 'solver expected this input to reach "%s"' % w, v); break
            else: incon.append((h['name'], 'witness of "%s" does not replay on the real code: %s %s' % (w, v[0], v[2])))
            if len(samples) < 8: samples.append(dict(harness=h['name'], witness=w, inputs=inp[:64]))
    for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    wall = time.time() - t0
    if only is None: evidence(prop, tier, results, viol, incon, validated, samples, wall, known)
    for n, why in incon: print('INCONCLUSIVE %s: %s' % (n, why))
    for n, what, real, path in viol:
        print('  %s: %s  [replayed on the real code: %s]' % (n, what, real)); print('VIOLATION property=%s replay=%s' % (prop, path))
    print('%s: %d harnesses, %d violations, %d inconclusive, %d witnesses replayed, %.1fs' % (prop, len(results), len(viol), len(incon), validated, wall))
    if viol: return 1
    if incon: print('NOTE: not everything within the bounds was decided; see coverage.inconclusive in the evidence file')
    if all(o['status'] in ('crash', 'killed') for o in results): return 2
    return 0

def evidence(prop, tier, results, viol, incon, validated, samples, wall, known):
    funcs = set(); tot = {}
    per = []; bounds = []
    for o in results:
        funcs |= o['functions']
        for k in ('paths', 'infeasible', 'steps', 'asserts', 'memchecks', 'branches', 'queries', 'cached', 'unsat', 'sat', 'fallback', 'rewritten', 'solver_s'): tot[k] = tot.get(k, 0) + o[k]
        per.append(dict(harness=o['h']['name'], status=o['status'], paths=o['paths'], queries=o['queries'], assertions=o['asserts'], memory_checks=o['memchecks'], solver_s=round(o['solver_s'], 2), wall_s=round(o['wall_s'], 2)))
        for t in o['h']['bounds']: bounds.append(o['h']['name'] + ': ' + t)
    names = demangle(sorted(funcs))
    models = set(re.findall(r'\b(\w+)\(', open(os.path.join(HERE, 'model', 'libc.c')).read()))
    real = sorted(n for f, n in zip(sorted(funcs), names) if f not in models and not f.startswith(('H_', 'vh_')))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=dict(states=tot.get('paths', 0), transitions=tot.get('steps', 0), traces_validated_against_impl=validated, samples=samples,
                            explanation='Path-exhaustive symbolic execution of the real code (LLVM bitcode compiled from /repo in this run): states = symbolic paths explored, transitions = instructions executed symbolically; every assertion and every memory access on a path is decided by Z3 for all values of the symbolic inputs on that path. traces_validated_against_impl = solver witnesses replayed on the natively compiled code with the same outcome.',
                            functions_encoded=real, harnesses=per, assertions_decided=tot.get('asserts', 0), memory_accesses_checked=tot.get('memchecks', 0), symbolic_branches=tot.get('branches', 0),
                            queries=tot.get('queries', 0), queries_unsat=tot.get('unsat', 0), queries_sat=tot.get('sat', 0), queries_cached=tot.get('cached', 0), queries_decided_by_rewriting=tot.get('rewritten', 0), queries_to_solver_portfolio=tot.get('fallback', 0), solver_s=round(tot.get('solver_s', 0), 2),
                            bounds=bounds, exhaustive_within_bounds=not incon, inconclusive=[list(x) for x in incon], known_findings=[k['what'] for k in known]),
              assumptions=['bounds listed in coverage.bounds and DESIGN.md; nothing is claimed outside them', 'C library / C++ stream / OS calls replaced by the models in engine/model/libc.c and by the stubs in the harness', 'clang 18 front end, engine/sx and Z3 are trusted (one witness per reachability point is cross-checked natively)'],
              wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)

if __name__ == '__main__': sys.exit(main())
