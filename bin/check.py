#!/usr/bin/env python3
"""Builds the simulator for one property from /repo's working tree and searches with it.

  check.py P10 [--tier quick|thorough]     the check registered in MANIFEST.json
  check.py replay FILE                     re-executes a replay file (fresh build, fresh process)
  check.py build P10                       only build
  check.py collect P10 [--runs N]          development: every class of violation, without stopping
"""
import sys, os, subprocess, json, time, hashlib, shutil, tempfile, struct, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
SIM = os.path.join(VERIF, 'sim')
sys.path.insert(0, os.path.join(VERIF, 'bin'))
import config

JOBS = os.cpu_count() or 8
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:symbolize=0:max_malloc_fill_size=4096:malloc_fill_byte=190',
           UBSAN_OPTIONS='print_stacktrace=0:abort_on_error=1', TSAN_OPTIONS='halt_on_error=1:abort_on_error=1:report_signal_unsafe=0:symbolize=0')

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()

def content(path):
    with open(path, 'rb') as f: return f.read()

_sums = {}
def dep_sum(path):
    if path not in _sums:
        try: _sums[path] = sha(content(path))
        except OSError: _sums[path] = 'missing'
    return _sums[path]

def compile_one(cmd, obj):
    """one object; rebuilt whenever the command or the contents of anything it includes changed"""
    dep, sig = obj + '.d', obj + '.sig'
    def now():
        deps = open(dep).read().replace('\\\n', ' ').split(':', 1)[1].split()
        return sha(' '.join(cmd), *[p + '=' + dep_sum(p) for p in deps if p.startswith((SRC, SIM))])
    try:
        if os.path.exists(obj) and open(sig).read() == now(): return None
    except OSError: pass
    r = subprocess.run(cmd + ['-MD', '-MF', dep, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode: return ' '.join(cmd) + '\n' + '\n'.join(l for l in r.stdout.splitlines() if 'error' in l or 'note' in l)[:6000] + '\n'
    open(sig, 'w').write(now())
    return None

class BuildError(Exception): pass

def locale_dir(d):
    """a locale in which numbers are not written as in C"""
    src, out = f'{SIM}/odd.locale', f'{d}/locale'; sig = sha(content(src))
    try:
        if open(out + '.sig').read() == sig and os.path.isdir(out + '/odd'): return out
    except OSError: pass
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(['localedef', '-c', '-i', src, '-f', 'UTF-8', out + '/odd'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(out + '/odd/LC_NUMERIC'): raise BuildError('localedef: ' + r.stdout[:2000])
    open(out + '.sig', 'w').write(sig)
    return out

def build(prop, var):
    p = config.PROPS[prop]; v = config.VARIANTS[var]
    d = os.path.join(os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build')), f'{prop}-{var}'); os.makedirs(d, exist_ok=True)
    cxx = v.get('cxx', 'clang++'); san = v.get('san', SAN)
    core = [cxx, '-std=c++20', '-g1', '-O1', '-I' + SIM, '-c', '-w'] + v.get('core_san', san)
    lib = [cxx, v.get('std', '-std=c++20'), '-g1', '-fsized-deallocation', v.get('opt', '-O0'), '-I' + SIM, '-I' + SRC, '-c', '-w'] + san + v.get('flags', []) + [f"-DZOO_READ={p.get('read', 0x3f)}", f"-DZOO_WRITE={p.get('write', 0x7f)}"]
    if p.get('locale'): ENV['LOCPATH'] = locale_dir(d)
    jobs = []
    for c in ['core', 'main', 'val'] + (['zoo'] if p.get('zoo') else []): jobs.append((core + [f'{SIM}/{c}.cpp'], f'{d}/{c}.o'))
    zoo = [f'zoo_{c}' for c in v.get('zoo', p.get('zoo', ''))]
    for c in zoo + v.get('lib', p.get('lib', [])): jobs.append((lib + p.get('flags', []) + p.get('per_file', {}).get(c, []) + [f'{SIM}/{c}.cpp'], f'{d}/{c}.o'))
    for c in v.get('eng', p.get('eng', [])): jobs.append((core + p.get('flags', []) + [f'{SIM}/{c}.cpp'], f'{d}/{c}.o'))
    for c in p.get('plain', []): jobs.append(([x for x in core if x not in san] + [f'{SIM}/{c}.cpp'], f'{d}/{c}.o'))
    jobs.sort(key=lambda j: -config.COST.get(os.path.basename(j[1])[:-2], 1))
    with cf.ThreadPoolExecutor(JOBS) as ex: errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
    if errs: raise BuildError('\n'.join(errs))
    exe = f'{d}/simw'; objs = [o for _, o in jobs]
    key = sha(*[open(o + '.sig').read() for o in objs])
    try:
        if os.path.exists(exe) and open(exe + '.sig').read() == key: return exe
    except OSError: pass
    r = subprocess.run([v.get('ld', cxx)] + san + objs + ['-o', exe] + v.get('libs', []) + ['-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode: raise BuildError(r.stdout[:6000])
    open(exe + '.sig', 'w').write(key)
    return exe

def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS')):
            l = l.rstrip('\n')
            if l.startswith(f'known: property={prop} '): out.append(l.split(' ', 2)[2])   # the exact class
    except OSError: pass
    return out

def run_replay(exe, path):
    r = subprocess.run([exe, 'replay', '--file', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=600, text=True, errors='replace')
    res = [l for l in r.stdout.splitlines() if l.startswith(('RESULT ', 'CLASS '))]
    return r.returncode, res

def search(prop, var, exe, seed, runs, secs, rdir, collect=False):
    """JOBS workers, worker k takes the runs k, k+JOBS, ..."""
    tmp = tempfile.mkdtemp(prefix='simrun.'); kf = os.path.join(tmp, 'known'); open(kf, 'w').write('\n'.join(known_findings(prop)) + '\n')
    ps = []
    for k in range(JOBS):
        cmd = [exe, 'search', '--prop', prop, '--seed', str(seed), '--worker', str(k), '--workers', str(JOBS), '--runs', str(runs), '--time', str(secs), '--out', f'{tmp}/{k}.out',
               '--known', kf, '--replay-file', f'{tmp}/{k}.json', '--variant', var, '--shrink', '25'] + (['--collect', '1'] if collect else []) + (['--fresh', '1'] if config.PROPS[prop].get('fresh') else [])
        ps.append(subprocess.Popen(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace'))
    r = dict(stat={}, fault={}, probe={}, known=set(), samples=[], viol=[], err=[], states=set(), sigs=set(), classes={})
    for k, p in enumerate(ps):
        _, se = p.communicate()
        if p.returncode not in (0, 1): r['err'].append(f'worker {k}: rc {p.returncode}: {se[-1500:]}')
        try: lines = open(f'{tmp}/{k}.out', errors='replace').read().splitlines()
        except OSError: lines = []
        for l in lines:
            a = l.split(' ', 2)
            if a[0] == 'STAT': r['stat'][a[1]] = r['stat'].get(a[1], 0) + int(a[2])
            elif a[0] == 'FAULT': r['fault'][a[2]] = r['fault'].get(a[2], 0) + int(a[1])
            elif a[0] == 'PROBE': r['probe'][a[2]] = r['probe'].get(a[2], 0) + int(a[1])
            elif a[0] == 'KNOWN': r['known'].add(l.split(' ', 1)[1])
            elif a[0] == 'SAMPLE':
                try: r['samples'].append(json.loads(l.split(' ', 1)[1]))
                except ValueError: pass
            elif a[0] == 'ERROR': r['err'].append(f'worker {k}: {l}')
            elif a[0] == 'CLASS':
                n, m = int(a[1]), a[2]; o = r['classes'].get(m.split('\t')[0], [0, ''])
                r['classes'][m.split('\t')[0]] = [o[0] + n, o[1] or m.split('\t')[-1]]
            elif a[0] == 'VIOLATION':
                dst = os.path.join(rdir, f'{prop}-{var}-{k}.json'); os.makedirs(rdir, exist_ok=True); shutil.copy(f'{tmp}/{k}.json', dst); r['viol'].append((dst, l))
        for n, s in (('states', r['states']), ('sigs', r['sigs'])):
            try: b = content(f'{tmp}/{k}.out.{n}'); s.update(struct.unpack(f'<{len(b) // 8}Q', b))
            except (OSError, struct.error): pass
    shutil.rmtree(tmp, ignore_errors=True)
    return r

def evidence(prop, tier, seed, res, t0, build_s, nviol):
    p = config.PROPS[prop]; tot = {}
    faults, probes, samples, states, sigs, known = {}, {}, [], 0, 0, set()
    for var, r in res.items():
        for k, n in r['stat'].items(): tot[k] = tot.get(k, 0) + n
        for k, n in r['fault'].items(): faults[k] = faults.get(k, 0) + n
        for k, n in r['probe'].items(): probes[k] = probes.get(k, 0) + n
        samples += r['samples']; states += len(r['states']); sigs += len(r['sigs']); known |= r['known']
    search_s = max(0.001, sum(r['wall'] for r in res.values()))
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 2), violations=nviol,
        assumptions=config.ASSUME + p.get('assume', []),
        coverage=dict(evaluations=tot.get('runs', 0), distinct_nontrivial=tot.get('nontrivial', 0),
            rule=p['rule'] + ' Distinct: the hash of the recorded event history was not seen before by the same worker; non-trivial: ' + p['nontrivial'],
            samples=samples[:8] or ['(none)'],
            simulated_runs_per_hour=int(tot.get('runs', 0) / search_s * 3600), seeds_per_hour=int(tot.get('runs', 0) / search_s * 3600),
            simulated_time_us=tot.get('ticks', 0), simulated_steps=tot.get('steps', 0), library_operations=tot.get('ops', 0), choices_drawn=tot.get('draws', 0),
            faults_injected=faults, probes=probes,
            distinct_states=states, state_measure=p.get('state', 'hash of the document or model state an operation was applied to'), distinct_histories=sigs,
            variants={v: dict(runs=r['stat'].get('runs', 0), wall_s=round(r['wall'], 1)) for v, r in res.items()},
            real_code=p['real'], stubs=p['stubs'], build_s=round(build_s, 1), search_s=round(search_s, 1), known_findings_hit=sorted(known)))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)

def main(a):
    if a[0] == 'replay':
        j = json.load(open(a[1])); exe = build(j['property'], j['variant'])
        r = subprocess.run([exe, 'replay', '--file', a[1]], env=ENV); return r.returncode
    if a[0] == 'setup': # nothing is kept between runs: every check builds what it needs; this only shows that the tools are here
        for c in ('clang++', 'python3'):
            if not shutil.which(c): print('missing ' + c); return 2
        print('ok'); return 0
    if a[0] == 'build': 
        for v in a[2:] or config.PROPS[a[1]]['quick']: print(build(a[1], v))
        return 0
    if a[0] == 'collect':
        prop = a[1]; runs = int(a[a.index('--runs') + 1]) if '--runs' in a else 2000; var = a[a.index('--variant') + 1] if '--variant' in a else list(config.PROPS[prop]['quick'])[0]
        seed = int(a[a.index('--seed') + 1]) if '--seed' in a else 1
        t = time.time(); exe = build(prop, var); t1 = time.time(); r = search(prop, var, exe, seed, runs, 600, '/tmp', True)
        if 'G' in os.environ: # group by the first words
            g = {}
            for c, (n, m) in r['classes'].items():
                k = ' '.join(c.split()[:int(os.environ['G'])]); o = g.setdefault(k, [0, '']); o[0] += n; o[1] = o[1] or c + ' | ' + m
            r['classes'] = g
        for c, (n, m) in sorted(r['classes'].items(), key=lambda x: -x[1][0]): print(f'{n:7d} {c}\n          {m[:int(os.environ.get("W", "400"))]}')
        print(f'build {t1 - t:.1f}s search {time.time() - t1:.1f}s', {k: r['stat'].get(k) for k in ('runs', 'nontrivial', 'steps', 'ops')}, r['err'][:3]); print(r['fault'], r['probe']); return 0
    prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick') # the option wins
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time(); p = config.PROPS[prop]; build_s = 0; res = {}; viol = []; errs = []
    rdir = os.path.join(VERIF, 'replays')
    for var, (runs, secs) in p[tier].items():
        tb = time.time()
        try: exe = build(prop, var)
        except BuildError as x:
            # code that no longer compiles is not a behaviour: report it as an error of the check
            print(f'ERROR {prop}: build of variant {var} failed\n{x}', file=sys.stderr); return 2
        build_s += time.time() - tb; ts = time.time()
        r = search(prop, var, exe, seed, runs, secs, rdir); r['wall'] = time.time() - ts; res[var] = r; errs += r['err']
        for path, line in r['viol']:
            ok = []
            for _ in range(2): # a fresh process must fail the same way, twice
                rc, rr = run_replay(exe, path); ok.append((rc, tuple(rr)))
            j = json.load(open(path))
            if ok[0][0] == 1 and ok[0] == ok[1] and 'CLASS ' + j['class'] in ok[0][1]: viol.append((path, j))
            else: errs.append(f'replay of {path} does not reproduce: {ok}')
        if viol: break
    evidence(prop, tier, seed, res, t0, build_s, len(viol))
    for k in sorted(set().union(*[r['known'] for r in res.values()])): print(f'KNOWN-FINDING: property={prop} {k}')
    for path, j in viol: print(f"VIOLATION property={prop} replay={path}\n  {j['class']}\n  {j['message'][:600]}")
    n = sum(r['stat'].get('runs', 0) for r in res.values())
    print(f"{prop} {tier}: {n} runs, {sum(r['stat'].get('nontrivial', 0) for r in res.values())} distinct non-trivial, build {build_s:.0f}s, total {time.time() - t0:.0f}s")
    if viol: return 1
    if errs:
        print('\n'.join(errs), file=sys.stderr); return 2
    return 0

if __name__ == '__main__':
    if len(sys.argv) < 2: print(__doc__); sys.exit(2)
    sys.exit(main(sys.argv[1:]))
