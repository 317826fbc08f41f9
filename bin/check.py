#!/usr/bin/env python3
# Driver of the checks: builds the harness of a property from /repo's working tree, runs the exploration,
# writes evidence/<id>.json, prints KNOWN-FINDING and VIOLATION lines.  See DESIGN.md.
import sys, os, re, json, hashlib, subprocess, time, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'bin'))
BUILD = os.path.join(VERIF, 'build')

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        for root, dirs, files in os.walk(p):
            dirs.sort()
            for f in sorted(files):
                fp = os.path.join(root, f)
                h.update(fp.encode()); h.update(open(fp, 'rb').read())
    return h.hexdigest()

CONFIGS = {   # name -> (cmake options that are on, extra compiler flags, link flags)
    'fftw':  (['AVX', 'FFTW'], ['-mavx', '-mfma'], ['-l:libfftw3.a', '-l:libfftw3f.a']),
    'noavx': (['FFTW'], [], ['-l:libfftw3.a', '-l:libfftw3f.a']),
    'stock': (['AVX'], ['-mavx', '-mfma'], []),
    'avx512': (['AVX', 'AVX512', 'FFTW'], ['-mavx', '-mfma', '-mavx512f', '-mavx512dq'], ['-l:libfftw3.a', '-l:libfftw3f.a']),
    'trace': (['AVX', 'FFTW', 'TRACING'], ['-mavx', '-mfma'], ['-l:libfftw3.a', '-l:libfftw3f.a']),
    'mkl':   (['AVX', 'FFTW', 'MKL'], ['-mavx', '-mfma', '-I/usr/include/mkl', '-DVERIF_MKL'],
              ['-l:libfftw3.a', '-l:libfftw3f.a', '-Wl,--no-as-needed', '-lmkl_intel_ilp64', '-lmkl_gnu_thread', '-lmkl_core', '-lgomp', '-lm', '-ldl']),
}

def lib_sources():
    """the sources of the library for CPU back ends (the rest needs a device compiler)"""
    s = sorted(f for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith(('.cpp', '.cxx', '.cc')) and not re.search(r'cuda|rocm|hip|oneapi|magma', f))
    return s

def config_header(name, outdir):
    on = CONFIGS[name][0]
    cm = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'project\s*\(\s*"?Heffte"?[^)]*?VERSION\s+(\d+)\.(\d+)\.(\d+)', cm, re.S | re.I)
    ver = m.groups() if m else ('2', '4', '1')
    t = open(os.path.join(REPO, 'include/heffte_config.cmake.h')).read()
    for k, v in zip(('MAJOR', 'MINOR', 'PATCH'), ver): t = t.replace('@Heffte_VERSION_%s@' % k, v)
    t = t.replace('@Heffte_GIT_HASH@', 'working tree')
    def cd(mm):
        n = mm.group(1)
        return ('#define ' + n) if n.replace('Heffte_ENABLE_', '') in on else ('/* #undef %s */' % n)
    t = re.sub(r'#cmakedefine\s+(\w+)', cd, t)
    os.makedirs(outdir, exist_ok=True)
    p = os.path.join(outdir, 'heffte_config.h')
    if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)

def build(jobs, verbose=False):
    """compile everything the jobs need; returns {job name: binary}"""
    repo_hash = tree_hash([os.path.join(REPO, 'include'), os.path.join(REPO, 'src')])
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    objs, bins = {}, {}
    simhash = tree_hash([os.path.join(VERIF, 'sim')])
    hdr = hashlib.sha256()
    for f in ('mc.h', 'hx.h', 'tx.h', 'heap.h', 'capi.h'):
        p = os.path.join(VERIF, 'harness', f)
        if os.path.exists(p): hdr.update(open(p, 'rb').read())
    hdr = hdr.hexdigest()
    def obj(src, cfg, asan, std, opt, extra=()):
        inc = os.path.join(BUILD, 'inc_' + cfg)
        config_header(cfg, inc)
        flags = ['-g1', opt, '-std=' + std, '-pthread', '-I' + inc, '-I' + os.path.join(VERIF, 'sim'), '-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'include')] + CONFIGS[cfg][1] + list(extra)
        if asan: flags += ['-fsanitize=address', '-fno-omit-frame-pointer']
        cc = 'gcc' if src.endswith('.c') else 'g++'
        if cc == 'gcc': flags = [f for f in flags if not f.startswith('-std=')] + ['-std=c99']
        key = hashlib.sha256(('|'.join([cc] + flags) + open(src).read() + repo_hash + simhash + hdr + open(os.path.join(inc, 'heffte_config.h')).read()).encode()).hexdigest()[:24]
        o = os.path.join(BUILD, 'obj', os.path.basename(src) + '.' + key + '.o')
        objs[o] = [cc] + flags + ['-c', src, '-o']
        return o
    gen = os.path.join(REPO, 'fortran', 'generated')
    def fortran(be, cfg, opt):
        """the generated module of a back end, its C++ side and the driver that uses it"""
        f90 = os.path.join(gen, 'heffte_%s.f90' % be); drv = os.path.join(VERIF, 'harness', 'fdriver.f90')
        key = hashlib.sha256((be + opt + open(f90).read() + open(drv).read()).encode()).hexdigest()[:24]
        mod = os.path.join(BUILD, 'fmod_' + key); os.makedirs(mod, exist_ok=True)
        o1, o2 = (os.path.join(BUILD, 'obj', '%s_%s.%s.o' % (k, be, key)) for k in ('fmodule', 'fdriver'))
        if not (os.path.exists(o1) and os.path.exists(o2) and os.listdir(mod)):
            com = ['gfortran', '-g1', opt, '-J' + mod, '-I' + mod]
            for cmd, o in ((com + ['-c', f90], o1), (com + ['-cpp', '-ffree-line-length-none', '-DMOD=heffte_' + be, '-DC2C=heffte_fft3d_' + be, '-DR2C=heffte_fft3d_r2c_' + be] + ['-D%s=scale_%s_%s' % (m, be, n) for m, n in (('SC_NONE', 'none'), ('SC_FULL', 'full'), ('SC_SYM', 'symmetric'))] + ['-c', drv], o2)):
                r = sh(cmd + ['-o', o + '.tmp'])
                if r.returncode: print('BUILD ERROR\n' + ' '.join(cmd) + '\n' + r.stdout[:6000]); sys.exit(2)
                os.rename(o + '.tmp', o)
        for o in (o1, o2): os.utime(o)
        return [obj(os.path.join(gen, 'heffte_%sFORTRAN_wrap.cxx' % be), cfg, False, 'c++11', opt, ['-fdata-sections']), o1, o2]
    LD = os.path.join(VERIF, 'sim', 'ranks.ld')
    plan = {}
    for j in jobs:
        if 'src' not in j: continue
        cfg, asan = j.get('config', 'fftw'), j.get('asan', False)
        opt = j.get('opt', '-O1')
        l = [obj(os.path.join(VERIF, 'sim/mpisim.cpp'), cfg, asan, 'c++17', '-O2'), obj(os.path.join(VERIF, 'harness/mc.cpp'), cfg, asan, 'c++17', '-O2')]
        if j.get('lib', True):
            c_lib = 'heffte_c.cpp' in j.get('libsrc', ())
            l += [obj(os.path.join(REPO, 'src', f), cfg, asan, 'c++11', opt, ['-fdata-sections']) for f in lib_sources() if f != 'heffte_c.cpp' or c_lib]
        for s in [j['src']] + j.get('more', []):
            l.append(obj(os.path.join(VERIF, 'harness', s), cfg, asan, 'c++17', opt, j.get('cflags', [])))
        if 'fortran' in j: l += fortran(j['fortran'], cfg, opt)
        plan[j['name']] = (l, cfg, asan, j.get('link', []))
    def comp(item):
        o, cmd = item
        if os.path.exists(o): os.utime(o); return None
        tmp = o + '.%d.tmp' % os.getpid()
        r = sh(cmd + [tmp])
        if r.returncode: return ' '.join(cmd) + '\n' + r.stdout[:6000]
        os.rename(tmp, o)
    # biggest sources first
    todo = sorted(objs.items(), key=lambda x: -os.path.getsize(x[1][-2]))
    with ThreadPoolExecutor(8) as ex:
        for e in ex.map(comp, todo):
            if e: print('BUILD ERROR\n' + e); sys.exit(2)
    for name, (l, cfg, asan, link) in plan.items():
        key = hashlib.sha256('|'.join(l + link + [simhash]).encode()).hexdigest()[:16]
        b = os.path.join(BUILD, name + '.' + key)
        if not os.path.exists(b):
            r = sh(['g++', '-pthread'] + (['-fsanitize=address'] if asan else []) + l + ['-Wl,-T,' + LD, '-o', b + '.tmp'] + CONFIGS[cfg][2] + link)
            if r.returncode: print('LINK ERROR\n' + r.stdout[-4000:]); sys.exit(2)
            os.rename(b + '.tmp', b)
        bins[name] = b
    return bins

def cpu_ok(j):
    return j.get('cpu', '') in open('/proc/cpuinfo').read()

def prune_cache():
    try:
        fs = []
        for root, d, files in os.walk(BUILD):
            for f in files:
                p = os.path.join(root, f)
                if f != 'heffte_config.h': fs.append((os.path.getmtime(p), os.path.getsize(p), p))
        tot = sum(x[1] for x in fs)
        for m, s, p in sorted(fs):
            if tot < 3e9: break
            os.unlink(p); tot -= s
    except OSError: pass

def known_file(prop):
    """known_findings.txt lines: finding<TAB>property=<id><TAB>name<TAB>case key prefix<TAB>error text<TAB>description"""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            f = line.rstrip('\n').split('\t')
            if f[0] == 'finding' and len(f) >= 6 and f[1] == 'property=' + prop: res.append({'name': f[2], 'case': f[3], 'err': f[4], 'what': f[5]})
    return res

def main():
    from registry import CHECKS
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None; extra = []
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--job': only = a.pop(0)
        elif x == '--build-only': extra.append('build')
        elif x == '--case': extra.append(('case', a.pop(0)))
        elif x == '--schedule': extra.append(('schedule', a.pop(0)))
    if prop == 'all':
        props = sorted(CHECKS); jobs = [j for p in props for j in CHECKS[p]['jobs']]
        uniq = {j['name']: j for j in jobs if cpu_ok(j)}
        build(list(uniq.values())); print('built', len(uniq)); return 0
    C = CHECKS[prop]
    t0 = time.time()
    jobs = [j for j in C['jobs'] if (only is None or j['name'] == only) and (tier == 'thorough' or not j.get('thorough_only')) and cpu_ok(j)]
    bins = build(jobs)
    if 'build' in extra: return 0
    prune_cache()
    t1 = time.time()
    known = known_file(prop)
    work = os.path.join(BUILD, 'run_%s_%d' % (prop, os.getpid())); os.makedirs(work, exist_ok=True)
    kf = os.path.join(work, 'known'); open(kf, 'w').write(''.join('%s\t%s\t%s\n' % (k['name'], k['case'], k['err']) for k in known))
    env = dict(os.environ, VERIF_WORK=work, VERIF_BUILD=BUILD, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:allocator_may_return_null=1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', MKL_THREADING_LAYER='SEQUENTIAL')
    results, violations = [], []
    replay_args = [v for k in extra if isinstance(k, tuple) for v in ('--' + k[0], k[1])]
    for j in jobs:
        out = os.path.join(work, j['name'] + '.json')
        if 'python' in j:
            import importlib
            r = importlib.import_module(j['python']).run(dict(tier=tier, seed=seed, repo=REPO, verif=VERIF, work=work, known=known, env=env, build=BUILD, job=j))
            results.append((j, r))
            if r['rc'] != 0: violations.append((j, r)); break
            continue
        cmd = [bins[j['name']], '--tier', tier, '--seed', str(seed), '--known', kf, '--out', out] + j.get('args', [])
        if replay_args:
            r = sh(cmd + replay_args, env=env); print(r.stdout); shutil.rmtree(work, ignore_errors=True); return r.returncode
        b = j.get('budget', {}).get(tier, 240 if tier == 'quick' else 3000)
        hang = j.get('hang', 120)
        for attempt in range(2):
            p = sh(cmd + ['--budget', str(b), '--hang', str(hang * (attempt + 1))], env=env)
            if not os.path.exists(out):
                print('the harness ended without a result (exit %d)\n%s' % (p.returncode, p.stdout[-3000:])); return 2
            r = json.load(open(out)); os.unlink(out)
            if r['rc'] == 3 and attempt == 0: print('retry: ' + json.dumps(r.get('failure'))); continue
            break
        print('job %s: cases=%d executions=%d states=%d capped=%s wall=%.1fs' % (j['name'], r['cases'], r['counts'].get('executions', 0), r['distinct_states'], r['capwhat'] if r['capped'] else 'no', r['wall']), flush=True)
        results.append((j, r))
        if r['rc'] != 0: violations.append((j, r)); break
    # evidence
    def tot(k): return sum(r['counts'].get(k, 0) for _, r in results)
    cov = {'states': sum(r['distinct_states'] for _, r in results), 'transitions': tot('sim_transitions') + tot('steps'),
           'traces_validated_against_impl': tot('executions'),
           'cases': sum(r['cases'] for _, r in results),
           'exhaustive': not any(r['capped'] for _, r in results),
           'bounds': C['bounds'] if isinstance(C.get('bounds'), str) else C.get('bounds', {}).get(tier, ''),
           'rule': C['rule'],
           'samples': [s for _, r in results for s in r['samples'][:3]][:12],
           'jobs': [dict(name=j['name'], config=j.get('config', ''), asan=j.get('asan', False), cases=r['cases'], capped=(r['capwhat'] if r['capped'] else ''), counts=r['counts'], wall_s=round(r['wall'], 2)) for j, r in results]}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': C['level'], 'coverage': cov, 'assumptions': C.get('assumptions', []),
          'violations': len(violations), 'build_s': round(t1 - t0, 2), 'wall_s': round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in known:
        n = sum(r.get('known', {}).get(k['name'], 0) for _, r in results)
        print('KNOWN-FINDING: property=%s %s (seen in %d cases)' % (prop, k['what'], n))
    shutil.rmtree(work, ignore_errors=True)
    if violations:
        j, r = violations[0]
        d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, prop + '.txt')
        f = r.get('failure', {})
        with open(rp, 'w') as o:
            o.write('property: %s\njob: %s (config %s%s)\ncase: %s\nschedule: %s\nerror: %s\nreproduced: %s\n' % (prop, j['name'], j.get('config', ''), ' asan' if j.get('asan') else '', f.get('case'), f.get('schedule'), f.get('error'), f.get('how')))
            o.write("replay: python3 %s/bin/check.py %s --tier %s --job %s --case '%s' --schedule '%s'\n" % (VERIF, prop, tier, j['name'], f.get('case'), f.get('schedule') or ''))
        print('failing case: %s\nerror: %s' % (f.get('case'), f.get('error')))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('OK property=%s tier=%s cases=%d executions=%d wall=%.1fs (build %.1fs)' % (prop, tier, cov['cases'], cov['traces_validated_against_impl'], ev['wall_s'], ev['build_s']))
    return 0

if __name__ == '__main__':
    sys.exit(main())
