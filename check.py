#!/usr/bin/env python3
"""Build the harness for a property from /repo's working tree and run it.

  check.py <property> <quick|thorough>      decide one property
  check.py --build <mat|shell|dwr>          only build
  check.py --replay <file>                  run one replay file
"""
import sys, os, re, json, glob, hashlib, subprocess, time, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CORE = '/opt/gismo-core'
BUILD = os.path.join(VERIF, 'build')
NPROC = 8
CXX = 'g++'
OPT = ['-std=c++11', '-O1', '-fPIC', '-w', '-pipe']

# property -> harness
def harness_of(pid):
    return {'M': 'mat', 'A': 'shell', 'D': 'dwr', 'S': 'asan'}[pid[0]]

HARNESS_SRC = {
    'mat':   ['pbt.cpp'],
    'shell': ['pbt.cpp'],
    'dwr':   ['pbt.cpp'],
}
# the memory-safety check runs the generators of all the others under the address sanitizer
ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer', '-DEIGEN_MALLOC_ALREADY_ALIGNED=1']
HARNESS_SRC['asan'] = ['pbt.cpp'] + sorted(os.path.basename(f) for k in ('mat', 'shell', 'dwr') for f in glob.glob(os.path.join(VERIF, 'h', k + '[0-9]*.cpp')))
for k in ('mat', 'shell', 'dwr'):
    HARNESS_SRC[k] += sorted(os.path.basename(f) for f in glob.glob(os.path.join(VERIF, 'h', k + '[0-9]*.cpp')))

# memory-safety check: cases per generator family at multiplier one
MEMN = {'M': 300.0, 'A': 60.0, 'D': 24.0, 'S': 300.0}
ASAN_ENV = 'abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1'

def log(*a):
    print(*a, flush=True)

def core_build():
    """Directory with gsCore/gsConfig.h and lib/libgismo.so. Uses the repository's own
    build folder for the G+Smo core; configures one if it is not there."""
    b = os.path.join(REPO, '_build')
    if os.path.exists(b + '/gsCore/gsConfig.h') and glob.glob(b + '/lib/libgismo.so*'):
        return b
    b = os.path.join(BUILD, 'core')
    if not glob.glob(b + '/lib/libgismo.so*'):
        subprocess.check_call(['cmake', '-S', CORE, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
            '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++', '-DCMAKE_CXX_STANDARD=11', '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1',
            '-DTARGET_ARCHITECTURE=generic', '-DGISMO_OPTIONAL=', '-DGISMO_BUILD_EXAMPLES=OFF', '-DGISMO_BUILD_UNITTESTS=OFF', '-DNOSNIPPETS=ON'],
            stdout=subprocess.DEVNULL)
        subprocess.check_call(['ninja', '-C', b, 'gismo'], stdout=subprocess.DEVNULL)
    return b

def build(h):
    os.makedirs(BUILD + '/obj', exist_ok=True)
    os.makedirs(BUILD + '/inc', exist_ok=True)
    core = core_build()
    link = BUILD + '/inc/gsKLShell'
    if not (os.path.islink(link) and os.readlink(link) == REPO):
        if os.path.lexists(link): os.unlink(link)
        os.symlink(REPO, link)
    inc = ['-I' + BUILD + '/inc', '-I' + CORE + '/src', '-I' + CORE + '/external', '-I' + core, '-I' + CORE + '/optional']
    srcs = sorted(glob.glob(REPO + '/src/*.cpp'))
    if h == 'mat':
        srcs = [s for s in srcs if 'ThinShell' not in os.path.basename(s)]
    elif h == 'shell':
        srcs = [s for s in srcs if 'DWR' not in os.path.basename(s)]
    copt = OPT + (ASAN if h == 'asan' else [])
    jobs = [(s, copt) for s in srcs] + [(os.path.join(VERIF, 'h', s), copt) for s in HARNESS_SRC[h]]
    # longest first
    big = ['ThinShellAssemblerDWR_', 'ThinShellAssembler_', 'dwr', 'shell', 'mat1', 'mat2', 'BaseDim_', 'Nonlinear', 'TFT', 'Eval']
    def key(j):
        for i, b in enumerate(big):
            if b in os.path.basename(j[0]): return i
        return len(big)
    jobs.sort(key=key)
    ver = subprocess.check_output([CXX, '--version']).splitlines()[0]
    def comp(job):
        src, opt = job
        pp = subprocess.run([CXX] + opt + inc + ['-E', '-P', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if pp.returncode:
            return src, None, pp.stderr.decode(errors='replace')
        hh = hashlib.sha256(ver + b'\0' + ' '.join(opt).encode() + b'\0' + pp.stdout).hexdigest()[:32]
        obj = BUILD + '/obj/' + os.path.basename(src)[:-4] + '.' + hh + '.o'
        if not os.path.exists(obj):
            tmp = obj + '.%d.tmp' % os.getpid()
            r = subprocess.run([CXX] + opt + inc + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                if os.path.exists(tmp): os.unlink(tmp)
                return src, None, r.stdout.decode(errors='replace')
            os.rename(tmp, obj)
        return src, obj, ''
    with cf.ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(comp, jobs))
    for s, o, e in res:
        if o is None:
            log('BUILD ERROR in ' + s + '\n' + e[-3000:])
            sys.exit(2)
    objs = [o for _, o, _ in res]
    exe = BUILD + '/' + h
    stamp = hashlib.sha256('\n'.join(sorted(objs)).encode()).hexdigest()[:16]
    exe = exe + '.' + stamp
    if not os.path.exists(exe):
        so = sorted(glob.glob(core + '/lib/libgismo.so*'), key=len)[-1]
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run([CXX] + (['-fsanitize=address'] if h == 'asan' else []) + objs + ['-o', tmp, '-Wl,-rpath,' + core + '/lib', so, '-ldl', '-lz'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            log('LINK ERROR\n' + r.stdout.decode(errors='replace')[-6000:])
            sys.exit(2)
        os.rename(tmp, exe)
    # keep the cache small
    files = sorted(glob.glob(BUILD + '/obj/*.o'), key=os.path.getmtime)
    for o in objs: os.utime(o)
    if len(files) > 400:
        for f in files[:len(files) - 300]:
            if f not in objs:
                os.unlink(f)
    for f in glob.glob(BUILD + '/' + h + '.*'):
        if f != exe and time.time() - os.path.getmtime(f) > 3600: os.unlink(f)
    return exe

def subs(exe, pid):
    out = subprocess.check_output([exe, '--list']).decode()
    r = []
    for l in out.splitlines():
        p, s, w, rule = l.split('\t', 3)
        if p == pid: r.append((s, float(w), rule))
        elif pid == 'S01': r.append((p + ':' + s, MEMN[p[0]], p + ' generator: ' + rule))
    return r

def run_replay(exe, path):
    r = subprocess.run([exe, '--replay', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, ASAN_OPTIONS=ASAN_ENV, MALLOC_PERTURB_='128'))
    return r.returncode == 1, r.stdout.decode(errors='replace')

def asan_report(exe, path):
    d = BUILD + '/asanlog-%d' % os.getpid(); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run([exe, '--replay', path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, ASAN_OPTIONS=ASAN_ENV + ':log_path=' + d + '/r'))
    t = ''
    for f in glob.glob(d + '/*'): t += open(f, errors='replace').read()
    shutil.rmtree(d, ignore_errors=True)
    fr = [l.strip().split(' in ', 1)[-1].split(' (/')[0] for l in t.splitlines() if l.strip().startswith('#') and 'gismo::' in l][:4]
    m = re.search(r'AddressSanitizer: (\S+)', t)
    return (m.group(1) if m else 'process ended') + ': ' + ' <- '.join(x[:140] for x in fr)

def main():
    if sys.argv[1] == '--setup':
        for h in sorted(HARNESS_SRC):
            if len(HARNESS_SRC[h]) > 1: print(build(h))
        return 0
    if sys.argv[1] == '--build':
        print(build(sys.argv[2])); return 0
    if sys.argv[1] == '--replay':
        pid = [l.split()[1] for l in open(sys.argv[2]) if l.startswith('property')][0]
        if any(l.startswith('mode memory') for l in open(sys.argv[2])): pid = 'S01'
        bad, out = run_replay(build(harness_of(pid)), sys.argv[2]); print(out); return 1 if bad else 0
    pid, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    base = {'M': 8.0, 'A': 5.0, 'D': 5.0, 'S': 1.0}[pid[0]]
    mult = float(os.environ.get('VERIF_MULT', base if tier == 'quick' else base * 30))
    cap = float(os.environ.get('VERIF_CAP', '420' if tier == 'quick' else '5400'))
    h = harness_of(pid)
    exe = build(h)
    tb = time.time() - t0
    log('%s: built %s in %.1f s' % (pid, h, tb))
    allsubs = subs(exe, pid)
    probes = [s for s in allsubs if s[0].startswith('kf_')]
    S = [s for s in allsubs if not s[0].startswith('kf_')]
    only = os.environ.get('VERIF_SUB')
    if only: S = [s for s in S if s[0] in only.split(',')]
    if not S:
        log('no such property'); return 2
    tmp = BUILD + '/run-%s-%d' % (pid, os.getpid())
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp); os.environ['VERIF_TMP'] = tmp   # scratch files of the harness
    tasks = []
    for s, w, rule in S:
        n = max(1, int(round(w * mult)))
        shards = min(NPROC, n)
        for k in range(shards):
            tasks.append((s, n, k, shards))
    # interleave the subs so that every sub gets its share should the time cap strike
    tasks.sort(key=lambda t: (t[2], t[0]))
    tstart = time.time()
    def run(t):
        s, n, k, shards = t
        out = '%s/%s-%d.json' % (tmp, s.replace(':', '_'), k)
        left = max(1.0, cap - (time.time() - tstart))
        # uninitialised memory holds huge numbers in every other shard
        env = dict(os.environ, ASAN_OPTIONS=ASAN_ENV)
        if k % 2 and pid != 'S01': env['MALLOC_PERTURB_'] = '128'
        p_, s_ = s.split(':') if ':' in s else (pid, s)
        r = subprocess.run([exe] + (['--memory'] if pid == 'S01' else []) + ['--prop', p_, '--sub', s_, '--seed', str(seed), '--from', str(k), '--to', str(n), '--step', str(shards),
                        '--tier', tier, '--cap', '%.1f' % left, '--shrink', '40' if tier == 'quick' else '120', '--out', out],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
        try:
            return t, json.load(open(out)), r.returncode
        except Exception as e:
            return t, None, r.returncode
    env_fail = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        results = list(ex.map(run, tasks))
    # a worker that left no result was ended from outside: retried alone, never a verdict by itself
    results = [r if r[1] is not None else run(r[0]) for r in results]
    tot = dict(evaluations=0, discarded=0, nontrivial=0, checks=0)
    per, labels, samples, fails, capped = {}, {}, [], [], False
    for (s, n, k, sh), d, rc in results:
        if d is None:
            env_fail.append((s, k, rc)); continue
        p = per.setdefault(s, dict(evaluations=0, discarded=0, nontrivial=0, checks=0, wall=0.0))
        for key in tot:
            tot[key] += d[key]; p[key] += d[key]
        p['wall'] = round(max(p['wall'], d['wall']), 2)
        capped |= d['capped']
        for l, c in d['labels'].items(): labels[s + ':' + l] = labels.get(s + ':' + l, 0) + c
        if len([x for x in samples if x['family'] == s]) < 2:
            for x in d['samples'][:1]: samples.append({'family': s, 'case': x})
        if 'failure' in d: fails.append((s, d['failure']))
    for s, k, rc in env_fail:
        log('worker %s/%d ended with %s, no result' % (s, k, rc))
    viol = []
    os.makedirs(VERIF + '/replays', exist_ok=True)
    seen = set()
    for s, f in sorted(fails, key=lambda x: (x[0], len(x[1]['choices']))):
        if (s, f['site']) in seen or len([v for v in viol if v[0] == s]) >= 2: continue
        seen.add((s, f['site']))
        if pid == 'S01' and not f['site'].startswith('signal') and f['site'] not in ('exit', 'exception'):
            log('inconclusive: %s %s' % (s, f['site'])); continue
        if len(viol) >= 4: continue
        p_, s_ = s.split(':') if ':' in s else (pid, s)
        path = '%s/replays/%s-%s-%d.txt' % (VERIF, pid, s.replace(':', '_'), len(viol))
        for attempt in ('choices', 'original'):
            with open(path, 'w') as fo:
                fo.write('# %s\n# site: %s\n# %s\n# case: %s\n' % (pid, f['site'], f['msg'].replace('\n', ' ')[:1500], f['desc'].replace('\n', ' ')[:3000]))
                fo.write('property %s\nsub %s\ntier %s\n%schoices %s\n' % (p_, s_, tier, 'mode memory\n' if pid == 'S01' else '', ' '.join(map(str, f[attempt]))))
            k = sum(run_replay(exe, path)[0] for _ in range(3))
            need = 3 if f['site'] in ('timeout', 'exit') or f['site'].startswith('signal Killed') else 2
            if k >= need: break
        if k < need:
            log('not reproduced (%d/3): %s %s %s' % (k, s, f['site'], f['msg'][:300])); continue
        if pid == 'S01' and f['site'] != 'exception': f['msg'] = asan_report(exe, path)
        viol.append((s, path, f))
    shutil.rmtree(tmp, ignore_errors=True); os.environ.pop('VERIF_TMP')
    # probes of the known findings
    known = []
    if os.path.exists(VERIF + '/known_findings.jsonl'):
        known = [json.loads(l) for l in open(VERIF + '/known_findings.jsonl') if l.strip()]
    kf = []
    for kn in known:
        if kn.get('status') == 'known' and kn['property'] == pid and any(p[0] == kn['probe'] for p in probes):
            r = subprocess.run([exe, '--prop', pid, '--sub', kn['probe'], '--seed', '1', '--from', '0', '--to', '1', '--shrink', '0', '--tier', tier],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode == 1:
                kf.append(kn); log('KNOWN-FINDING: property=%s %s' % (pid, kn['what']))
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=tot['evaluations'], distinct_nontrivial=tot['nontrivial'],
            rule=' || '.join('%s: %s' % (s, rule) for s, w, rule in S),
            samples=samples, discarded=tot['discarded'], oracle_comparisons=tot['checks'], families=per, labels=labels,
            time_capped=capped, workers_without_result=len(env_fail), build_s=round(tb, 1),
            known_findings_seen=[k['what'] for k in kf]),
        assumptions=['the G+Smo core (splines, expression assembler, linear algebra) is correct; it is linked, not checked',
                     'inputs outside the generated domain (see rule) are not covered'],
        wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, pid), 'w'), indent=1)
    log('%s %s: %d cases (%d non-trivial, %d discarded), %d comparisons, %.1f s' % (pid, tier, tot['evaluations'], tot['nontrivial'], tot['discarded'], tot['checks'], time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        for s in per: log('  ', s, per[s])
    for s, path, f in viol:
        log('  family %s site %s: %s' % (s, f['site'], f['msg'][:600])); log('  case: %s' % f['desc'][:1200])
        log('VIOLATION property=%s replay=%s' % (pid, path))
    if viol: return 1
    if env_fail or tot['evaluations'] == 0:
        log('no answer: some workers gave no result'); return 3
    return 0

if __name__ == '__main__':
    sys.exit(main())
