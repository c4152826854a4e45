"""Driver: compiles the real sources of /repo to LLVM IR, links them with a
harness, runs the symbolic executor on it and judges the result."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
ENGINE = os.path.join(BUILD, 'irsym')
NPROC = int(os.environ.get('VT_JOBS', os.cpu_count() or 4))
ARCH = ['-march=x86-64-v2', '-maes', '-mpclmul']


class CheckError(Exception):
    pass


def run(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)
    return p.returncode, p.stdout


def ensure_engine():
    src = [os.path.join(VERIF, 'engine', f) for f in ('irsym.cpp', 'expr.cpp', 'expr.h', 'builtins.inc', 'intrinsics.inc', 'Makefile')]
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()
    stamp = os.path.join(BUILD, 'engine.stamp')
    if os.path.exists(ENGINE) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    rc, out = run(['make', '-B', '-C', os.path.join(VERIF, 'engine'), 'OUT=' + BUILD], timeout=900)
    if rc:
        raise CheckError('engine build failed:\n' + out[-3000:])
    open(stamp, 'w').write(h)


class Job:
    """One symbolic run: harness file + entry + real sources."""

    def __init__(self, name, harness, entry='harness_main', src=(), defs=(), params=None, shards=1, time=200,
                 qtimeout=60, covers=(), bnw=256, extra_rt=(), native_src=None, native_defs=(), native_libs=('-lcrypto',),
                 maxviol=3, replay=True, lang='c++', note='', witness=1, randtries=16, std='gnu++11', opt='-O1', rflags=(), max_instr=200000000, generic=False, opaque=False, forkselect=0):
        self.__dict__.update(locals())
        self.params = params or {}


BASE_FILES = set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'base_files.txt')).read().split())


def with_new_files(src):
    """Sources of a job plus any source file added beside them since (a helper moved to a file of its own)."""
    out = list(src)
    for d in sorted({os.path.dirname(f) for f in src}):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            r = os.path.join(d, f)
            if re.search(r'\.(c|cc|cpp)$', f) and r not in BASE_FILES and r not in out and \
                    not re.search(r'\bmain\s*\(|BOOST_|TEST', open(os.path.join(REPO, r), errors='replace').read()):
                out.append(r)
    return out


class Builder:
    def __init__(self, work):
        self.work = work
        self.cache = {}
        self.lock = threading.Lock()
        self.locks = {}
        inc = os.path.join(work, 'inc', 'util')
        os.makedirs(inc, exist_ok=True)
        # the configured header, generated as cmake does
        t = open(os.path.join(REPO, 'util', 'tinygarble_config.h.in')).read()
        t = re.sub(r'#cmakedefine\s+(\w+).*', r'/* #undef \1 */', t)
        t = re.sub(r'@\w*VERSION\w*@', '0', t)
        t = t.replace('@TINYGARBLE_SOURCE_DIR@', REPO).replace('@TINYGARBLE_BINARY_DIR@', work)
        t = re.sub(r'@\w+@', work, t)
        t = t.replace('/* #undef ENABLE_LOG */', '#define ENABLE_LOG')
        open(os.path.join(inc, 'tinygarble_config.h'), 'w').write(t)
        self.inc = os.path.join(work, 'inc')

    def once(self, key, fn):
        with self.lock:
            l = self.locks.setdefault(key, threading.Lock())
        with l:
            if key not in self.cache:
                try:
                    self.cache[key] = ('ok', fn())
                except CheckError as e:
                    self.cache[key] = ('err', e)
            k, v = self.cache[key]
        if k == 'err':
            raise v
        return v

    def _name(self, key, ext):
        return os.path.join(self.work, hashlib.md5(repr(key).encode()).hexdigest()[:16] + ext)

    def bc(self, path, std, defs, opt='-O1', rt=False, extra=()):
        key = ('bc', path, std, tuple(defs), opt, rt, tuple(extra))

        def go():
            out = self._name(key, '.bc')
            c = path.endswith('.c') and std.startswith('gnu1') and '++' not in std
            cmd = ['clang-18' if c else 'clang++-18', '-w', '-std=' + std, opt]
            if path.endswith('.c') and not c:
                cmd += ['-x', 'c++']
            cmd += ['-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-strict-aliasing', '-fno-inline-functions' if False else '-g0',
                    '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DNDEBUG', '-DENABLE_LOG', '-DVT_SYM'] + ARCH
            if rt:
                cmd += ['-fno-builtin']
            cmd += ['-I' + os.path.join(VERIF, 'shim'), '-I' + os.path.join(VERIF, 'rt'), '-I' + os.path.join(VERIF, 'harness'), '-I' + self.inc, '-I' + REPO]
            cmd += list(extra)
            cmd += ['-D' + d for d in defs] + ['-emit-llvm', '-c', path, '-o', out]
            rc, o = run(cmd)
            if rc:
                raise CheckError('compiling %s to IR failed:\n%s' % (path, o[-3000:]))
            return out
        return self.once(key, go)

    def obj(self, path, std, defs, san, shim=False, extra=()):
        key = ('obj', path, std, tuple(defs), san, tuple(extra))

        def go():
            out = self._name(key, '.o')
            cmd = ['g++', '-w', '-O1', '-g', '-std=' + std, '-DNDEBUG', '-DENABLE_LOG', '-DVT_NATIVE', '-fno-strict-aliasing'] + ARCH
            if san:
                cmd += ['-fsanitize=address', '-fno-omit-frame-pointer']
            cmd += ['-I' + os.path.join(VERIF, 'rt'), '-I' + os.path.join(VERIF, 'harness'), '-I' + self.inc, '-I' + REPO]
            cmd += list(extra)
            cmd += ['-D' + d for d in defs] + ['-x', 'c++', '-c', path, '-o', out]
            rc, o = run(cmd)
            if rc:
                raise CheckError('native compile of %s failed:\n%s' % (path, o[-3000:]))
            return out
        return self.once(key, go)

    def module(self, job):
        key = ('mod', job.harness, tuple(job.src), tuple(job.defs), job.bnw, tuple(job.extra_rt), job.std, job.opt)

        def go():
            defs = list(job.defs) + ['BNW=%d' % job.bnw]
            R = lambda f: os.path.join(VERIF, 'rt', f)
            base = [self.bc(R('rt_c.c'), 'gnu17', [], '-O1', True), self.bc(R('rt.cpp'), 'gnu++17', [], '-O1', True),
                    self.bc(R('log_stub.cpp'), 'gnu++17', [], '-O1', True), self.bc(R('bn_model.cpp'), 'gnu++17', ['BNW=%d' % job.bnw], '-O1', True)]
            base += [self.bc(R(f), 'gnu++17', defs, '-O1', True) for f in job.extra_rt]
            real = [self.bc(os.path.join(REPO, f), job.std, list(job.defs), job.opt, extra=job.rflags) for f in with_new_files(job.src)]
            har = self.bc(os.path.join(VERIF, 'harness', job.harness), 'gnu++17', defs, '-O1')
            tmp, out = self._name(key, '.l.bc'), self._name(key, '.m.bc')
            # the run-time pieces first, the real code over them, the harness' stubs last
            # later definitions win: run-time pieces < real code < harness stubs
            cmd = ['llvm-link-18', '-o', tmp] + base[:1] + ['--override=' + b for b in base[1:]] + \
                  ['--override=' + b for b in real] + ['--override=' + har]
            rc, o = run(cmd)
            if rc:
                raise CheckError('llvm-link failed:\n' + o[-3000:])
            return tmp
        return self.once(key, go)

    def native(self, job, san):
        key = ('nat', job.harness, job.entry, tuple(job.src), tuple(job.defs), san, tuple(job.native_defs))

        def go():
            out = self._name(key, '.exe')
            defs = list(job.defs) + list(job.native_defs)
            objs = [self.obj(os.path.join(VERIF, 'harness', job.harness), 'gnu++17', defs, san),
                    self.obj(os.path.join(VERIF, 'rt', 'replay.cpp'), 'gnu++17', ['harness_entry=' + job.entry], san),
                    self.obj(os.path.join(VERIF, 'rt', 'log_native.cpp'), 'gnu++17', [], san)]
            src = job.native_src if job.native_src is not None else job.src
            objs += [self.obj(os.path.join(REPO, f), job.std, defs, san, extra=job.rflags) for f in with_new_files(src)]
            cmd = ['g++', '-o', out] + (['-fsanitize=address'] if san else []) + ['-Wl,--allow-multiple-definition'] + objs + list(job.native_libs) + ['-lpthread']
            rc, o = run(cmd)
            if rc:
                raise CheckError('native link failed:\n' + o[-3000:])
            return out
        return self.once(key, go)


def write_input(path, v, params):
    with open(path, 'w') as f:
        for n, h in v['vars']:
            f.write('V %s %s\n' % (n, h))
        for n, c in v['choices']:
            f.write('C %s %s\n' % (n, c))
        for n, c in params.items():
            f.write('P %s %s\n' % (n, c))


def native_run(exe, inp, seed, env_extra=None, timeout=20):
    d = tempfile.mkdtemp(prefix='vtrun', dir=os.path.dirname(exe))
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1'
    env.update(env_extra or {})
    try:
        p = subprocess.run([exe, inp, str(seed)], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors='replace', text=True, preexec_fn=limits)
        return p.returncode, p.stdout[-4000:]
    except subprocess.TimeoutExpired:
        return -1000, 'timeout'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))


def replay(b, job, v, keepdir, tag):
    """Run the counterexample against the real code. Returns (reproduced, detail)."""
    inp = os.path.join(keepdir, tag + '.in')
    write_input(inp, v, job.params)
    sans = [True, False] if v['kind'] in ('memory', 'stack') else [False, True]
    last = ''
    bad = lambda rc, o: rc in (42, 99) or rc < 0
    uses_rand = any(n.startswith(('rand', 'rnd', 'bnrand')) for n, _ in v['vars'])
    uninit = any(n.startswith('uninit') for n, _ in v['vars'])
    for san in sans:
        exe = b.native(job, san)
        envs = [{}]
        if uninit:
            envs += [{'GLIBC_TUNABLES': 'glibc.malloc.perturb=%d' % p, 'ASAN_OPTIONS': 'detect_leaks=0:alloc_dealloc_mismatch=0:exitcode=99:max_malloc_fill_size=100000:malloc_fill_byte=%d' % (255 - p)} for p in (255, 1, 128)]
        for env in envs:
            # under the generic assumption random values are never equal: only random seeds count
            tries = ([] if job.generic and uses_rand else [0]) + (list(range(1, job.randtries)) if uses_rand else [])
            for t in tries:
                rc, o = native_run(exe, inp, t, env)
                last = o
                if bad(rc, o):
                    return True, 'seed=%d env=%s sanitizer=%s rc=%d: %s' % (t, env, san, rc, '\n'.join(o.strip().splitlines()[-25:]) if rc != 42 else o.strip().splitlines()[-1])
                if rc == 43 and t == 0 and not uses_rand:
                    break
    return False, last.strip()[-400:]


def run_engine(mod, job, shard, outdir, tier, tlimit):
    out = os.path.join(outdir, '%s.%d.json' % (job.name, shard))
    cmd = [ENGINE, mod, '--entry', job.entry, '--out', out, '--shard', str(shard), str(job.shards), '--time', str(int(tlimit)),
           '--qtimeout', str(job.qtimeout * 1000), '--max-viol', str(job.maxviol), '--max-instr', str(job.max_instr), '--witness', str(job.witness)]
    if job.generic:
        cmd.append('--generic')
    if job.opaque:
        cmd.append('--uf-opaque')
    if job.forkselect:
        cmd += ['--fork-select', str(job.forkselect)]
    for kv in os.environ.get('VT_PARAM', '').split():
        cmd += ['--param', kv]
    for k, v in job.params.items():
        cmd += ['--param', '%s=%d' % (k, v)]
    for p in os.environ.get('IRSYM_PIN', '').split():
        cmd += ['--pin', p]
    lim = tlimit + job.qtimeout * 2 + 60
    t0 = time.time()
    def pre():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=lim, text=True, errors='replace', preexec_fn=pre)
        err = p.stderr[-2000:]
    except subprocess.TimeoutExpired:
        return {'complete': False, 'inconclusive': {'engine timeout': 1}, 'violations': [], 'witnesses': [], 'covers': {}, 'functions': [], 'hard': 'timeout'}
    if not os.path.exists(out):
        return {'complete': False, 'inconclusive': {'engine crash rc=%d %s' % (p.returncode, err[-300:]): 1}, 'violations': [], 'witnesses': [], 'covers': {}, 'functions': [], 'hard': 'crash'}
    r = json.load(open(out))
    r['stderr'] = err
    if os.environ.get('IRSYM_FORKS'):
        print(p.stderr)
    return r


def load_known():
    p = os.path.join(VERIF, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return p.stdout.splitlines()


def check_property(pid, spec, tier, seed, only=None, keep=False, verbose=True):
    t0 = time.time()
    ensure_engine()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='run-%s-' % pid, dir=BUILD)
    jobs = [j for j in spec['jobs'](tier) if not only or j.name in only]
    b = Builder(work)
    budget = spec.get('budget', {'quick': 420, 'thorough': 3000})[tier]
    repdir = os.path.join(BUILD, 'replays', pid)
    shutil.rmtree(repdir, ignore_errors=True)
    os.makedirs(repdir, exist_ok=True)
    known = [k for k in load_known() if k['property'] == pid and k.get('status') == 'known']
    results = {}
    errors = []
    pool = ThreadPoolExecutor(NPROC)
    futs = []

    def one(job, sh):
        left = budget - (time.time() - t0)
        if left < 10:
            return {'complete': False, 'inconclusive': {'property time budget exhausted before this shard': 1}, 'violations': [], 'witnesses': [], 'covers': {}, 'functions': []}
        mod = b.module(job)
        return run_engine(mod, job, sh, work, tier, min(float(os.environ.get('VT_TIME', job.time)), left))
    viols, notes = [], []
    try:
        # compile first (in parallel), then all shards; a job whose module or
        # replay program does not build decides nothing (noted, no alarm)
        def build(j):
            try:
                b.module(j)
                if j.replay:
                    b.native(j, False)
                return None
            except CheckError as e:
                return str(e)
        dead = {}
        for j, e in zip(jobs, list(pool.map(build, jobs))):
            if e:
                dead[j.name] = e
                results[j.name] = [{'complete': False, 'inconclusive': {'does not build: ' + e[-600:]: 1}, 'violations': [], 'witnesses': [], 'covers': {}, 'functions': []}]
        if jobs and len(dead) == len(jobs):
            raise CheckError('no job builds: ' + list(dead.values())[0])
        for j in jobs:
            if j.name in dead:
                continue
            for sh in range(j.shards):
                futs.append((j, sh, pool.submit(one, j, sh)))
        for j, sh, f in futs:
            results.setdefault(j.name, []).append(f.result())
        # violations
        seen = set()
        spurious = []
        for j in jobs:
            nsp = 0
            for r in results[j.name]:
                for n, v in enumerate(r['violations']):
                    if nsp >= 8 or time.time() - t0 > budget + 200:
                        break
                    sig = (j.name, v['kind'], v['msg'], v['where'].split(' < ')[0])
                    if sig in seen:
                        continue
                    tag = '%s-%d' % (j.name, len(seen))
                    if j.replay:
                        ok, det = replay(b, j, v, repdir, tag)
                    else:
                        write_input(os.path.join(repdir, tag + '.in'), v, j.params)
                        ok, det = True, 'not replayed natively'
                    if ok:
                        seen.add(sig)
                    else:
                        nsp += 1
                    (viols if ok else spurious).append({'job': j.name, 'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'choices': v['choices'], 'vars': v['vars'], 'replay': os.path.join(repdir, tag + '.in'), 'detail': det})
        # witnesses: the encoding agrees with the real code on concrete inputs
        wit_ok = wit_bad = 0
        wit_detail = []
        for j in jobs:
            if not j.replay:
                continue
            for r in results[j.name]:
                for n, w in enumerate(r['witnesses'][:1] if tier == 'quick' else r['witnesses']):
                    if wit_ok + wit_bad >= 24:
                        break
                    inp = os.path.join(work, 'wit.%s.%d.in' % (j.name, n))
                    write_input(inp, w, j.params)
                    rc, o = native_run(b.native(j, False), inp, 1 if j.generic else 0)
                    if rc == 0:
                        wit_ok += 1
                    else:
                        wit_bad += 1
                        wit_detail.append('%s: rc=%d %s' % (j.name, rc, o.strip()[-300:]))
    except CheckError as e:
        errors.append(str(e))
    finally:
        pool.shutdown(wait=False, cancel_futures=True)
    if errors:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        print('CHECK-ERROR property=%s %s' % (pid, errors[0]))
        return 2
    tot = {k: 0 for k in ('paths', 'instructions', 'queries', 'sat', 'unsat', 'unknown', 'solver_s', 'asserts', 'asserts_by_solver', 'asserts_by_rewriting', 'asserts_unknown', 'forks', 'merges', 'fp_havoc')}
    covers, incon, funcs, perjob = {}, {}, set(), {}
    for j in jobs:
        pj = {'bounds': j.note, 'shards': j.shards, 'complete': all(r['complete'] for r in results[j.name]), 'paths': 0, 'queries': 0, 'asserts': 0, 'solver_s': 0.0}
        cj = {}
        for r in results[j.name]:
            for k in tot:
                tot[k] += r.get(k, 0)
            for k in ('paths', 'queries', 'asserts', 'solver_s'):
                pj[k] += r.get(k, 0)
            for k, v in r['covers'].items():
                cj[k] = cj.get(k, 0) + v
            for k, v in r['inconclusive'].items():
                incon[j.name + ': ' + k] = incon.get(j.name + ': ' + k, 0) + v
            funcs.update(r['functions'])
        miss = [c for c in j.covers if not cj.get(c)]
        if miss and pj['complete'] and not any(v['job'] == j.name for v in viols):
            incon[j.name + ': vacuous, never reached: ' + ', '.join(miss)] = 1
        covers[j.name] = {k: v for k, v in cj.items() if not k.startswith('assert:')}
        pj['assert_sites'] = sorted(k[7:] for k in cj if k.startswith('assert:'))
        pj['solver_s'] = round(pj['solver_s'], 3)
        perjob[j.name] = pj
    rc = 0
    for v in viols:
        kf = None
        for k in known:
            if k.get('job') in (None, v['job']) and re.search(k['match'], v['msg']) and all(list(c) in [list(x) for x in v['choices']] for c in k.get('choices', [])):
                kf = k
                break
        if kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
        else:
            rc = 1
            print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
            print('  job=%s kind=%s: %s' % (v['job'], v['kind'], v['msg']))
            print('  in: %s' % v['where'][:300])
            print('  choices: %s' % v['choices'])
            print('  inputs: %s' % ', '.join('%s=%s' % (a, h[:64]) for a, h in v['vars'][:20]))
            print('  replay against the real code: %s' % v['detail'][-600:])
    for v in spurious:
        if verbose and os.environ.get('VT_VERBOSE'):
            print('  SPURIOUS job=%s %s %s in %s\n    choices %s\n    vars %s\n    %s' % (v['job'], v['kind'], v['msg'], v['where'], v['choices'], v['vars'], v['detail']))
        incon['%s: counterexample did not reproduce natively: %s' % (v['job'], v['msg'])] = 1
    rf = [f for f in demangle(sorted(funcs)) if not re.match(r'^(std::|void std::|sym_|BN_|__|mem|str|harness|boost::|operator)', f) and 'std::' not in f.split('(')[0]]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'other'),
          'coverage': {
              'explanation': 'Symbolic execution of the LLVM IR of the real sources (compiled from %s on this run) with every input a bit-vector variable; each branch and each assertion is decided by Z3. Bounds per job are listed; nothing outside them is claimed. ' % REPO + spec.get('explain', ''),
              'jobs': perjob, 'functions_encoded': rf, 'paths': tot['paths'], 'instructions': tot['instructions'], 'solver_queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'undecided_queries': tot['unknown'],
              'solver_seconds': round(tot['solver_s'], 3), 'assertions_checked': tot['asserts'], 'assertions_decided_by_solver': tot['asserts_by_solver'], 'assertions_decided_by_term_rewriting': tot['asserts_by_rewriting'], 'assertions_undecided': tot['asserts_unknown'],
              'forks': tot['forks'], 'merges': tot['merges'], 'reached': covers, 'inconclusive': incon,
              'witnesses_replayed_natively': wit_ok, 'witness_mismatches': wit_detail},
          'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': sum(1 for v in viols)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if verbose:
        print('%s %s: %s; %d paths, %d assertions, %d queries (%d unsat, %d sat, %d undecided), solver %.1fs, wall %.1fs; witnesses ok %d bad %d' % (pid, tier, 'violated' if rc else 'held on everything explored', tot['paths'], tot['asserts'], tot['queries'], tot['unsat'], tot['sat'], tot['unknown'], tot['solver_s'], time.time() - t0, wit_ok, wit_bad))
        for k, v in sorted(perjob.items()):
            print('   %-28s complete=%s paths=%d queries=%d solver=%.1fs wall=%s' % (k, v['complete'], v['paths'], v['queries'], v['solver_s'], '/'.join('%.0f' % r.get('wall_s', 0) for r in results[k])))
        for k, v in incon.items():
            print('   INCONCLUSIVE %s (%d)' % (k[:400], v))
        for w in wit_detail:
            print('   WITNESS-MISMATCH ' + w)
    if not keep:
        shutil.rmtree(work, ignore_errors=True)
    return rc
