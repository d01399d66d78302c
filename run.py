#!/usr/bin/env python3
"""Decides one property: regenerates the encoding from the sources under test, runs the
symbolic executor over it, replays counterexamples natively, writes the evidence file.

  run.py ID [--tier quick|thorough] [--repo DIR] [--only JOB] [--keep] [-v]
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: no answer.
"""
import argparse, concurrent.futures as cf, glob, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V, V + '/engine']
CF = ['-std=gnu++17', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-ffp-contract=off', '-fno-threadsafe-statics', '-emit-llvm', '-w']
NPROC = os.cpu_count() or 4
PASSES = 'function(lowerinvoke,sroa,simplifycfg,early-cse)'


class Fail(Exception):
    pass


class Cut(Exception):
    """stopped because a violation is known already"""


GRACE = 20


class Ctx:
    def __init__(self, a):
        self.id, self.tier, self.repo, self.verbose = a.id, a.tier, os.path.abspath(a.repo), a.verbose
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        os.makedirs(V + '/build', exist_ok=True)
        self.work = tempfile.mkdtemp(prefix='work-%s-' % a.id, dir=V + '/build')
        self.t0 = time.time()
        self.deadline = self.t0 + (820 if a.tier == 'quick' else 6 * 3600)
        self.lock, self.grace = threading.Lock(), None

    def left(self):
        return max(5.0, self.deadline - time.time())

    def sh(self, cmd, cwd=None, timeout=None, env=None, mem=None, ok=(0,)):
        def lim():
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem << 20, mem << 20))
        e = dict(os.environ)
        if env:
            e.update(env)
        try:
            p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, preexec_fn=lim, errors='replace')
        except subprocess.TimeoutExpired:
            raise Fail('timed out: ' + ' '.join(map(str, cmd))[:200])
        if ok is not None and p.returncode not in ok:
            pre = V + '/stubs/include/vp_prelude.h'
            if os.path.basename(cmd[0]) in ('clang++-18', 'g++', 'mpicxx') and '-c' in cmd and pre not in cmd and not cmd[cmd.index('-c') + 1].endswith('.c'):
                try: # a header may rely on what its usual includer includes
                    return self.sh([cmd[0], '-include', pre] + cmd[1:], cwd, timeout, env, mem, ok)
                except Fail:
                    pass
            raise Fail('command failed (%d): %s\n%s' % (p.returncode, ' '.join(map(str, cmd))[:400], (p.stdout + p.stderr)[-3000:]))
        return p


    def engine(self, cmd, mem=None):
        """Runs an executor. Once some job has found a violation the others get a short grace period."""
        def lim():
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem << 20, mem << 20))
        if self.grace and time.time() > self.grace:
            raise Cut()
        with tempfile.TemporaryFile('w+', errors='replace') as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, preexec_fn=lim)
            end, term = time.time() + self.left() + 60, None
            try:
                while True:
                    try:
                        p.wait(0.1)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    t = time.time()
                    if term and t > term + 10:
                        raise Cut()
                    if t > end:
                        raise Fail('timed out: ' + ' '.join(map(str, cmd))[:200])
                    if self.grace and t > self.grace and not term:
                        p.terminate()
                        term = t
            finally:
                if p.poll() is None:
                    p.kill()
                    p.wait()
            ef.seek(0)
            return p.returncode, ef.read()[-4000:], term is not None

    def found(self, job, r):
        """A violation that is not a known finding starts the grace period."""
        if any(not is_known(self.id, job, v) for v in r['violations']):
            with self.lock:
                self.grace = self.grace or time.time() + GRACE


class Job:
    """One harness compiled together with the code under test."""
    def __init__(self, name, src, entry='harness', repo_src=(), flags=(), params=({},), shards=1, opts=(), covers=(), fp='real', mpi=False, omp=False, prep=None, mem=6000, samples=3, native=True, native_flags=(), time=None, keep=3, prog=()):
        self.name, self.src, self.entry, self.repo_src, self.flags = name, ([src] if isinstance(src, str) else list(src)), entry, list(repo_src), list(flags)
        self.params, self.shards, self.opts, self.covers, self.fp, self.mpi, self.omp = [dict(p) for p in params], shards, list(opts), list(covers), fp, mpi, omp
        self.prep, self.mem, self.samples, self.native, self.native_flags, self.time, self.keep = prep, mem, samples, native, list(native_flags), time, keep
        self.dir = None
        self.prog = list(prog)   # sources with a main() of their own

    def sources(self, c):
        r = [s if os.path.isabs(s) else V + '/harness/' + s for s in self.src]
        for pat in self.repo_src:
            m = sorted(glob.glob(c.repo + '/' + pat))
            if not m:
                raise Fail('no source matches ' + pat)
            r += m
        return r

    def tr(self, c, p):
        q = self.dir + '/' + os.path.basename(p)
        return q if os.path.exists(q) else c.repo + '/' + p

    def incs(self, c):
        return ['-I', self.dir, '-I', V + '/harness', '-I', c.repo, '-I', c.repo + '/cxx', '-I', c.repo + '/upwind/cxx']

    def build(self, c):
        self.dir = os.path.join(c.work, self.name)
        os.makedirs(self.dir, exist_ok=True)
        extra = self.prep(self, c) or {} if self.prep else {}
        fl = self.flags + (['-fopenmp'] if self.omp else [])
        bcs = []
        prog = [self.tr(c, p) for p in self.prog]
        for i, s in enumerate(self.sources(c) + prog + list(extra.get('src', []))):
            o = '%s/%d.bc' % (self.dir, i)
            lift = ['-fno-builtin', '-Xclang', '-no-enable-noundef-analysis'] if s.endswith('/lifted.c') else []
            lang = ['-std=gnu11' if x == CF[0] else x for x in CF] if s.endswith('.c') else CF
            cc = 'clang-18' if s.endswith('.c') else 'clang++-18'
            c.sh([cc] + lang + lift + ['-DVP_SYM'] + ['-I', V + '/stubs/include'] + self.incs(c) + fl + ['-c', s, '-o', o], cwd=self.dir, timeout=c.left())
            bcs.append(o)
        c.sh(['llvm-link-18'] + bcs + [V + '/build/stubs.bc', '-o', self.dir + '/l.bc'], timeout=c.left())
        c.sh(['opt-18', '-passes=' + extra.get('passes', PASSES), self.dir + '/l.bc', '-o', self.dir + '/o.bc'], timeout=c.left())
        self.nsrc = extra.get('native_src')
        return self

    def tasks(self, c):
        return [(pi, s) for pi in range(len(self.params)) for s in range(self.shards)]

    def run(self, c, t):
        pi, sh = t
        out = '%s/out-%d-%d.json' % (self.dir, pi, sh)
        cmd = [V + '/build/vpsym', self.dir + '/o.bc', self.entry, '-o', out, '--repo', c.repo, '--time', str(int(min(c.left(), self.time or 1e9))), '--keep-going', str(self.keep), '--seed', str(c.seed)]
        if c.tier == 'quick':
            cmd += ['--samples', str(self.samples if sh == 0 else 0)]
        else:
            cmd += ['--samples', str(self.samples * 4 if self.samples else 0)]
        for k, v in self.params[pi].items():
            cmd += ['-p', '%s=%d' % (k, v)]
        if self.fp == 'uf':
            cmd.append('--fp=uf')
        if self.shards > 1:
            cmd += ['--shard', '%d/%d' % (sh, self.shards)]
        return self.result(c, cmd + self.opts, out, pi, sh)

    def result(self, c, cmd, out, pi, sh):
        rc, err, cut = c.engine(cmd, self.mem)
        if not os.path.exists(out):
            if cut:
                raise Cut()
            raise Fail('%s: the executor ended with status %d\n%s' % (self.name, rc, err[-1500:]))
        with open(out) as f:
            r = json.load(f)
        if c.verbose:
            sys.stderr.write('[%s %s shard %d] %s paths %d instr %d queries %d %.1fs\n' % (self.name, self.params[pi], sh, r['status'], r['paths'], r['instructions'], r['queries'], r.get('wall_s', 0)))
            sys.stderr.write(err[-2000:])
        r['_params'] = self.params[pi]
        c.found(self, r)
        return r

    # ---- native re-execution
    def native_build(self, c, asan):
        exe = '%s/native%d' % (self.dir, asan)
        with c.lock:
            lk = self.__dict__.setdefault('nlock', threading.Lock())
        with lk:
            if os.path.exists(exe):
                return exe
            cxx = 'mpicxx' if self.mpi else 'g++'
            fl = [f for f in self.flags] + self.native_flags + (['-fopenmp'] if self.omp else []) + (['-DVP_MPI'] if self.mpi else []) + (['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else [])
            srcs = (self.nsrc(self, c) if self.nsrc else self.sources(c)) + [V + '/harness/vp_native.cpp']
            objs, procs = [], []
            for i, s in enumerate(srcs):
                if s.endswith('.o') or s.startswith('-'):
                    objs.append(s)
                    continue
                o = '%s/n%d_%d.o' % (self.dir, asan, i)
                procs.append(([cxx, '-std=gnu++17', '-O1', '-g', '-w', '-ffp-contract=off'] + self.incs(c) + fl + ['-DVP_ENTRY=' + self.entry, '-c', s, '-o', o]))
                objs.append(o)
            for i, p in enumerate(self.prog):
                o = '%s/p%d_%d.o' % (self.dir, asan, i)
                procs.append([cxx, '-std=gnu++17', '-O1', '-g', '-w', '-ffp-contract=off'] + self.incs(c) + fl + ['-c', self.tr(c, p), '-o', o])
                objs.append(o)
            with cf.ThreadPoolExecutor(4) as ex:
                list(ex.map(lambda p: c.sh(p, cwd=self.dir, timeout=300), procs))
            for i, p in enumerate(self.prog):
                c.sh(['objcopy', '--redefine-sym', 'main=vp_prog_main', '%s/p%d_%d.o' % (self.dir, asan, i)])
            c.sh([cxx] + fl + objs + ['-o', exe + '.tmp'] + [f for f in self.native_flags if f.startswith('-l')] , cwd=self.dir, timeout=300)
            os.rename(exe + '.tmp', exe)
        return exe

    def native_run(self, c, inputs, params, asan, timeout=150):
        exe = self.native_build(c, asan)
        sc = tempfile.mkdtemp(prefix='nat', dir=c.work)
        try:
            open(sc + '/inputs', 'w').write(''.join('%s %s\n' % kv for kv in inputs.items()))
            open(sc + '/params', 'w').write(''.join('%s %s\n' % kv for kv in params.items()))
            env = mpi_env() if self.mpi else {}
            env.update(VP_SCRATCH=sc, VP_INPUTS=sc + '/inputs', VP_PARAMS=sc + '/params', VP_SELF=exe, ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:log_path=%s/asan' % sc, OMP_WAIT_POLICY='passive')
            rc, err = run_native([exe], sc, env, timeout, self.mpi)
            rep = open(sc + '/report', errors='replace').read() if os.path.exists(sc + '/report') else ''
            for f in sorted(glob.glob(sc + '/asan*')):
                rep += open(f, errors='replace').read()[:3000]
            return rc, rep
        finally:
            shutil.rmtree(sc, ignore_errors=True)


class PyJob(Job):
    """A harness in Python over the scripts of the repository."""
    def __init__(self, name, src, entry, ranked=False, **k):
        Job.__init__(self, name, src, entry, **k)
        self.ranked = ranked
        self.harness = V + '/harness/' + src

    def build(self, c):
        self.dir = os.path.join(c.work, self.name)
        os.makedirs(self.dir, exist_ok=True)
        return self

    def run(self, c, t):
        pi, sh = t
        out = '%s/out-%d-%d.json' % (self.dir, pi, sh)
        cmd = ['python3-vt', V + '/engine/pysym.py', self.harness, self.entry, '-o', out, '--repo', c.repo, '--time', str(int(min(c.left(), self.time or 1e9))), '--keep-going', str(self.keep), '--seed', str(c.seed)]
        cmd += ['--samples', str((self.samples if sh == 0 else 0) if c.tier == 'quick' else self.samples * 4), '--shard', '%d/%d' % (sh, self.shards)]
        for d in glob.glob('/opt/vp/venv/lib/python3*/site-packages'):
            cmd += ['--lib', d]
        for k, v in self.params[pi].items():
            cmd += ['-p', '%s=%d' % (k, v)]
        return self.result(c, cmd + self.opts, out, pi, sh)

    def native_build(self, c, asan):
        return None

    def native_run(self, c, inputs, params, asan, timeout=150):
        sc = tempfile.mkdtemp(prefix='nat', dir=c.work)
        try:
            os.mkdir(sc + '/run')
            open(sc + '/inputs', 'w').write(''.join('%s %s\n' % kv for kv in inputs.items()))
            open(sc + '/params', 'w').write(''.join('%s %s\n' % kv for kv in params.items()))
            cmd = ['/opt/vp/venv/bin/python', V + '/harness/vp_native.py', self.harness, self.entry, c.repo, sc]
            env = {'OPENBLAS_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1'}
            if self.ranked:
                cmd = ['mpiexec', '-n', str(inputs.get('nprocs', '1'))] + cmd
                env.update(mpi_env(), VP_RANKED='1', MPI4PY_RC_THREAD_LEVEL='single')
            rc, err = run_native(cmd, sc, env, timeout, self.ranked, True)
            rep = open(sc + '/report', errors='replace').read() if os.path.exists(sc + '/report') else ''
            if rc and not rep:
                rep = err[-1500:] if rc != 124 else ''
            return rc, rep
        finally:
            shutil.rmtree(sc, ignore_errors=True)


def run_native(cmd, sc, env, timeout, mpi, dirs=False):
    """Runs a native program; a start of the MPI run-time that failed (not the program) is tried again."""
    for k in range(6):
        tmp = tempfile.mkdtemp(prefix='vpo', dir='/tmp') if mpi else None
        e = dict(os.environ, **env)
        if mpi:
            e['OMPI_MCA_orte_tmpdir_base'] = tmp
        try:
            p = subprocess.run(cmd, cwd=sc, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, errors='replace')
            rc, err = p.returncode, p.stdout[-3000:] + p.stderr[-3000:]
        except subprocess.TimeoutExpired:
            return 124, ''
        finally:
            if tmp:
                shutil.rmtree(tmp, ignore_errors=True)
        rp = open(sc + '/report', errors='replace').read()[-4000:] if os.path.exists(sc + '/report') else ''
        if not (rc and mpi and re.search(r'orte_init|orte_ess|ORTE_ERROR|opal_init|ompi_mpi_init|ORTE was unable|unable to reliably start', err + rp)):
            break
        for f in glob.glob(sc + '/*') if k < 5 else []:
            if os.path.basename(f) not in ('inputs', 'params'):
                shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
        if os.path.exists(sc + '/run') is False and dirs:
            os.mkdir(sc + '/run')
        time.sleep(1 + k)
    return rc, p.stderr


def mpi_env():
    e = {'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1', 'OMPI_MCA_rmaps_base_oversubscribe': 'yes', 'OMPI_MCA_hwloc_base_binding_policy': 'none', 'OMPI_MCA_btl': 'self,vader', 'OMPI_MCA_btl_vader_single_copy_mechanism': 'none', 'OMPI_MCA_pml': 'ob1', 'OMPI_MCA_osc': 'pt2pt', 'OMPI_MCA_plm': 'isolated', 'OMPI_MCA_mpi_yield_when_idle': '1'}
    return e


REPLAYABLE = {'assert', 'memory', 'arith', 'exception', 'abort'}
SCHEDULE = {'race', 'deadlock', 'mpi', 'uninit'}


def known_findings():
    r = []
    p = V + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^open: property=(\S+) job=(\S+) label=(.*?) \| (.*)$', l.strip())
            if m:
                r.append(m.groups())
    return r


def is_known(pid, job, v):
    for q in known_findings():
        if q[0] == pid and q[1] == job.name and q[2] == v['label']:
            return q
    return None


def add(d, s):
    for k, v in s.items():
        d[k] = d.get(k, 0) + v


def confirm(c, job, v, r):
    """Replays a counterexample on the natively compiled code. Returns (confirmed, text)."""
    k = v['kind']
    if hasattr(job, 'replay'):
        return job.replay(c, v, r)
    if k in SCHEDULE or (k == 'assert' and job.fp == 'uf' and job.omp):
        txt = 'witness of the executor: %s' % v['message']
        if job.native and k in ('deadlock', 'mpi') and v['model_found']:
            rc, rep = job.native_run(c, v['inputs'], r['_params'], 0, timeout=100)
            txt += '\nnative run: status %d\n%s' % (rc, rep[-800:])
        return True, txt
    if not v['model_found']:
        return False, 'the solver gave no model'
    if not job.native:
        return True, 'not replayed natively'
    txt = ''
    modes = (1, 0) if k == 'memory' else (0, 1)
    for asan in modes:
        try:
            rc, rep = job.native_run(c, v['inputs'], r['_params'], asan)
        except Fail as e:
            txt += 'native build failed: %s\n' % e
            continue
        txt += 'native run%s: status %d\n%s\n' % (' (address sanitizer)' if asan else '', rc, rep[-2500:])
        if rc in (5, 98, 99, 124, 134) or rc < 0:
            return True, txt
        if k == 'arith' and rc in (136, -8):
            return True, txt
    # undefined behaviour which neither a crash nor the sanitizer shows (for instance an index past the end
    # of an inner object) is reported on the executor's word only for accesses outside every object
    return False, txt


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick') or 'quick')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', '--verbose', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    c = Ctx(a)
    try:
        rc = decide(c, a)
    except Fail as e:
        print('INCONCLUSIVE property=%s %s' % (a.id, e))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(c.work, ignore_errors=True)
        else:
            print('kept', c.work)
    sys.exit(rc)


def decide(c, a):
    c.sh(['bash', V + '/setup.sh'], timeout=600)
    import checks
    chk = checks.get(c.id, c.tier, c)
    jobs = [j for j in chk['jobs'] if not a.only or re.fullmatch(a.only, j.name)]
    if not jobs:
        raise Fail("no such job")
    runs, problems, errors, cut = [], [], [], 0
    with cf.ThreadPoolExecutor(NPROC) as ex:
        bf = {ex.submit(j.build, c): j for j in jobs}
        rf, built = {}, []
        for f in cf.as_completed(bf):
            try:
                j = f.result()
            except Fail as e:
                errors.append('%s: %s' % (bf[f].name, e))
                continue
            built.append(j)
        # every job gets an early turn, so that one which explodes does not starve the others
        for _, t, j in sorted((((t[1], n, t[0]), t, j) for n, j in enumerate(jobs) if j in built for t in j.tasks(c)), key=lambda q: q[0]):
            rf[ex.submit(j.run, c, t)] = j
        for f in cf.as_completed(rf):
            try:
                runs.append((rf[f], f.result()))
            except Cut:
                cut += 1
            except Fail as e:
                errors.append(str(e))
    # ---- vacuity guard: every job must have reached its witnesses
    for j in jobs:
        rs = [r for k, r in runs if k is j]
        if not rs or c.grace:
            continue
        cov = {}
        for r in rs:
            add(cov, r['covers'])
        viol = any(r['violations'] for r in rs)
        for w in j.covers:
            if not cov.get(w) and not viol:
                problems.append('%s: the witness "%s" was not reached' % (j.name, w))
    for j, r in runs:
        for p in r['problems']:
            problems.append('%s %s: %s' % (j.name, r['_params'], p))
    # ---- counterexamples
    seen, cands = set(), []
    for j, r in runs:
        for v in r['violations']:
            key = (j.name, v['kind'], v['label'])
            if key not in seen:
                seen.add(key)
                cands.append((j, r, v))
    cands.sort(key=lambda t: (t[2]['kind'] in SCHEDULE, t[0].name))
    confirmed, unconfirmed = [], []
    hit = set()
    todo = []
    for j, r, v in cands:
        k = is_known(c.id, j, v)
        if k:
            hit.add(k)
        else:
            todo.append((j, r, v))
    with cf.ThreadPoolExecutor(4) as ex:
        for (j, r, v), (ok, txt) in zip(todo[:6], ex.map(lambda t: confirm(c, t[0], t[2], t[1]), todo[:6])):
            (confirmed if ok else unconfirmed).append((j, r, v, txt))
    # ---- sampled paths re-executed natively, to validate the encoding
    ns, nd, disag = 0, 0, []
    if not cands and not errors and chk.get('validate', True):
        work = []
        for j in jobs:
            if not (j.native and j.samples):
                continue
            for k, r in runs:
                if k is j:
                    work += [(j, s, r['_params']) for s in r.get('samples', [])]
        lim = chk.get('max_native', 12) if c.tier == 'quick' else 200
        work = work[::max(1, (len(work) + lim - 1) // lim)]
        def one(t):
            if c.left() < 200:
                return None
            try:
                return t[0].native_run(c, t[1], t[2], 0, timeout=120)
            except Fail as e:
                return (-99, str(e))
        with cf.ThreadPoolExecutor(2 if any(j.mpi for j in jobs) else NPROC) as ex:
            for t, q in zip(work, ex.map(one, work)):
                if q is None:
                    continue
                if q[0] == 0:
                    ns += 1
                elif q[0] in (7, -99, 98, 124):
                    nd += 1
                else:
                    disag.append({'job': t[0].name, 'inputs': t[1], 'params': t[2], 'status': q[0], 'report': q[1][-600:]})
    # ---- evidence
    tot, fns, labels, covers, samples = {}, {}, {}, {}, []
    for j, r in runs:
        add(tot, {k: r[k] for k in r if isinstance(r[k], (int, float)) and not isinstance(r[k], bool)})
        add(fns, r['functions'])
        add(labels, r['labels'])
        add(covers, r['covers'])
        if len(samples) < 6 and r.get('samples'):
            samples.append({'job': j.name, 'params': r['_params'], 'inputs': r['samples'][0]})
    if not samples:
        samples = [{'job': j.name, 'params': r['_params'], 'paths': r['paths'], 'assertions': r['labels']} for j, r in runs[:4]]
    bounds = [{'job': j.name, 'entry': j.entry, 'arithmetic': 'bit-exact with uninterpreted floating-point operations' if j.fp == 'uf' else 'exact real arithmetic for floating point, 64-bit vectors for integers', 'params': j.params, 'required_witnesses': j.covers} for j in jobs]
    ev = {'property': c.id, 'tier': c.tier, 'seed': c.seed, 'level': 'model_checking', 'wall_s': round(time.time() - c.t0, 2), 'violations': len(confirmed),
          'assumptions': chk.get('assumptions', []),
          'coverage': {'states': int(tot.get('paths', 0)), 'transitions': int(tot.get('instructions', 0)), 'traces_validated_against_impl': ns, 'samples': samples,
                       'explanation': 'Bounded symbolic execution of the real code; "states" counts completed execution paths, "transitions" instructions executed symbolically. ' + chk.get('explanation', ''),
                       'bounds': chk.get('bounds', ''), 'jobs': bounds, 'functions_encoded': dict(sorted(fns.items(), key=lambda t: -t[1])[:80]),
                       'solver_queries': int(tot.get('queries', 0)), 'unsat': int(tot.get('unsat', 0)), 'sat': int(tot.get('sat', 0)), 'solver_unknown': int(tot.get('unknown', 0)), 'solver_s': round(tot.get('solver_s', 0), 2),
                       'assertions_checked': int(sum(labels.values())), 'assertion_labels': labels, 'witnesses': covers,
                       'totals': {k: (round(v, 2) if isinstance(v, float) else v) for k, v in tot.items()},
                       'native_disagreements': disag, 'native_not_completed': nd, 'problems': (errors + problems)[:20]}}
    os.makedirs(V + '/evidence', exist_ok=True)
    with open(V + '/evidence/%s.json' % c.id, 'w') as f:
        json.dump(ev, f, indent=1)
    # ---- verdict
    rd = V + '/evidence/replay'
    for q in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (q[0], q[3]))
    if confirmed:
        os.makedirs(rd, exist_ok=True)
        for n, (j, r, v, txt) in enumerate(confirmed):
            path = '%s/%s-%d.json' % (rd, c.id, n)
            with open(path, 'w') as f:
                json.dump({'property': c.id, 'job': j.name, 'entry': j.entry, 'params': r['_params'], 'kind': v['kind'], 'label': v['label'], 'message': v['message'], 'inputs': v['inputs'], 'stack': v['stack'], 'choices': v['trail'], 'replay': txt}, f, indent=1)
            print('  %s [%s] %s' % (j.name, v['kind'], v['message'][:300]))
            if n == 0:
                first = path
        print('VIOLATION property=%s replay=%s' % (c.id, first))
        return 1
    for d in disag[:3]:
        print('  native run disagrees with the executor: %s' % json.dumps(d)[:600])
    for j, r, v, txt in unconfirmed:
        print('  not reproduced: %s [%s] %s inputs %s\n%s' % (j.name, v['kind'], v['message'][:300], json.dumps(v['inputs'])[:300], txt[-1200:]))
    for e in (errors + problems)[:12]:
        print('  problem: %s' % e[:1500])
    if cut:
        print('  %d executor runs were cut short after the first violation' % cut)
    if unconfirmed or errors or problems or disag or cut:
        print('INCONCLUSIVE property=%s' % c.id)
        return 2
    print('HELD property=%s paths=%d instructions=%d queries=%d assertions=%d solver=%.1fs validated=%d wall=%.1fs' % (c.id, tot.get('paths', 0), tot.get('instructions', 0), tot.get('queries', 0), sum(labels.values()), tot.get('solver_s', 0), ns, time.time() - c.t0))
    return 0


if __name__ == '__main__':
    main()
