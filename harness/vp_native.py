"""Runs a Python harness natively, on given inputs (used to replay counterexamples and to validate the executor).
  vp_native.py HARNESS ENTRY REPO SCRATCH     exit 0 held, 5 violated, 7 outside the assumptions, 99 crashed
"""
import os, sys, io, traceback, types

sys.dont_write_bytecode = True
HARNESS, ENTRY, REPO, SCRATCH = sys.argv[1:5]
RANKED = os.environ.get('VP_RANKED') == '1'
import numpy as np
if RANKED:
    from mpi4py import MPI
    COMM = MPI.COMM_WORLD
    ME = COMM.Get_rank()
else:
    ME = 0


def table(f):
    d = {}
    for l in open(SCRATCH + '/' + f):
        k, v = l.split(None, 1)
        d[k] = v.strip()
    return d


INPUTS, PARAMS = table('inputs'), table('params')


def end(rc, msg=''):
    if msg:
        with open('%s/report' % SCRATCH, 'a') as f:
            f.write('[%d] %s\n' % (ME, msg))
    sys.__stdout__.flush()
    if RANKED and rc:
        COMM.Abort(rc)
    os._exit(rc)


class Doc:
    def __init__(self, t):
        self.words = [(w, n) for n, l in enumerate(t.split('\n'), 1) for w in l.split()]
        self.i = self.line = 0

    def next(self):
        if self.i >= len(self.words):
            return None
        w, self.line = self.words[self.i]
        self.i += 1
        if w[0] in '+-.0123456789':
            try:
                return float(w)
            except ValueError:
                pass
        return w


class VP:
    symbolic = False

    def __init__(self):
        self.out = {}

    def param(self, n, d): return int(PARAMS.get(n, d))
    def real(self, name, i=None): return np.float64(INPUTS.get(name if i is None else '%s[%d]' % (name, i), '0'))
    def sym_int(self, name, lo, hi): return int(INPUTS.get(name, lo))
    def fork(self, name, lo, hi, i=None): return int(INPUTS.get(name if i is None else '%s[%d]' % (name, i), lo))

    def assume(self, c):
        if not c:
            end(7)

    def check(self, c, label):
        if not c:
            end(5, 'violated: ' + label)

    def fail(self, label): end(5, 'violated: ' + label)

    def close(self, a, b):
        if a == b:
            return True
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))

    def eq(self, a, b, label):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str) or not self.close(float(a), float(b)):
            end(5, 'violated: %s: %r != %r' % (label, a, b))

    def is_eq(self, a, b): return self.close(a, b)
    def cover(self, label): pass
    def shard(self): pass
    def array(self, xs): return np.array([float(x) for x in xs], np.float64)

    def load(self, rel):
        path = REPO + '/' + rel
        sys.path.insert(0, os.path.dirname(path))
        m = types.ModuleType('module_under_test')
        m.__file__ = path
        exec(compile(open(path).read(), path, 'exec'), m.__dict__)
        return m

    def rank(self): return ME

    def ranks(self, n, fn):
        if COMM.Get_size() != n:
            end(7)
        r = fn()
        return COMM.allgather(r)

    def run(self, rel, args):
        path = REPO + '/' + rel
        sys.path.insert(0, os.path.dirname(path))
        m = types.ModuleType('__main__')
        m.__file__ = path
        return self.call(rel, args, lambda: exec(compile(open(path).read(), path, 'exec'), m.__dict__))

    def call(self, rel, args, fn):
        sys.argv = [REPO + '/' + rel] + list(args)
        o, e = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        try:
            fn()
            return 0
        except SystemExit as x:
            return 0 if x.code is None else x.code if isinstance(x.code, int) else 1
        finally:
            self.out[1], self.out[2] = sys.stdout.getvalue(), sys.stderr.getvalue()
            sys.stdout, sys.stderr = o, e

    def number(self, name, lo, hi):
        v = int(INPUTS.get(name, lo))
        return str(v), v

    def output(self, fd=1): return Doc(self.out.get(fd, ''))

    def file(self, name):
        try:
            return Doc(open(name).read())
        except OSError:
            return None

    def files(self): return [f for f in os.listdir('.') if not f.startswith('.')]


os.chdir(SCRATCH + '/run')
d = {'__name__': 'harness', '__file__': HARNESS, 'vp': VP()}
sys.path.insert(0, os.path.dirname(HARNESS))
try:
    exec(compile(open(HARNESS).read(), HARNESS, 'exec'), d)
    d[ENTRY]()
except BaseException:
    t = traceback.format_exc()
    end(99 if REPO in t else 98, t[-1500:])
if RANKED:
    COMM.Barrier()
    MPI.Finalize()
end(0)
