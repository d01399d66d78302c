#!/usr/bin/env python3-vt
"""Symbolic executor for the Python programs.

Runs the real scripts with a numpy whose floating-point arrays hold symbolic reals (z3 terms), explores every
feasible path by re-execution, and lets z3 decide every assertion of the harness. MPI ranks are threads that
hand over to each other at blocking operations only.
  pysym.py HARNESS.py ENTRY -o OUT --repo DIR [-p name=value] [--shard i/n] [--time S] [--samples K] [--seed N]
"""
import argparse, builtins, copy, fractions, io, json, os, random, shutil, signal, sys, tempfile, threading, time, traceback, types, zlib
import numpy as np
import numpy.ma, numpy.linalg, numpy.random, numpy.fft
import z3
F = fractions.Fraction


class PathEnd(BaseException):
    pass


class Unsupported(BaseException):
    pass


class St:
    """counters of the whole run"""
    paths = stopped = skipped = forks = ops = queries = sat = unsat = unknown = asserts = solver_asserts = rewritten = concrete = 0
    solver_s = 0.0
    mpi_ops = 0


covers, labels, functions, problems, violations, samples = {}, {}, {}, [], [], []
P = None        # the current path


# ------------------------------------------------------------------ solver
class Path:
    def __init__(self, prefix):
        self.prefix, self.trail, self.pc, self.inputs, self.names = prefix, [], [], [], {}
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.inv, self.n, self.tokens, self.conc, self.decided = {}, 0, [], {}, {}
        self.nl = False

    def fresh(self, name):
        self.n += 1
        return z3.Real('%s!%d' % (name, self.n))

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def check(self, extra):
        St.queries += 1
        t = time.time()
        self.solver.push()
        self.solver.add(extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unknown:
            s = z3.Tactic('qfnra-nlsat').solver()
            s.set('timeout', 20000)
            try:
                s.add(*self.pc)
                s.add(extra)
                r = s.check()
                m = s.model() if r == z3.sat else None
            except z3.Z3Exception:
                r = z3.unknown
        St.solver_s += time.time() - t
        if r == z3.sat:
            St.sat += 1
        elif r == z3.unsat:
            St.unsat += 1
        else:
            St.unknown += 1
        return r, m

    def choose(self, n):
        """which of n alternatives this path takes (all are explored)"""
        i = len(self.trail)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if i >= len(self.prefix):
            for q in range(n - 1, 0, -1):
                work.append(self.trail + [q])
                St.forks += 1
        self.trail.append(k)
        return k

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = e.get_id()
        if key in self.decided:
            return self.decided[key][0]
        t, _ = self.check(e)
        if t == z3.unsat:
            r = False
        else:
            f, _ = self.check(z3.Not(e))
            if f == z3.unsat:
                r = True
            elif z3.unknown in (t, f):
                raise Unsupported('the solver gave no answer (branch)')
            else:
                r = self.choose(2) == 0
                self.add(e if r else z3.Not(e))
        self.decided[key] = (r, e)
        return r

    def concretize(self, e, what):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        key = e.get_id()
        if key in self.conc:
            return self.conc[key][0]
        vals = []
        self.solver.push()
        while True:
            St.queries += 1
            t = time.time()
            r = self.solver.check()
            St.solver_s += time.time() - t
            if r == z3.unsat:
                St.unsat += 1
                break
            if r != z3.sat:
                raise Unsupported('the solver gave no answer while enumerating ' + what)
            St.sat += 1
            v = self.solver.model().eval(e, model_completion=True).as_long()
            vals.append(v)
            self.solver.add(e != v)
            if len(vals) > 4096:
                raise Unsupported('more than 4096 values for ' + what)
        self.solver.pop()
        vals.sort()
        v = vals[self.choose(len(vals)) if len(vals) > 1 else 0]
        if len(vals) > 1:
            self.add(e == v)
        self.conc[key] = (v, e)
        return v


def cexp(c):
    return z3.RealVal(str(c.numerator) + '/' + str(c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)


def inverse(e):
    """1/e for a symbolic e, as a product of a constant and of inverses of the factors of a monomial"""
    e = z3.simplify(e, som=True)
    if z3.is_rational_value(e):
        return cexp(1 / F(e.numerator_as_long(), e.denominator_as_long()))
    if z3.is_mul(e):
        r = None
        for k in e.children():
            i = inverse(k)
            r = i if r is None else r * i
        return r
    if e.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1 and e.arg(1).numerator_as_long() > 0:
        i = inverse(e.arg(0))
        r = i
        for _ in range(e.arg(1).numerator_as_long() - 1):
            r = r * i
        return r
    key = e.get_id()
    if key in P.inv:
        return P.inv[key][0]
    if P.branch(e == 0):
        raise ZeroDivisionError('division by zero')
    v = P.fresh('inv')
    P.add(v * e == 1)
    P.inv[key] = (v, e)
    return v


class B:
    """a symbolic truth value"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return P.branch(self.e)

    def __and__(self, o): return B(z3.And(self.e, bexp(o)))
    def __or__(self, o): return B(z3.Or(self.e, bexp(o)))
    def __xor__(self, o): return B(z3.Xor(self.e, bexp(o)))
    def __invert__(self): return B(z3.Not(self.e))
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def num(self):
        return int(bool(self))

    def __add__(self, o): return self.num() + o
    __radd__ = __add__
    def __mul__(self, o): return self.num() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __int__(self): return self.num()
    __index__ = __int__
    def __float__(self): return float(self.num())


def bexp(o):
    return o.e if isinstance(o, B) else z3.BoolVal(bool(o))


def inf(o):
    return isinstance(o, (float, np.floating)) and (o != o or o in (float('inf'), float('-inf')))


def dec(o):
    """the number a literal or a quotient stands for: 0.1 is a tenth"""
    f = F(o)
    g = f.limit_denominator(1000000)
    return g if abs(g - f) <= abs(f) / 10 ** 15 else f


class R:
    """an exact real: a fraction or a z3 term"""
    __slots__ = ('c', 'e')
    __array_priority__ = 1000

    def __init__(self, c=None, e=None):
        self.c, self.e = c, e

    @staticmethod
    def of(o):
        if isinstance(o, R):
            return o
        if isinstance(o, I):
            return R(e=z3.ToReal(o.e)) if not z3.is_int_value(o.e) else R(F(o.e.as_long()))
        if isinstance(o, B):
            return R(F(o.num()))
        if isinstance(o, F):
            return R(o)
        if isinstance(o, (bool, int, np.integer, np.bool_)):
            return R(F(int(o)))
        if isinstance(o, (float, np.floating)):
            return R(dec(float(o)))
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return R.of(o.item())
        return None

    def x(self):
        return cexp(self.c) if self.e is None else self.e

    def bin(self, o, f, g, zero=None):
        if isinstance(o, (np.ndarray, list, tuple)) and not (isinstance(o, np.ndarray) and o.ndim == 0):
            return NotImplemented
        if inf(o):
            return f(1.0 if (self.c or F(1)) >= 0 else -1.0, o)
        q = R.of(o)
        if q is None:
            return NotImplemented
        St.ops += 1
        if self.e is None and q.e is None:
            return R(f(self.c, q.c))
        return g(self, q)

    def __add__(self, o):
        return self.bin(o, lambda a, b: a + b, lambda a, b: a if b.e is None and b.c == 0 else b if a.e is None and a.c == 0 else R(e=a.x() + b.x()))
    def __radd__(self, o):
        return self.__add__(o)
    def __sub__(self, o):
        return self.bin(o, lambda a, b: a - b, lambda a, b: a if b.e is None and b.c == 0 else R(e=a.x() - b.x()))
    def __rsub__(self, o):
        q = R.of(o)
        return NotImplemented if q is None else q.__sub__(self)
    def __mul__(self, o):
        def m(a, b):
            for u, v in ((a, b), (b, a)):
                if u.e is None and u.c == 0:
                    return R(F(0))
                if u.e is None and u.c == 1:
                    return v
            return R(e=a.x() * b.x())
        return self.bin(o, lambda a, b: a * b, m)
    def __rmul__(self, o):
        return self.__mul__(o)
    def __truediv__(self, o):
        return self.bin(o, lambda a, b: a / b, lambda a, b: R(e=a.x() * (cexp(1 / b.c) if b.e is None else inverse(b.e))) if b.e is not None or b.c else div0())
    def __rtruediv__(self, o):
        if inf(o):
            return o
        q = R.of(o)
        return NotImplemented if q is None else q.__truediv__(self)
    def __neg__(self):
        return R(-self.c) if self.e is None else R(e=-self.e)
    def __pos__(self):
        return self
    def __abs__(self):
        return R(abs(self.c)) if self.e is None else (self if P.branch(self.e >= 0) else -self)
    def __pow__(self, o):
        q = R.of(o)
        if q is None or q.e is not None:
            return NotImplemented
        if q.c == F(1, 2):
            return self.sqrt()
        if q.c.denominator != 1:
            raise Unsupported('a power that is not whole')
        n, r = abs(int(q.c)), R(F(1))
        for _ in range(n):
            r = r * self
        return r if q.c >= 0 else 1 / r
    def sqrt(self):
        if self.e is None:
            for c in (self.c,):
                a, b = round(c.numerator ** .5), round(c.denominator ** .5)
                if a * a == c.numerator and b * b == c.denominator:
                    return R(F(a, b))
        v = P.fresh('sqrt')
        P.add(v >= 0)
        P.add(v * v == self.x())
        return R(e=v)
    def conjugate(self):
        return self
    def cmp(self, o, f, g):
        if isinstance(o, (np.ndarray, list, tuple)) and not (isinstance(o, np.ndarray) and o.ndim == 0):
            return NotImplemented
        if inf(o):
            return f(0.0, o)
        q = R.of(o)
        if q is None:
            return NotImplemented
        if self.e is None and q.e is None:
            return f(self.c, q.c)
        return B(g(self.x(), q.x()))
    def __lt__(self, o): return self.cmp(o, lambda a, b: a < b, lambda a, b: a < b)
    def __le__(self, o): return self.cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)
    def __gt__(self, o): return self.cmp(o, lambda a, b: a > b, lambda a, b: a > b)
    def __ge__(self, o): return self.cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)
    def __eq__(self, o): return self.cmp(o, lambda a, b: a == b, lambda a, b: a == b)
    def __ne__(self, o): return self.cmp(o, lambda a, b: a != b, lambda a, b: a != b)
    __hash__ = None
    def __bool__(self):
        return self.c != 0 if self.e is None else P.branch(self.e != 0)
    def __float__(self):
        if self.e is None:
            return float(self.c)
        s = z3.simplify(self.e, som=True)
        if z3.is_rational_value(s):
            return float(F(s.numerator_as_long(), s.denominator_as_long()))
        raise Unsupported('a symbolic number used as a float')
    def __int__(self):
        if self.e is None:
            return int(self.c)
        return P.concretize(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)), 'a number')
    def __floor__(self):
        return self.c.__floor__() if self.e is None else P.concretize(z3.ToInt(self.e), 'a number')
    def __ceil__(self):
        return -(-self).__floor__()
    def __round__(self, n=None):
        if self.e is None:
            return round(self.c) if n is None else R(round(self.c, n))
        raise Unsupported('rounding of a symbolic number')
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __str__(self):
        P.tokens.append(self)
        return '@%d@' % (len(P.tokens) - 1)
    __repr__ = __str__
    def __format__(self, spec):
        return str(self)
    def item(self): return self
    @property
    def real(self): return self
    def is_integer(self):
        return self.c.denominator == 1 if self.e is None else False


def div0():
    raise ZeroDivisionError('division by zero')


class I:
    """a symbolic whole number (only what command line arguments need)"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def of(o):
        if isinstance(o, I):
            return o
        if isinstance(o, (int, np.integer)):
            return I(z3.IntVal(int(o)))
        return None

    def bin(self, o, f, back):
        q = I.of(o)
        if q is not None:
            return I(f(self.e, q.e))
        if isinstance(o, (R, float)):
            return back(R.of(self), R.of(o))
        return NotImplemented
    def __add__(self, o): return self.bin(o, lambda a, b: a + b, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self.bin(o, lambda a, b: a - b, lambda a, b: a - b)
    def __rsub__(self, o): return self.bin(o, lambda a, b: b - a, lambda a, b: b - a)
    def __mul__(self, o): return self.bin(o, lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return R.of(self) / o
    def __rtruediv__(self, o): return o / R.of(self)
    def __floordiv__(self, o): return int(self) // o
    def __mod__(self, o): return int(self) % o
    def __neg__(self): return I(-self.e)
    def cmp(self, o, f):
        q = I.of(o)
        if q is not None:
            return B(f(self.e, q.e))
        if isinstance(o, (R, float)):
            return B(f(R.of(self).x(), R.of(o).x()))
        return NotImplemented
    def __lt__(self, o): return self.cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self.cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self.cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self.cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self.cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self.cmp(o, lambda a, b: a != b)
    __hash__ = None
    def __bool__(self): return P.branch(self.e != 0)
    def __int__(self): return P.concretize(self.e, 'a whole number')
    __index__ = __int__
    def __float__(self): return float(int(self))
    def __str__(self):
        P.tokens.append(R.of(self))
        return '@%d@' % (len(P.tokens) - 1)
    __repr__ = __str__
    def __format__(self, spec): return str(self)


# ------------------------------------------------------------------ numpy
def isfloat(dt):
    try:
        return np.dtype(dt).kind == 'f'
    except TypeError:
        return False


def dt_(dt):
    """the interpreter's own int (and subclasses) as an element type"""
    return int if isinstance(dt, type) and issubclass(dt, int) and dt is not bool else dt


def conv(v):
    """Python floats and ints that go into a symbolic array become exact numbers"""
    if isinstance(v, (R, float, np.floating, int, np.integer, bool, np.bool_, I)):
        return R.of(v)
    if isinstance(v, np.ndarray) and v.dtype.kind in 'fiub':
        return toobj(v)
    if isinstance(v, (list, tuple)):
        return [conv(q) for q in v]
    return v


def toobj(a):
    o = np.empty(a.shape, object)
    of = o.reshape(-1) if o.size else o
    for i, v in enumerate(a.flat):
        of[i] = R.of(v) if not isinstance(v, R) else v
    return o.view(ndarray)


class ndarray(np.ndarray):
    def __new__(cls, shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
        if isfloat(dtype) and buffer is None:
            a = np.ndarray.__new__(cls, shape, object, order=order)
            uninit(a)
            return a
        return np.ndarray.__new__(cls, shape, dtype, buffer, offset, strides, order)

    def __setitem__(self, k, v):
        np.ndarray.__setitem__(self, k, conv(v) if self.dtype == object else v)

    def astype(self, dt, *a, **k):
        dt = dt_(dt)
        if self.dtype == object and isfloat(dt):
            return self.copy()
        r = np.ndarray.astype(self, dt, *a, **k)
        return toobj(r) if isfloat(dt) and not self.dtype == object else r

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def max(self, *a, **k):
        return np.ndarray.max(self, *a, **k)


# array <op> number: numpy hands these to the number, which goes through the array element by element
def _through(name, fn):
    orig = getattr(R, name)

    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            r = np.empty(o.shape, object)
            for i, v in np.ndenumerate(o):
                r[i] = fn(R.of(v), self)
            return r.astype(bool).view(ndarray) if name in ('__lt__', '__gt__', '__le__', '__ge__', '__eq__', '__ne__') else r.view(type(o) if isinstance(o, ndarray) else ndarray)
        return orig(self, o)
    setattr(R, name, f)


for _n, _f in (('__radd__', lambda a, b: a + b), ('__rsub__', lambda a, b: a - b), ('__rmul__', lambda a, b: a * b), ('__rtruediv__', lambda a, b: a / b),
               ('__lt__', lambda a, b: b < a), ('__gt__', lambda a, b: b > a), ('__le__', lambda a, b: b <= a), ('__ge__', lambda a, b: b >= a), ('__eq__', lambda a, b: b == a), ('__ne__', lambda a, b: b != a)):
    _through(_n, _f)


def uninit(a):
    f = np.ndarray.reshape(a.view(np.ndarray), -1)
    for i in range(f.size):
        f[i] = R(e=P.fresh('uninit')) if P else R(F(0))


class IntShim(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, I))


def wrap(f):
    def g(*a, **k):
        r = f(*[back(x) for x in a], **{n: back(x) for n, x in k.items()})
        return front(r)
    g.__name__ = getattr(f, '__name__', 'f')
    return g


def back(x):
    return dt_(x)


def front(r):
    if isinstance(r, np.ndarray) and not isinstance(r, ndarray):
        return toobj(r) if r.dtype.kind == 'f' else r.view(ndarray)
    if isinstance(r, np.floating):
        return R.of(r)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(front(q) for q in r)
    if type(r) is list:
        return [front(q) for q in r]
    return r


def mk_numpy():
    m = types.ModuleType('numpy')
    m.__dict__['__path__'] = np.__path__
    m.__file__ = np.__file__

    def shaped(val):
        def f(shape, dtype=float, order='C', **k):
            dtype = dt_(dtype)
            if dtype is None or isfloat(dtype):
                a = np.empty(shape, object, order=order).view(ndarray)
                if val is None:
                    uninit(a)
                else:
                    a[...] = val
                return a
            return {0: np.zeros, 1: np.ones, None: np.zeros}[val](shape, dtype, order=order).view(ndarray)
        return f

    def like(val):
        def f(a, dtype=None, **k):
            a, dtype = np.asarray(a), dt_(dtype)
            return shaped(val)(a.shape, a.dtype if dtype is None and a.dtype != object else (dtype or float))
        return f
    m.zeros, m.ones, m.empty = shaped(0), shaped(1), shaped(None)
    m.zeros_like, m.ones_like, m.empty_like = like(0), like(1), like(None)

    def full(shape, v, dtype=None, **k):
        dtype = dt_(dtype)
        if dtype is not None and not isfloat(dtype):
            return np.full(shape, v, dtype).view(ndarray)
        if dtype is None and isinstance(v, (int, np.integer)):
            return np.full(shape, v).view(ndarray)
        a = np.empty(shape, object).view(ndarray)
        a[...] = v
        return a
    m.full = full
    m.full_like = lambda a, v, dtype=None, **k: full(np.shape(a), v, dtype or (float if getattr(a, 'dtype', None) == object else getattr(a, 'dtype', None)))

    def array(x, dtype=None, copy=True, **k):
        dtype = dt_(dtype)
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return x.astype(dtype) if dtype is not None and not isfloat(dtype) else (np.array(x, copy=True, subok=False).view(ndarray) if copy else x)
            r = np.array(x, dtype, **k)
            return toobj(r) if r.dtype.kind == 'f' else r.view(ndarray)
        if dtype is not None and not isfloat(dtype):
            return np.array(x, dtype, **k).view(ndarray)
        def sym(q):
            return any(sym(z) for z in q) if isinstance(q, (list, tuple)) else isinstance(q, (R, I)) or (isinstance(q, np.ndarray) and q.dtype == object)
        r = np.array(x, object, **k) if sym(x) else np.array(x, dtype, **k)
        return toobj(r) if r.dtype == object or r.dtype.kind == 'f' else r.view(ndarray)
    m.array = array
    m.asanyarray = lambda x, dtype=None, **k: array(x, dtype, copy=False)
    m.asarray = m.ascontiguousarray = lambda x, dtype=None, **k: array(x.view(ndarray) if isinstance(x, ndarray) and type(x) is not ndarray else x, dtype, copy=False)
    m.copy = lambda a, *k, **kk: array(a)
    m.ndarray = ndarray

    def unary(name, sym, real):
        def f(x, *a, **k):
            if isinstance(x, R):
                return sym(x)
            if isinstance(x, np.ndarray) and x.dtype == object:
                o = np.empty(x.shape, object).view(ndarray)
                for i, v in np.ndenumerate(x):
                    o[i] = sym(R.of(v))
                return o
            return front(real(x, *a, **k))
        setattr(m, name, f)
    unary('sqrt', lambda r: r.sqrt(), np.sqrt)
    unary('fabs', abs, np.fabs)
    unary('abs', abs, np.abs)
    unary('absolute', abs, np.abs)
    unary('floor', lambda r: R(F(r.__floor__())), np.floor)
    unary('ceil', lambda r: R(F(r.__ceil__())), np.ceil)
    unary('sign', lambda r: R(F(1)) if r > 0 else R(F(-1)) if r < 0 else R(F(0)), np.sign)
    unary('square', lambda r: r * r, np.square)

    def lin(a, b, num=50, endpoint=True, **k):
        num = int(num)
        d = num - 1 if endpoint else num
        o = np.empty((num,), object).view(ndarray)
        for i in range(num):
            o[i] = R.of(a) + (R.of(b) - R.of(a)) * F(i) / d if d else R.of(a)
        return o
    m.linspace = lin
    m.arange = lambda *a, **k: front(np.arange(*a, **{n: dt_(v) for n, v in k.items()})) if not any(isinstance(q, (R, float)) for q in a) and not isfloat(k.get('dtype', int)) else toobj(np.array([a[0] + i * (a[2] if len(a) > 2 else 1) for i in range(int(np.ceil(float((a[1] - a[0]) / (a[2] if len(a) > 2 else 1)))))] if len(a) > 1 else list(range(int(a[0]))), object))
    m.mean = lambda a, *k, **kk: np.sum(a, *k, **kk) / (np.size(a) if not k and 'axis' not in kk else np.shape(a)[k[0] if k else kk['axis']])

    def ga(name):
        v = getattr(np, name)
        if isinstance(v, type) or not callable(v) or isinstance(v, np.ufunc) and False:
            return v
        return wrap(v)
    m.__getattr__ = ga
    return m


# ------------------------------------------------------------------ MPI
class Mpi:
    """the ranks of one run; one thread at a time holds the baton"""
    def __init__(self, n, fn):
        self.n, self.fn, self.res, self.err = n, fn, [None] * n, None
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.state = ['ready'] * n
        self.arr = [None] * n
        self.wins, self.nwin = [], [0] * n
        self.tid = {}
        self.abort = False

    def me(self):
        return self.tid.get(threading.get_ident(), 0)

    def body(self, r):
        self.sem[r].acquire()
        self.tid[threading.get_ident()] = r
        sys.setprofile(prof)
        try:
            if not self.abort:
                self.res[r] = self.fn()
        except BaseException as e:
            if self.err is None and not isinstance(e, Abort):
                self.err = e
        sys.setprofile(None)
        self.state[r] = 'done'
        self.main.release()

    def run(self):
        th = [threading.Thread(target=self.body, args=(r,), daemon=True) for r in range(self.n)]
        for t in th:
            t.start()
        while True:
            if self.err is not None and not self.abort:
                self.abort = True
            live = [r for r in range(self.n) if self.state[r] != 'done']
            if not live:
                break
            go = live if self.abort else [r for r in live if self.state[r] == 'ready']
            if not go:
                self.complete(live)
                continue
            r = go[0]
            self.state[r] = 'running'
            self.sem[r].release()
            self.main.acquire()
        for t in th:
            t.join()
        if self.err is not None:
            raise self.err
        return self.res

    def collective(self, op, key, arg):
        r = self.me()
        St.mpi_ops += 1
        self.arr[r] = (op, key, arg)
        self.state[r] = 'waiting'
        self.main.release()
        self.sem[r].acquire()
        if self.abort:
            raise Abort()
        return self.out[r]

    def complete(self, live):
        try:
            if len(live) < self.n:
                fail('deadlock', 'deadlock', 'rank %d waits in %s for ranks that have ended' % (live[0], self.arr[live[0]][0]))
            ops = {(a[0], a[1]) for a in self.arr}
            if len(ops) > 1:
                fail('mpi', 'collective-mismatch', 'ranks disagree on the collective operation: %s' % sorted(map(str, ops))[:4])
            op, key, _ = self.arr[0]
            args = [a[2] for a in self.arr]
            self.out = getattr(self, 'do_' + op)(args, key)
            for r in live:
                self.state[r] = 'ready'
        except BaseException as e:
            self.err = e

    def do_barrier(self, a, k): return [None] * self.n
    def do_gather(self, a, k): return [[clone(x) for x in a] if r == k else None for r in range(self.n)]
    def do_allgather(self, a, k): return [[clone(x) for x in a] for r in range(self.n)]
    def do_bcast(self, a, k): return [clone(a[k]) for r in range(self.n)]
    def fold(self, a, op):
        s = clone(a[0])
        for x in a[1:]:
            s = op(s, x)
        return s
    def do_reduce(self, a, k): return [self.fold([x[0] for x in a], a[0][1]) if r == k else None for r in range(self.n)]
    def do_allreduce(self, a, k): return [self.fold([x[0] for x in a], a[0][1]) for r in range(self.n)]
    def do_win(self, a, k):
        w = {'buf': a, 'gets': [], 'open': False, 'snap': None}
        self.wins.append(w)
        return [w] * self.n
    def do_fence(self, a, k):
        w = self.wins[k[0]]
        if w['gets']:
            if k[1] & NOPRECEDE:
                fail('mpi', 'noprecede', 'fence asserted that no transfer precedes it, but one is pending')
            for t in range(self.n):
                for x, y in zip(w['snap'][t], w['buf'][t].flat):
                    if x is not y:
                        fail('mpi', 'epoch-race', 'an exposed buffer is written while a transfer may be under way')
            for dst, pe in w['gets']:
                src = w['snap'][pe]
                if dst.size > len(src):
                    fail('mpi', 'get-out-of-window', 'transfer of %d numbers from a window of %d' % (dst.size, len(src)))
                for i in range(dst.size):
                    dst.flat[i] = src[i]
            w['gets'] = []
        w['open'] = not k[1] & NOSUCCEED
        w['snap'] = [list(b.flat) for b in w['buf']]
        return [None] * self.n


class Abort(BaseException):
    pass


def pickled(x):
    # objects travel pickled, and instances of local classes cannot be
    if '<locals>' in type(x).__qualname__:
        raise AttributeError("Can't pickle local object %r" % type(x).__qualname__)
    return x


def clone(x):
    return np.array(x, copy=True, subok=False).view(ndarray) if isinstance(x, np.ndarray) else copy.deepcopy(x)


NOCHECK, NOPRECEDE, NOPUT, NOSTORE, NOSUCCEED = 1, 2, 4, 8, 16


class Op:
    def __init__(self, f): self.f = f
    def __call__(self, a, b): return self.f(a, b)


def mk_mpi():
    pkg = types.ModuleType('mpi4py')
    m = types.ModuleType('mpi4py.MPI')
    pkg.MPI = m
    pkg.__path__ = []

    class Comm:
        def Get_rank(self): return P.mpi.me() if P.mpi else 0
        def Get_size(self): return P.mpi.n if P.mpi else 1
        rank = property(Get_rank)
        size = property(Get_size)
        def barrier(self): P.mpi.collective('barrier', None, None)
        Barrier = barrier
        def gather(self, x, root=0): return P.mpi.collective('gather', root, pickled(x))
        def allgather(self, x): return P.mpi.collective('allgather', None, pickled(x))
        def bcast(self, x, root=0): return P.mpi.collective('bcast', root, pickled(x))
        def reduce(self, x, op=None, root=0): return P.mpi.collective('reduce', root, (pickled(x), op or m.SUM))
        def allreduce(self, x, op=None): return P.mpi.collective('allreduce', None, (pickled(x), op or m.SUM))

    class Win:
        @staticmethod
        def Create(buf, disp_unit=1, info=None, comm=None):
            w = Win()
            w.w = P.mpi.collective('win', None, buf)
            w.k = [q is w.w for q in P.mpi.wins].index(True)
            return w
        def Fence(self, a=0): P.mpi.collective('fence', (self.k, a & (NOPRECEDE | NOSUCCEED)), None)
        def Get(self, origin, rank, target=None):
            if not self.w['open']:
                fail('mpi', 'no-epoch', 'transfer outside an access epoch')
            if not 0 <= int(rank) < P.mpi.n:
                fail('mpi', 'bad-rank', 'transfer from rank %s' % rank)
            if target is not None:
                raise Unsupported('Get with a target specification')
            self.w['gets'].append((origin[0] if isinstance(origin, (list, tuple)) else origin, int(rank)))
        def Free(self): pass
    m.COMM_WORLD, m.COMM_SELF, m.Win, m.Comm = Comm(), Comm(), Win, Comm
    m.SUM, m.PROD, m.MIN, m.MAX = Op(lambda a, b: a + b), Op(lambda a, b: a * b), Op(lambda a, b: a if a < b else b), Op(lambda a, b: a if a > b else b)
    for i, n in enumerate(['DOUBLE', 'FLOAT', 'INT64_T', 'INT32_T', 'INT16_T', 'INT8_T', 'BYTE', 'INT']):
        setattr(m, n, i)
    m.MODE_NOCHECK, m.MODE_NOPRECEDE, m.MODE_NOPUT, m.MODE_NOSTORE, m.MODE_NOSUCCEED = NOCHECK, NOPRECEDE, NOPUT, NOSTORE, NOSUCCEED
    m.INFO_NULL = None

    def wtime():
        k = P.mpi.me() if P.mpi else 0
        v = P.fresh('wtime')
        o = P.clock.get(k)
        P.add(v >= (o if o is not None else 0))
        P.clock[k] = v
        return R(e=v)
    m.Wtime = wtime
    return pkg, m


# ------------------------------------------------------------------ running the scripts
REPO = None
PARAMS = {}


def prof(frame, ev, arg):
    if ev == 'call':
        c = frame.f_code
        if c.co_filename.startswith(REPO):
            k = os.path.basename(c.co_filename) + ':' + c.co_qualname
            functions[k] = functions.get(k, 0) + 1


class Arg(str):
    """a command line argument that is a whole number known only symbolically"""
    num = None


def inject(d):
    class intshim(int, metaclass=IntShim):
        def __new__(cls, x=0, *a):
            if isinstance(x, Arg) and x.num is not None:
                return I(x.num)
            if isinstance(x, I):
                return x
            return int(x, *a)

    def rng(*a):
        if not any(isinstance(q, I) for q in a):
            return range(*a)
        if len(a) == 3:
            return range(*[int(q) for q in a])

        def g():
            i, e = (0, a[0]) if len(a) == 1 else a
            while i < e:
                yield i
                i = i + 1
        return g()
    d['int'], d['range'] = intshim, rng


class Router(io.TextIOBase):
    def __init__(self, what): self.what = what
    def write(self, t):
        P.out.setdefault((self.what, P.mpi.me() if P.mpi else 0), []).append(t)
        return len(t)
    def flush(self): pass
    def isatty(self): return False


class Finder:
    """compiles modules of the directory under test afresh, with the injected names"""
    def __init__(self, d): self.d = d
    def find_spec(self, name, path=None, target=None):
        import importlib.util
        f = os.path.join(self.d, name.replace('.', '/') + '.py')
        if '.' in name or not os.path.exists(f):
            return None
        return importlib.util.spec_from_loader(name, self, origin=f)
    def create_module(self, spec): return None
    def exec_module(self, mod):
        inject(mod.__dict__)
        mod.__file__ = mod.__spec__.origin
        exec(code(mod.__file__), mod.__dict__)


codes = {}


def code(f):
    if f not in codes:
        codes[f] = compile(open(f, encoding='utf-8').read(), f, 'exec')
    return codes[f]


mods_lock = threading.RLock()


def fresh_import(path, name):
    """the script as a module of its own"""
    d = os.path.dirname(path)
    fd = Finder(d)
    sys.meta_path.insert(0, fd)
    mine = [k for k, v in list(sys.modules.items()) if getattr(v, '__file__', None) and str(v.__file__).startswith(REPO)]
    for k in mine:
        del sys.modules[k]
    try:
        m = types.ModuleType(name)
        m.__file__ = path
        inject(m.__dict__)
        exec(code(path), m.__dict__)
        return m
    finally:
        sys.meta_path.remove(fd)


class Doc:
    """words of a text the program wrote"""
    def __init__(self, t):
        self.words = []
        for ln, l in enumerate(t.split('\n'), 1):
            for w in l.split():
                self.words.append((w, ln))
        self.i, self.line = 0, 0

    def next(self):
        """None, a str or a number"""
        if self.i >= len(self.words):
            return None
        w, self.line = self.words[self.i]
        self.i += 1
        return value(w)


def value(w):
    if w[0] == '@' and w[-1] == '@' and w[1:-1].isdigit():
        return P.tokens[int(w[1:-1])]
    if w[0] in '+-.0123456789':
        try:
            float(w)
            return R(F(w)) if 'n' not in w.lower() and len(w) < 15 else R(dec(float(w)))
        except ValueError:
            pass
    return w


# ------------------------------------------------------------------ the interface of a harness
class VP:
    symbolic = True

    def param(self, n, d): return PARAMS.get(n, d)

    def _input(self, name, kind, mk):
        if name not in P.names:
            P.names[name] = mk()
            P.inputs.append((name, kind, P.names[name]))
        return P.names[name]

    def real(self, name, i=None):
        n = name if i is None else '%s[%d]' % (name, i)
        return self._input(n, 'r', lambda: R(e=z3.Real(n)))

    def sym_int(self, name, lo, hi):
        def mk():
            e = z3.Int(name)
            P.add(z3.And(e >= lo, e <= hi))
            return I(e)
        return self._input(name, 'i', mk)

    def fork(self, name, lo, hi, i=None):
        return int(self.sym_int(name if i is None else '%s[%d]' % (name, i), lo, hi))

    def assume(self, c):
        if isinstance(c, B):
            c = z3.simplify(c.e)
            if z3.is_true(c):
                return
            r, _ = P.check(c)
            if r == z3.unsat:
                St.stopped += 1
                raise PathEnd()
            if r == z3.unknown:
                raise Unsupported('the solver gave no answer (assumption)')
            P.add(c)
        elif not c:
            St.stopped += 1
            raise PathEnd()

    def _assert(self, e, label, msg):
        labels[label] = labels.get(label, 0) + 1
        St.asserts += 1
        e = z3.simplify(e)
        if z3.is_true(e):
            St.concrete += 1
            return
        r, m = P.check(z3.Not(e))
        St.solver_asserts += 1
        if r == z3.unsat:
            return
        if r == z3.unknown:
            problems.append('the solver gave no answer: ' + label)
            return
        report('assert', label, msg, z3.Not(e))
        raise PathEnd()

    def check(self, c, label):
        self._assert(bexp(c), label, label)

    def fail(self, label):
        self._assert(z3.BoolVal(False), label, label)

    def eq(self, a, b, label):
        for q in (a, b):
            if isinstance(q, str) or q is None or inf(q):
                self._assert(z3.BoolVal(False), label, '%s: not a number: %r' % (label, q))
        a, b = R.of(a), R.of(b)
        labels[label] = labels.get(label, 0) + 1
        if a.e is None and b.e is None:
            St.asserts += 1
            St.concrete += 1
            if a.c != b.c:
                report('assert', label, '%s: %s != %s' % (label, float(a.c), float(b.c)), z3.BoolVal(True))
                raise PathEnd()
            return
        d = z3.simplify(a.x() - b.x(), som=True)
        if z3.is_rational_value(d) and d.numerator_as_long() == 0:
            St.asserts += 1
            St.rewritten += 1
            return
        labels[label] -= 1
        self._assert(d == 0, label, '%s: %s' % (label, str(z3.simplify(a.x()))[:150] + ' != ' + str(z3.simplify(b.x()))[:150]))

    def is_eq(self, a, b): return bool(R.of(a) == R.of(b))

    def cover(self, label): covers[label] = covers.get(label, 0) + 1

    def shard(self):
        i, n = SHARD
        if n > 1 and zlib.crc32(repr(P.trail).encode()) % n != i:
            St.skipped += 1
            raise PathEnd()

    def array(self, xs): return np.array([R.of(x) for x in xs], object).view(ndarray) if len(xs) else np.empty((0,), object).view(ndarray)

    def load(self, rel): return fresh_import(os.path.join(REPO, rel), 'module_under_test')

    def rank(self): return P.mpi.me() if P.mpi else 0

    def ranks(self, n, fn):
        P.mpi = Mpi(n, fn)
        try:
            return P.mpi.run()
        finally:
            P.last, P.mpi = P.mpi, None

    def run(self, rel, args, words=True):
        """runs the script like the interpreter would; returns its status"""
        path = os.path.join(REPO, rel)
        sys.argv = [path] + list(args)
        try:
            fresh_import(path, '__main__')
            return 0
        except SystemExit as e:
            return 0 if e.code is None else e.code if isinstance(e.code, int) else 1

    def call(self, rel, args, fn):
        """calls fn() as the script of that name with these arguments; returns its status"""
        sys.argv = [os.path.join(REPO, rel)] + list(args)
        try:
            fn()
            return 0
        except SystemExit as e:
            return 0 if e.code is None else e.code if isinstance(e.code, int) else 1

    def number(self, name, lo, hi):
        """an argument that is any number of the range"""
        v = self.sym_int(name, lo, hi)
        a = Arg('%s' % name)
        a.num = v.e
        return a, v

    def output(self, fd=1):
        return Doc(''.join(P.out.get((fd, P.mpi.me() if P.mpi else 0), [])))

    def file(self, name):
        try:
            return Doc(open(name).read())
        except OSError:
            return None

    def files(self): return [f for f in os.listdir('.') if not f.startswith('.')]


def report(kind, label, msg, neg):
    cs = list(P.pc)
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(*cs)
    s.add(neg)
    nice = [z3.And(v.e * 16 == z3.ToReal(z3.ToInt(v.e * 16)), v.e <= 8, v.e >= -8) for n, k, v in P.inputs if k == 'r']
    m = None
    if nice:
        # distinct small values make the difference visible natively
        t = z3.Solver()
        t.set('timeout', 4000)
        t.add(*cs)
        t.add(neg)
        rnd = random.Random(len(violations) + 7)
        t.add(*[v.e == z3.RealVal(F(rnd.randint(1, 63), 16)) for n, k, v in P.inputs if k == 'r' and n[0] == 'f'])
        if t.check() == z3.sat:
            m = t.model()
    if m is None and s.check() == z3.sat:
        m = s.model()
    violations.append({'kind': kind, 'label': label, 'message': msg, 'model_found': m is not None, 'inputs': values(m), 'stack': traceback.format_stack(limit=8)[:6], 'trail': str(P.trail)})


def values(m):
    r = {}
    for n, k, v in P.inputs:
        e = m.eval(v.e, model_completion=True) if m is not None else None
        if e is None:
            r[n] = '0'
        elif k == 'i':
            r[n] = str(e.as_long())
        elif z3.is_rational_value(e):
            r[n] = repr(float(F(e.numerator_as_long(), e.denominator_as_long())))
        else:
            r[n] = e.as_decimal(20).rstrip('?')
    return r


def fail(kind, label, msg):
    report(kind, label, msg, z3.BoolVal(True))
    raise PathEnd()


work = []
SHARD = (0, 1)


def sample(rnd):
    s = z3.Solver()
    s.set('timeout', 2000)
    s.add(*P.pc)
    s.push()
    s.add(*[v.e == z3.RealVal(F(rnd.randint(-31, 31), 16)) for n, k, v in P.inputs if k == 'r'])
    if s.check() != z3.sat:
        s.pop()
        if s.check() != z3.sat:
            return
    samples.append(values(s.model()))


def main():
    global P, REPO, SHARD
    ap = argparse.ArgumentParser()
    ap.add_argument('harness')
    ap.add_argument('entry')
    ap.add_argument('-o')
    ap.add_argument('--repo')
    ap.add_argument('-p', action='append', default=[])
    ap.add_argument('--shard', default='0/1')
    ap.add_argument('--time', type=float, default=1e9)
    ap.add_argument('--samples', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--keep-going', type=int, default=3)
    ap.add_argument('--lib', default='')
    a = ap.parse_args()
    t0 = time.time()
    REPO = os.path.realpath(a.repo)
    SHARD = tuple(map(int, a.shard.split('/')))
    for q in a.p:
        k, v = q.split('=')
        PARAMS[k] = int(v)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(10000)
    numpy_shim = mk_numpy()
    pkg, mpi = mk_mpi()
    hd = {'__name__': 'harness', '__file__': a.harness}
    vp = VP()
    hd['vp'] = vp
    sys.path.insert(0, os.path.dirname(os.path.abspath(a.harness)))
    exec(compile(open(a.harness).read(), a.harness, 'exec'), hd)
    sys.modules['numpy'], sys.modules['mpi4py'], sys.modules['mpi4py.MPI'] = numpy_shim, pkg, mpi
    if a.lib:
        sys.path.append(a.lib)
    rnd = random.Random(a.seed)
    out, err = sys.stdout, sys.stderr
    base = tempfile.mkdtemp(prefix='pysym')
    work.append([])
    nextat = 1
    cwd = os.getcwd()
    stop, tviol = [], None
    signal.signal(signal.SIGTERM, lambda *q: stop.append(1))
    while work:
        if len(violations) >= a.keep_going:
            break
        if violations:
            tviol = tviol or time.time()
        if time.time() - t0 > a.time or stop or (tviol and time.time() - tviol > 20):
            problems.append('time limit reached with %d paths left' % len(work))
            break
        P = Path(work.pop())
        P.mpi, P.out, P.clock = None, {}, {}
        d = tempfile.mkdtemp(dir=base)
        os.chdir(d)
        sys.stdout, sys.stderr = Router(1), Router(2)
        try:
            sys.setprofile(prof)
            try:
                hd[a.entry]()
            finally:
                sys.setprofile(None)
            St.paths += 1
            if len(samples) < a.samples and P.inputs and St.paths >= nextat:
                sample(rnd)
                nextat = nextat * 3 // 2 + 1
        except PathEnd:
            St.paths += 1
        except Unsupported as e:
            problems.append(str(e))
            if len(problems) > 8:
                break
        except Abort:
            pass
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            own = [f for f in tb if f.filename.startswith(REPO)]
            where = '%s:%d' % (os.path.basename(own[-1].filename), own[-1].lineno) if own else '?'
            msg = '%s: %s at %s' % (type(e).__name__, e, where)
            if own:
                report('exception', 'exception ' + type(e).__name__, msg, z3.BoolVal(True))
            else:
                problems.append(msg + ' ' + ''.join(traceback.format_tb(e.__traceback__)[-3:]))
                break
        finally:
            sys.stdout, sys.stderr = out, err
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(base, ignore_errors=True)
    st = 'violation' if violations else 'inconclusive' if problems else 'ok'
    r = dict(status=st, entry=a.entry, params=PARAMS, fp='real', paths=St.paths, stopped=St.stopped, skipped=St.skipped, forks=St.forks, instructions=St.ops, queries=St.queries, sat=St.sat, unsat=St.unsat, unknown=St.unknown,
             solver_s=St.solver_s, asserts=St.asserts, asserts_solver=St.solver_asserts, asserts_rewritten=St.rewritten, asserts_concrete=St.concrete, mpi_ops=St.mpi_ops, wall_s=time.time() - t0, covers=covers, labels=labels, functions=functions, problems=problems[:20], samples=samples, violations=violations)
    with open(a.o, 'w') as f:
        json.dump(r, f)
    os._exit(0 if st == 'ok' else 1 if st == 'violation' else 3)


main()
