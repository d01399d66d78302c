"""The upwind programs in Python: the serial class, the parallel class, the VTK file, the command line."""


def shapes():
    """grid extents of this path; every extent is a symbolic input that the path fixes"""
    nd = vp.param('nd', 3)
    top = vp.param('top', 3)
    low = vp.param('low', 1)
    n = [vp.fork('n', low, top, j) for j in range(nd)]
    vp.assume(total(n) <= vp.param('maxtot', 1000000))
    vp.shard()
    return n


def problem(nd, sgn=None):
    """velocity of any sign and lengths > 0; the sign is settled before the code under test sees it"""
    v = vp.array([vp.real('v', j) for j in range(nd)])
    L = vp.array([vp.real('l', j) for j in range(nd)])
    up = []
    for j in range(nd):
        vp.assume(L[j] > 0)
        up.append(bool(v[j] < 0))
    return v, L, up


def total(n):
    t = 1
    for q in n:
        t *= q
    return t


def flat(n, c):
    k = 0
    for q, i in zip(n, c):
        k = k * q + i
    return k


def coords(n, k):
    c = []
    for q in reversed(n):
        c.insert(0, k % q)
        k //= q
    return c


def step(n, v, L, up, dt, f):
    """one step of the first-order upwind scheme on the periodic grid"""
    g = []
    for k in range(total(n)):
        c = coords(n, k)
        x = f[k]
        for j in range(len(n)):
            d = list(c)
            d[j] = (c[j] + (1 if up[j] else -1)) % n[j]
            a = -v[j] if up[j] else v[j]
            x = x - dt * a * n[j] / L[j] * (f[k] - f[flat(n, d)])
        g.append(x)
    return g


def setf(u, f):
    u.f[...] = vp.array(f).reshape(u.f.shape)


def values(u):
    return list(u.f.flat)


def serial():
    n = shapes()
    nd = len(n)
    v, L, up = problem(nd)
    M = vp.load('upwind/python/upwind.py')
    u = M.Upwind(v, L, n)
    f = values(u)
    vp.check(len(f) == total(n), 'the field has one value per cell')
    for k in range(total(n)):
        vp.eq(f[k], 1 if k == 0 else 0, 'the initial field is one in the lower corner, zero elsewhere')
    dt = vp.real('dt')
    g = [vp.real('f', k) for k in range(total(n))]
    setf(u, g)
    vp.eq(u.checksum(), sum(g), 'the check sum is the sum of the field')
    for s in range(vp.param('steps', 1)):
        u.advect(dt)
        f = values(u)
        h = step(n, v, L, up, dt, g)
        for k in range(total(n)):
            vp.eq(f[k], h[k], 'a step is the upwind update')
        t = u.checksum()
        vp.eq(t, sum(g), 'a step leaves the total unchanged')
        g = h
    vp.cover('stepped')
    if any(up) and not all(up):
        vp.cover('mixed directions')


def parallel():
    n = shapes()
    nd = len(n)
    np_ = vp.fork('nprocs', 1, vp.param('maxp', 4))
    v, L, up = problem(nd)
    dt = vp.real('dt')
    steps = vp.param('steps', 1)
    N = total(n)
    g = [vp.real('f', k) for k in range(N)]
    mode = vp.param('initial', 0)
    M = vp.load('upwind/python/upwindMPI.py')

    def body():
        try:
            u = M.Upwind(v, L, list(n))
        except SystemExit:
            return None
        sl = u.localSlices
        cells = []
        beg = [int(s.start) for s in sl]
        end = [int(s.stop) for s in sl]
        loc = [e - b for b, e in zip(beg, end)]
        where = []
        for q in range(total(loc)):
            c = coords(loc, q)
            where.append(flat(n, [b + i for b, i in zip(beg, c)]))
        first = list(u.f.flat)
        if not mode:
            u.f[...] = vp.array([g[w] for w in where]).reshape(u.f.shape)
        for s in range(steps):
            u.advect(dt)
        return where, first, list(u.f.flat), u.checksum(), u.gatherRoot()
    res = vp.ranks(np_, body)
    if res[0] is None:
        for r in res:
            vp.check(r is None, 'all ranks agree that there is no decomposition')
        vp.cover('no decomposition')
        return
    seen = {}
    one = [1 if k == 0 else 0 for k in range(N)]
    for where, first, f, cs, ga in res:
        vp.check(len(f) == len(where), 'a rank holds one value per cell of its sub-domain')
        for w, a, b in zip(where, first, f):
            vp.check(w not in seen, 'every cell belongs to one rank')
            seen[w] = b
            vp.eq(a, one[w], 'the initial field is one in the lower corner, zero elsewhere')
    vp.check(len(seen) == N, 'every cell belongs to one rank')
    h = one if mode else g
    for s in range(steps):
        h = step(n, v, L, up, dt, h)
    for k in range(N):
        vp.eq(seen[k], h[k], 'the union of the ranks\' fields is the serial field')
    vp.eq(res[0][3], sum(h), 'the check sum on rank 0 is the total')
    ga = res[0][4]
    vp.check(tuple(ga.shape) == tuple(n), 'the gathered array has the global shape')
    for k, x in enumerate(ga.flat):
        vp.eq(x, h[k], 'the gathered array holds every cell at its global place')
    if np_ > 1:
        vp.cover('several ranks')
    if any(up):
        vp.cover('negative velocity')


def vtkfile(doc, n, L, f, what='the VTK file'):
    """n, L: extents and lengths in storage order; one to three dimensions"""
    vp.check(doc is not None, what + ' exists')
    nd = len(n)
    words = []
    for w in ['#', 'vtk', 'DataFile', 'Version']:
        vp.check(doc.next() == w, what + ' starts with the VTK header')
    doc.next()
    l = doc.line
    w = doc.next()
    vp.check(doc.line == l + 1, what + ' has a title line')
    l = doc.line
    while w is not None and doc.line == l:
        w = doc.next()
    vp.check(w == 'ASCII', what + ' is in ASCII')
    vp.check(doc.next() == 'DATASET' and doc.next() == 'RECTILINEAR_GRID', what + ' is a rectilinear grid')
    vp.check(doc.next() == 'DIMENSIONS', what + ' declares dimensions')
    ax = [2, 1, 0]      # the first axis is Z, the second Y, the third X
    for a in range(3):
        vp.eq(doc.next(), n[ax[a]] + 1 if ax[a] < nd else 1, 'the dimensions are those of the grid, first axis last')
    for a, k in enumerate(['X_COORDINATES', 'Y_COORDINATES', 'Z_COORDINATES']):
        vp.check(doc.next() == k, 'the coordinates follow')
        m = n[ax[a]] + 1 if ax[a] < nd else 1
        vp.eq(doc.next(), m, 'the number of coordinates matches the dimensions')
        vp.check(doc.next() in ('double', 'float'), 'the coordinates have a type')
        l = doc.line
        for i in range(m):
            x = doc.next()
            vp.eq(x, L[ax[a]] * i / n[ax[a]] if ax[a] < nd else 0, 'the coordinates are those of the cell faces')
    vp.check(doc.next() == 'CELL_DATA', 'cell data follow')
    vp.eq(doc.next(), total(n), 'the number of values is declared')
    vp.check(doc.next() == 'SCALARS', 'a scalar field follows')
    doc.next()
    vp.check(doc.next() in ('double', 'float'), 'the field has a type')
    l = doc.line
    w = doc.next()
    if doc.line == l:
        vp.eq(w, 1, 'the field has one component')
        w = doc.next()
    vp.check(w == 'LOOKUP_TABLE', 'the look-up table is named')
    doc.next()
    for k in range(total(n)):
        vp.eq(doc.next(), f[k], 'the cell values are listed in storage order')
    vp.check(doc.next() is None, 'nothing follows the cell values')


def saved():
    n = shapes()
    nd = len(n)
    v, L, up = problem(nd)
    M = vp.load('upwind/python/upwind.py')
    u = M.Upwind(v, L, n)
    g = [vp.real('f', k) for k in range(total(n))]
    setf(u, g)
    u.saveVTK('out.vtk')
    vtkfile(vp.file('out.vtk'), n, L, g)
    vp.cover('written')
    if nd > 1 and n[0] != n[1]:
        vp.cover('not cubic')


def checksum(doc, want):
    w = doc.next()
    while w is not None:
        if w == 'sum:':
            vp.eq(doc.next(), want, 'the check sum of the final field is printed')
            return
        w = doc.next()
    vp.fail('the check sum of the final field is printed')


def observed(script, args, snap):
    """runs main() of the script and notes the field of which it takes the check sum; None if there is no way to"""
    M = vp.load(script)
    cls, main = getattr(M, 'Upwind', None), getattr(M, 'main', None)
    if main is None or not hasattr(cls, 'checksum'):
        return None
    orig = cls.checksum

    def noting(self):
        n = list(self.numCells)
        beg = [int(b) for b in self.iBeg] if hasattr(self, 'iBeg') else [0] * len(n)
        loc = [int(q) for q in self.nsLocal] if hasattr(self, 'iBeg') else n
        snap[:] = [([b + i for b, i in zip(beg, coords(loc, q))], x) for q, x in enumerate(self.f.flat)]
        return orig(self)
    cls.checksum = noting
    return vp.call(script, args, main)


def program():
    par = vp.param('mpi', 0)
    kind = vp.fork('kind', vp.param('minkind', 0), 4)    # 0 no argument, 1 cells, 2 cells steps, 3 cells steps vtk, 4 cells steps other
    script = 'upwind/python/' + ('upwindMPI.py' if par else 'upwind.py')
    name = 'upMPI.vtk' if par else 'up.vtk'
    args, n, steps = [], 0, 100
    np_ = vp.fork('nprocs', 1, vp.param('maxp', 1))
    if kind >= 1:
        # a hundred steps only on the smallest grids
        n = vp.fork('cells', vp.param('low', 1), vp.param('top1', 2) if kind == 1 else vp.param('top', 3))
        args.append(str(n))
    if kind >= 2:
        if vp.param('huge', 0):
            s = [1234, 40000][vp.fork('steps', 0, vp.param('huge', 0) - 1)]
            a = str(s)
        else:
            a, s = vp.number('steps', 0, vp.param('maxsteps', 3))
        args.append(a)
    if kind == 3:
        args.append('vtk')
    if kind == 4:
        args.append('none')
    vp.shard()

    def body():
        snap = []
        st = observed(script, args, snap) if kind not in (0, 3) else None
        if st is None:
            st = vp.run(script, args)
        return st, vp.output() if vp.rank() == 0 else None, snap
    if par:
        res = vp.ranks(np_, body)
    else:
        res = [body()]
    if kind == 0:
        for r in res:
            vp.check(r[0] == 1, 'without arguments the exit status is 1')
        vp.check(not vp.files(), 'no file is written')
        vp.cover('no arguments')
        return
    if par:
        ok = any(total(d) == np_ and all(n % q == 0 for q in d) for d in [(a, b, np_ // a // b) for a in range(1, np_ + 1) if np_ % a == 0 for b in range(1, np_ // a + 1) if np_ // a % b == 0])
        if not ok:
            vp.cover('no decomposition')
            for r in res:
                vp.check(r[0] != 0, 'without a decomposition the program ends with an error')
            return
    for r in res:
        vp.check(r[0] == 0, 'the exit status is 0')
    if kind >= 2:
        steps = int(s)
    N = n * n * n
    f = [1 if k == 0 else 0 for k in range(N)]
    one = vp.array([1, 1, 1])
    dt = one[0] / n / 10
    for i in range(steps):
        f = step([n] * 3, one, one, [False] * 3, dt, f)
    checksum(res[0][1], sum(f))
    seen = {}
    for r in res:
        for k, x in r[2]:
            vp.eq(x, f[flat([n] * 3, k)], 'the field whose check sum is printed is that of the last step')
            seen[tuple(k)] = 1
    if seen:
        vp.check(len(seen) == N, 'the field whose check sum is printed covers the grid')
        vp.cover('field observed')
    if kind == 3:
        vtkfile(vp.file(name), [n] * 3, one, f)
        vp.check(len(vp.files()) == 1, 'no other file is written')
        vp.cover('vtk')
    else:
        vp.check(not vp.files(), 'no file is written without vtk')
    vp.cover('ran')
