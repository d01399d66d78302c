"""The checks: which harnesses decide a property, within which bounds."""
import glob, os, re
from run import Job, PyJob
import fort
CXX = ['cxx/*.cpp']
A_REAL = 'floating point is computed in exact real arithmetic; integers are bit-exact'
A_MPI = 'the MPI library is replaced by a model of its collective operations, windows and fences; transfers take effect at the closing fence'
A_STL = 'the C++ stream library, the red-black tree primitives and the C library are replaced by the models in /verif/stubs; containers are the real libstdc++ headers'


def get(pid, tier, c):
    return globals()[pid](tier == 'thorough', c)


def C01(T, c):
    src = dict(src='c01.cpp', repo_src=['cxx/MultiArrayIter.cpp'])
    return dict(jobs=[
        Job('boxes', entry='harness', params=[{'maxd': 4 if T else 3, 'maxe': 4 if T else 3}], shards=8, covers=['non-empty box', 'empty box'], **src),
        Job('signed', entry='harness_int', params=[{'maxd': 3, 'maxe': 5 if T else 4}], covers=['signed'], **src),
        Job('large', entry='harness_big', shards=6, covers=['large box'], **src)],
        bounds='1..3 axes (thorough 1..4), extents 0..3 (0..4), low corner any value up to 2^62, both orderings, any position and any index set; six large boxes with up to 2^63 positions and any index set in them',
        assumptions=[A_STL, 'at least one axis; extents and low corners do not overflow 64 bits'])


DEC = dict(src='c02.cpp', repo_src=['cxx/CubeDecomp.cpp', 'cxx/MultiArrayIter.cpp'])


def C02(T, c):
    return dict(jobs=[
        Job('small', entry='tiling', params=[{'mind': 1, 'maxd': 2, 'maxe': 16 if T else 9}, {'mind': 3, 'maxd': 3, 'maxe': 9 if T else 5}], shards=6, covers=['decomposition', 'no decomposition', 'two ranks'], **DEC),
        Job('large', entry='tiling', params=[{'big': 3, 'ranks': 0}], shards=6, covers=['decomposition', 'no decomposition'], **DEC)],
        bounds='all grids of 1 or 2 axes with extents 1..9 (thorough 1..16) and of 3 axes with extents 1..5 (1..9), process count any int from 1 to 2^31-1, any two ranks; four large grids with extents up to 65537, process count any of 1024 consecutive values in each of four windows (from 1, around 2^16, around 2^17, up to 2^31-1)',
        assumptions=[A_STL, 'extents and process count are at least one'])


def C03(T, c):
    return dict(jobs=[
        Job('small', entry='optimal', params=[{'mind': 1, 'maxd': 2, 'maxe': 24 if T else 16}, {'mind': 3, 'maxd': 3, 'maxe': 12 if T else 6}], shards=6, covers=['several decompositions', 'one kind of decomposition'], **DEC),
        Job('large', entry='optimal', params=[{'big': 2}], shards=3, covers=['several decompositions'], **DEC)],
        bounds='all grids of 1 or 2 axes with extents 1..16 (thorough 1..24) and of 3 axes with extents 1..6 (1..12), process count any from 1 to the number of cells (beyond it C02 shows there is no decomposition); three large grids with extents up to 65537, process count any of 1024 consecutive values in each of four windows (from 1, around 2^16, around 2^17, up to 2^31-1)',
        assumptions=[A_STL, 'the double-precision cost is evaluated exactly (ratios of sub-domains that differ by less than a rounding error are outside the claim)'])


def C04(T, c):
    return dict(jobs=[
        Job('far', entry='neighbours', params=[{'mind': 1, 'maxd': 2, 'maxe': 7 if T else 5}, {'mind': 3, 'maxd': 3, 'maxe': 4 if T else 3}], shards=8, covers=['one process', 'several processes'], **DEC),
        Job('back', entry='neighbours', params=[{'mind': 1, 'maxd': 2, 'maxe': 6 if T else 4, 'far': 20 if T else 9, 'back': 1}, {'mind': 3, 'maxd': 3, 'maxe': 4 if T else 2, 'far': 9 if T else 5, 'back': 1}], shards=8, covers=['there and back'], **DEC),
        Job('history', entry='neighbours', params=[{'mind': 1, 'maxd': 2, 'maxe': 5 if T else 3, 'far': 9 if T else 2, 'history': 1}, {'mind': 3, 'maxd': 3, 'maxe': 3 if T else 2, 'far': 9 if T else 2, 'history': 1}], shards=4, covers=['asked before'], **DEC)],
        bounds='all grids of 1 or 2 axes with extents 1..5 (thorough 1..7) and of 3 axes with extents 1..3 (1..4), process count any up to the number of cells, any rank, any direction with components in [-(2^31-1), 2^31-1]',
        assumptions=[A_STL])


FILT = dict(src='filt.cpp', repo_src=CXX, mpi=True)


def C05(T, c):
    two = ['one rank', 'several ranks']
    return dict(jobs=[
        Job('line', entry='apply', params=[{'maxd': 1, 'maxe': 18 if T else 12, 'maxp': 12 if T else 8, 'reach': 5 if T else 4, 'invalid': 1}], shards=8, covers=two + ['no decomposition'], **FILT),
        Job('subsets', entry='apply', params=[{'maxd': 1, 'maxe': 9 if T else 6, 'maxp': 3, 'reach': 3 if T else 2, 'subset': 1}, {'mind': 2, 'maxd': 2, 'maxe': 4 if T else 2, 'maxp': 4, 'reach': 1, 'subset': 1}], shards=6, covers=two, **FILT),
        Job('plane', entry='apply', params=[{'mind': 2, 'maxd': 2, 'maxe': 8 if T else 6, 'maxp': 12 if T else 6, 'reach': 3 if T else 2}], shards=8, covers=two, **FILT),
        Job('space', entry='apply', params=[{'mind': 3, 'maxd': 3, 'maxe': 4, 'maxtot': 64 if T else 27, 'maxp': 8, 'reach': 2 if T else 1}], shards=8, covers=two, **FILT),
        Job('long', entry='apply', params=[{'mind': 1, 'maxd': 2, 'maxe': 12 if T else 8, 'maxp': 4, 'maxtot': 48 if T else 32, 'reach': 8, 'far': 1}], shards=8, covers=two, **FILT)],
        bounds='one axis with up to 12 cells (thorough 18), two with up to 6 (8) each, three with up to 4 each and 27 (64) cells; every process count up to 8 (12); any field and weights. Stencils: all branches along the axes up to 4 (5), 2 (3) and 1 (2) cells long in one, two and three dimensions (no longer than a sub-domain), in four shapes (all, downstream only, upstream only, one axis only); every subset of the branches on small grids; the longest branches alone up to 8 cells',
        assumptions=[A_REAL, A_STL, A_MPI])


def C06(T, c):
    cov = ['applied', 'set again', 'set by position']
    return dict(jobs=[
        Job('line', entry='history', params=[{'maxd': 1, 'maxe': 6, 'maxp': 4, 'reach': 2, 'len': 7 if T else 5, 'sets': 3 if T else 2, 'uneven': 1}], shards=8, covers=cov, **FILT),
        Job('plane', entry='history', params=[{'mind': 2, 'maxd': 2, 'maxe': 4 if T else 3, 'maxp': 4, 'reach': 1, 'len': 5 if T else 4, 'uneven': 1, 'box': 1}], shards=8, covers=cov, **FILT),
        Job('space', entry='history', params=[{'mind': 3, 'maxd': 3, 'maxe': 2, 'maxp': 8 if T else 4, 'reach': 1, 'len': 4 if T else 3, 'uneven': 1, 'box': 1}], shards=8, covers=['applied'], **FILT)],
        bounds='every history of up to 5 (thorough 7) operations with at most 2 (3) settings on one axis with up to 6 cells, of up to 4 (5) on two axes with up to 3 (4) cells each, of up to 3 (4) on three axes with up to 2 cells each; every process count up to 4; all branches up to 2 (one axis) and 1 cells long; any weights and input functions, any domain box in two and three dimensions',
        assumptions=[A_REAL, A_STL, A_MPI, 'the first operation sets the input, and a copy follows an application'])


def C07(T, c):
    return dict(jobs=[
        Job('line', entry='life', params=[{'maxd': 1, 'maxe': 12 if T else 8, 'maxp': 8, 'reach': 3, 'invalid': 1}], shards=8, covers=['one rank', 'several ranks', 'destroyed'], **FILT),
        Job('plane', entry='life', params=[{'mind': 2, 'maxd': 2, 'maxe': 6 if T else 4, 'maxp': 8 if T else 6, 'reach': 2, 'invalid': 1}], shards=8, covers=['several ranks', 'destroyed'], **FILT),
        Job('space', entry='life', params=[{'mind': 3, 'maxd': 3, 'maxe': 3, 'maxtot': 27 if T else 12, 'maxp': 8, 'reach': 1}], shards=8, covers=['several ranks', 'destroyed'], **FILT),
        Job('subsets', entry='life', params=[{'maxd': 1, 'maxe': 6 if T else 4, 'maxp': 3, 'reach': 2, 'subset': 1}], shards=6, covers=['several ranks', 'destroyed'], **FILT),
        Job('output', entry='sums', params=[{'mind': 1, 'maxd': 2, 'maxe': 4, 'maxp': 4, 'uneven': 1}], shards=2, covers=['one rank', 'several ranks'], **FILT)],
        bounds='one axis with up to 8 cells (thorough 12), two with up to 4 (6) each, three with up to 3 each and 12 (27) cells, every process count up to 8, all branches up to 3, 2 and 1 cells long in four shapes, every subset of the branches on small grids; one and two filters, used and unused, four applications each',
        technique='Symbolic execution of all ranks on a model of MPI that checks the matching of collective operations, the epochs of every window and the extent and life of every buffer',
        assumptions=[A_REAL, A_STL, A_MPI, 'conflicts are decided from the epochs of the windows, not from the order in which the ranks are executed, so one order stands for all'])


def C08(T, c):
    return dict(jobs=[
        Job('flat', entry='sums', params=[{'maxd': 1, 'maxe': 16 if T else 12, 'maxp': 8 if T else 6, 'uneven': 1}, {'mind': 2, 'maxd': 2, 'maxe': 8 if T else 6, 'maxp': 12 if T else 8, 'uneven': 1}], shards=8, covers=['one rank', 'several ranks'], **FILT),
        Job('space', entry='sums', params=[{'mind': 3, 'maxd': 3, 'maxe': 4, 'maxtot': 64 if T else 27, 'maxp': 8, 'uneven': 1, 'first': 1}], shards=8, covers=['one rank', 'several ranks'], **FILT)],
        bounds='one axis with up to 12 cells (thorough 16), two with up to 6 (8) each, three with up to 4 each and 27 (64) cells; every process count up to 6 to 8 (12); any field and weights', assumptions=[A_REAL, A_STL, A_MPI])


def C09(T, c):
    return dict(jobs=[Job('file', 'wvtk.cpp', repo_src=['cxx/writeVTK.cpp', 'cxx/MultiArrayIter.cpp'], params=[{'maxe': 6 if T else 4, 'maxtot': 216}, {'maxd': 1, 'maxe': 40 if T else 20}, {'mind': 2, 'maxd': 2, 'maxe': 12 if T else 7}, {'mind': 4, 'maxd': 5, 'maxe': 2}], shards=4, covers=['written', 'refused'])],
        bounds='one axis with up to 20 cells (thorough 40), two with up to 7 (12) each, three with up to 4 (6) each, four and five with up to 2 each; any box and field, two names', assumptions=[A_REAL, A_STL])


def C10(T, c):
    k = dict(src='c10.cpp', repo_src=['cxx/CmdLineArgParser.cpp'])
    cov = ['accepted', 'refused', 'int value', 'string value', 'flag given']
    return dict(jobs=[
        Job('text', entry='anytext', params=[{'maxargs': 2, 'maxlen': 2}, {'maxargs': 1, 'maxlen': 5}] + ([{'maxargs': 3, 'maxlen': 2}] if T else []), shards=8, covers=cov, **k),
        Job('lists', entry='lists', params=[{'minargs': 3, 'maxargs': 4 if T else 3}], shards=8, covers=cov, **k)],
        bounds='three sets of registered options with all value types and any defaults; up to 2 (thorough 3) arguments of any text of up to 2 bytes, one argument of any text of up to 5 bytes, and lists of 3 (4) arguments made of option names, an unknown name and numbers with any last digit',
        assumptions=[A_STL, A_REAL, 'the conversion of text to double is that of the C library; an int option is checked when its text is a whole number that fits'])


def upw(name, var, entry='harness', src='upw_scheme.cpp', flags=(), **k):
    fl = ['-DVARIANT="upwind/cxx/%s"' % var] + (['-DNDMIN=3'] if var not in FLEX else []) + list(flags)
    return Job(name, src, entry=entry, repo_src=['cxx/CmdLineArgParser.cpp'], flags=fl, **k)


FLEX = ('upwind.cxx', 'upwindOMPTasks.cxx')
OFFL = ('upwindAcc.cxx', 'upwindAcc2.cxx', 'upwindOMP5.cxx')


def scheme_jobs(v, T):
    flex = v in FLEX
    n = v.split('.')[0]
    big = [{'mind': 1, 'maxd': 1, 'maxe': 8}, {'mind': 2, 'maxd': 2, 'maxe': 5}] if flex else []
    return [upw(n, v, params=big + [{'maxe': 4 if T else 3, 'maxtot': 64 if T else 27}], shards=4, covers=['initial field', 'done']),
            upw(n + '-steps', v, params=[{'maxe': 3 if T else 2, 'maxtot': 12 if T else 8, 'steps': 2, 'again': 1}], shards=2, covers=['done'])]


A_FIELD = 'the field is made arbitrary by overwriting the heap block that holds the initial pulse; where no such block is found (and on one-cell grids) the initial field and one more step are used instead'
GRID3 = 'three axes with up to 3 cells each (thorough up to 4)'


def C11(T, c):
    return dict(jobs=sum([scheme_jobs(v, T) for v in FLEX], []),
        bounds='one axis with up to 8 cells, two with up to 5 each, %s; any velocity, any positive length, any non-negative time step, any field; one step, and two plus one steps on grids of up to 8 (12) cells' % GRID3,
        assumptions=[A_REAL, A_STL, A_FIELD])


def C12(T, c):
    return dict(jobs=sum([scheme_jobs(v, T) for v in OFFL], []),
        bounds='%s; any velocity, any positive length, any non-negative time step, any field; one step, and two plus one steps on grids of up to 8 (12) cells' % GRID3,
        assumptions=[A_REAL, A_STL, A_FIELD, 'directives are executed sequentially here (the schedules are the subject of C14); data movement to a device is not modelled'])


def C13(T, c):
    j = []
    for v in FLEX + OFFL:
        n, f = v.split('.')[0], v in FLEX
        low = [{'mind': 1, 'maxd': 1, 'maxe': 8}, {'mind': 2, 'maxd': 2, 'maxe': 4}] if f else []
        j.append(upw(n + '-total', v, entry='conservation', params=low + [{'maxe': 3, 'maxtot': 27}], shards=2))
        j.append(upw(n + '-max', v, entry='maximum', params=low + [{'maxe': 3, 'maxtot': 27 if T else 12}], shards=2))
        if f:
            j.append(upw(n + '-maxgen', v, entry='maximum', params=[{'mind': 1, 'maxd': 2 if T else 1, 'maxe': 3, 'general': 1}], shards=2))
    return dict(jobs=j, bounds='total: one axis with up to 8 cells, two with up to 4 each, three with up to 3 each, any velocity, length, time step and field. Extrema: the same one- and two-dimensional grids and up to 12 (thorough 27) cells in three dimensions, with the Courant number of each axis any value (unit cells and unit time step); lengths and time step arbitrary as well on one axis (thorough also two) with up to 3 cells', assumptions=[A_REAL, A_STL, A_FIELD])


def acc_to_omp(text):
    """OpenACC compute directives as the OpenMP work sharing that has the same independent iterations.
    Data directives and data clauses are dropped: they move data and start no concurrent work."""
    out, lines, i = [], text.split('\n'), 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r'^\s*#\s*pragma\s+acc\b(.*)$', l)
        if not m:
            out.append(l)
            i += 1
            continue
        d = m.group(1)
        n = 1
        while d.rstrip().endswith('\\'):
            d = d.rstrip()[:-1] + ' ' + lines[i + n]
            n += 1
        words = re.findall(r'^[\s]*((?:parallel|kernels|serial|loop|data|enter|exit|update|routine|wait|\s)+)', d)
        w = words[0].split() if words else []
        keep = []
        for k, a in re.findall(r'\b(private|firstprivate|reduction|collapse|if)\s*\(((?:[^()]|\([^()]*\))*)\)', d):
            keep.append('%s(%s)' % (k, re.sub(r'\[[^\]]*\]', '', a)))
        seq = bool(re.search(r'\bseq\b', d))
        if 'serial' in w or seq or 'data' in w or not w or w[0] in ('enter', 'exit', 'update', 'routine', 'wait'):
            new = ''
        elif 'loop' in w and ('parallel' in w or 'kernels' in w):
            new = '#pragma omp parallel for ' + ' '.join(keep)
        elif 'loop' in w:
            new = '#pragma omp for ' + ' '.join(keep)
        else:
            new = '#pragma omp parallel ' + ' '.join(keep)
        out.append(new)
        out += [''] * (n - 1)
        i += n
    return '\n'.join(out)


def acc_prep(var):
    def prep(job, c):
        for f in sorted(glob.glob(c.repo + '/upwind/cxx/*.h')) + [c.repo + '/upwind/cxx/' + var]:
            t = open(f).read()
            if 'acc' in t or f.endswith(var):
                open(job.dir + '/' + os.path.basename(f), 'w').write(acc_to_omp(t))
    return prep


def C14(T, c):
    j = []
    for v in FLEX + OFFL:
        n, f = v.split('.')[0], v in FLEX
        par = ([{'mind': 1, 'maxd': 1, 'maxe': 6, 'maxt': 4}, {'mind': 2, 'maxd': 2, 'maxe': 3, 'maxt': 4}] if f else []) + [{'maxe': 3 if T else 2, 'maxtot': 18 if T else 12, 'maxt': 4 if T else 3}]
        fl = ['-DVARIANT="%s"' % v] + ([] if f else ['-DNDMIN=3']) + ['-DHAVE_OPENMP']
        j.append(Job(n, 'upw_par.cpp', repo_src=['cxx/CmdLineArgParser.cpp'], flags=fl, prep=acc_prep(v), params=par, shards=2, omp=True, fp='uf', covers=['done', 'parallel']))
        j.append(Job(n + '-program', 'c23.cpp', prog=['upwind/cxx/' + v], repo_src=['cxx/CmdLineArgParser.cpp'], flags=['-DHAVE_OPENMP'], prep=acc_prep(v), omp=True, params=[{'threads': t, 'maxn': 2, 'maxs': 3, 'std': 0} for t in (2, 3)], covers=['run']))
    return dict(jobs=j, bounds='the regions of a time step on one axis with up to 6 cells, two with up to 3 each (one- and two-dimensional for the programs that have it) and three with up to 2 (thorough 3) cells each, at most 12 (18) cells; 1 to 3 (4) threads and one thread per cell, both orders of execution, two time steps, any field, velocity, length and time step; the whole program with 2 and 3 threads on up to 2 cells per axis and 0 to 3 steps',
        technique='Symbolic execution with happens-before race detection; bit-exact comparison with uninterpreted floating-point operations',
        assumptions=[A_STL, A_FIELD, 'OpenACC compute directives are translated to the OpenMP work sharing with the same independent iterations; target regions run on the host; data movement to a device is not modelled',
                     'with one thread per iteration every pair of iterations is checked, so any other assignment of iterations to threads is covered too'])


def C15(T, c):
    j = []
    for v in FLEX + OFFL:
        n, f = v.split('.')[0], v in FLEX
        low = [{'mind': 1, 'maxd': 1, 'maxe': 6, 'twice': 1}, {'mind': 2, 'maxd': 2, 'maxe': 4}] if f else []
        j.append(upw(n, v, src='upw_out.cpp', params=low + [{'maxe': 3, 'maxtot': 27}, {'maxe': 2, 'twice': 1}], shards=2, covers=['done'] + (['spread'] if v != 'upwindAcc.cxx' else [])))
    return dict(jobs=j, bounds='one axis with up to 6 cells, two with up to 4 each, three with up to 3 each; any field, lengths and time step; saving once, and twice with a time step in between', assumptions=[A_REAL, A_STL, A_FIELD])


def C23(T, c):
    j = []
    for v in FLEX + OFFL:
        n = v.split('.')[0]
        k = dict(src='c23.cpp', repo_src=['cxx/CmdLineArgParser.cpp'], prog=['upwind/cxx/' + v], flags=['-fopenmp', '-DHAVE_OPENMP'] if v in FLEX else [])
        sd = v != 'upwindAcc.cxx'
        j.append(Job(n, entry='harness', params=[{'maxn': 4 if T else 3, 'maxs': 9 if T else 4, 'std': sd}, {'maxn': 2, 'maxs': 14 if T else 12, 'std': 0}, {'minn': 2, 'maxn': 3 if T else 2, 'long': 5 if T else 3, 'orders': 0, 'std': 0}, {'maxn': 1, 'huge': 2 if T else 1, 'orders': 0, 'std': 0}, {'minn': 10, 'maxn': 12 if T else 11, 'maxs': 0, 'orders': 0, 'std': 0}], shards=2, covers=['run', 'file', 'default number of steps'] + (['spread'] if sd else []), **k))
        j.append(Job(n + '-refused', entry='refused', covers=['unknown option', 'help'], **k))
    return dict(jobs=j, bounds='1 to 3 (thorough 4) cells per axis with any number of steps from 0 to 4 (9), 1 to 2 cells with 0 to 12 (14) steps, 2 cells with 16, 31 and 53 steps, one cell with 1234 (thorough 40000 too), 10 and 11 cells with none; four orders of the options, all combinations of the flags, the default number of steps; any unknown option of up to two characters alone and among valid ones, -h alone and among valid ones', assumptions=[A_REAL, A_STL])


def mpiprog(T, path, lap, sets, cov):
    k = dict(src='mpiprog.cpp', repo_src=CXX, prog=[path], mpi=True)
    return [Job('run', params=[dict(p, laplacian=lap) for p in sets], shards=8, covers=cov + ['run', 'file', 'one rank', 'several ranks', 'no decomposition'], **k),
            Job('refused', entry='refused', params=[{'laplacian': lap}], shards=4, covers=['unknown option', 'help'], **k)]


def C25(T, c):
    return dict(jobs=mpiprog(T, 'upwind/cxx/upwindMpi.cxx', 0, [{'maxn': 4 if T else 3, 'maxs': 9 if T else 4, 'maxp': 8, 'invalid': 1}, {'minn': 4, 'maxn': 4, 'maxs': 2, 'maxp': 8, 'orders': 0}, {'maxn': 2, 'maxs': 12, 'maxp': 8, 'big': 1}, {'minn': 2, 'maxn': 2, 'long': 5 if T else 3, 'orders': 0, 'minp': 1, 'maxp': 2}, {'maxn': 1, 'huge': 2 if T else 1, 'orders': 0, 'minp': 1, 'maxp': 1}, {'minn': 10, 'maxn': 10, 'maxs': 0, 'orders': 0, 'minp': 1, 'maxp': 2}], []),
        bounds='1 to 3 (thorough 4) cells per axis with any number of steps from 0 to 4 (9), 4 cells with 0 to 2 steps, 1 to 2 cells with 0 to 12 steps, 2 cells with 16, 31 and 53 steps on one and two processes, one cell with 1234 (40000) steps, 10 cells with none; every process count up to 8; the default number of steps, four orders of the options, with and without -vtk; any unknown option of up to two characters and -h, each alone and among valid ones, on 1 to 3 processes', assumptions=[A_REAL, A_STL, A_MPI])


def C26(T, c):
    return dict(jobs=mpiprog(T, 'laplacian/cxx/laplacian.cxx', 1, [{'maxn': 4, 'maxd': 3, 'maxp': 8 if T else 6, 'invalid': 1, 'maxtot': 64 if T else 27}, {'minn': 4, 'maxn': 8, 'maxd': 2, 'maxp': 8 if T else 4, 'maxtot': 64}, {'minn': 9, 'maxn': 13, 'maxd': 1, 'maxp': 8 if T else 4, 'orders': 0}], []),
        bounds='one to three dimensions with 1 to 4 cells per axis and at most 27 (thorough 64) cells on up to 6 (8) processes, one and two dimensions with up to 8 cells per axis and at most 64 cells on up to 4 (8), one dimension with 9 to 13 cells on up to 4 (8); two dimensions by default, four orders of the options, with and without -vtk; any unknown option of up to two characters and -h, each alone and among valid ones', assumptions=[A_REAL, A_STL, A_MPI])


A_NP = 'numpy arrays of floating-point numbers are arrays of exact reals; integer arrays and index arithmetic are the real numpy'
A_MPY = 'mpi4py is replaced by a model of its collective operations, windows and fences; mpinum is the real library'
T_PY = 'Symbolic execution of the Python code (z3 reals)'


def C19(T, c):
    k = dict(src='pyupwind.py', entry='serial')
    return dict(jobs=[PyJob('line', params=[{'nd': 1, 'top': 12 if T else 8, 'steps': 3}], shards=2, covers=['stepped'], **k),
                      PyJob('plane', params=[{'nd': 2, 'top': 6 if T else 4, 'steps': 2}], shards=4, covers=['stepped', 'mixed directions'], **k),
                      PyJob('space', params=[{'nd': 3, 'top': 4 if T else 3, 'steps': 1}, {'nd': 3, 'top': 2, 'steps': 3 if T else 2}], shards=8, covers=['stepped', 'mixed directions'], **k)],
        technique=T_PY,
        bounds='one axis with up to 8 (thorough 12) cells and three steps, two axes with up to 4 (6) each and two steps, three with up to 3 (4) each and one step and with up to 2 each and two (three) steps; any field, velocity of either sign or zero, lengths and time step', assumptions=[A_REAL, A_NP])


def C20(T, c):
    k = dict(src='pyupwind.py', entry='parallel', ranked=True)
    return dict(jobs=[PyJob('small', params=[{'top': 2, 'maxp': 8, 'steps': 2}], shards=8, covers=['several ranks', 'negative velocity', 'no decomposition'], **k),
                      PyJob('larger', params=[{'top': 4, 'low': 1, 'maxp': 8 if T else 4, 'steps': 1, 'maxtot': 48 if T else 16}], shards=16, covers=['several ranks', 'negative velocity', 'no decomposition'], **k),
                      PyJob('initial', params=[{'top': 4, 'maxp': 8 if T else 4, 'steps': 0, 'initial': 1, 'maxtot': 27}, {'top': 2, 'maxp': 8, 'steps': 2, 'initial': 1}], shards=8, covers=['several ranks', 'no decomposition'], **k)],
        technique=T_PY,
        bounds='three axes (the program has no other) with up to 2 cells each on up to 8 ranks and two steps, up to 4 each and at most 16 (thorough 48) cells on up to 4 (8) ranks and one step; any field and the initial one, velocity of either sign or zero on each axis, lengths and time step', assumptions=[A_REAL, A_NP, A_MPY])


def C21(T, c):
    k = dict(src='pyupwind.py', entry='saved')
    return dict(jobs=[PyJob('line', params=[{'nd': 1, 'top': 24}], covers=['written'], **k),
                      PyJob('plane', params=[{'nd': 2, 'top': 7 if T else 5}], shards=2, covers=['written', 'not cubic'], **k),
                      PyJob('space', params=[{'nd': 3, 'top': 4 if T else 3}], shards=4, covers=['written', 'not cubic'], **k)],
        technique=T_PY,
        bounds='one axis with up to 24 cells, two with up to 5 (thorough 7) each, three with up to 3 (4) each; any field, velocity and lengths', assumptions=[A_REAL, A_NP, 'a printed number is the number it was printed from (its decimal rounding is not modelled)'])


def C27(T, c):
    cov = ['no arguments', 'vtk', 'ran', 'field observed']
    return dict(jobs=[PyJob('serial', 'pyupwind.py', 'program', params=[{'mpi': 0, 'top': 4, 'top1': 2, 'maxsteps': 8 if T else 5}, {'top': 2, 'maxsteps': 14 if T else 12}, {'top': 1, 'minkind': 2, 'huge': 1}, {'low': 10, 'top': 10, 'minkind': 2, 'maxsteps': 0}], shards=8, covers=cov, **{}),
                      PyJob('parallel', 'pyupwind.py', 'program', ranked=True, params=[{'mpi': 1, 'top': 4 if T else 3, 'top1': 2, 'maxp': 8, 'maxsteps': 6 if T else 3}], shards=16, covers=cov + ['no decomposition'])],
        technique=T_PY,
        bounds='1 to 4 cells per axis with any number of steps from 0 to 5 (thorough 8), 1 to 2 cells with 0 to 12 (14), and the default of 100 on 1 to 2 cells, one cell with 1234 steps, 10 cells with none; the parallel program with 1 to 3 (4) cells per axis on up to 8 ranks with 0 to 3 (6) steps, and the default on 1 to 2 cells', assumptions=[A_REAL, A_NP, A_MPY])


FORT = ['upwind', 'upwindF03', 'upwindF08', 'upwindF08Gpu']
F_EXP = ['f_new:v(p,w,p,p,p)', 'f_del:v(p)', 'f_size:w(p)', 'f_set:v(p,w,d)', 'f_get:d(p,w)', 'f_advect:v(p,d)', 'f_save:v(p,w)', 'f_print:v(p)']
A_F90 = 'gfortran -O0 translates the Fortran; its x86-64 assembly is lifted to IR instruction by instruction'
A_GFL = 'the gfortran run-time library (formatted output, list-directed input, command line) is replaced by the model in /verif/stubs/gfortran.inc'


def has_concurrent(c, path):
    return bool(re.search(r'(?im)^\s*(\w+\s*:\s*)?do\s+concurrent\b', open(c.repo + '/' + path).read()))


def upwf(name, v, src='upw_scheme.cpp', defs=None, sub=None, **k):
    return Job(name, src, flags=['-DFORTRAN'], prep=fort.prep('upwind/fortran/%s.F90' % v, ['upwf.F90'], F_EXP, order=True, defs=defs, sub=sub), **k)


def progf(name, v, src='c24.cpp', path='upwind/fortran/%s.F90', glues=(), exports=(), defs=None, sub=None, **k):
    return Job(name, src, prep=fort.prep(path % v if '%' in path else path, list(glues), list(exports), order=True, defs=defs, sub=sub), **k)


def C16(T, c):
    j = []
    for v in FORT:
        it = 1 if has_concurrent(c, 'upwind/fortran/%s.F90' % v) else 0
        j.append(upwf(v, v, params=[{'mind': 1, 'maxd': 1, 'maxe': 12 if T else 8, 'steps': 2, 'iter': 2 * it}, {'mind': 2, 'maxd': 2, 'maxe': 6 if T else 4, 'iter': it}, {'maxe': 4 if T else 3, 'maxtot': 64 if T else 27, 'iter': it * T}, {'maxe': 2, 'steps': 3 if T else 2, 'again': 1}], shards=2, covers=['done', 'arbitrary field']))
    return dict(jobs=j, bounds='one axis with up to 8 (thorough 12) cells and two steps, two axes with up to 4 (6) each and one step, three with up to 3 (4) each and one step and with up to 2 each and three (four) steps; any field, velocity of either sign or zero, lengths and time step', assumptions=[A_REAL, A_F90, A_GFL])


def C17(T, c):
    j = []
    conf = [(v, v, None, None) for v in FORT] + [('upwind-acc', 'upwind', ['-DHAVE_OPENACC'], fort.acc_only), ('upwindF08Gpu-acc', 'upwindF08Gpu', ['-DHAVE_OPENACC'], fort.acc_only), ('upwindF08Gpu-kernels', 'upwindF08Gpu', ['-DHAVE_OPENACC', '-DHAVE_OPENACC_KERNELS'], fort.acc_only), ('upwindF08Gpu-offload', 'upwindF08Gpu', ['-DHAVE_OPENMP', '-DHAVE_OPENMP_OFFLOAD'], fort.accel)]
    for n, v, d, sub in conf:
        it = 1 if has_concurrent(c, 'upwind/fortran/%s.F90' % v) else 0
        par = [{'mind': 1, 'maxd': 1, 'maxe': 6, 'maxt': 4, 'iter': 2 * it}, {'mind': 2, 'maxd': 2, 'maxe': 3, 'maxt': 4, 'iter': it}, {'maxe': 3 if T else 2, 'maxtot': 18 if T else 12, 'maxt': 4 if T else 3, 'iter': 2 * it}]
        if it:
            par.append({'mind': 1, 'maxd': 1, 'maxe': 4, 'maxt': 1, 'iter': 26})
        j.append(upwf(n, v, 'upw_par.cpp', defs=d, sub=sub, params=par, shards=2, fp='uf', covers=['done', 'parallel']))
        if not sub or T:
            j.append(progf(n + '-program', v, defs=d, sub=sub, params=[{'threads': t, 'maxn': 2, 'maxs': 3, 'thirds': 1} for t in (2, 3)], covers=['run']))
    return dict(jobs=j, bounds='the regions of a time step on one axis with up to 6 cells, two with up to 3 each and three with up to 2 (thorough 3) cells each, at most 12 (18) cells; 1 to 3 (4) threads and one thread per cell, both orders of execution, two time steps, any field, velocity, length and time step; concurrent loops forwards, backwards, even iterations first and in every order of up to 4 iterations; the whole program with 2 and 3 threads on up to 2 cells per axis and 0 to 3 steps',
        technique='Symbolic execution of lifted machine code with happens-before race detection; bit-exact comparison with uninterpreted floating-point operations',
        assumptions=[A_F90, A_GFL, 'OpenACC and offload directives are translated to the OpenMP work sharing with the same independent iterations; data movement to a device is not modelled; kernels regions without a loop directive are parallelised by the compiler, which is trusted', 'with one thread per iteration every pair of iterations is checked, so any other assignment of iterations to threads is covered too'])


def C18(T, c):
    j = []
    for v in FORT:
        j.append(upwf(v, v, 'upw_out.cpp', params=[{'mind': 1, 'maxd': 1, 'maxe': 6, 'twice': 1}, {'mind': 2, 'maxd': 2, 'maxe': 5 if T else 4}, {'maxe': 4 if T else 3, 'maxtot': 48 if T else 27}, {'maxe': 2, 'twice': 1}], shards=2, covers=['done', 'arbitrary field']))
    return dict(jobs=j, bounds='one axis with up to 6 cells, two with up to 4 (thorough 5) each, three with up to 3 (4) each; any field, lengths and time step; saving once, and several times with a time step in between', assumptions=[A_REAL, A_F90, A_GFL, 'a printed number is the number it was printed from (its decimal rounding is not modelled)'])


def C22(T, c):
    k = dict(src='c22.cpp', glues=['matmult.F90'], path='matmult/fortran/matmult.F90', exports=['m_init:v(w,w,w,p,p)', 'm_mult:v(w,w,w,w,p,p,p)', 'm_mult_sect:v(w,w,w,w,p,p,p)'])
    return dict(jobs=[progf('product', '', entry='product', params=[{'top': 4 if T else 3}, {'low': 1, 'top': 2, 'sections': 1}], shards=4, covers=['concurrent columns', 'naive'], **k),
                      progf('initial', '', entry='initial', params=[{'top': 6 if T else 4}], shards=2, covers=['filled'], **k),
                      progf('program', '', entry='program', params=[{'low': 1, 'top': 3 if T else 2}, {'low': 0, 'top': 12, 'junk': 0}][:1], shards=4, covers=['not a number', 'three sizes', 'default sizes'], **k)],
        bounds='products of matrices with 0 to 3 (thorough 4) rows and columns and any entries, whole arrays and sections with strides; concurrent columns in every order; initial values for sizes 0 to 4 (6); the program with 0 to 3 arguments, each a size from 1 to 2 (3) or a word', assumptions=[A_REAL, A_F90, A_GFL])


def C24(T, c):
    j = []
    for v in FORT:
        it = 1 if has_concurrent(c, 'upwind/fortran/%s.F90' % v) else 0
        j.append(progf(v, v, params=[{'maxn': 4 if T else 3, 'maxs': 9 if T else 4, 'iter': it}, {'maxn': 2, 'maxs': 14 if T else 12, 'thirds': 1}, {'minn': 2, 'maxn': 3 if T else 2, 'long': 5 if T else 3, 'thirds': 1}, {'maxn': 2 if T else 2, 'default': 1}, {'maxn': 1, 'huge': 2 if T else 1, 'thirds': 0}, {'minn': 10, 'maxn': 12 if T else 11, 'maxs': 0, 'thirds': 1}], shards=2, covers=['run', 'file', 'default number of steps', 'another third argument']))
        j.append(progf(v + '-refused', v, entry='refused', covers=['message']))
    return dict(jobs=j, bounds='1 to 3 (thorough 4) cells per axis with any number of steps from 0 to 4 (9), 1 to 2 cells with 0 to 12 (14) steps, 2 (3) cells with 16, 31 and 53 (also 99 and 128) steps, 1 to 2 cells with the default of 100, one cell with 1234 (40000) steps, 10 and 11 cells with none; a third argument that is absent, vtk or any other word of up to three characters; no arguments', assumptions=[A_REAL, A_F90, A_GFL])


NA = {
    'C28': 'no Julia toolchain is installed, so the code can be neither run, lowered to an intermediate representation nor replayed',
    'C29': 'the class is compiled only through Cython, which is not installed; without the generated C there is no code to encode or replay',
}
