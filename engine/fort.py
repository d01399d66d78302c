"""Turns a Fortran program into C for the executor: gfortran writes assembly, asmlift.py lifts it.
Concurrent loops (do concurrent) are first rewritten to ask the harness for the next iteration, so that
any order of the iterations can be explored. The native build compiles the source as it is."""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FF0 = ['-fopenmp', '-ffp-contract=off']
SF = ['-S', '-O0', '-fpie', '-mno-red-zone', '-fno-omit-frame-pointer', '-fno-stack-protector', '-fcf-protection=none', '-fno-stack-clash-protection', '-fno-asynchronous-unwind-tables', '-fno-jump-tables', '-fmax-stack-var-size=65536', '-g1']
ORDER = '''module vp_order_mod
interface
integer(c_int) function vp_dc_next(i, a, b, st) bind(C, name="vp_dc_next_")
use iso_c_binding
integer(c_int) :: i
integer(c_int), intent(in) :: a, b, st
end function
end interface
end module
'''


def code(l):
    """the line without its comment, strings blanked"""
    o, q = '', None
    for ch in l:
        if q:
            o += ' '
            if ch == q:
                q = None
        elif ch in '\'"':
            q = ch
            o += ' '
        elif ch == '!':
            break
        else:
            o += ch
    return o


def split(t, sep):
    r, d, cur = [], 0, ''
    for ch in t:
        d += ch in '(['
        d -= ch in ')]'
        if ch == sep and d == 0:
            r.append(cur)
            cur = ''
        else:
            cur += ch
    return r + [cur]


def concurrent(text):
    """do concurrent (i = a:b[:s], ...) as loops over whatever the harness says comes next"""
    lines, found, i = text.split('\n'), False, 0
    used = []
    while i < len(lines):
        c = code(lines[i])
        m = re.match(r'^(\s*)(\w+\s*:\s*)?do\s+concurrent\b(.*)$', c, re.I)
        if not m:
            i += 1
            continue
        t, n, rest = lines[i], 1, m.group(3)
        while rest.rstrip().endswith('&') and i + n < len(lines):
            rest = rest.rstrip()[:-1] + ' ' + re.sub(r'^\s*&', ' ', code(lines[i + n]))
            n += 1
        d = 0
        for k, ch in enumerate(rest):
            d += ch == '('
            d -= ch == ')'
            if ch == ')' and d == 0:
                break
        head, tail = rest[rest.index('(') + 1:k], rest[k + 1:].strip()
        decl = ''
        q = re.match(r'^\s*(integer[^:]*)::(.*)$', head, re.I | re.S)
        if q:
            decl, head = q.group(1), q.group(2)
        ind = []
        for h in split(head, ','):
            q = re.match(r'^\s*(\w+)\s*=(.*)$', h)
            if not q:
                return None
            b = split(q.group(2), ':')
            if len(b) not in (2, 3):
                return None
            ind.append((q.group(1), b[0].strip(), b[1].strip(), b[2].strip() if len(b) == 3 else '1'))
        if tail and not re.match(r'^(default\s*\(\s*none\s*\)|shared\s*\([^)]*\)|\s)*$', tail, re.I):
            return None
        # the end of this loop
        depth, e = 1, i + n
        while e < len(lines):
            s = code(lines[e]).strip()
            if re.match(r'^(\w+\s*:\s*)?do\b(?!\s*=)', s, re.I) and not re.match(r'^do\w*\s*=', s, re.I):
                depth += 1
            if re.match(r'^end\s*do\b', s, re.I):
                depth -= 1
                if depth == 0:
                    break
            e += 1
        if e == len(lines) or m.group(2):
            return None
        o = ''
        if decl:
            o += 'block; %s :: %s; ' % (decl, ', '.join(x[0] for x in ind))
        o += '; '.join('do while (vp_dc_next(%s, %s, %s, %s) /= 0)' % x for x in ind)
        lines[i] = o
        for k in range(1, n):
            lines[i + k] = ''
        lines[e] = '; '.join(['enddo'] * len(ind)) + ('; end block' if decl else '')
        found = True
        i += 1
    if not found:
        return text
    # every module and the main program see the interface
    out = []
    for l in lines:
        out.append(l)
        m = re.match(r'^\s*(module|program)\s+(\w+)\s*$', code(l), re.I)
        if m and m.group(2).lower() != 'procedure':
            out[-1] = l.rstrip() + '; use vp_order_mod'
    return ORDER + '# 1 "@SRC@"\n' + '\n'.join(out)


def accel(text):
    """OpenACC and offload directives as the OpenMP work sharing with the same independent iterations. Data
    movement is dropped; kernels regions without a loop directive are left to the compiler and dropped too."""
    out, lines, i = [], text.split('\n'), 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r'^\s*!\$(acc|omp)\b(.*)$', l, re.I)
        if not m:
            # the preprocessors of the compilers meant here accept indented directives
            out.append(re.sub(r'^\s+#\s*(?=(if|ifdef|ifndef|else|elif|endif|warning|define)\b)', '#', l))
            i += 1
            continue
        k, d, n = m.group(1).lower(), m.group(2), 1
        while d.split('!')[0].rstrip().endswith('&') and i + n < len(lines):
            d = d.split('!')[0].rstrip()[:-1] + ' ' + re.sub(r'^\s*!\$%s\s*&?' % k, ' ', lines[i + n], flags=re.I)
            n += 1
        d = re.sub(r'\s+', ' ', d.strip())
        w = d.lower()
        keep = ' '.join('%s(%s)' % q for q in re.findall(r'\b(private|firstprivate|reduction|collapse|if|shared|default)\s*\(((?:[^()]|\([^()]*\))*)\)', d, re.I))
        if k == 'acc':
            new = ''
            if re.match(r'end (parallel|kernels) loop\b', w):
                new = '!$omp end parallel do'
            elif re.match(r'(parallel|kernels) loop\b|loop\b', w) and not re.search(r'\bseq\b', w):
                new = '!$omp parallel do ' + re.sub(r'(?i)\bdefault\s*\([^)]*\)', '', keep)
        else:
            new = '!$omp ' + d
            t = re.match(r'(end )?(target )?((?:teams )?(?:distribute )?(?:parallel )?(?:do )?(?:simd ?)?)', w + ' ')
            if t.group(2) or 'teams' in t.group(3) or 'distribute' in t.group(3):
                c = t.group(3)
                new = '' if 'do' not in c.split() and 'distribute' not in c.split() else '!$omp %sparallel do %s' % (t.group(1) or '', keep if not t.group(1) else '')
            elif re.match(r'(end )?(declare )?target', w):
                new = ''
        out.append(new)
        out += [''] * (n - 1)
        i += n
    return '\n'.join(out)


def acc_only(text):
    """OpenACC in force, OpenMP not: its directives are comments then"""
    return accel(re.sub(r'(?im)^\s*!\$omp\b.*$', '', text))


def glue(files):
    return ''.join('\n# 1 "%s"\n' % f + open(f).read() for f in files)


def prep(path, glues, exports, order=False, defs=None, sub=None):
    """path: source in the repository; glues: Fortran text appended to it"""
    def p(job, c):
        from run import Fail
        src = c.repo + '/' + path
        if not os.path.exists(src):
            raise Fail('no source ' + path)
        raw = open(src).read()
        FF = FF0 + (['-DHAVE_OPENMP'] if defs is None else list(defs))
        if sub:
            raw = sub(raw)
        text = '# 1 "%s"\n' % src + raw
        gl = glue([V + '/harness/' + g for g in glues])
        inc = ['-I', os.path.dirname(src)]
        tries = []
        if order:
            t = concurrent(raw)
            if t is None:
                raise Fail('a concurrent loop in %s has a form that is not handled' % path)
            if t is not raw:
                tries.append(t.replace('@SRC@', src))
        tries.append(text)
        for k, t in enumerate(tries):
            f = job.dir + '/f%d.F90' % k
            open(f, 'w').write(t + gl)
            r = c.sh(['gfortran'] + SF + FF + inc + ['-J', job.dir, f, '-o', job.dir + '/f.s'], cwd=job.dir, timeout=120, ok=None)
            if r.returncode == 0:
                break
        if r.returncode:
            raise Fail('gfortran: ' + r.stderr[-1500:])
        ex = []
        for e in ['main:w(w,p)'] + list(exports):
            ex += ['--export', e]
        c.sh([sys.executable, V + '/engine/asmlift.py'] + ex + [job.dir + '/f.s', '-o', job.dir + '/lifted.c'], timeout=120)

        def native(job, c):
            o = job.dir + '/fnative.o'
            f = job.dir + '/native.F90'
            open(f, 'w').write(text + gl)
            c.sh(['gfortran', '-O1', '-g'] + FF + inc + ['-J', job.dir, '-c', f, '-o', o], cwd=job.dir, timeout=200)
            c.sh(['objcopy', '--redefine-sym', 'main=vp_prog_main', o])
            return job.sources(c) + [o, '-lgfortran', '-lgomp']
        return dict(src=[job.dir + '/lifted.c'], native_src=native)
    return p
