#!/usr/bin/env python3
"""Lifts x86-64 assembly written by gfortran to C, which clang turns into LLVM IR for the symbolic executor.

  asmlift.py [--export NAME:RET(ARG,...)]... IN.s... -o OUT.c
Every function becomes a C function over 64-bit register values. Memory is accessed with the width of
each instruction, floating-point instructions become operations on doubles. An instruction that is not
known ends with status 3 and its text.
"""
import re, sys

R64 = 'rax rbx rcx rdx rsi rdi rbp rsp r8 r9 r10 r11 r12 r13 r14 r15'.split()
REG = {}
for r in R64:
    REG[r] = (r, 64, 0)
for a in 'abcd':
    REG['e%sx' % a] = ('r%sx' % a, 32, 0)
    REG['%sx' % a] = ('r%sx' % a, 16, 0)
    REG['%sl' % a] = ('r%sx' % a, 8, 0)
    REG['%sh' % a] = ('r%sx' % a, 8, 8)
for a in 'si di bp sp'.split():
    REG['e' + a] = ('r' + a, 32, 0)
    REG[a] = ('r' + a, 16, 0)
    REG[a + 'l'] = ('r' + a, 8, 0)
for n in range(8, 16):
    REG['r%dd' % n] = ('r%d' % n, 32, 0)
    REG['r%dw' % n] = ('r%d' % n, 16, 0)
    REG['r%db' % n] = ('r%d' % n, 8, 0)
SUF = {'b': 8, 'w': 16, 'l': 32, 'q': 64}
# functions of the run-time library: 'p' pointer or 64-bit integer, 'w' 32-bit integer, 'd' double, 'v' nothing, '.' ignored further arguments
LIB = {}
for s in '''malloc:p(p) free:v(p) realloc:p(p,p) calloc:p(p,p) memcpy:p(p,p,p) memmove:p(p,p,p) memset:p(p,w,p) abort:v() exit:v(w) memcmp:w(p,p,p)
_gfortran_st_write:v(p) _gfortran_st_write_done:v(p) _gfortran_st_read:v(p) _gfortran_st_read_done:v(p) _gfortran_st_open:v(p) _gfortran_st_close:v(p) _gfortran_st_flush:v(p)
_gfortran_transfer_character_write:v(p,p,p) _gfortran_transfer_integer_write:v(p,p,w) _gfortran_transfer_real_write:v(p,p,w) _gfortran_transfer_logical_write:v(p,p,w) _gfortran_transfer_array_write:v(p,p,w,p)
_gfortran_transfer_character:v(p,p,p) _gfortran_transfer_integer:v(p,p,w) _gfortran_transfer_real:v(p,p,w)
_gfortran_runtime_error:v(p) _gfortran_runtime_error_at:v(p,p) _gfortran_os_error_at:v(p,p) _gfortran_os_error:v(p) _gfortran_stop_string:v(p,p,w) _gfortran_stop_numeric:v(w,w) _gfortran_error_stop_string:v(p,p,w) _gfortran_error_stop_numeric:v(w,w) _gfortran_exit_i4:v(p)
_gfortran_set_args:v(w,p) _gfortran_set_options:v(w,p) _gfortran_get_command_argument_i4:v(p,p,p,p,p) _gfortran_iargc:w() _gfortran_getarg_i4:v(p,p,p) _gfortran_get_environment_variable_i4:v(p,p,p,p,p,p)
_gfortran_string_len_trim:p(p,p) _gfortran_compare_string:w(p,p,p,p) _gfortran_string_trim:v(p,p,p,p) _gfortran_concat_string:v(p,p,p,p,p,p) _gfortran_adjustl:v(p,p,p) _gfortran_string_index:p(p,p,p,p,w)
_gfortran_internal_pack:p(p) _gfortran_internal_unpack:v(p,p) _gfortran_cpu_time_8:v(p) _gfortran_system_clock_4:v(p,p,p) _gfortran_system_clock_8:v(p,p,p)
_gfortran_matmul_r8:v(p,p,p,w,w,p)
omp_get_num_threads:w() omp_get_thread_num:w() omp_get_max_threads:w() omp_get_num_threads_:w() omp_get_thread_num_:w() omp_get_max_threads_:w() omp_set_num_threads_:v(p) omp_set_num_threads:v(w) omp_in_parallel_:w() omp_get_num_procs_:w() omp_get_wtime_:d() omp_get_num_teams:w() omp_get_team_num:w()
GOMP_parallel:v(f,p,w,w) GOMP_barrier:v() GOMP_critical_start:v() GOMP_critical_end:v() GOMP_atomic_start:v() GOMP_atomic_end:v() GOMP_single_start:w()
GOMP_loop_dynamic_start:w(p,p,p,p,p,p) GOMP_loop_dynamic_next:w(p,p) GOMP_loop_nonmonotonic_dynamic_start:w(p,p,p,p,p,p) GOMP_loop_nonmonotonic_dynamic_next:w(p,p) GOMP_loop_guided_start:w(p,p,p,p,p,p) GOMP_loop_guided_next:w(p,p) GOMP_loop_nonmonotonic_guided_start:w(p,p,p,p,p,p) GOMP_loop_nonmonotonic_guided_next:w(p,p) GOMP_loop_end:v() GOMP_loop_end_nowait:v()
sqrt:d(d) sin:d(d) cos:d(d) exp:d(d) log:d(d) pow:d(d,d) fabs:d(d) floor:d(d) ceil:d(d) round:d(d) fmin:d(d,d) fmax:d(d,d)
vp_dc_next_:w(p,p,p,p)'''.split():
    n, q = s.split(':')
    LIB[n] = (q[0], [a for a in q[2:-1].split(',') if a])
ARGR = ['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9']


class Unknown(Exception):
    pass


def cname(s):
    s = re.sub(r'@(PLT|GOTPCREL|GOTOFF)$', '', s)
    return 'm_main' if s == 'main' else 'm_' + re.sub(r'\W', '_', s)


def split_ops(t):
    r, d, cur = [], 0, ''
    for ch in t:
        if ch == '(':
            d += 1
        if ch == ')':
            d -= 1
        if ch == ',' and d == 0:
            r.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        r.append(cur.strip())
    return r


class Lifter:
    def __init__(self):
        self.funcs, self.data, self.fn_names, self.data_names, self.ext = [], {}, set(), set(), set()
        self.weak = set()

    # ---- parsing
    def parse(self, text, tag):
        sec, fn, cur = '.text', None, None
        files = {}
        types = set(re.findall(r'^\s*\.type\s+([^\s,]+),\s*@function', text, re.M))
        glob = set(re.findall(r'^\s*\.(?:globl|weak)\s+(\S+)', text, re.M))
        loc = lambda s: s if s in glob or s in types or not s.startswith('.L') else s + '_' + tag
        self.loc_tag = tag
        for ln in text.split('\n'):
            l = re.sub(r'(?<!")#.*$', '', ln).strip() if '"' not in ln else ln.strip()
            if not l:
                continue
            m = re.match(r'^([.\w$]+):\s*(.*)$', l)
            if m:
                n = m.group(1)
                if sec.startswith('.debug'):
                    continue
                if n in types:
                    fn = (n, [], tag, files)
                    if n not in self.fn_names:
                        self.funcs.append(fn)
                        self.fn_names.add(n)
                elif sec.startswith('.text'):
                    if fn:
                        fn[1].append(('label', n))
                else:
                    cur = []
                    n = loc(n)
                    if n not in self.data:
                        self.data[n] = cur
                        self.data_names.add(n)
                continue
            op, _, rest = l.partition('\t') if '\t' in l else l.partition(' ')
            rest = rest.strip()
            if op.startswith('.'):
                if op in ('.text', '.data', '.bss'):
                    sec = op
                elif op == '.section':
                    sec = rest.split(',')[0]
                elif op == '.file':
                    m = re.match(r'(\d+)\s+"([^"]*)"(?:\s+"([^"]*)")?', rest)
                    if m:
                        files[m.group(1)] = (m.group(2) + '/' + m.group(3)) if m.group(3) and not m.group(3).startswith('/') else m.group(3) or m.group(2)
                elif op == '.loc':
                    if fn and sec.startswith('.text'):
                        q = rest.split()
                        fn[1].append(('loc', q[0], q[1]))
                elif op in ('.comm', '.lcomm'):
                    q = rest.split(',')
                    n = loc(q[0].strip())
                    self.data[n] = [('zero', int(q[1]))]
                    self.data_names.add(n)
                elif sec.startswith('.debug') or sec.startswith('.note') or cur is None:
                    pass
                elif op in ('.long', '.quad', '.byte', '.value', '.short'):
                    w = {'.long': 4, '.quad': 8, '.byte': 1, '.value': 2, '.short': 2}[op]
                    for v in rest.split(','):
                        cur.append(('int', w, v.strip()))
                elif op in ('.string', '.ascii', '.asciz'):
                    s = eval('b' + rest) if not re.search(r'\\[0-7]{3}', rest) else eval('b' + rest)
                    if op != '.ascii':
                        s += b'\0'
                    cur.append(('bytes', s))
                elif op in ('.zero', '.skip', '.space'):
                    cur.append(('zero', int(rest.split(',')[0], 0)))
                continue
            if sec.startswith('.text') and fn:
                fn[1].append(('insn', l))

    def tag(self, sym):
        return sym + '_' + self.cur_tag if sym.startswith('.L') else sym

    def sym(self, s):
        """address of a symbol as a C expression"""
        s = re.sub(r'@(PLT|GOTPCREL|GOTOFF)$', '', s)
        m = re.match(r'^(-?\d+)\+(.+)$', s)
        if m:
            s = m.group(2) + '+' + m.group(1) if m.group(1)[0] != '-' else m.group(2) + m.group(1)
        m = re.match(r'^(.+?)([+-]\d+)$', s)
        off = 0
        if m and s not in self.data_names and s not in self.fn_names:
            s, off = m.group(1), int(m.group(2))
        t = self.tag(s)
        if s in self.fn_names:
            return '(u64)&%s' % cname(s)
        if t not in self.data_names:
            raise Unknown('symbol ' + s)
        self.used.add(t)
        return '((u64)&%s%s)' % (cname(t), '+%d' % off if off else '')

    # ---- operands
    def addr(self, o):
        m = re.match(r'^(%fs:)?([^()]*)\((%\w+)?(?:,(%\w+)(?:,(\d))?)?\)$', o)
        if not m:
            if re.match(r'^[.\w$@+-]+$', o):
                return self.sym(o)
            raise Unknown('operand ' + o)
        if m.group(1):
            raise Unknown('operand ' + o)
        disp, b, i, sc = m.group(2), m.group(3), m.group(4), m.group(5) or '1'
        if b == '%rip':
            return self.sym(disp)
        if b == '%rbp' and not i and self.std and disp and re.match(r'^-?\d+$', disp) and int(disp) >= 16:
            return '(insp+%d)' % (int(disp) - 16)
        t = []
        if b:
            t.append(REG[b[1:]][0])
        if i:
            t.append('%s*%s' % (REG[i[1:]][0], sc))
        if disp:
            t.append('(u64)(%sll)' % disp if re.match(r'^-?\d+$', disp) else self.sym(disp))
        return '(' + '+'.join(t) + ')'

    def rd(self, o, w):
        if o.startswith('$'):
            v = o[1:]
            if re.match(r'^-?(0x[0-9a-f]+|\d+)$', v):
                n = int(v, 0) & ((1 << w) - 1)
                return '((u%d)0x%xull)' % (w, n)
            return self.sym(v)
        if o.startswith('%') and '(' not in o:
            r, rw, sh = REG[o[1:]]
            return '((u%d)%s)' % (w, r if not sh else '(%s>>%d)' % (r, sh))
        if '@GOTPCREL' in o:
            return self.sym(o.split('(')[0])
        return 'LD%d(%s)' % (w, self.addr(o))

    def wr(self, o, w, e):
        if o.startswith('%') and '(' not in o:
            r, rw, sh = REG[o[1:]]
            if rw == 64:
                return '%s=(u64)(%s);' % (r, e)
            if rw == 32:
                return '%s=(u64)(u32)(%s);' % (r, e)
            mask = ((1 << rw) - 1) << sh
            return '%s=(%s&~0x%xull)|((u64)(u%d)(%s)<<%d);' % (r, r, mask, rw, e, sh)
        return 'ST%d(%s,%s);' % (w, self.addr(o), e)

    def isx(self, o):
        return o.startswith('%xmm')

    def x(self, o):
        return 'x' + o[4:]

    def rdx(self, o, w=64):
        """bits of a scalar floating-point operand"""
        if self.isx(o):
            return self.x(o) if w == 64 else '(u32)' + self.x(o)
        return 'LD%d(%s)' % (w, self.addr(o))

    def dbl(self, o, s):
        return 'D(%s)' % self.rdx(o) if s == 'd' else 'F(%s)' % self.rdx(o, 32)

    def const128(self, o):
        m = re.match(r'^(\.\w+)\(%rip\)$', o)
        if not m:
            return None
        d = self.data.get(self.tag(m.group(1)))
        if not d:
            return None
        b = b''
        for it in d:
            if it[0] == 'int':
                b += (int(it[2], 0) & ((1 << (8 * it[1])) - 1)).to_bytes(it[1], 'little')
            elif it[0] == 'zero':
                b += bytes(it[1])
            else:
                b += it[1]
        return b

    # ---- conditions from the last instruction that set the flags
    def cond(self, c):
        if not self.flags:
            raise Unknown('condition %s without a known source' % c)
        k = self.flags[0]
        neg = {'ne': 'e', 'ge': 'l', 'g': 'le', 'ae': 'b', 'a': 'be', 'ns': 's', 'np': 'p', 'nb': 'b', 'nbe': 'be', 'nl': 'l', 'nle': 'le', 'nz': 'e', 'nc': 'b', 'no': 'o'}
        al = {'z': 'e', 'c': 'b', 'nae': 'b', 'na': 'be', 'nge': 'l', 'ng': 'le'}
        c = al.get(c, c)
        if c in neg:
            return '!(%s)' % self.cond(neg[c])
        if k == 'cmp':
            w = self.flags[1]
            return {'e': 'fa==fb', 'l': '(i%d)fa<(i%d)fb' % (w, w), 'le': '(i%d)fa<=(i%d)fb' % (w, w), 'b': '(u%d)fa<(u%d)fb' % (w, w), 'be': '(u%d)fa<=(u%d)fb' % (w, w), 's': '(i%d)(fa-fb)<0' % w, 'o': '__builtin_sub_overflow_p((i%d)fa,(i%d)fb,(i%d)0)' % (w, w, w)}.get(c) or self.bad(c)
        if k == 'res':   # logical result: carry and overflow clear
            w = self.flags[1]
            return {'e': '(u%d)fa==0' % w, 'l': '(i%d)fa<0' % w, 'le': '(i%d)fa<=0' % w, 's': '(i%d)fa<0' % w, 'b': '0', 'be': '(u%d)fa==0' % w, 'o': '0'}.get(c) or self.bad(c)
        if k == 'add':   # fa = result, fb = one summand
            w = self.flags[1]
            return {'e': '(u%d)fa==0' % w, 's': '(i%d)fa<0' % w, 'b': '(u%d)fa<(u%d)fb' % (w, w)}.get(c) or self.bad(c)
        if k == 'mul':
            return {'o': 'fo'}.get(c) or self.bad(c)
        if k == 'val':   # only the result is known
            w = self.flags[1]
            return {'e': '(u%d)fa==0' % w, 's': '(i%d)fa<0' % w}.get(c) or self.bad(c)
        if k == 'fp':    # fda: destination, fdb: source
            return {'e': '!(fda<fdb)&&!(fda>fdb)', 'b': '!(fda>=fdb)', 'be': '!(fda>fdb)', 'p': '(fda!=fda||fdb!=fdb)'}.get(c) or self.bad(c)
        self.bad(c)

    def bad(self, c):
        raise Unknown('condition %s after %s' % (c, self.flags))

    # ---- one instruction
    def insn(self, l):
        m = re.match(r'^(lock\s+|rep\s+|repz\s+|notrack\s+)?(\w+)\s*(.*)$', l)
        pre, op, rest = (m.group(1) or '').strip(), m.group(2), m.group(3)
        o = split_ops(rest)
        if op in ('rep', 'lock', 'repz'):
            return self.insn(l)
        if pre == 'lock':
            return self.locked(op, o)
        if op in ('nop', 'endbr64', 'pause', 'nopw', 'nopl', 'mfence', 'hint'):
            return '' if op != 'mfence' else ''
        if op in ('movq', 'movd') and any(self.isx(a) for a in o):
            w = 64 if op == 'movq' else 32
            s = self.rdx(o[0], w) if self.isx(o[0]) else self.rd(o[0], w)
            if self.isx(o[1]):
                return '%s=(u64)(%s);%sh=0;' % (self.x(o[1]), s, self.x(o[1]))
            return self.wr(o[1], w, s)
        if op in ('movabsq',):
            return self.wr(o[1], 64, self.rd(o[0], 64))
        m = re.match(r'^mov([bwlq])$', op)
        if m:
            w = SUF[m.group(1)]
            if o[0].startswith('$') and not re.match(r'^\$-?(0x)?[0-9a-f]+$', o[0]):
                return self.wr(o[1], 64, self.rd(o[0], 64))
            return self.wr(o[1], w, self.rd(o[0], w))
        m = re.match(r'^mov([sz])([bwl])([wlq])$', op)
        if m:
            a, b = SUF[m.group(2)], SUF[m.group(3)]
            k = 'i' if m.group(1) == 's' else 'u'
            return self.wr(o[1], b, '(u%d)(%s%d)(%s%d)%s' % (b, k, b, k, a, self.rd(o[0], a)))
        if op == 'cltq':
            return 'rax=(u64)(i64)(i32)rax;'
        if op == 'cwtl':
            return 'rax=(u64)(u32)(i32)(i16)rax;'
        if op == 'cltd':
            return 'rdx=(u64)(u32)((i32)rax>>31);'
        if op == 'cqto':
            return 'rdx=(u64)((i64)rax>>63);'
        m = re.match(r'^lea([lq])$', op)
        if m:
            return self.wr(o[1], SUF[m.group(1)], self.addr(o[0]))
        m = re.match(r'^(add|sub|and|or|xor|cmp|test)([bwlq])$', op)
        if m:
            w, k = SUF[m.group(2)], m.group(1)
            if k == 'xor' and o[0] == o[1]:
                self.flags = ('res', w)
                return self.wr(o[1], w, '0') + 'fa=0;'
            a, b = self.rd(o[1], w), self.rd(o[0], w)
            if o[1] == '%rsp' and not o[0].startswith('$'):
                self.dyn = True
            if k == 'cmp':
                self.flags = ('cmp', w)
                return 'fa=%s;fb=%s;' % (a, b)
            if k == 'test':
                self.flags = ('res', w)
                return 'fa=%s;' % (a if o[0] == o[1] else '%s&%s' % (a, b))
            if k == 'sub':
                self.flags = ('cmp', w)
                return 'fa=%s;fb=%s;' % (a, b) + self.wr(o[1], w, '(u%d)(fa-fb)' % w)
            if k == 'add':
                self.flags = ('add', w)
                return 'fb=%s;fa=(u%d)(fb+%s);' % (a, w, b) + self.wr(o[1], w, 'fa')
            self.flags = ('res', w)
            return 'fa=(u%d)(%s%s%s);' % (w, a, {'and': '&', 'or': '|', 'xor': '^'}[k], b) + self.wr(o[1], w, 'fa')
        m = re.match(r'^(inc|dec)([bwlq])$', op)
        if m:
            w = SUF[m.group(2)]
            self.flags = ('val', w)
            return 'fa=(u%d)(%s%s1);' % (w, self.rd(o[0], w), '+' if m.group(1) == 'inc' else '-') + self.wr(o[0], w, 'fa')
        m = re.match(r'^(neg|not)([bwlq])$', op)
        if m:
            w = SUF[m.group(2)]
            if m.group(1) == 'not':
                return self.wr(o[0], w, '(u%d)~%s' % (w, self.rd(o[0], w)))
            self.flags = ('cmp', w)
            return 'fa=0;fb=%s;' % self.rd(o[0], w) + self.wr(o[0], w, '(u%d)(0-fb)' % w)
        m = re.match(r'^(sal|shl|shr|sar)([bwlq])$', op)
        if m:
            w = SUF[m.group(2)]
            if len(o) == 1:
                o = ['$1'] + o
            n = '(%s&%d)' % (self.rd(o[0], 8), 63 if w == 64 else 31)
            a = self.rd(o[1], w)
            e = '(u%d)(%s<<%s)' % (w, a, n) if m.group(1) in ('sal', 'shl') else '(u%d)(%s>>%s)' % (w, a, n) if m.group(1) == 'shr' else '(u%d)((i%d)%s>>%s)' % (w, w, a, n)
            self.flags = ('val', w) if o[0].startswith('$') else None
            return 'fa=%s;' % e + self.wr(o[1], w, 'fa')
        m = re.match(r'^imul([wlq])$', op)
        if m:
            w = SUF[m.group(1)]
            if len(o) == 1:
                raise Unknown(l)
            a, b, d = (o[0], o[1], o[1]) if len(o) == 2 else (o[0], o[1], o[2])
            self.flags = ('mul', w)
            return '{i%d q;fo=__builtin_mul_overflow((i%d)%s,(i%d)%s,&q);fa=(u%d)q;}' % (w, w, self.rd(b, w), w, self.rd(a, w), w) + self.wr(d, w, 'fa')
        m = re.match(r'^(i?div)([lq])$', op)
        if m:
            w = SUF[m.group(2)]
            s = self.rd(o[0], w)
            self.flags = None
            if m.group(1) == 'idiv':
                if w == 32:
                    return '{i64 n=(i64)((rdx<<32)|(u32)rax);i64 d=(i32)%s;DIVCHK(d);rax=(u64)(u32)(n/d);rdx=(u64)(u32)(n%%d);}' % s if self.prev != 'cltd' else '{i32 n=(i32)rax,d=(i32)%s;DIVCHK(d);rax=(u64)(u32)(n/d);rdx=(u64)(u32)(n%%d);}' % s
                if self.prev != 'cqto':
                    raise Unknown(l)
                return '{i64 n=(i64)rax,d=(i64)%s;DIVCHK(d);rax=(u64)(n/d);rdx=(u64)(n%%d);}' % s
            if w == 32:
                return '{u64 n=(rdx<<32)|(u32)rax;u64 d=(u32)%s;DIVCHK(d);rax=(u64)(u32)(n/d);rdx=(u64)(u32)(n%%d);}' % s
            return '{u64 n=rax,d=%s;DIVCHK(d);if(rdx)vp_fail("128-bit division");rax=n/d;rdx=n%%d;}' % s
        m = re.match(r'^(push|pop)q$', op)
        if m:
            if m.group(1) == 'push':
                return '{u64 t=%s;rsp-=8;ST64(rsp,t);}' % self.rd(o[0], 64)
            return self.wr(o[0], 64, 'LD64(rsp)') + 'rsp+=8;'
        if op == 'leave':
            return 'rsp=rbp;rbp=LD64(rsp);rsp+=8;'
        if op == 'ret':
            self.flags = None
            return 'return (RET){rax,rdx,x0,x1};'
        if op == 'jmp':
            t = o[0]
            if t.startswith('*'):
                raise Unknown(l)
            if t in self.labels:
                return 'goto %s;' % self.lab(t)
            return self.call(t) + 'return (RET){rax,rdx,x0,x1};'
        m = re.match(r'^j(\w+)$', op)
        if m:
            return 'if(%s)goto %s;' % (self.cond(m.group(1)), self.lab(o[0]))
        m = re.match(r'^set(\w+)$', op)
        if m:
            return self.wr(o[0], 8, '(u8)(%s)' % self.cond(m.group(1)))
        m = re.match(r'^cmov([a-z]+?)([wlq]?)$', op)
        if m:
            try:
                c, w = m.group(1), 0
                e = self.cond(c)
            except Unknown:
                raise
            rw = REG[o[1][1:]][1]
            return '{u%d t=%s;if(%s){%s}%s}' % (rw, self.rd(o[0], rw), e, self.wr(o[1], rw, 't'), 'else{%s}' % self.wr(o[1], rw, self.rd(o[1], rw)) if rw == 32 else '')
        if op == 'call':
            return self.call(o[0])
        if op in ('movsq', 'stosq', 'movsb', 'stosb', 'movsl', 'stosl'):
            n = {'q': 8, 'b': 1, 'l': 4}[op[-1]]
            cnt = 'rcx' if pre == 'rep' else '1ull'
            body = 'ST%d(rdi,LD%d(rsi));rsi+=%d;rdi+=%d;' % (8 * n, 8 * n, n, n) if op.startswith('movs') else 'ST%d(rdi,(u%d)rax);rdi+=%d;' % (8 * n, 8 * n, n)
            return '{u64 n=%s;while(n){%sn--;}%s}' % (cnt, body, 'rcx=0;' if pre == 'rep' else '')
        # ---- scalar floating point
        m = re.match(r'^mov(s[sd]|apd|aps|upd|ups|dqa|dqu)$', op)
        if m:
            k = m.group(1)
            if k in ('ss', 'sd'):
                w = 64 if k == 'sd' else 32
                if self.isx(o[0]) and self.isx(o[1]):
                    return '%s=%s;' % (self.x(o[1]), self.x(o[0])) if w == 64 else '%s=(%s&~0xffffffffull)|(u32)%s;' % (self.x(o[1]), self.x(o[1]), self.x(o[0]))
                if self.isx(o[1]):
                    return '%s=(u64)%s;%sh=0;' % (self.x(o[1]), self.rdx(o[0], w), self.x(o[1]))
                return 'ST%d(%s,%s);' % (w, self.addr(o[1]), self.rdx(o[0], w))
            if self.isx(o[0]) and self.isx(o[1]):
                return '%s=%s;%sh=%sh;' % (self.x(o[1]), self.x(o[0]), self.x(o[1]), self.x(o[0]))
            if self.isx(o[1]):
                return '{u64 a=%s;%s=LD64(a);%sh=LD64(a+8);}' % (self.addr(o[0]), self.x(o[1]), self.x(o[1]))
            return '{u64 a=%s;ST64(a,%s);ST64(a+8,%sh);}' % (self.addr(o[1]), self.x(o[0]), self.x(o[0]))
        m = re.match(r'^mov([hl])p[sd]$', op)
        if m:
            h = 'h' if m.group(1) == 'h' else ''
            if self.isx(o[1]):
                return '%s%s=LD64(%s);' % (self.x(o[1]), h, self.addr(o[0]))
            return 'ST64(%s,%s%s);' % (self.addr(o[1]), self.x(o[0]), h)
        m = re.match(r'^(add|sub|mul|div|min|max|sqrt)s([sd])$', op)
        if m:
            k, s = m.groups()
            d, a, b = self.x(o[1]), self.dbl(o[1], s), self.dbl(o[0], s)
            if k == 'sqrt':
                e = 'sqrt(%s)' % b
            elif k in ('min', 'max'):
                e = '(%s%s%s?%s:%s)' % (a, '<' if k == 'min' else '>', b, a, b)
            else:
                e = '%s%s%s' % (a, {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[k], b)
            return '%s=B(%s);' % (d, e) if s == 'd' else '%s=(u64)BF(%s);' % (d, e)
        m = re.match(r'^(add|sub|mul|div)pd$', op)
        if m:
            c = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[m.group(1)]
            d = self.x(o[1])
            if self.isx(o[0]):
                return '%s=B(D(%s)%sD(%s));%sh=B(D(%sh)%sD(%sh));' % (d, d, c, self.x(o[0]), d, d, c, self.x(o[0]))
            return '{u64 a=%s;%s=B(D(%s)%sD(LD64(a)));%sh=B(D(%sh)%sD(LD64(a+8)));}' % (self.addr(o[0]), d, d, c, d, d, c)
        m = re.match(r'^(and|andn|or|xor)p([sd])$', op)
        if not m:
            m = re.match(r'^p(and|andn|or|xor)(d?)$', op)
        if m:
            d = self.x(o[1])
            if m.group(1) == 'xor' and o[0] == o[1]:
                return '%s=0;%sh=0;' % (d, d)
            c = self.const128(o[0])
            if c is not None and len(c) >= 8:
                lo = int.from_bytes(c[:8], 'little')
                if m.group(1) == 'and' and lo == 0x7fffffffffffffff:
                    return '%s=B(__builtin_fabs(D(%s)));' % (d, d)
                if m.group(1) == 'xor' and lo == 0x8000000000000000:
                    return '%s=B(-D(%s));' % (d, d)
            if self.isx(o[0]) and m.group(1) in ('and', 'or', 'xor'):
                return '%s=vp_bits_%s(%s,%s);' % (d, m.group(1), d, self.x(o[0]))
            raise Unknown(l)
        m = re.match(r'^u?comis([sd])$', op)
        if m:
            self.flags = ('fp',)
            return 'fda=%s;fdb=%s;' % (self.dbl(o[1], m.group(1)), self.dbl(o[0], m.group(1)))
        m = re.match(r'^cvtsi2s([sd])([lq]?)$', op)
        if m:
            w = 64 if m.group(2) == 'q' or (o[0].startswith('%') and '(' not in o[0] and REG[o[0][1:]][1] == 64) else 32
            e = '(i%d)%s' % (w, self.rd(o[0], w))
            return '%s=B((double)%s);' % (self.x(o[1]), e) if m.group(1) == 'd' else '%s=(u64)BF((float)%s);' % (self.x(o[1]), e)
        m = re.match(r'^cvtts([sd])2si([lq]?)$', op)
        if m:
            w = REG[o[1][1:]][1]
            return self.wr(o[1], w, '(u%d)(i%d)%s' % (w, w, self.dbl(o[0], m.group(1))))
        if op == 'cvtss2sd':
            return '%s=B((double)%s);' % (self.x(o[1]), self.dbl(o[0], 's'))
        if op == 'cvtsd2ss':
            return '%s=(u64)BF((float)%s);' % (self.x(o[1]), self.dbl(o[0], 'd'))
        if op in ('unpcklpd', 'punpcklqdq', 'movlhps'):
            return '%sh=%s;' % (self.x(o[1]), self.x(o[0]) if self.isx(o[0]) else 'LD64(%s)' % self.addr(o[0]))
        if op in ('unpckhpd', 'punpckhqdq'):
            return '%s=%sh;%sh=%s;' % (self.x(o[1]), self.x(o[1]), self.x(o[1]), self.x(o[0]) + 'h' if self.isx(o[0]) else 'LD64(%s+8)' % self.addr(o[0]))
        if op == 'movddup':
            return '%s=%s;%sh=%s;' % (self.x(o[1]), self.rdx(o[0]), self.x(o[1]), self.x(o[1]))
        raise Unknown(l)

    def locked(self, op, o):
        m = re.match(r'^(add|sub|inc|dec|or|and|xor)([lq])$', op)
        if m:
            w = SUF[m.group(2)]
            f = {'add': 'add', 'inc': 'add', 'sub': 'sub', 'dec': 'sub', 'or': 'or', 'and': 'and', 'xor': 'xor'}[m.group(1)]
            v = '1' if len(o) == 1 else self.rd(o[0], w)
            self.flags = None
            return '__atomic_fetch_%s((u%d*)%s,%s,5);' % (f, w, self.addr(o[-1]), v)
        m = re.match(r'^cmpxchg([lq])$', op)
        if m:
            w = SUF[m.group(1)]
            self.flags = ('cmp', w)
            return '{u%d e=(u%d)rax;fa=!__atomic_compare_exchange_n((u%d*)%s,&e,%s,0,5,5);fb=0;rax=(u64)e;}' % (w, w, w, self.addr(o[1]), self.rd(o[0], w))
        m = re.match(r'^xadd([lq])$', op)
        if m:
            w = SUF[m.group(1)]
            return '{u%d t=__atomic_fetch_add((u%d*)%s,%s,5);%s}' % (w, w, self.addr(o[1]), self.rd(o[0], w), self.wr(o[0], w, 't'))
        raise Unknown('lock ' + op)

    def call(self, t):
        self.flags = None
        uni = '(rdi,rsi,rdx,rcx,r8,r9,x0,x1,x2,x3,rsp)'
        after = 'rax=q.a;rdx=q.d;x0=q.x;x1=q.y;'
        if t.startswith('*'):
            e = self.rd(t[1:], 64)
            return '{RET q=((FN)%s)%s;%s}' % (e, uni, after)
        n = re.sub(r'@PLT$', '', t)
        if n in self.fn_names:
            return '{RET q=%s%s;%s}' % (cname(n), uni, after)
        if n in LIB:
            rt, at = LIB[n]
            a, gi, xi = [], 0, 0
            for k in at:
                if k == 'd':
                    a.append('D(x%d)' % xi)
                    xi += 1
                    continue
                e = ARGR[gi]
                gi += 1
                a.append('(FN)%s' % e if k == 'f' else '(void*)%s' % e if k == 'p' else '(int)%s' % e)
            self.ext.add(n)
            c = 'e_%s(%s)' % (re.sub(r'\W', '_', n), ','.join(a))
            return {'v': '%s;' % c, 'w': 'rax=(u64)(u32)%s;' % c, 'p': 'rax=(u64)%s;' % c, 'd': 'x0=B(%s);' % c}[rt]
        raise Unknown('call of ' + n)

    def lab(self, t):
        return 'L_' + re.sub(r'\W', '_', t)

    def function(self, fn):
        name, body, tag, files = fn
        self.cur_tag, self.flags, self.dyn, self.prev, self.unk = tag, None, False, '', None
        self.labels = {b[1] for b in body if b[0] == 'label'}
        txt = [b[1] for b in body if b[0] == 'insn']
        self.std = any(re.match(r'^movq\s+%rsp,\s*%rbp', t) for t in txt)
        size = 160
        for t in txt:
            m = re.match(r'^(?:subq|addq)\s+\$(-?\d+),\s*%rsp', t)
            if m:
                size += abs(int(m.group(1)))
            elif t.startswith('pushq'):
                size += 8
        size += sum(64 for t in txt if re.match(r'^andq\s+\$-\d+,\s*%rsp', t))
        if any(re.match(r'^subq\s+%\w+,\s*%rsp', t) for t in txt):
            size += 8192
        size = (size + 63) & ~63
        targets = set()
        for t in txt:
            m = re.match(r'^j\w+\s+(\.\w+)', t)
            if m:
                targets.add(m.group(1))
        out = []
        for b in body:
            if b[0] == 'label':
                if b[1] in targets:
                    out.append('%s:;' % self.lab(b[1]))
                    self.flags = None
                    self.prev = ''
            elif b[0] == 'loc':
                f = files.get(b[1])
                if f:
                    out.append('#line %s "%s"' % (b[2], f))
            else:
                try:
                    out.append(self.insn(b[1]))
                    self.prev = b[1].split()[0]
                except (Unknown, KeyError) as e:
                    # decided when the path is taken
                    out.append('vp_unsupported("%s");' % re.sub(r'[\\"\t]', ' ', str(e) + ' in ' + b[1]))
                    self.flags = ('cmp', 64)
        regs = ','.join('%s=0' % r for r in R64 if r not in ARGR and r not in ('rsp',))
        xs = ','.join('x%d=0' % i for i in range(4, 16)) + ',' + ','.join('x%dh=0' % i for i in range(16))
        first = next((b for b in body if b[0] == 'loc' and files.get(b[1])), None)
        head = '#line %s "%s"\n' % (first[2], files[first[1]]) if first else ''
        return head + 'RET %s(u64 rdi,u64 rsi,u64 rdx,u64 rcx,u64 r8,u64 r9,u64 x0,u64 x1,u64 x2,u64 x3,u64 insp){\n char frame[%d] __attribute__((aligned(64)));u64 %s,rsp=(u64)frame+%d;u64 %s,fa=0,fb=0;int fo=0;double fda=0,fdb=0;\n' % (cname(name), size, regs, size - 8, xs) + self.lines(out) + '\n return (RET){rax,rdx,x0,x1};\n}\n'

    def lines(self, out):
        """what belongs to one source line stays on one line"""
        r = ''
        for l in out:
            r += '\n' + l + '\n' if l.startswith('#') else l.replace('\n', ' ') + ' '
        return r

    def output(self, exports):
        self.used = set()
        body = ''.join(self.function(f) for f in self.funcs)
        h = '''int vp_isconst(long);typedef unsigned char u8;typedef unsigned short u16;typedef unsigned int u32;typedef unsigned long u64;typedef signed char i8;typedef short i16;typedef int i32;typedef long i64;
typedef struct{u64 a,d,x,y;}RET;typedef RET(*FN)(u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64);
typedef struct{u8 v;}__attribute__((packed,may_alias))P8;typedef struct{u16 v;}__attribute__((packed,may_alias))P16;typedef struct{u32 v;}__attribute__((packed,may_alias))P32;typedef struct{u64 v;}__attribute__((packed,may_alias))P64;
#define LD8(a) (((P8*)(a))->v)
#define LD16(a) (((P16*)(a))->v)
#define LD32(a) (((P32*)(a))->v)
#define LD64(a) (((P64*)(a))->v)
#define ST8(a,e) (((P8*)(a))->v=(u8)(e))
#define ST16(a,e) (((P16*)(a))->v=(u16)(e))
#define ST32(a,e) (((P32*)(a))->v=(u32)(e))
#define ST64(a,e) (((P64*)(a))->v=(u64)(e))
static inline __attribute__((always_inline)) double D(u64 b){return __builtin_bit_cast(double,b);} static inline __attribute__((always_inline)) u64 B(double d){return __builtin_bit_cast(u64,d);}
static inline __attribute__((always_inline)) float F(u32 b){return __builtin_bit_cast(float,b);} static inline __attribute__((always_inline)) u32 BF(float d){return __builtin_bit_cast(u32,d);}
static inline __attribute__((always_inline)) u64 vp_bits_and(u64 a,u64 b){if(vp_isconst(b)){if(b==0x7fffffffffffffffull)return B(__builtin_fabs(D(a)));}else if(vp_isconst(a)&&a==0x7fffffffffffffffull)return B(__builtin_fabs(D(b)));return a&b;}
static inline __attribute__((always_inline)) u64 vp_bits_xor(u64 a,u64 b){if(vp_isconst(b)){if(b==0x8000000000000000ull)return B(-D(a));}else if(vp_isconst(a)&&a==0x8000000000000000ull)return B(-D(b));return a^b;}
static inline __attribute__((always_inline)) u64 vp_bits_or(u64 a,u64 b){return a|b;}
#define DIVCHK(d)
void vp_unsupported(const char*);void vp_fail(const char*);double sqrt(double);
'''.replace('__builtin_bit_cast(double,b)', '({union{u64 b;double d;}u;u.b=b;u.d;})').replace('__builtin_bit_cast(u64,d)', '({union{u64 b;double d;}u;u.d=d;u.b;})').replace('__builtin_bit_cast(float,b)', '({union{u32 b;float d;}u;u.b=b;u.d;})').replace('__builtin_bit_cast(u32,d)', '({union{u32 b;float d;}u;u.d=d;u.b;})')
        ty = {'p': 'void*', 'w': 'int', 'd': 'double', 'v': 'void', 'f': 'FN'}
        for n in sorted(self.ext):
            rt, at = LIB[n]
            h += '%s e_%s(%s) __asm__("%s");\n' % (ty[rt], re.sub(r'\W', '_', n), ','.join(ty[a] for a in at) or 'void', n)
        for f in self.funcs:
            h += 'RET %s(u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64);\n' % cname(f[0])
        self.cur_tag = ''
        decl, defs, emitted = '', '', set()
        todo = sorted(self.used)
        while todo:
            n = todo.pop()
            if n in emitted:
                continue
            emitted.add(n)
            mem, ini = '', []
            for k, it in enumerate(self.data[n]):
                if it[0] == 'int':
                    w = it[1]
                    if re.match(r'^-?(0x[0-9a-fA-F]+|\d+)$', it[2]):
                        mem += 'u%d f%d;' % (8 * w, k)
                        ini.append('0x%xull' % (int(it[2], 0) & ((1 << 8 * w) - 1)))
                    else:
                        s = it[2]
                        m = re.match(r'^(.+?)([+-]\d+)?$', s)
                        s0, off = m.group(1), m.group(2) or ''
                        mem += 'void* f%d;' % k
                        if s0 in self.fn_names:
                            ini.append('(void*)&' + cname(s0))
                        elif s0 in self.data_names:
                            ini.append('(char*)&%s%s' % (cname(s0), off))
                            todo.append(s0)
                        else:
                            ini.append('0')
                elif it[0] == 'bytes':
                    mem += 'u8 f%d[%d];' % (k, max(1, len(it[1])))
                    ini.append('{' + ','.join(map(str, it[1] or b'\0')) + '}')
                elif it[1]:
                    mem += 'u8 f%d[%d];' % (k, it[1])
                    ini.append('{0}')
            c = cname(n)
            decl += 'struct S_%s{%s}__attribute__((packed));extern struct S_%s %s;\n' % (c, mem or 'u8 f0;', c, c)
            defs += 'struct S_%s %s __attribute__((aligned(32)))={%s};\n' % (c, c, ','.join(ini) or '0')
        ex = ''
        for e in exports:
            m = re.match(r'^(\w+)(?:=(\w+))?:(\w)\(([\w,]*)\)$', e)
            n, as_, rt, at = m.group(1), m.group(2) or m.group(1), m.group(3), [a for a in m.group(4).split(',') if a]
            if n not in self.fn_names:
                continue
            ps, gr, xr, st = [], ['0'] * 6, ['0'] * 4, ''
            g = x = k = 0
            for i, a in enumerate(at):
                ps.append('%s a%d' % (ty[a], i))
                if a == 'd':
                    xr[x] = 'B(a%d)' % i
                    x += 1
                    continue
                v = '(u64)(u32)a%d' % i if a == 'w' else '(u64)a%d' % i
                if g < 6:
                    gr[g] = v
                    g += 1
                else:
                    st += 'ST64((u64)frame+%d,%s);' % (48 + 8 * k, v)
                    k += 1
            ex += '%s w_%s(%s) __asm__("%s");\n%s w_%s(%s){char frame[128] __attribute__((aligned(16)));%sRET q=%s(%s,%s,(u64)frame+48);%s}\n' % (ty[rt], as_, ','.join(ps) or 'void', as_, ty[rt], as_, ','.join(ps) or 'void', st, cname(n), ','.join(gr), ','.join(xr), {'v': '', 'w': 'return (int)q.a;', 'p': 'return (void*)q.a;', 'd': 'return D(q.x);'}[rt])
        return h + decl + defs + body + ex


def main():
    a = sys.argv[1:]
    ins, exports, out = [], [], None
    while a:
        q = a.pop(0)
        if q == '-o':
            out = a.pop(0)
        elif q == '--export':
            exports.append(a.pop(0))
        else:
            ins.append(q)
    L = Lifter()
    for i, f in enumerate(ins):
        L.parse(open(f).read(), 'u%d' % i)
    open(out, 'w').write(L.output(exports))


if __name__ == '__main__':
    main()
