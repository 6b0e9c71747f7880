"""C15, C16, C17: independence of executions, no resources used, exact limits."""
import subprocess, struct, random
import build, gen, model, schema as S
from build import HarnessError
from core import Case, Violation, Skip, check_balance, rcname, OK
from drv import Driver, Crash, Timeout, hexs, parse_event
from runner import Check
from schema import Schema, Field, Struct, Enum, If, Switch
from vmchecks import VmCheck

WIDE = [dict(), dict(depth=4, structs=4), dict(eof=1), dict(tail_optional=1.0, alias=0.0), dict(alias=1, unaligned=0.5),
        dict(w=dict(array=6, struct=3, switch=3, If=3, expr=4, trans=4), structs=3, depth=4),
        dict(w=dict(bits=6, pad=2, fill=2, string=2, crc=2, trans=3, enum=1, const=1, expr=3, array=2, switch=2))]


def batch(exe, lines, timeout=300):
    """Feeds all lines to a harness; returns its answers, one per line."""
    try:
        p = subprocess.run([exe], input=('\n'.join(lines) + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=build.ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Timeout(exe)
    if p.returncode:
        err = p.stderr.decode(errors='replace')
        if p.returncode == 3 or 'unexpected memory mapping' in err:
            raise HarnessError('harness ended with %d: %s' % (p.returncode, err[-800:]))
        raise Crash('\n'.join(lines)[:20000], err or 'signal %d' % -p.returncode, p.returncode)
    return p.stdout.decode().split('\n')[:-1]


def jobs_for(r, drv, st, programs, records, profiles=WIDE, values=None):
    """Compiled images and jobs on them: (image lines, job lines, texts)."""
    imgs, jobs, texts = [], [], []
    while len(imgs) < programs:
        s = gen.Gen(r, gen.profile(**r.choice(profiles))).schema()
        try:
            c = Case(drv, s, S.render(s))
            k = len(imgs)
            new = []
            for _ in range(records):
                m = c.enc_model(gen.Values(r, **(values or {})))
                if m.length > 5000:
                    continue
                cap = m.length + (0 if s.eof or m.rc != OK else r.choice([0, 0, 3]))
                new.append('J %d E %d %s' % (k, cap, ' '.join(m.tape)))
                if m.rc != OK:
                    continue
                if m.length:
                    new.append('J %d E %d %s' % (k, r.randrange(m.length), ' '.join(m.tape)))
                b = bytearray(m.buf[:m.length])
                new.append('J %d D %s' % (k, hexs(b)))
                if b:
                    new.append('J %d D %s' % (k, hexs(b[:r.randrange(len(b))])))
                    b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                    new.append('J %d D %s' % (k, hexs(b)))
        except Skip:
            continue
        if not new:
            continue
        imgs.append('I ' + c.il.hex())
        jobs += new
        texts.append(c.text)
        st.count('programs')
    return imgs, jobs, texts


class C15(Check):
    pid = 'C15'
    technique = 'ThreadSanitizer over threads sharing programs in read-only memory, nested executions inside callbacks, MemorySanitizer over poisoned contexts; every result compared with the run alone'
    note = 'Interleavings are those the scheduler and injected yields produce; nested runs give arbitrary switches at callbacks only.'
    rule = 'sets of compiled programs and jobs (valid, cut and altered data, short buffers), each run alone, on 8 threads at once and nested in callbacks of others on reused contexts; distinct jobs count'
    assumptions = ['the program image lies in read-only pages next to a guard page', 'results compared: code, cursor, bits, events, bytes']
    variants = ['driver', 'tsan', 'msan']
    quick, thorough = 24, 800
    workers = 2
    need = ('programs', 'jobs', 'threaded executions', 'nested executions', 'yields inside callbacks', 'runs under MemorySanitizer', 'repeated runs')

    def start(self, w):
        self.drv = Driver('driver')
        self.ms = Driver('msan')

    def stop(self):
        self.drv.close()
        self.ms.close()

    def case(self, r, i):
        st = self.st
        imgs, jobs, texts = jobs_for(r, self.drv, st, 8, 3, values=dict(overflow=0.1, budget=60))
        st.count('jobs', len(jobs))
        lines = imgs + jobs + ['T 8 %d %d' % (1500 if self.tier == 'quick' else 6000, r.getrandbits(30)), 'N %d %d' % (600, r.getrandbits(30))]
        ans = batch(build.build('tsan'), lines)
        for a in ans[len(imgs) + len(jobs):]:
            w = a.split(' ', 2)
            if w[0] == 'bad':
                j = jobs[int(w[1])]
                raise Violation('differs ' + w[2], 'a run among others differs from the run alone: ' + w[2], job=j, schema=texts[int(j.split(' ')[1])])
            if w[0] not in 'tn':
                raise HarnessError('answer ' + a)
            st.count('threaded executions' if w[0] == 't' else 'nested executions', int(w[1]))
            if w[0] == 't':
                st.count('yields inside callbacks', int(w[2]))
            else:
                st.count('nesting depth reached', int(w[2]))
            st.judged(None, int(w[1]))
        for j in jobs:
            st.judged(j)
        st.sample(schema=texts[0][:800], job=jobs[0][:300], answers=ans[-2:])
        self.repeat(r, imgs, jobs, texts)

    def repeat(self, r, imgs, jobs, texts):
        """The same jobs under MemorySanitizer (nothing left over may be read), and again in
        another order with other junk around: same answers."""
        st = self.st
        for k, im in enumerate(imgs):
            for d in (self.ms, self.drv):
                d.load(k, bytes.fromhex(im[2:]))

        def go(d, j, fill):
            w = j.split(' ')
            return d.encode(int(w[1]), int(w[3]), [x for x in w[4:] if x], 0, 1, 0, fill) if w[2] == 'E' else \
                d.decode(int(w[1]), b'' if w[3] == '-' else bytes.fromhex(w[3]), 1, 0, fill)
        first = {}
        for j in jobs:
            first[j] = go(self.ms, j, 0)
            st.count('runs under MemorySanitizer')
        order = jobs * 2
        r.shuffle(order)
        for j in order:
            x = go(self.drv, j, r.choice([0, 255, 0xA5]))
            st.count('repeated runs')
            if x != first[j]:
                raise Violation('repeat', 'running the same input again gives another result', job=j, schema=texts[int(j.split(' ')[1])],
                                first=str(first[j])[:3000], again=str(x)[:3000])


def family(kind, n):
    """Schemas of one shape whose size grows with n, with the answers for the encoder."""
    F = Field
    if kind == 'fields':
        return [F('f%d' % k, 'uint16') for k in range(n)], []
    if kind == 'structs':
        types, t = [], 'uint8'
        for k in range(min(n, 60)):
            t = Struct('S%d' % k, [F('v', t), F('w', 'uint8')])
            types.append(t)
        return [F('a', t)], types
    if kind == 'array':
        return [F('a', 'uint32', arr=('fixed', n * 40, 'count'))], []
    if kind == 'bytes':
        return [F('a', 'uint8', arr=('fixed', n * 40, 'count'))], []
    if kind == 'dyn':
        return [F('n', 'uint16'), F('a', 'uint16', arr=('dyn', 'n'))], []
    if kind == 'string':
        return [F('a', 'string', strspec=('pre', 'uint32')), F('b', 'string', strspec=('nul', 60000, False))], []
    if kind == 'enum':
        e = Enum('E', 'uint16', [('M%d' % k, k, True) for k in range(n)])
        return [F('a', e)], [e]
    if kind == 'switch':
        return [F('d', 'uint32'), Switch('d', [(k * 1000, None, [F('c%d' % k, 'uint8')]) for k in range(n)], None, None)], []
    if kind == 'table':
        return [F('d', 'uint32'), Switch('d', [(k, None, [F('c%d' % k, 'uint8')]) for k in range(min(n, 250))], None, None)], []
    if kind == 'ifs':
        b = [F('z', 'uint8')]
        for k in range(min(n, 60)):
            b = [If([(('bin', '>=', ('var', 'd'), ('num', 0)), b)])]
        return [F('d', 'uint8')] + b, []
    if kind == 'crc':
        return [F('a', 'uint8', arr=('fixed', n * 100, 'count')), F('c', 'uint32', crc=dict(width=32)), F('e', 'uint16', crc=dict(width=16))], []
    if kind == 'bits':
        return [F('b%d' % k, 'uint64', bits=37) for k in range(n)], []
    if kind == 'exprs':
        return [F('d', 'uint8')] + [F('e%d' % k, 'uint64', expr=('bin', '+', ('var', 'd'), ('bin', '*', ('num', k), ('var', 'd')))) for k in range(n)], []
    if kind == 'floats':
        return [F('d', 'double')] + [F('e%d' % k, 'double', expr=('call', 'sqrt', [('call', 'abs', [('fvar', 'd')])])) for k in range(n)], []
    if kind == 'eof':
        return [F('a', 'uint32', arr=('eof',))], []
    if kind == 'poly':
        return [F('p%d' % k, 'uint8', trans=('poly', [1.0, 2.0, 0.5][:3])) for k in range(n)], []


FAMILIES = ['fields', 'structs', 'array', 'bytes', 'dyn', 'string', 'enum', 'switch', 'table', 'ifs', 'crc', 'bits', 'exprs', 'eof']


class C16(Check):
    pid = 'C16'
    technique = 'interposed allocation, I/O and clock functions, a seccomp-sealed rerun, and stack painting while loading, verifying and executing'
    note = 'Allocation or I/O through functions not in the interposed list is seen only as a system call; the stack bound is measured, with the C library\'s own frames included.'
    rule = 'compiled programs with jobs in both directions, and families of schemas of growing size whose stack depth must not grow; distinct jobs count'
    assumptions = ['built with gcc -O1 -fno-builtin, the interposed functions are listed in lib/build.py']
    variants = ['driver', 'quiet']
    quick, thorough = 400, 6000
    need = ('programs', 'jobs watched', 'stack depths compared', 'sealed runs or unavailable', 'ended OK', 'ended with an error')
    GROW, TOTAL = 192, 12000

    def start(self, w):
        self.drv = Driver('driver')

    def stop(self):
        self.drv.close()

    def watch(self, imgs, jobs, texts):
        st = self.st
        ans = batch(build.build('quiet'), imgs + jobs + ['Q', 'S'])
        q, s = ans[-2], ans[-1]
        where = lambda j: dict(job=jobs[j][:5000], schema=texts[int(jobs[j].split(' ')[1])])
        w = q.split(' ')
        if 'bad' in w:
            k = w.index('bad')
            raise Violation('calls ' + w[k + 2], 'execution calls %s' % w[k + 2], **where(int(w[k + 1])))
        depths = []
        for x in w[1:]:
            j, d, rc = map(int, x.split(':'))
            if rc == 99:
                raise Violation('verify', 'a compiled program does not verify', **where(j))
            depths.append((d, rc, j))
            st.count('ended OK' if rc == 0 else 'ended with an error')
            st.judged(jobs[j])
        st.count('jobs watched', len(depths))
        if s.startswith('s ok'):
            st.count('sealed runs', int(s.split(' ')[2]))
        elif s == 's unavailable':
            st.count('seccomp unavailable')
        elif s == 's sig 31':
            raise Violation('system call', 'execution makes a system call', jobs=jobs[:3], schema=texts[0])
        else:
            raise Violation('sealed', 'the sealed run ended with %s' % s, jobs=jobs[:3], schema=texts[0])
        st.count('sealed runs or unavailable')
        return depths

    def case(self, r, i):
        st = self.st
        if i % 2:
            imgs, jobs, texts = jobs_for(r, self.drv, st, 6, 2)
            for d, rc, j in self.watch(imgs, jobs, texts):
                st.n['deepest stack (bytes)'] = max(st.n['deepest stack (bytes)'], d)
                if d > self.TOTAL:
                    raise Violation('stack', 'execution used %d bytes of stack' % d, job=jobs[j], schema=texts[int(jobs[j].split(' ')[1])])
            st.sample(jobs=jobs[:2], schema=texts[0][:500])
            return
        kind = FAMILIES[(i // 2) % len(FAMILIES)]
        imgs, jobs, texts, size = [], [], [], []
        base = r.choice([2, 3, 5])
        for n in (base, base * 4, base * 30, base * 100):
            if kind in ('fields', 'switch', 'exprs', 'bits', 'enum', 'poly', 'floats'):
                n = min(n, 240)
            body, types = family(kind, n)
            s = Schema(types, 'P', body)
            s.eof = kind == 'eof'
            c = Case(self.drv, s, S.render(s))
            v = gen.Values(r, overflow=0.0, big=0.0)
            if kind in ('dyn', 'eof'):
                v.count = lambda *a: n * 30
                v.integer = (lambda old: lambda f, *a: n * 30 if f.name == 'n' else old(f, *a))(v.integer)
            if kind == 'string':
                v.string = lambda *a: b'q' * (n * 90)
            if kind in ('switch', 'table'):
                v.integer = (lambda old: lambda f, *a: (n - 1) * 1000 if f.name == 'd' and kind == 'switch' else 0 if f.name == 'd' else old(f, *a))(v.integer)
            m = c.enc_model(v)
            k = len(imgs)
            imgs.append('I ' + c.il.hex())
            texts.append(c.text[:3000])
            jobs.append('J %d E %d %s' % (k, m.length, ' '.join(m.tape)))
            jobs.append('J %d D %s' % (k, hexs(m.buf[:m.length])))
            size.append((n, m.length))
            st.count('programs')
            if m.rc:
                raise HarnessError('family %s: %s' % (kind, m.rc))
        ds = self.watch(imgs, jobs, texts)
        for side in (0, 1):
            small = ds[side][0]
            for k in range(1, len(size)):
                d = ds[2 * k + side][0]
                st.count('stack depths compared')
                if d > small + self.GROW:
                    raise Violation('stack grows', '%s: %d bytes of stack at size %s, %d at size %s' % (kind, small, size[0], d, size[k]), schema=texts[k])
        for d, rc, j in ds:
            if rc:
                raise Violation('family', '%s ends with %s' % (kind, rcname(rc)), schema=texts[j // 2], job=jobs[j][:3000])


def lit(r):
    return ('num', r.randrange(1, 9))


class C17(VmCheck):
    pid = 'C17'
    technique = 'model-based monitor over programs built to reach, exceed and repeatedly approach the limits, under ASan/UBSan'
    rule = 'array nests of 1-10 levels of every kind, expressions needing 1-12 stack slots, and long sequences of loops, branches and expressions followed by a full-depth nest; distinct (schema, record) count'
    quick, thorough = 9000, 180000
    need = ('nests at the limit', 'nests beyond the limit', 'expressions at the limit', 'expressions beyond the limit', 'sequences', 'encode OK', 'decode OK',
            'absent arrays', 'bulk transfers')

    def case(self, r, i):
        k = i % 3
        (self.nest, self.expression, self.sequence)[k](r)

    def wrap(self, r, depth, leaf, kinds=None):
        """`depth` array levels around a leaf type; counts non-zero: (types, field)."""
        types, t = [], leaf
        f = None
        for d in range(depth):
            kind = r.choice(kinds or ['fixed', 'pre', 'fixed', 'pre', 'dyn'])
            arr = ('fixed', r.choice([1, 1, 2]), r.choice(['count', 'bracket'])) if kind == 'fixed' else ('pre', r.choice(['uint8', 'uint16', 'uint32'])) if kind == 'pre' else ('dyn', 'n')
            if kind == 'eof':
                arr = ('eof',)
            f = Field('a', t, arr=arr)
            body = ([Field('n', 'uint8', hint=[1, 2])] if kind == 'dyn' else []) + [f]
            if d < depth - 1:
                t = Struct('L%d' % d, body)
                types.append(t)
            else:
                return types, body
        return types, [Field('a', leaf)]

    def values_for(self, r, most=2):
        v = gen.Values(r, overflow=0.0, big=0.0)
        v.count = lambda *a: r.choice([1, 1, most])
        old = v.integer
        v.integer = lambda f, *a: r.choice([1, most]) if f.name == 'n' else old(f, *a)
        return v

    def nest(self, r):
        depth = r.choice([1, 4, 7, 8, 8, 8, 9, 9, 10])
        leaf = r.choice(['uint8', 'uint16', 'uint8', 'bool', 'int64'])
        types, body = self.wrap(r, depth, leaf)
        eof = r.random() < 0.2
        if eof:
            body[-1].arr = ('eof',)
            body = body[-1:]
        if r.random() < 0.5:
            body = [Field('h', 'uint8')] + body
        if not eof:
            body = body + [Field('z', 'uint16')]
        s = Schema(types, 'P', body)
        s.eof = eof
        c = Case(self.drv, s, S.render(s))
        m = c.enc_model(self.values_for(r))
        # bytes taken in bulk need no loop, so they need no frame either: not beyond the limit
        raw = r.randint(0, 1) if depth <= 8 else 0
        res = c.drv.encode(0, m.length + (0 if eof else 50) if m.rc == OK else 4000, m.tape, 0, raw, 0, r.choice([0, 255]))
        self.judge(c, m, res, depth)
        self.st.count('nests at the limit' if depth == 8 else 'nests beyond the limit' if depth > 8 else 'nests within the limit')
        if m.rc == OK:
            self.st.count('bulk transfers', res.nraw)
            d, dm = c.check_decode(res.data, raw)
            check_balance(d.events)
            self.st.count('decode ' + rcname(dm.rc))
            self.st.judged()
        else:
            # what nine levels look like on the wire: every prefix 1
            data = b'\1' * 80
            dm = c.dec_model(data)
            d = c.drv.decode(0, data, raw)
            self.judge(c, dm, d, depth)

    def judge(self, c, m, res, depth):
        st = self.st
        st.judged((c.text, tuple(m.tape)))
        st.count('encode ' + rcname(m.rc))
        if (res.rc == OK) != (m.rc == OK):
            raise Violation('limit', '%s where %s is right' % (rcname(res.rc), rcname(m.rc)), **c.info(tape=' '.join(m.tape), got=str(res)[:2000]))
        c.compare_events(res, m, 'limit', 1, dict(tape=' '.join(m.tape)))
        if res.flags & (1 | 16 | 32 | 64):
            raise Violation('flags', 'flags %d' % res.flags, **c.info())
        if m.rc == OK and (res.cursor, res.bits) != (m.pos, m.bit):
            raise Violation('length', 'cursor %d' % res.cursor, **c.info())

    def deep_expr(self, r, n, flt=False):
        """An expression needing exactly n slots: right-nested."""
        if flt:
            e = ('fvar', 'g') if r.random() < 0.5 else ('fnum', r.choice([0.5, 1.0, 2.25]))
            for _ in range(n - 1):
                e = ('bin', r.choice(['+', '-', '*']), ('fnum', r.choice([0.5, 1.0, 3.0])), e)
                if r.random() < 0.15:
                    e = ('call', 'abs', [e])
            return e
        e = ('var', 'd') if r.random() < 0.5 else lit(r)
        for _ in range(n - 1):
            e = ('bin', r.choice(['+', '-', '*', '&', '|', '^', '==', '<', '&&', '||', '>>']), r.choice([('var', 'd'), lit(r)]), e)
            if r.random() < 0.15:
                e = ('un', r.choice(['~', '!', '-']), e)
        return e

    def expression(self, r):
        n = r.choice([1, 5, 7, 8, 8, 8, 9, 9, 10, 12])
        flt = r.random() < 0.35
        e = self.deep_expr(r, n, flt)
        if r.random() < 0.3:     # shallow work before does not change the need
            e = ('bin', '+', ('bin', '*', e, ('fnum', 2.0)), ('fnum', 1.0)) if flt else ('bin', '^', ('bin', '+', e, lit(r)), lit(r))
        if r.random() < 0.5:
            use = [Field('e', 'double' if flt else 'uint64', expr=e)]
        else:
            cond = ('bin', '>', e, ('fnum', 0.5)) if flt else e
            use = [If([(cond, [Field('y', 'uint8')])], [Field('w', 'uint16')])]
        if r.random() < 0.3:     # inside a loop
            st = Struct('T', [Field('d', 'uint8'), Field('g', 'float')] + use)
            body, types = [Field('a', st, arr=('fixed', r.choice([2, 20]), 'count')), Field('z', 'uint8')], [st]
        else:
            body, types = [Field('d', 'uint8'), Field('g', 'float')] + use + [Field('z', 'uint8')], []
        s = Schema(types, 'P', body)
        s.eof = False
        text = S.render(s)
        rc, diag, im = self.drv.compile(text)
        if rc and n > 8:
            self.st.count('expressions beyond the limit refused by the compiler')
            self.st.count('expressions beyond the limit')
            return
        c = Case(self.drv, s, text)
        m = c.enc_model(gen.Values(r, overflow=0.0, nan=False))
        if 'nan-computed' in m.features:
            return
        self.st.count('expressions at the limit' if n == 8 else 'expressions beyond the limit' if n > 8 else 'expressions within the limit')
        if (m.rc == model.STACK_OVERFLOW) != (n > 8):
            raise HarnessError('expression of %d slots: model says %s' % (n, m.rc))
        res = c.drv.encode(0, m.length + 300, m.tape, 0, 0)
        self.judge(c, m, res, n)
        if m.rc == OK:
            d, dm = c.check_decode(res.data)
            self.st.count('decode ' + rcname(dm.rc))
            self.st.judged()
        else:
            data = bytes(r.randrange(256) for _ in range(60))
            dm = c.dec_model(data)
            if dm.rc != OK:
                self.judge(c, dm, c.drv.decode(0, data), n)

    def sequence(self, r):
        """Many constructs one after the other, some empty, some absent; then a full-depth nest."""
        types, body, n = [], [Field('d', 'uint8'), Field('n', 'uint8')], 0
        small = Struct('Sm', [Field('p', 'uint8'), Field('q', 'uint8', arr=('pre', 'uint8'))])
        types += [small]
        for _ in range(r.choice([3, 12, 40])):
            n += 1
            k = r.randrange(9)
            nm = 'f%d' % n
            if k == 0:
                body.append(Field(nm, r.choice(['uint8', 'uint32', small]), arr=('pre', 'uint8')))
            elif k == 1:
                body.append(Field(nm, r.choice(['uint8', 'int16', small]), arr=('fixed', r.choice([0, 1, 3]) or 1, 'count')))
            elif k == 2:
                body.append(Field(nm, r.choice(['uint8', 'uint16', small]), arr=('dyn', 'n')))
            elif k == 3:
                body.append(If([(self.deep_expr(r, r.choice([2, 8])), [Field(nm, 'uint8', arr=('pre', 'uint8'))])], [Field(nm + 'x', small)] if r.random() < 0.5 else None))
            elif k == 4:
                body.append(Switch('d', [(j, None, [Field('%s_%d' % (nm, j), r.choice(['uint8', small]), arr=('pre', 'uint8'))]) for j in range(r.choice([2, 5]))], None, None))
            elif k == 5:
                body.append(Field(nm, 'uint64', expr=self.deep_expr(r, r.choice([1, 8]))))
            elif k == 6:
                body.append(Field(nm, 'string', strspec=('pre', 'uint8'), arr=('fixed', 3, 'count')))
            else:
                body.append(Field(nm, small, arr=('pre', 'uint8')))
        t2, nest = self.wrap(r, 8, r.choice(['uint8', 'uint16']))
        last = Struct('Last', nest)
        body.append(Field('deep', last))
        opt = 0
        if r.random() < 0.4:
            opt = r.choice([1, 3, 9])
            for j in range(opt):
                body.append(Field('o%d' % j, r.choice(['uint8', 'uint16', small]), arr=r.choice([('pre', 'uint8'), ('fixed', 2, 'count')]), optional=True))
        s = Schema(types + t2 + [last], 'P', body)
        s.eof = False
        c = Case(self.drv, s, S.render(s))
        v = self.values_for(r)
        v.count = lambda f, path, *a: r.choice([1, 2]) if path.startswith('deep') else r.choice([0, 0, 1, 3, 30])
        old = v.integer
        v.integer = lambda f, path, *a: r.choice([0, 1, 3]) if path == 'n' else old(f, path, *a)
        m = c.enc_model(v)
        raw = r.randint(0, 1)
        res = c.drv.encode(0, m.length + 100, m.tape, 0, raw)
        self.judge(c, m, res, 8)
        self.st.count('sequences')
        if m.rc == OK:
            self.st.count('bulk transfers', res.nraw)
            d, dm = c.check_decode(res.data, raw)
            check_balance(d.events)
            self.st.judged()
            if opt:
                k = len(body) - opt
                at = m.tops[k][1]
                d, dm = c.check_decode(res.data[:at], raw)
                self.st.count('absent arrays', opt)
                if d.rc != OK:
                    raise Violation('absent', 'absent optional arrays: %s' % rcname(d.rc), **c.info(data=res.data[:at]))
            self.st.sample(schema=c.text[:1500], answers=' '.join(m.tape)[:300])
