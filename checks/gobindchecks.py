"""C29: the Go package against the C VM."""
import os, select, subprocess, tempfile, shutil
import build, gen, gobuild, schema as S
from clichecks import mutate_image
from core import Case, Violation, Skip, rcname, OK
from drv import Driver, Crash, Timeout, hexs
from runner import Check
from textchecks import WIDE

FLAG = {1: 'program image changed', 2: 'asked for more values than the schema has', 4: 'data changed while decoding', 512: 'the context has the wrong mode',
        1024: 'a value read back is not the one set'}


class GoDriver:
    def __init__(self, kind, timeout=120):
        self.kind, self.timeout = kind, timeout
        self.exe = gobuild.build(kind)
        self.dir = tempfile.mkdtemp(prefix='vgo')
        self.start()

    def start(self):
        self.err = open(os.path.join(self.dir, 'stderr'), 'w+b')
        env = dict(build.ENV, GORACE='halt_on_error=1 exitcode=99', GOTRACEBACK='single', GOMEMLIMIT='2GiB')
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.dir)

    def close(self):
        self.p.kill()
        self.p.wait()
        self.err.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def ask(self, line):
        try:
            self.p.stdin.write((line + '\n').encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            self.died(line)
        if not select.select([self.p.stdout], [], [], self.timeout)[0]:
            self.p.kill()
            self.p.wait()
            self.start()
            raise Timeout('go ' + line[:200])
        a = self.p.stdout.readline()
        if not a.endswith(b'\n'):
            self.died(line)
        return a.decode().rstrip('\n').split(' ')

    def died(self, line):
        code = self.p.wait(30)
        self.err.seek(0)
        text = self.err.read().decode(errors='replace')
        self.err.close()
        self.start()
        raise Crash('go ' + line, (text[:3000] + '\n' + text[-900:]) if len(text) > 3900 else text or 'exit status %d' % code, code)


class C29(Check):
    pid = 'C29'
    technique = 'differential trace monitor: the Go package and the C API run the same program, answers and bytes; events, bytes and errors compared; race detector (go -race) on concurrent goroutines and AddressSanitizer (go -asan) on the C side'
    note = 'Sampled programs and schedules; the C side of the race build is not instrumented.'
    rule = 'random schemas, records, short buffers, refusals, damaged packets and images; distinct (program, mode, data or answers, refusal) count'
    assumptions = ['the C driver is the reference', 'a handler that panics is not claimed', 'a handler reads and writes only what the callback type offers']
    variants = ['driver']
    quick, thorough = 6000, 400000
    need = ('programs', 'encodes compared', 'decodes compared', 'go error 0', 'go error 1', 'go error 3', 'go error 4', 'go error CRC', 'go error ARITHMETIC', 'names compared',
            'bulk byte arrays', 'damaged images', 'images refused', 'misuses', 'concurrent runs', 'one-shot runs', 'strings seen', 'long strings')

    def before(self):
        for k in ('race', 'asan'):
            gobuild.build(k)

    def start(self, w):
        self.d = Driver('driver')
        self.gos = [GoDriver('race'), GoDriver('asan')]
        self.texts = {}

    def stop(self):
        self.d.close()
        for g in self.gos:
            g.close()

    def case(self, r, i):
        st = self.st
        self.go = self.gos[i % 2]
        if i % 40 == 7:
            return self.long(r, i)
        s = gen.Gen(r, gen.profile(**dict(r.choice(WIDE), huge=0.005))).schema()
        c = Case(self.d, s, S.render(s), slot=i % 8)
        slot = c.slot
        st.count('programs')
        self.load(c.il, slot, 0)
        self.names(r, slot, c.names)
        self.go.ask('C')
        self.schema = c.text
        jobs = 0
        for _ in range(r.choice([1, 2, 4])):
            v = gen.Values(r, invalid=r.choice([0, 0, 0.1]), overflow=r.choice([0, 0, 0.3]), budget=400)
            try:
                m = c.enc_model(v)
            except Skip:
                continue
            cap = m.length + (0 if s.eof else r.choice([0, 0, 3, 40]))
            k = r.randrange(6)
            if k == 0 and m.length:
                cap = r.randrange(m.length)
            fail = r.randrange(1, 12) if k == 1 else 0
            raw = r.randint(0, 1)
            e = self.both(r, slot, ['E', slot, cap, r.choice([0, 255, 170]), raw, fail] + m.tape)
            jobs += 1
            if e is None or e.rc != OK:
                data = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 9, 60])))
            else:
                data = e.data
            self.both(r, slot, ['D', slot, hexs(data), raw, 0])
            k = r.randrange(5)
            if k == 0:
                data = data[:r.randrange(len(data) + 1)]
            elif k == 1 and data:
                b = bytearray(data)
                for _ in range(r.choice([1, 3])):
                    b[r.randrange(len(b))] = r.choice([0, 1, 255, r.randrange(256)])
                data = bytes(b)
            self.both(r, slot, ['D', slot, hexs(data), r.randint(0, 1), r.randrange(1, 12) if k == 2 else 0])
        if jobs and i % 4 == 0:
            a = self.go.ask('G 8 %d %d' % (12 if self.tier == 'quick' else 60, r.randrange(10 ** 6)))
            st.count('concurrent runs', int(a[1]))
            if a[2] != '0':
                raise Violation('concurrent', '%s of %s concurrent runs differ from the lone run' % (a[2], a[1]), schema=c.text, first=bytes.fromhex(a[3]).decode(errors='replace')[:6000])
        self.misuse(r, slot, c)
        if i % 3 == 0:
            self.damaged(r, c)
        st.sample(schema=c.text[:800])

    def long(self, r, i):
        """Strings and byte arrays whose lengths fill every byte of their prefixes."""
        st = self.st
        fields, tape, data = [], [], b''
        left = 0
        for k in range(r.choice([1, 2, 3])):
            w = r.choice([1, 2, 2, 4, 4, 4])
            n = r.choice([127, 128, 255] if w == 1 else [255, 256, 257, 0x7FFF, 0x8000, 0x8001, 0xFFFF, r.randrange(0x10000)] if w == 2 else
                         [0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x10001, 0x18000, r.randrange(0x10000, 0x30000)])
            if w == 4 and i % 4000 == 7 and not left:
                n, left = (1 << 24) + r.choice([0, 1, 0x8000, 0x10203]), 1
            order = r.choice(['little', 'big'])
            b = bytes(r.choice(b'abcXYZ09') for _ in range(min(n, 50)))
            b = (b * (n // max(len(b), 1) + 1))[:n]
            pre = n.to_bytes(w, order)
            if r.random() < 0.75:
                fields.append('@%s string f%d prefix uint%d;' % (order[0] + 'e', k, 8 * w))
                tape.append('s' + b.hex())
            elif n < 0x4000:
                fields.append('@%s uint8 f%d[] prefix uint%d;' % (order[0] + 'e', k, 8 * w))
                tape += ['%x' % n] + ['%x' % x for x in b]
            else:
                fields.append('@%s uint16 f%d;' % (order[0] + 'e', k))
                tape.append('%x' % (n & 0xFFFF))
                pre, b = (n & 0xFFFF).to_bytes(2, order), b''
            data += pre + b
        self.schema = 'packet P { %s }' % ' '.join(fields)
        slot = i % 8
        rc, diag, il = self.d.compile(self.schema)
        if rc or not il or self.d.load(slot, il).rc:
            raise Violation('compile-refused', 'a valid schema was refused: %r' % diag[:300], schema=self.schema)
        self.load(il, slot, 0)
        self.go.ask('C')
        raw = r.randint(0, 1)
        e = self.both(r, slot, ['E', slot, len(data) + r.choice([0, 0, 3]), 170, raw, 0] + tape)
        if e is None:
            return
        if e.rc != OK or e.data != data:
            raise Violation('bytes', 'a packet of long strings is encoded as other bytes', schema=self.schema, c=str(e)[:2000])
        self.both(r, slot, ['D', slot, hexs(data), raw, 0])
        got = [x.split(':')[2][1:] for x in self.last or () if x[:3] in ('30:', '31:', '32:', '33:')]
        want = [t[1:] for t in tape if t[0] == 's']
        if self.last is not None and got != want:
            raise Violation('strings', 'decoded strings of %s bytes instead of %s' % ([len(x) // 2 for x in got], [len(x) // 2 for x in want]), schema=self.schema)
        self.both(r, slot, ['D', slot, hexs(data[:r.randrange(len(data))]), raw, 0])
        st.count('long strings', len(fields))

    def load(self, image, slot, want):
        a = self.go.ask('L %d %s' % (slot, hexs(image)))
        if a[1] != self.code(want):
            raise Violation('load', 'Go loads with %s, C with %s' % (a[1], rcname(want)), image=image[:4000].hex())

    def code(self, rc):
        """How the Go driver shows C's result."""
        if rc < 7:
            return str(rc)
        if rc not in self.texts:
            a = self.go.ask('S %d' % rc)[1]
            if a in ('-', self.go.ask('S 0')[1]) or a in self.texts.values():
                raise Violation('texts', 'error %d has no text of its own: %s' % (rc, a))
            self.texts[rc] = a
        return 't' + self.texts[rc]

    def names(self, r, slot, names):
        for k in list(range(min(len(names), 40))) + [len(names), 65535, r.randrange(65536)]:
            g = self.go.ask('N %d %d' % (slot, k))[1]
            c = self.d.key_name(slot, k)
            if g != hexs(c or b''):
                raise Violation('names', 'key %d: Go says %s, C %r' % (k, g, c))
        for n in [x.encode() for x in r.sample(names, min(len(names), 10))] + [b'', b'nosuch', b'x' * 500]:
            g = int(self.go.ask('K %d %s' % (slot, hexs(n)))[1])
            c = self.d.key_id(slot, n)
            if g != c:
                raise Violation('names', 'name %r: Go says %d, C %d' % (n, g, c))
        self.st.count('names compared')

    def both(self, r, slot, cmd):
        """The same run in C and in Go."""
        st, enc = self.st, cmd[0] == 'E'
        line = ' '.join(map(str, cmd))
        self.last = None
        c = self.d._result(self.d.ask(' '.join(map(str, cmd[:6] + [0] + cmd[6:] if enc else cmd + [0]))))
        if c.flags & 8:
            st.count('over the time slice (not judged)')
            return None
        if enc and cmd[5] and c.ncb > cmd[5]:
            # a refused optional string is left out; whether its answer is used up is the drivers' affair
            st.count('runs over a refusal (not judged)')
            return None
        one = r.random() < 0.2
        a = self.go.ask(('O ' if one else 'Q ') + line)
        info = dict(schema=self.schema, command=line[:8000], go=' '.join(a)[:6000], c=str(c)[:6000], build=self.go.kind)
        if a[0] != 'r':
            raise Violation('answer', 'no result', **info)
        what = 'encode' if enc else 'decode'
        if a[1] != self.code(c.rc):
            raise Violation('error', '%s: C ends with %s, Go with %s' % (what, rcname(c.rc), a[1]), **info)
        data = b'' if a[2] == '-' else bytes.fromhex(a[2])
        flags = int(a[3])
        if flags & (1 | 512 | 1024) or (flags ^ c.flags) & (2 | 4):
            raise Violation('flags', '%s: %s' % (what, ', '.join(t for b, t in FLAG.items() if flags & b)), **info)
        self.last = a[6:]
        if int(a[4]) != c.ncb or int(a[5]) != c.nraw:
            raise Violation('calls', '%s: %s calls and %s bulk calls in Go, %d and %d in C' % (what, a[4], a[5], c.ncb, c.nraw), **info)
        if c.flags & 16:
            st.count('events beyond the C log')
        elif a[6:] != c.events:
            k = next((i for i, (x, y) in enumerate(zip(a[6:], c.events)) if x != y), min(len(a) - 6, len(c.events)))
            raise Violation('events', '%s: event %d is %s in Go, %s in C' % (what, k, (a + ['none'])[6 + k][:200], (c.events + ['none'])[k][:200]), **info)
        if enc:
            if len(data) != cmd[2] or data[:len(c.data)] != c.data:
                raise Violation('bytes', 'encode: the bytes differ', **info)
            if c.rc == OK and not c.flags & 64 and any(x != cmd[3] for x in data[len(c.data):]):
                raise Violation('bytes', 'encode: bytes past the end were touched', **info)
        st.judged((self.schema, line))
        st.count(what + 's compared')
        st.count('events compared', len(c.events))
        st.count('go error %s' % (c.rc if c.rc < 7 else rcname(c.rc)))
        st.count('bulk byte arrays', c.nraw)
        st.count('strings seen', sum(1 for e in c.events if e[:3] in ('30:', '31:', '32:', '33:')))
        if one:
            st.count('one-shot runs')
        return c

    def misuse(self, r, slot, c):
        st = self.st
        w = r.choice(['nilcb', 'nilcbenc', 'nildata', 'emptydata', 'closed', 'nilprog', 'zeroprog', 'empty'])
        a = self.go.ask('X %s %d' % (w, slot))[1:]
        info = dict(schema=c.text, misuse=w, answer=a)
        if a[0] == 'panic':
            raise Violation('panic', '%s: the package panics: %s' % (w, bytes.fromhex(a[1]).decode(errors='replace')[:300]), **info)
        if w in ('nildata', 'emptydata'):
            want = self.d.decode(slot, b'')
            if '@expr' not in c.text and a[0] != self.code(want.rc):
                raise Violation('misuse', '%s: C ends with %s, Go with %s' % (w, rcname(want.rc), a[0]), **info)
        elif w.startswith('nilcb'):
            want = self.d.decode(slot, bytes(4096), 0, 1) if w == 'nilcb' else self.d.encode(slot, 4096, [], 0, 0, 1)
            if want.rc and a[0] == '0' or want.rc == 4 and w == 'nilcb' and a[0] != '4':
                raise Violation('misuse', '%s: ends with %s' % (w, a[0]), **info)
        elif any(not x.startswith('t') for x in a):
            raise Violation('misuse', '%s: no error: %s' % (w, a), **info)
        st.count('misuses')

    def damaged(self, r, c):
        """Damaged images load and decode as in C."""
        st = self.st
        for _ in range(4):
            im, how = mutate_image(r, c.il)
            if len(im) < 16 or im[:5] != b'CNDIL':
                continue
            slot = 9
            ld = self.d.load(slot, im)
            self.load(im, slot, ld.rc)
            st.count('damaged images')
            if ld.rc:
                st.count('images refused')
                continue
            data = bytes(r.choice([0, 1, 2, 65, r.randrange(256)]) for _ in range(r.choice([0, 5, 40, 200])))
            h = self.d.hostile(slot, 1, data, r.randrange(10 ** 6), 5000)
            if h['flags'] & 8 or h['ncb'] >= 5000:
                continue
            self.schema = 'image %s (%s)' % (im.hex()[:8000], how)
            self.go.ask('C')
            self.both(r, slot, ['D', slot, hexs(data), 0, 0])
