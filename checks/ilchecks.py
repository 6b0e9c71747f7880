"""C01, C18, C19, C27: hostile programs, the image loader, the verifier, the disassembler."""
import math, re, struct
import cli, fuzz, gen, il, schema as S
from core import Case, Violation, Skip, flags_text
from drv import Driver
from runner import Check

BUILD = 'built with AddressSanitizer and UndefinedBehaviorSanitizer (reports fatal); every buffer is an exact-size heap block'


def compiled(drv, r, profiles, slot=0):
    """A random schema through the compiler: (schema, text, image)."""
    s = gen.Gen(r, gen.profile(**r.choice(profiles))).schema()
    text = S.render(s)
    rc, diag, im = drv.compile(text)
    if rc or not im:
        raise Violation('compile-refused', 'a valid schema was refused: ' + diag.decode(errors='replace')[:400], schema=text)
    return s, text, im


WIDE = [dict(), dict(depth=4, structs=4), dict(eof=1), dict(optional=0.6), dict(alias=1, unaligned=0.5),
        dict(w=dict(array=6, struct=3, switch=3, If=3, expr=4, trans=4), structs=3, depth=4),
        dict(w=dict(bits=6, pad=2, fill=2, string=2, crc=2, trans=3, enum=1, const=1, expr=3, array=2, switch=2))]


class C01(Check):
    pid = 'C01'
    technique = 'ASan/UBSan plus boundary monitors over hostile executions: structured and random program mutation, coverage-guided libFuzzer'
    note = 'Memory errors are seen only on executed paths and where red zones catch them; overflow inside the context structure is seen by bounds instrumentation only.'
    rule = 'distinct base programs (compiled schemas and random instruction sequences), each mutated many times and run in both modes on exact-size buffers with random host answers'
    assumptions = [BUILD, 'a run that exceeds its CPU slice (hostile backward jump) is counted, not judged']
    quick, thorough = 640, 24000
    variants = ['driver', 'fuzz-vm']
    need = ('programs', 'mutated runs', 'ended OK', 'ended OOB', 'ended STACK_OVERFLOW', 'ended STACK_UNDERFLOW', 'ended ARITHMETIC', 'ended CRC_MISMATCH',
            'ended VALIDATION', 'ended CALLBACK', 'ended INVALID_OP', 'fuzz executions')

    def start(self, w):
        self.drv = Driver('driver')

    def stop(self):
        self.drv.close()

    def case(self, r, i):
        d, st = self.drv, self.st
        n = 1500
        if i % 4 < 2:
            s, text, im = compiled(d, r, WIDE)
            d.load(0, im)
            c = Case.__new__(Case)
            c.drv, c.s, c.text, c.slot = d, s, text, 0
            try:
                m = c.enc_model(gen.Values(r))
                data = bytes(m.buf[:min(m.length, 2000)])
            except Skip:
                data = b''
            sig = text
        else:
            nk = r.choice([1, 3, 8])
            bc = il.rand_program(r, nk, r.choice([1, 3, 8, 20, 60]))
            if r.random() < 0.25:
                bc = il.rand_switch(r, nk) + bc
            im = il.image([b'f%d' % k for k in range(nk)], bc)
            data = bytes(r.choice([0, 1, 2, 255, r.randrange(256)]) for _ in range(r.choice([0, 1, 8, 40, 200])))
            ld = d.load(0, im)
            if ld.rc:
                raise Violation('load', 'a well formed image does not load', image=im.hex())
            sig = im
        st.count('programs')
        st.judged(sig)
        for mode in (0, 1):
            h = d.hostile(0, mode, data if mode else b'\0' * r.choice([0, 3, len(data), len(data) + 50]), r.getrandbits(40), 400)
            self.flags(h['flags'] & ~8, im)
            st.count('unmutated runs')
            if h['flags'] & 8:
                st.count('over the CPU slice (not judged)')
            elif not 0 <= h['rc'] <= 8:
                raise Violation('rc', 'undocumented error code %d' % h['rc'], image=im.hex())
        x = d.mutated(0, n, r.getrandbits(60), 300, data)
        if x['badrun'] >= 0:
            self.flags(x['badflags'], im)
        for k, v in zip('OK OOB INVALID_OP VALIDATION CALLBACK STACK_OVERFLOW STACK_UNDERFLOW CRC_MISMATCH ARITHMETIC'.split(), x['rcs']):
            st.count('ended ' + k, v)
        st.count('mutated runs', sum(x['rcs']))
        st.judged(None, sum(x['rcs']))
        st.count('callbacks answered', x['callbacks'])
        st.count('mutants that verify', x['verified'])
        st.count('over the CPU slice (not judged)', x['timeouts'])
        st.sample(image=im.hex()[:400], data=data.hex()[:200], ended=x['rcs'])

    def flags(self, fl, im):
        if fl:
            raise Violation('monitor-%d' % fl, 'hostile run: ' + flags_text(fl), image=im.hex())

    def finish(self):
        r = self.rng(-1)
        d = Driver('driver')
        seeds = []
        for k in range(120):
            if k % 2:
                s, text, im = compiled(d, r, WIDE)
                if len(im) > 1500:
                    continue
                fl = 2
            else:
                im, fl = il.rand_program(r, 4, 12), 0
            data = bytes(r.choice([0, 1, 2, 255, r.randrange(256)]) for _ in range(r.choice([0, 8, 60])))
            seeds.append(bytes([fl | r.choice([0, 1, 4, 5, 8, 13]), len(data), r.randrange(256)]) + data + im)
        d.close()
        fuzz.run(self.st, 'fuzz-vm', seeds, 40000 if self.tier == 'quick' else 4000000, self.seed, 2000, wall=100 if self.tier == 'quick' else 3000)


Z = {1: 'raw bytecode is not loaded as given', 2: 'an image is loaded into no program', 3: 'no image is loaded', 4: 'a key has a name in a program without strings',
     5: 'a name is found without a program or without a name', 6: 'a name is found in a program without strings', 7: 'a program without bytecode verifies',
     8: 'a single NOOP is refused', 9: 'no context runs', 10: 'a context without a program runs', 11: 'a program without bytecode runs',
     12: 'a context without data runs', 13: 'a NOOP does not run', 14: 'a NOOP moves the cursor', 15: 'an error code has no text', 16: 'two error codes have the same text',
     17: 'a NOOP calls the host or changes the data'}


class C18(Check):
    pid = 'C18'
    technique = 'independent image parser as oracle over mutated images, under ASan/UBSan'
    note = 'Sampled images; the parser in lib/il.py is trusted.'
    rule = 'compiled and hand-built images with header fields at and around every boundary, string tables cut or overlapping, random bytes; distinct images count'
    assumptions = [BUILD]
    quick, thorough = 100000, 2000000
    need = ('accepted', 'refused', 'names compared', 'lookups by name', 'unknown names', 'unknown keys', 'duplicate names', 'cut inside the strings',
            'offset at the end', 'offset past the end', 'missing arguments')

    def start(self, w):
        self.drv = Driver('driver')

    def stop(self):
        self.drv.close()

    def case(self, r, i):
        d, st = self.drv, self.st
        if i % 10 == 0:
            im = compiled(d, r, WIDE)[2]
        else:
            words = [b'', b'a', b'ab', b'abc', b'a.b', b'x' * r.randrange(1, 300), bytes(r.randrange(1, 256) for _ in range(r.randrange(1, 9)))]
            ss = [r.choice(words) for _ in range(r.choice([0, 1, 2, 3, 5, 30]))]
            im = il.image(ss, bytes(r.randrange(256) for _ in range(r.randrange(0, 20))))
        im = bytearray(im)
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.randrange(9)
            n = len(im)
            if k == 0 and n:
                im[r.randrange(min(n, 16))] = r.choice([0, 1, 2, 255, r.randrange(256)])
            elif k == 1 and n >= 8:
                struct.pack_into('<H', im, 6, r.choice([0, 1, 2, 3, 255, 256, 65535, (im[6] + 1) & 255, max(0, im[6] - 1)]))
            elif k in (2, 3) and n >= 16:
                v = r.choice([0, 1, 15, 16, 17, n - 1, n, n + 1, n + 2, 2**31 - 1, 2**31, 2**32 - 1, 2**32 - 16, r.randrange(n + 5)])
                struct.pack_into('<I', im, 8 if k == 2 else 12, v % 2**32)
                st.count('offset at the end', v == n)
                st.count('offset past the end', v > n)
            elif k == 4:
                cut = r.choice([0, 5, 6, 15, 16, 17, r.randrange(n + 1), max(0, n - 1)])
                if n >= 16 and 16 < cut < struct.unpack_from('<I', im, 12)[0]:
                    st.count('cut inside the strings')
                del im[cut:]
            elif k == 5 and n > 16:
                im[r.randrange(16, n)] = 0
            elif k == 6 and n > 16:
                for j in range(r.randrange(16, n), n):
                    im[j] = im[j] or 65
            elif k == 7 and n:
                im[r.randrange(n)] ^= 1 << r.randrange(8)
            elif k == 8 and r.random() < 0.3:
                im = bytearray(bytes(r.randrange(256) for _ in range(r.randrange(40))))
                if r.random() < 0.5:
                    im[0:6] = b'CNDIL\x01'
        im = bytes(im)
        ld = d.load(0, im)
        try:
            n, so, bo, names, bc = il.header(im)
            ok = True
        except il.Bad as e:
            ok, why = False, str(e)
        st.judged(im)
        if (ld.rc == 0) != ok:
            raise Violation('accepts' if ld.rc == 0 else 'refuses', 'image %s: load returns %d' % ('is well formed' if ok else 'has a bad ' + why, ld.rc), image=im.hex())
        if not ok:
            st.count('refused')
            if not 0 < ld.rc <= 8:
                raise Violation('rc', 'load returns %d' % ld.rc, image=im.hex())
            return
        st.count('accepted')
        if ld.nstr != n or ld.bclen != len(bc) or ld.names != names:
            raise Violation('names', 'strings %s, expected %s; bytecode %d, expected %d' % (ld.names[:9], names[:9], ld.bclen, len(bc)), image=im.hex())
        st.count('names compared', n)
        st.count('duplicate names', len(set(names)) < len(names))
        keys = [n, n + 1, 65535, 65534] + [r.randrange(65536) for _ in range(2)]
        for k in keys:
            k &= 65535
            got = d.key_name(0, k)
            want = names[k] if k < n else None
            st.count('unknown keys', want is None)
            if got != want:
                raise Violation('key-name', 'name of key %d is %r, expected %r' % (k, got, want), image=im.hex())
        ask = [r.choice(names) for _ in range(min(3, n))] + [b'', b'zz', b'nope.x']
        if names:
            w = r.choice(names)
            ask += [w[:-1], w + b'x', w + b' ', w.upper(), w[1:]]
            ask += [names[-1], names[0]]
        for a in ask:
            a = a.split(b'\0')[0]
            want = names.index(a) if a in names else 0xFFFF
            got = d.key_id(0, a)
            st.count('lookups by name')
            st.count('unknown names', want == 0xFFFF)
            if got != want:
                raise Violation('key-id', 'key of %r is %d, expected %d' % (a, got, want), image=im.hex())
        if i % 7 == 0:
            st.count('missing arguments')
            z = d.missing(0)
            if z:
                raise Violation('missing %d' % z, 'a call without one of its arguments: %s' % (Z[z] if z in Z else 'step %d' % z), image=im.hex())
        st.sample(image=im.hex()[:200], strings=[x.decode('latin1')[:30] for x in names[:5]])


class C19(Check):
    pid = 'C19'
    technique = 'independent bytecode walker as oracle over compiled programs and their truncations, opcode and offset corruptions, under ASan/UBSan'
    note = 'Sampled programs; the walker in lib/il.py is trusted. CTX_QUERY is left out of the unknown opcodes.'
    rule = 'compiled programs; every truncation of the short ones and sampled ones of the others, unknown opcodes at instruction starts, branch and table offsets sent outside, random mutations; distinct programs count'
    assumptions = [BUILD]
    quick, thorough = 15000, 300000
    need = ('compiled programs accepted', 'truncations inside an instruction', 'truncations inside a table', 'unknown opcodes', 'jumps sent outside', 'table entries sent outside',
            'instructions assembled', 'random programs judged')

    def start(self, w):
        self.drv = Driver('driver')

    def stop(self):
        self.drv.close()

    def verify(self, bc):
        return self.drv.load(1, bc, raw=True).verify

    def reject(self, bc, what, base):
        self.st.judged(bc)
        v = self.verify(bc)
        if v == 0:
            raise Violation('accepts ' + what.split(' at ')[0], 'the verifier accepts ' + what, bytecode=bc.hex(), base=base)
        if not 0 < v <= 8:
            raise Violation('rc', 'verify returns %d' % v, bytecode=bc.hex())

    def case(self, r, i):
        st = self.st
        if i % 3 == 2:
            return self.assembled(r)
        s, text, im = compiled(self.drv, r, WIDE)
        bc = il.header(im)[4]
        v = self.drv.load(0, im).verify
        st.judged(text)
        if v or self.verify(bc):
            raise Violation('refuses', 'the verifier refuses a compiled program: %d' % v, schema=text, bytecode=bc.hex())
        st.count('compiled programs accepted')
        try:
            insns = il.walk(bc)
        except il.Bad as e:
            raise Violation('malformed', 'the compiled program is malformed: %s' % e, schema=text, bytecode=bc.hex())
        for x in insns:
            for t in il.targets(x):
                if not 0 <= t <= len(bc):
                    raise Violation('target', 'compiled %s at %d leads to %d of %d' % (x.name, x.ip, t, len(bc)), schema=text)
        self.corrupt(r, bc, insns, text)
        if len(insns) > 8:
            st.sample(schema=text[:800], instructions=len(insns), bytecode=bc.hex()[:300])

    def corrupt(self, r, bc, insns, text):
        st = self.st
        # cut inside an instruction: for every one of the sampled instructions, every length
        for x in insns if len(insns) < 12 else r.sample(insns, 12):
            cuts = range(x.ip + 1, x.ip + x.size)
            for cut in cuts if x.size < 30 else r.sample(cuts, 12):
                self.reject(bc[:cut], '%s cut at byte %d' % (x.name, cut - x.ip), text)
                st.count('truncations inside an instruction')
        for x in [x for x in insns if x.table][:3]:
            a, b = x.table[:2]
            for cut in {a, a + 1, a + 5, b - 1, b - 4, r.randrange(a, b)}:
                if a <= cut < b:
                    self.reject(bc[:cut], 'a switch table cut at %d of %d' % (cut - a, b - a), text)
                    st.count('truncations inside a table')
        for x in r.sample(insns, min(4, len(insns))):
            b = bytearray(bc)
            b[x.ip] = r.choice(il.UNKNOWN)
            self.reject(bytes(b), 'unknown opcode %02x at %d' % (b[x.ip], x.ip), text)
            st.count('unknown opcodes')
        for x in [x for x in insns if il.operand_spots(x)][:6]:
            for spot in r.sample(il.operand_spots(x), min(3, len(il.operand_spots(x)))):
                end = x.ip + x.size
                out = r.choice([len(bc) - end + 1, len(bc) - end + 2, -end - 1, 2**31 - 1, -2**31, len(bc) + r.randrange(1000), -end - r.randrange(1, 300)])
                b = bytearray(bc)
                struct.pack_into('<i', b, spot, out)
                self.reject(bytes(b), '%s offset %d at %d' % (x.name, out, spot), text)
                st.count('jumps sent outside' if not x.table else 'table entries sent outside')
            if x.table:
                b = bytearray(bc)
                struct.pack_into('<I', b, x.ip + 3, r.choice([len(bc), 2**32 - 1, 2**31, len(bc) - x.ip - x.size]))
                self.reject(bytes(b), '%s table outside at %d' % (x.name, x.ip), text)
                st.count('table entries sent outside')

    def assembled(self, r):
        """Programs of random instructions: whatever the walker finds malformed must be refused."""
        st = self.st
        parts = []
        for _ in range(r.choice([1, 2, 5, 20, 60])):
            p = il.rand_insn(r, 5)
            if il.NAMES[p[0]] in ('JUMP', 'JUMP_IF_NOT'):
                p = il.pack(il.NAMES[p[0]], 0)
            parts.append(p)
        bc = b''.join(parts)
        st.count('instructions assembled', len(parts))
        if r.random() < 0.5:
            b = bytearray(bc)
            for _ in range(r.choice([1, 2, 4])):
                b[r.randrange(len(b))] = r.choice([0, 1, 255, r.randrange(256)])
            bc = bytes(b)
        self.st.count('random programs judged')
        bad = None
        try:
            insns = il.walk(bc)
            for x in insns:
                for t in il.targets(x):
                    if not 0 <= t <= len(bc):
                        bad = '%s to %d' % (x.name, t)
        except il.Bad as e:
            if e.why in ('unknown', 'short', 'table'):
                bad = str(e)
        v = self.verify(bc)
        st.judged(bc)
        if bad and v == 0:
            raise Violation('accepts random', 'the verifier accepts a malformed program: ' + bad, bytecode=bc.hex())
        st.count('random programs ' + ('refused' if v else 'accepted'))
        if self.drv.hostile(1, 1, b'', 1, 0)['flags'] & 1:
            raise Violation('image', 'image changed', bytecode=bc.hex())


TOK = re.compile(r'\bIO_\w+|0x[0-9A-Fa-f]+|-?(?:\d+(?:\.\d+)?(?:e[+-]?\d+)?|\binf\b|\bnan\b)')


class C27(Check):
    pid = 'C27'
    technique = 'disassembly listing compared with an independent decoding of the image, CLI built with ASan/UBSan'
    note = 'Sampled schemas; values are compared as numbers, labels are not judged.'
    rule = 'compiled schemas covering every instruction the compiler emits, and assembled images covering the rest; distinct images count'
    assumptions = [BUILD]
    variants = ['driver', 'cli']
    quick, thorough = 6000, 100000
    need = ('compiled images', 'assembled images', 'instructions compared', 'switch tables compared', 'strings compared', 'malformed images')

    def start(self, w):
        self.drv = Driver('driver')
        self.cli = cli.Cli('cli')

    def stop(self):
        self.drv.close()
        self.cli.close()

    def case(self, r, i):
        st = self.st
        text = None
        if i % 3:
            s, text, im = compiled(self.drv, r, WIDE)
            st.count('compiled images')
        else:
            parts = []
            for _ in range(r.choice([1, 5, 25])):
                p = il.rand_insn(r, 5)
                if p[0] in (0x51, 0x53):
                    continue
                parts.append(p)
            bc = b''.join(parts)
            if r.random() < 0.3:
                bc = bc[:r.randrange(len(bc) + 1)]
            im = il.image([b'k%d' % k for k in range(r.randrange(4))], bc)
            st.count('assembled images')
        self.cli.put('a.il', im)
        out = self.cli.run('inspect', 'a.il')
        st.judged(im)
        n, so, bo, names, bc = il.header(im)
        where = dict(image=im.hex(), schema=text, listing=out.out.decode(errors='replace')[:4000])
        bad = None
        try:
            insns = il.walk(bc)
        except il.Bad as e:
            bad = e
        lines = out.out.decode(errors='replace').split('\n')
        if bad:
            st.count('malformed images')
            if out.rc == 0:
                raise Violation('malformed', 'inspect is silent about a malformed program: %s' % bad, **where)
            return
        if out.rc != 0:
            if text is None:
                st.count('assembled images refused')
                return
            raise Violation('status', 'inspect ends with %d' % out.rc, **where)
        head = dict(re.findall(r'^(Version|String Count|String Table Offset|Bytecode Offset):\s*(\d+)', out.out.decode(errors='replace'), re.M))
        if [int(head.get(k, -1)) for k in ('Version', 'String Count', 'String Table Offset', 'Bytecode Offset')] != [1, n, so, bo]:
            raise Violation('header', 'header shown as %s' % head, **where)
        b = next((k for k, l in enumerate(lines) if 'Bytecode ---' in l), None)
        t = next((k for k, l in enumerate(lines) if 'String Table ---' in l), None)
        if b is None or t is None:
            raise Violation('listing', 'no listing', **where)
        strs = [re.match(r'\[(\d+)\] (.*)$', l) for l in lines[t + 1:b] if l.strip()]
        got = [(int(m.group(1)), m.group(2)) if m else None for m in strs]
        want = [(k, x.decode('latin1')) for k, x in enumerate(names)]
        if got != want:
            raise Violation('strings', 'strings shown as %s, expected %s' % (got[:9], want[:9]), **where)
        st.count('strings compared', n)
        rows = [l for l in lines[b + 1:] if l.strip()]
        for k in range(max(len(rows), len(insns))):
            if k >= len(rows):
                raise Violation('missing', 'instruction %s at %04X is not listed' % (insns[k].name, insns[k].ip), **where)
            m = re.match(r'([0-9A-Fa-f]{4,}): (\S+)\s*(.*)$', rows[k])
            if k >= len(insns) or not m:
                raise Violation('extra', 'unexpected line %r' % rows[k], **where)
            x = insns[k]
            if int(m.group(1), 16) != x.ip or m.group(2) != x.name:
                raise Violation('instruction', 'line %r, expected %s at %04X' % (rows[k], x.name, x.ip), **where)
            self.operands(x, m.group(3), rows[k], where)
            st.count('instructions compared')
            st.count('seen ' + x.name)
        st.sample(listing='\n'.join(lines[:40]))

    def operands(self, x, text, row, where):
        toks = TOK.findall(text)
        f32 = any(k == 't' and v == 0x18 for k, v, _ in x.fields)
        want = [('t', il.NAMES.get(v, '?')) if kind == 't' else ('v', v) for kind, v, at in x.fields]
        if x.table:
            self.st.count('switch tables compared')
            a, b, d, entries = x.table
            want.append(('v', d))
            if x.name == 'SWITCH_TABLE':
                want += [('v', entries[0][0]), ('v', entries[-1][0])]
            for v, rel in entries:
                want += [('v', v), ('v', rel)]
        if len(toks) != len(want):
            raise Violation('operands', 'line %r shows %d operands, expected %s' % (row[:300], len(toks), want[:12]), **where)
        for t, (k, v) in zip(toks, want):
            if k == 't':
                ok = t == v
            elif t.startswith('IO_'):
                ok = False
            elif t.startswith('0x'):
                ok = int(t, 16) == v
            elif isinstance(v, float):
                f = float(t)
                if f32 and math.isfinite(f):
                    f = struct.unpack('<f', struct.pack('<f', f))[0]
                ok = f == v and math.copysign(1, f) == math.copysign(1, v) or f != f and v != v
            else:
                ok = re.fullmatch(r'-?\d+', t) is not None and int(t) == v
            if not ok:
                raise Violation('operands', 'line %r: shows %s, expected %s' % (row[:300], t, v), **where)
