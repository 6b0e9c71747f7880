"""C34: the same records, hostile programs and texts on builds for other targets: 32-bit sizes, unsigned characters."""
import os, struct
import gen, il, schema as S
import ilchecks, textchecks, vmchecks
from core import Violation, flags_text
from drv import Driver
from runner import Check

PARTS = [getattr(vmchecks, 'C%02d' % k) for k in list(range(2, 15)) + [32]]
NAMES = 'OK OOB INVALID_OP VALIDATION CALLBACK STACK_OVERFLOW STACK_UNDERFLOW CRC_MISMATCH ARITHMETIC'.split()


class Pair(Driver):
    """The compiler as usual, the VM as a 32-bit program."""

    def __init__(self):
        self.host = Driver('driver-fast')
        super().__init__('driver32')

    def compile_file(self, path, json=0, il=None):
        return self.host.compile_file(path, json, il)

    def close(self):
        self.host.close()
        super().close()


class Prefixed:
    """Counts into the check's statistics under the part's name."""

    def __init__(self, st, name):
        self.st, self.name = st, name

    def count(self, name, k=1):
        if name.startswith(('encode ', 'decode ', 'events', 'records')):
            self.st.count(name, k)
        elif name == 'schemas':
            self.st.count('schemas as in ' + self.name, k)

    def __getattr__(self, a):
        return getattr(self.st, a)


class C34(Check):
    pid = 'C34'
    technique = ('reference-model oracle and hostile executions over a 32-bit build of the VM (guard pages around every heap block, '
                 'undefined behaviour trapped, boundary monitors in the host), and comparison with an optimised build whose char is unsigned')
    note = ('An i386 process with SSE2 arithmetic stands for 32-bit targets: no big-endian processor, no other compiler. '
            'sin, cos, tan, log and pow come from the stand-in library and are not judged.')
    rule = ('the records of C02 to C14 and C32 run through the 32-bit VM and judged by the same oracles; length prefixes and counts at and around 2^32 '
            'minus the cursor; mutated and random programs; valid and broken texts through both compilers; '
            'distinct (schema, values), programs and texts count')
    assumptions = [vmchecks.MODEL, 'the VM is compiled for i386 with the repository\'s sources as they are; clang\'s 32-bit runtime and this kernel\'s 32-bit system calls are used']
    quick, thorough = 9000, 300000
    variants = ['driver32', 'driver-fast', 'driver-other', 'driver']
    need = ('encode OK', 'decode OK', 'encode VALIDATION', 'encode ARITHMETIC', 'mutated runs', 'huge lengths refused', 'huge counts refused',
            'huge tables refused', 'same result everywhere',
            'same image', 'same refusal', 'same formatting')

    def start(self, w):
        gen.FUNCTIONS[:] = ['sqrt', 'abs']
        self.drv = Pair()
        self.wide, self.other = Driver('driver'), Driver('driver-other')
        self.parts = []
        for c in PARTS:
            p = c(self.tier, self.seed)
            p.drv, p.st = self.drv, Prefixed(self.st, c.pid)
            self.parts.append(p)

    def stop(self):
        self.drv.close()
        self.wide.close()
        self.other.close()

    def case(self, r, i):
        k = i % 22
        if k < 14:
            return self.parts[k].case(r, i // 22)
        if k < 16:
            return self.huge(r)
        if k < 18:
            return self.programs(r)
        if k < 20:
            return self.texts(r)
        return self.mutants(r, i)

    def both(self, raw, im, mode, data, seed, what):
        """A hostile run ends the same way on both widths."""
        out = []
        for d in (self.drv, self.wide, self.other):
            d.load(3, im, raw=raw)
            h = d.hostile(3, mode, data, seed, 300)
            if h['flags'] & ~8:
                raise Violation('monitor-%d' % (h['flags'] & ~8), '%s: %s' % (what, flags_text(h['flags'])), image=im.hex(), data=data.hex(), mode=mode, seed=seed)
            out.append(h)
        self.st.judged((im, data, mode))
        if any(h['flags'] & 8 for h in out):
            self.st.count('over the CPU slice (not judged)')
            return None
        x = [[h[f] for f in ('rc', 'cursor', 'bits', 'ncb')] for h in out]
        if x[0] != x[1] or x[1] != x[2]:
            raise Violation('width', what + ': ' + '; '.join('%s ends with %s at %d.%d after %d callbacks' % (n, NAMES[y[0]], y[1], y[2], y[3])
                            for n, y in zip(('32 bit', '64 bit', 'optimised with unsigned char'), x)), image=im.hex(), data=data.hex(), mode=mode, seed=seed)
        self.st.count('same result everywhere')
        return out[0]

    def texts(self, r):
        """A text compiles to the same image, or is refused with the same words, and formats the same."""
        a, b, st = self.drv.host, self.other, self.st
        for _ in range(6):
            toks = textchecks.tokens(textchecks.some_schema(r))
            if r.random() < 0.6:
                toks = textchecks.soup(r, toks)
            t = bytearray(r.choice([' ', '\n', ' ']).join(toks).encode('latin-1', 'replace'))
            if r.random() < 0.5:
                where = r.choice([b'// %s\n', b'/* %s */', b'/// %s\n', b'"%s"', b'%s', b'x%s'])
                at = r.randrange(len(t) + 1)
                t[at:at] = where % bytes(r.choice([r.randrange(128, 256), 0xC3, 0xA9, 0xFF, 0x80]) for _ in range(r.choice([1, 2, 5])))
            t = bytes(t)
            path = os.path.join(self.drv.dir, 't.cnd')
            with open(path, 'wb') as f:
                f.write(t)
            for json in (0, 1):
                x, y = (d.compile_file(path, json, os.path.join(self.drv.dir, 't.il')) for d in (a, b))
                if x != y:
                    raise Violation('compiler', 'the compiler built with unsigned characters answers %d %r, otherwise %d %r' % (y[0], y[1][-300:], x[0], x[1][-300:]), text=repr(t))
            st.count('same refusal' if x[0] else 'same image')
            x, y = a.format(t), b.format(t)
            if x != y:
                raise Violation('formatter', 'the formatter built with unsigned characters answers differently', text=repr(t), other=repr(y)[:2000], usual=repr(x)[:2000])
            st.judged(t)
            st.count('same formatting', x is not None)

    def huge(self, r):
        """Lengths and counts whose sum with the cursor leaves 32 bits."""
        st = self.st
        for _ in range(20):
            lead = r.choice([0, 0, 1, 2, 5, 9])
            tail = r.choice([0, 1, 4, 30])
            be = r.random() < 0.5
            n = (2**32 - r.choice([0, 1, 2, 3, 4, 5, 8, 9, 12, 13, 4 + lead, lead, lead + tail, 5 + lead, r.randrange(60), 2**31, 2**31 + 1])) % 2**32
            v = n.to_bytes(4, 'big' if be else 'little')
            pre = bytes([il.OPS['SET_ENDIAN_BE']]) * be + il.pack('IO_U8', 0) * lead
            k = r.randrange(6)
            elem = il.pack(r.choice(['IO_U8', 'IO_I8', 'IO_U8', 'IO_U16']), 1) + il.pack('ARR_END')
            data = bytes(lead) + v + bytes(r.choice([0, 65]) for _ in range(tail))
            kind, mode = 'counts', 1
            if k < 2:
                kind, bc = 'lengths', pre + il.pack('STR_PRE_U32', 1) + il.pack('IO_U8', 0) * r.choice([0, 1])
            elif k == 2:
                bc = pre + il.pack('ARR_PRE_U32', 1) + elem
            elif k == 3:
                mode = r.choice([0, 1])
                bc = pre + il.pack('ARR_FIXED', 1, n) + elem
            elif k == 4:
                mode = r.choice([0, 1])
                kind, bc = 'lengths', pre + il.pack('RAW_BYTES', 1, n) + il.pack('IO_U8', 0) * r.choice([0, 1])
            else:
                kind = 'tables'
                hi = r.choice([2**64 - 1, 2**62, 2**32, 2**30 + 5, 2**63])
                bc = pre + il.pack('SWITCH_TABLE', 1, r.choice([0, 0, 3, n])) + il.pack('IO_U8', 0) * r.choice([0, 1]) + struct.pack('<QQi', 0, hi, 0) + bytes(4)
            h = self.both(True, bc, mode, data, r.getrandbits(40), 'huge ' + kind)
            if h and h['rc']:
                st.count('huge %s refused' % kind)
            if h and n > len(data) and kind == 'lengths' and h['rc'] == 0:
                raise Violation('huge-length', 'a length of %d in %d bytes of data succeeds' % (n, len(data)), program=bc.hex(), data=data.hex(), mode=mode)

    def programs(self, r):
        for _ in range(12):
            nk = r.choice([1, 3, 8])
            bc = il.rand_program(r, nk, r.choice([1, 3, 8, 20]))
            if any(op in bc for op in range(il.OPS['SIN'], il.OPS['SIN'] + 6)) and any(i[0] in bc for i in (bytes([il.OPS[n]]) for n in ('SIN', 'COS', 'TAN', 'POW', 'LOG'))):
                continue
            data = bytes(r.choice([0, 1, 2, 255, r.randrange(256)]) for _ in range(r.choice([0, 1, 8, 40, 200])))
            self.st.count('random programs')
            self.both(True, bc, r.choice([0, 1]), data, r.getrandbits(40), 'random program')

    def mutants(self, r, i):
        d, st = self.drv, self.st
        if i % 2:
            s, text, im = ilchecks.compiled(d, r, ilchecks.WIDE)
        else:
            im = il.image([b'a', b'b', b'c'], il.rand_program(r, 3, r.choice([3, 8, 20])))
        d.load(0, im)
        data = bytes(r.choice([0, 1, 2, 255, r.randrange(256)]) for _ in range(r.choice([8, 40, 200])))
        x = d.mutated(0, 400, r.getrandbits(60), 300, data)
        if x['badrun'] >= 0:
            raise Violation('monitor-%d' % x['badflags'], 'hostile run: ' + flags_text(x['badflags']), image=im.hex())
        st.judged(im)
        st.judged(None, sum(x['rcs']))
        for k, v in zip(NAMES, x['rcs']):
            st.count('ended ' + k, v)
        st.count('mutated runs', sum(x['rcs']))
        st.count('over the CPU slice (not judged)', x['timeouts'])
