"""C02-C14, C32: random schemas and records, judged event by event against the model."""
import gen, il, model, schema as S
from core import Case, Violation, Skip, events_tape, check_balance, rcname, OK
from drv import Driver, parse_event
from runner import Check
from model import Machine, VALIDATION, OOB, CRC_MISMATCH, CALLBACK, ARITHMETIC

MODEL = 'the reference model (lib/model.py), written from the documentation and the language rules, decides what is right'
BUILD = 'built with AddressSanitizer and UndefinedBehaviorSanitizer, buffers of exact size on the heap'


class VmCheck(Check):
    technique = 'online trace oracle: model-based monitor over callback events and bytes, under ASan/UBSan'
    note = 'Held on the generated schemas and records only; trusts the reference model and the generator.'
    assumptions = [MODEL, BUILD]
    profiles = [dict()]
    records = 3
    focus = None                 # features that make a run non-trivial (None: any event)
    values = {}

    def start(self, w):
        self.drv = Driver('driver')

    def stop(self):
        self.drv.close()

    def schema(self, r):
        prof = r.choice(self.profiles)
        return gen.Gen(r, gen.profile(**prof)).schema()

    def case(self, r, i):
        s = self.schema(r)
        text = S.render(s, S.Style(r, 1.0) if i % 3 == 0 else None)
        c = Case(self.drv, s, text)
        self.st.count('schemas')
        for _ in range(self.records):
            v = gen.Values(r, **self.values)
            m = c.enc_model(v)
            if 'nan-computed' in m.features:
                self.st.count('skipped: NaN computed')
                continue
            self.record(r, c, s, v, m)

    def interesting(self, m):
        if self.focus is None:
            return len(m.events) > 0
        return any(f in m.features or any(g.startswith(f) for g in m.features) for f in self.focus)

    def seen(self, c, m, what='encode'):
        st = self.st
        sig = (c.text, tuple(m.tape), what) if self.interesting(m) else None
        st.judged(sig)
        st.count('%s %s' % (what, rcname(m.rc)))
        st.count('events compared', len(m.events))
        for f in m.features:
            st.count('feature ' + f)
        if sig and len(m.events) > 3:
            st.sample(schema=c.text[:1500], answers=' '.join(m.tape)[:300], result=rcname(m.rc), bytes=bytes(m.buf[:m.length]).hex()[:300],
                      events=[('%02x' % e[0], e[1], e[2][:60]) for e in m.events[:12]])

    def cap(self, r, m, s):
        if m.rc != OK:
            return m.length + 5000
        return m.length if s.eof else m.length + r.choice([0, 0, 1, 7, 60])

    def roundtrip(self, r, c, s, m):
        """Encode, compare, decode, compare.  Returns (encode result, decode result, decode model) or None."""
        raw, fill = r.randint(0, 1), 0
        res = c.check_encode(m, self.cap(r, m, s), fill, raw, r.choice([0, 255, 170]))
        self.seen(c, m)
        if m.rc != OK:
            return None
        d, dm = c.check_decode(res.data, raw, r.choice([0, 255, 85]))
        self.st.judged()
        self.st.count('decode ' + rcname(dm.rc))
        if dm.rc != OK and 'bits-overflow' not in m.features:
            raise Violation('roundtrip-model', 'a valid record does not decode: %s' % rcname(dm.rc), **c.info(data=res.data, tape=' '.join(m.tape)))
        return res, d, dm

    def record(self, r, c, s, v, m):
        self.roundtrip(r, c, s, m)


SCALARS = dict(scalar=5, bool=1, float=2, enum=1, const=1.5, struct=2)


class C02(VmCheck):
    pid = 'C02'
    quick, thorough = 24000, 600000
    rule = 'random packets of integers, floats, bools, enums, constants and nested structs with random byte orders on packet, struct fields and fields; every record distinct in (schema, values) counts'
    profiles = [dict(w=SCALARS, only=True, endian=0.5, structs=3, fields=(1, 9), unaligned=0.0),
                dict(w=SCALARS, only=True, endian=0.3, structs=4, depth=4, alias=0.3, unaligned=0.0),
                dict(w=dict(SCALARS, array=2, string=1, expr=1), only=True, endian=0.5, structs=3, unaligned=0.2),
                dict(w=dict(SCALARS, bits=1, If=1, switch=1, trans=1, crc=1), only=True, endian=0.5, structs=3)]
    values = dict(overflow=0.0)
    need = ('schemas', 'encode OK', 'decode OK', 'feature const')


class C03(VmCheck):
    pid = 'C03'
    quick, thorough = 20000, 500000
    rule = 'random schemas mixing every feature of the language, valid records; decoded values are fed back to the encoder; every distinct (schema, record) that encodes counts'
    profiles = [dict(), dict(depth=4, structs=4, enums=3, fields=(3, 10)), dict(eof=1), dict(alias=1, structs=3, unaligned=0.5),
                dict(w=dict(array=6, struct=5, switch=3, If=3), structs=4, depth=4)]
    values = dict(overflow=0.0)
    need = ('schemas', 'encode OK', 'decode OK', 're-encoded', 'feature array-eof', 'feature case', 'feature else', 'feature string-nul',
            'feature bits', 'feature crc', 'feature expr', 'feature trans-scale')

    def record(self, r, c, s, v, m):
        out = self.roundtrip(r, c, s, m)
        if not out:
            return
        res, d, dm = out
        # The decoded record is the encoded one (without the model): same names and values
        told = [e for i, e in enumerate(d.events) if i not in dm.own]
        if len(told) != len(res.events):
            raise Violation('roundtrip', 'decode reports %d events, encode had %d' % (len(told), len(res.events)), **c.info(data=res.data))
        approx = any(f in m.features for f in ('trans-scale', 'trans-poly', 'trans-spline', 'trans-add', 'trans-sub', 'trans-mul', 'trans-div'))
        for a, b in zip(res.events, told):
            (o1, k1, v1), (o2, k2, v2) = parse_event(a), parse_event(b)
            if (o1, k1) != (o2, k2):
                raise Violation('roundtrip', 'decode reports %s where encode had %s' % (b, a), **c.info(data=res.data))
            if v1 != v2 and not approx and not (o1 == '30' and v2[1:] and v1.startswith(v2)) and not (o1 == '30' and v2 == 's') \
                    and not (len(v2) == {'31': 511, '32': 131071}.get(o1) and v1.startswith(v2)):
                raise Violation('roundtrip', 'decode gives %s for %s' % (b, a), **c.info(data=res.data))
        if not s.eof or True:
            tape = events_tape(d.events, dm.own)
            again = c.drv.encode(c.slot, len(res.data), tape, 0, r.randint(0, 1), 0, 0)
            if any(f in m.features for f in ('trans-poly',)):
                same = again.rc == OK
            else:
                same = again.rc == OK and again.data == res.data
            if not same:
                raise Violation('re-encode', 're-encoding the decoded record gives %s %s' % (rcname(again.rc), again.data.hex()),
                                **c.info(data=res.data, tape=' '.join(tape)))
            self.st.judged()
            self.st.count('re-encoded')


class C04(VmCheck):
    pid = 'C04'
    quick, thorough = 24000, 600000
    rule = 'random sequences of bit fields (widths 1-64), pads, fills, bools and byte fields, in aligned and unaligned structs, both bit orders, over-wide values included, buffers pre-filled with random bytes; runs with at least one bit field count'
    W = dict(scalar=2, bool=1.5, bits=9, pad=2, fill=2, struct=2, enum=0.5, const=0.7, string=0.3, array=0.7)
    profiles = [dict(w=W, only=True, unaligned=0.5, structs=3, fields=(2, 12)),
                dict(w=W, only=True, unaligned=1.0, structs=3, alias=0.6, fields=(3, 12)),
                dict(w=dict(bits=1), only=True, fields=(4, 20), endian=0.0, structs=0),
                dict(w=dict(bits=6, pad=1, fill=1, float=1, crc=1, If=1, switch=1, array=1, string=1, scalar=1), only=True)]
    values = dict(overflow=0.15)
    focus = ('bits',)
    need = ('schemas', 'encode OK', 'decode OK', 'feature bits', 'feature bits-overflow', 'pre-filled buffers')

    def record(self, r, c, s, v, m):
        self.roundtrip(r, c, s, m)
        if m.rc != OK:
            return
        # The same answers into a buffer that already holds something: bits nobody owns keep it
        fill = r.choice([255, 0xA5, 0x5A, r.randrange(256)])
        m2 = c.enc_model(Tape(m), fill=fill)
        if m2.rc != OK or m2.tape != m.tape:
            return
        res = c.check_encode(m2, m2.length + (0 if s.eof else r.choice([0, 3])), fill, 0, 0)
        self.st.count('pre-filled buffers')
        # ... and the values come back whatever surrounds them
        d, dm = c.check_decode(res.data)
        self.st.judged()
        # bits beyond the fields do not matter: flip one bit of the packet, compare again
        if res.data:
            b = bytearray(res.data)
            for _ in range(2):
                k = r.randrange(len(b) * 8)
                b[k // 8] ^= 1 << k % 8
            c.check_decode(bytes(b))
            self.st.judged()
            self.st.count('decodes of altered packets')


class Tape:
    """Provider that replays the choices of an earlier model run."""

    def __init__(self, m):
        self.t, self.i = m.choices, 0

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def count(self, f, path, m, hi):
        return self.next()

    def integer(self, f, path, m, t):
        return self.next()

    def bits(self, f, path, m, t, n):
        v = self.next()
        return v

    def boolean(self, f, path, m):
        return self.next()

    def enum(self, f, path, m, t, members):
        return self.next()

    def flt(self, f, path, m, t):
        return self.next()

    def string(self, f, path, m, mx):
        return self.next()

    def eng(self, f, path, m, t):
        return self.next()


class C05(VmCheck):
    pid = 'C05'
    quick, thorough = 10000, 300000
    rule = 'random nestings of fixed, prefixed, counted and until-end arrays of every element type, with empty arrays and counts up to the prefix maximum; each record is run with and without the bulk byte path; runs that meet an array count'
    W = dict(scalar=2, bool=0.5, bits=1, enum=0.7, const=0.5, string=1, struct=5, array=10, If=0.7, switch=0.7, float=0.5, trans=0.7, expr=0.5)
    profiles = [dict(w=W, only=True, structs=4, loops=5, depth=4), dict(w=W, only=True, structs=4, loops=6, eof=0.7),
                dict(w=W, only=True, structs=3, alias=0.4, unaligned=0.4),
                dict(w=dict(array=5, scalar=2), only=True, structs=0, big=0.2, fields=(1, 5))]
    values = dict(overflow=0.0, big=0.05)
    focus = ('array',)
    need = ('schemas', 'encode OK', 'decode OK', 'feature array-fixed', 'feature array-pre', 'feature array-dyn', 'feature array-eof',
            'feature array-empty', 'bulk transfers', 'prefix maximum reached', 'large counts dyn', 'large counts fixed')

    def record(self, r, c, s, v, m):
        cap = self.cap(r, m, s)
        a = c.check_encode(m, cap, 0, 0)
        b = c.check_encode(m, cap, 0, 1)
        self.seen(c, m)
        self.st.judged(None, 1)
        if m.rc != OK:
            return
        d0, dm = c.check_decode(a.data, 0)
        d1, _ = c.check_decode(a.data, 1, m=dm)
        self.st.judged(None, 2)
        self.st.count('decode ' + rcname(dm.rc))
        self.st.count('bulk transfers', b.nraw + d1.nraw)
        check_balance(a.events)
        check_balance(d0.events)

    def case(self, r, i):
        if i % 80 == 7:
            return self.maximum(r, i)
        VmCheck.case(self, r, i)

    def maximum(self, r, i):
        """Counts at and around the limits of the prefix."""
        n, t = r.choice([(255, 'uint8'), (254, 'uint8'), (256, 'uint16'), (65535, 'uint16'), (65535, 'uint16'), (65536, 'uint32'), (70000, 'uint32')])
        el = r.choice(['uint8', 'int8', 'uint16', 'bool'])
        how = ['pre', 'dyn', 'pre', 'fixed'][i // 80 % 4]
        self.st.count('large counts ' + how)
        f = S.Field('a', el, arr=('pre', t) if how == 'pre' else ('dyn', 'h') if how == 'dyn' else ('fixed', n, r.choice(['count', 'bracket'])))
        h = S.Field('h', r.choice(['uint32', 'uint64', 'int32']))
        h.hint = [n]
        s = S.Schema([], 'P', [h, f, S.Field('z', 'uint16')])
        s.eof = False
        s.endian = r.choice(['le', 'be'])
        c = Case(self.drv, s, S.render(s))
        v = gen.Values(r)
        v.count = lambda *a: n
        v.integer = lambda f, path, m, tt: n if path == 'h' else gen.Values.integer(v, f, path, m, tt)
        m = c.enc_model(v)
        raw = r.randint(0, 1)
        res = c.check_encode(m, m.length, 0, raw)
        c.check_decode(res.data, raw)
        self.st.judged((n, t, el, i))
        self.st.count('prefix maximum reached' if n in (255, 65535) else 'counts near the maximum')


class C06(VmCheck):
    pid = 'C06'
    quick, thorough = 24000, 600000
    rule = 'random strings of every kind and length around 0, the maximum and the prefix limits, in and outside arrays and branches; packets then altered in prefixes, terminators and length; runs that meet a string count'
    W = dict(scalar=2, string=8, struct=2, array=2, bits=0.7, If=0.5, switch=0.5, const=0.4)
    profiles = [dict(w=W, only=True, structs=3), dict(w=W, only=True, structs=2, unaligned=0.5, eof=0.3)]
    values = dict(overflow=0.0)
    focus = ('string',)
    need = ('schemas', 'encode OK', 'decode OK', 'feature string-nul', 'feature string-uint8', 'feature string-uint16', 'feature string-uint32', 'feature string-cut',
            'altered OK', 'altered OOB', 'altered VALIDATION')

    def record(self, r, c, s, v, m):
        out = self.roundtrip(r, c, s, m)
        if not out:
            return
        data = out[0].data
        spans = [x for x in m.spans if x[1] == 'string']
        for _ in range(4):
            b = bytearray(data)
            if not b:
                break
            k = r.random()
            if spans and k < 0.6:
                p, kind, a, e, o = r.choice(spans)
                e = min(e, len(b))
                if a >= e:
                    continue
                j = r.random()
                if j < 0.3:      # no terminator / other terminator
                    for x in range(a, e):
                        b[x] = b[x] or 65
                elif j < 0.6:    # length prefix or first bytes
                    b[a] = r.choice([0, 1, 255, b[a] ^ 1, (b[a] + 1) & 255])
                elif j < 0.8:
                    b[r.randrange(a, e)] = r.choice([0, 255, 65])
                else:
                    b[min(a + r.randrange(4), e - 1)] = 255
            elif k < 0.8:
                del b[r.randrange(len(b)):]
            else:
                for x in range(r.randrange(len(b)), len(b)):
                    b[x] = b[x] or 1
            d, dm = c.check_decode(bytes(b))
            self.st.judged((c.text, bytes(b)))
            self.st.count('altered ' + rcname(dm.rc))


class C07(VmCheck):
    pid = 'C07'
    quick, thorough = 32000, 800000
    rule = 'random ranges (all types, bounds at the extremes), enums, bools and constants; records with values inside, at, just outside and far outside the rules in both directions, packets altered at random; every distinct run counts'
    W = dict(scalar=6, bool=2, float=3, bits=1, enum=4, const=2.5, struct=2, array=1.5, If=0.5, switch=0.5)
    profiles = [dict(w=W, only=True, range=0.8, enums=3, structs=2), dict(w=W, only=True, range=0.6, enums=3, structs=3, alias=0.3, unaligned=0.3),
                dict(w=dict(scalar=1, float=1, trans=2), only=True, range=0.9, structs=0, poly=False)]
    records = 4
    need = ('schemas', 'encode OK', 'encode VALIDATION', 'broken range', 'broken enum', 'broken bool', 'wire OK', 'wire VALIDATION')

    def case(self, r, i):
        self.values = dict(overflow=0.0, invalid=r.choice([0.0, 0.05, 0.3]))
        VmCheck.case(self, r, i)

    def record(self, r, c, s, v, m):
        for _, rule in v.broken:
            self.st.count('broken ' + rule)
        if v.broken and m.rc == OK or not v.broken and m.rc == VALIDATION:
            raise Skip
        out = self.roundtrip(r, c, s, m)
        if not out:
            # the same bytes arriving on the wire must be refused too
            return
        data = out[0].data
        spans = [x for x in m.spans if x[1] != 'string']
        for _ in range(3):
            if not spans:
                break
            b = bytearray(data)
            for _ in range(r.choice([1, 1, 2])):
                p, kind, a, e, o = r.choice(spans)
                e = min(e, len(b))
                if a >= e:
                    continue
                k = r.random()
                if k < 0.35:
                    x = int.from_bytes(b[a:e], 'little' if o == 'le' else 'big') + r.choice([1, -1])
                    b[a:e] = (x % (1 << 8 * (e - a))).to_bytes(e - a, 'little' if o == 'le' else 'big')
                elif k < 0.6:
                    b[a:e] = bytes(r.randrange(256) for _ in range(e - a))
                elif k < 0.8:
                    b[r.randrange(a, e)] ^= 1 << r.randrange(8)
                else:
                    b[a:e] = r.choice([b'\0', b'\xff', b'\x7f', b'\x80', b'\x01', b'\x02']) * (e - a)
            d, dm = c.check_decode(bytes(b), r.randint(0, 1))
            self.st.judged((c.text, bytes(b)))
            self.st.count('wire ' + rcname(dm.rc))


class C08(VmCheck):
    pid = 'C08'
    quick, thorough = 3000, 120000
    rule = 'packets of random fields with one or more CRC-16/32 fields of random parameters; then bursts of up to the CRC width at random positions and one altered CRC per packet; every distinct run that computes a CRC counts'
    W = dict(scalar=4, bool=1, float=0.7, bits=1.5, string=1, array=1.5, struct=1.5, crc=5, If=0.4, switch=0.4)
    profiles = [dict(w=W, only=True, structs=2, nan=True), dict(w=dict(scalar=3, crc=2, string=1), only=True, structs=0, fields=(2, 10))]
    values = dict(overflow=0.0)
    focus = ('crc',)
    need = ('schemas', 'encode OK', 'decode OK', 'feature crc', 'bursts', 'burst CRC', 'IL CRC flags')
    STD16, STD32 = {0x1021, 0x8005, 0x3D65, 0xC867}, {0x04C11DB7, 0x1EDC6F41, 0x741B8CD7, 0x814141AB, 0xA833982B}

    def record(self, r, c, s, v, m):
        out = self.roundtrip(r, c, s, m)
        if not out:
            return
        data = out[0].data
        if not m.crcs:
            return
        for start, size, o in m.crcs:
            # whatever the neighbours: the value on the wire was compared with the model; now corrupt it
            b = bytearray(data)
            k = start * 8 + r.randrange(size * 8)
            b[k // 8] ^= 1 << k % 8
            c.check_decode(bytes(b))
            self.st.judged((c.text, bytes(b)))
            self.st.count('altered CRCs')

    def case(self, r, i):
        if i % 3:
            return VmCheck.case(self, r, i)
        self.bursts(r, i)

    def bursts(self, r, i):
        """Plain data followed by its CRC: every burst up to the CRC width must be noticed."""
        g = gen.Gen(r, gen.profile())
        p = g.crc_params()
        w = p['width']
        if p.get('refin') != p.get('refout'):
            p['refin'] = p['refout'] = r.random() < 0.5      # bursts are contiguous on the wire only if both agree
        n = r.randint(1, 40)
        o = r.choice(['le', 'be'])
        s = S.Schema([], 'P', [S.Field('d', 'uint8', arr=('fixed', n, 'count')), S.Field('c', 'uint%d' % w, crc=p)], endian=o)
        s.eof = False
        c = Case(self.drv, s, S.render(s))
        m = c.enc_model(gen.Values(r))
        res = c.check_encode(m, m.length)
        self.seen(c, m)
        data = res.data
        c.check_decode(data)
        refl = bool(p.get('refin')) or w == 32
        # bit order in which the CRC consumes the message and the (byte ordered) CRC field
        crc_le = o == 'le'
        for _ in range(6):
            ln = r.randint(1, w)
            # burst within the data, in the bit order of the register
            start = r.randrange(0, max(1, n * 8 - ln + 1))
            pat = (1 | r.getrandbits(ln) | 1 << (ln - 1)) & ((1 << ln) - 1)
            b = bytearray(data)
            for k in range(ln):
                if pat >> k & 1 and start + k < n * 8:
                    pos = start + k
                    b[pos // 8] ^= (1 << pos % 8) if refl else (0x80 >> pos % 8)
            self.one_burst(c, b, CRC_MISMATCH)
        # the CRC itself
        b = bytearray(data)
        for k in range(r.randint(1, w // 8)):
            b[n + r.randrange(w // 8)] ^= r.randrange(1, 256)
        if bytes(b) != data:
            self.one_burst(c, b, CRC_MISMATCH)
        self.flags(r, c, p, m)

    def flags(self, r, c, p, m):
        """The same packet with other reflection flags in its IL: every combination means something."""
        base = len(c.il) - len(il.header(c.il)[4])
        at = [base + i.ip + i.size - 1 for i in il.walk(c.il[base:]) if i.name in ('CRC_16', 'CRC_32')]
        for flags in r.sample(range(4), 2):
            image = bytearray(c.il)
            image[at[0]] = flags
            p.update(refin=bool(flags & 1), refout=bool(flags & 2), raw=True)
            c.ld = c.drv.load(c.slot, bytes(image))
            n = m.length - p['width'] // 8
            crc = model.crc(bytes(m.buf[:n]), p)
            data = bytes(m.buf[:n]) + crc.to_bytes(p['width'] // 8, 'little' if c.s.endian == 'le' else 'big')
            res = c.drv.decode(c.slot, data)
            self.st.judged((c.text, flags, data))
            self.st.count('IL CRC flags')
            if res.rc != 0:
                raise Violation('crc-flags', 'flags %d: the right CRC decodes with %s' % (flags, rcname(res.rc)), **c.info(data=data, il=bytes(image)))
            b = bytearray(data)
            b[n] ^= 1 << r.randrange(8)
            self.one_burst(c, b, CRC_MISMATCH)

    def one_burst(self, c, b, rc):
        res = c.drv.decode(c.slot, bytes(b))
        self.st.judged((c.text, bytes(b)))
        self.st.count('bursts')
        self.st.count('burst ' + ('CRC' if res.rc == CRC_MISMATCH else rcname(res.rc)))
        if res.rc != rc:
            raise Violation('burst', 'a corrupted packet decodes with %s' % rcname(res.rc), **c.info(data=bytes(b)))


class C09(VmCheck):
    pid = 'C09'
    quick, thorough = 10000, 100000
    rule = 'random schemas of every feature without optional or until-end fields; each record encoded into every capacity below its length (all up to 64, sampled above), at and above it, and every strict prefix decoded; every distinct (schema, record) counts'
    profiles = [dict(), dict(w=dict(bits=5, pad=2, fill=2), unaligned=0.5), dict(w=dict(string=5, array=4)), dict(alias=0.7, structs=3, unaligned=0.5),
                dict(w=dict(float=3, expr=3, trans=3, crc=2, const=2))]
    records = 2
    values = dict(overflow=0.0, big=0.002)
    need = ('schemas', 'encode OK', 'decode OK', 'short capacities', 'short capacities inside a bit field', 'prefixes', 'longer capacities')

    def schema(self, r):
        p = dict(r.choice(self.profiles))
        p.update(eof=0.0, optional=0.0, tail_optional=0.0)
        return gen.Gen(r, gen.profile(**p)).schema()

    def record(self, r, c, s, v, m):
        out = self.roundtrip(r, c, s, m)
        if not out:
            return
        data = out[0].data
        n = len(data)
        cuts = list(range(n)) if n <= 64 else sorted(set([0, 1, n - 1, n - 2] + r.sample(range(n), 40)))
        bits = {x[2] for x in m.spans if x[1] == 'bits'}
        for k in cuts:
            raw = r.randint(0, 1)
            fill = r.randrange(256)
            res = c.drv.encode(c.slot, k, m.tape, fill, raw)
            self.st.count('short capacities')
            if k in bits:
                self.st.count('short capacities inside a bit field')
            self.bad_flags(c, res, k)
            if res.rc == OK:
                raise Violation('short-encode', 'encoding %d bytes into %d succeeds' % (n, k), **c.info(tape=' '.join(m.tape), cap=k))
            res, dm = c.check_decode(data[:k], raw)
            self.st.count('prefixes')
            if res.rc == OK:
                raise Violation('short-decode', 'decoding the first %d of %d bytes succeeds' % (k, n), **c.info(data=data, cut=k))
        self.st.judged((c.text, tuple(m.tape)), 2 * len(cuts))
        for k in (n, n + 1, n + r.randint(2, 100)):
            c.check_encode(m, k, 0, r.randint(0, 1))
            self.st.count('longer capacities')
        # trailing bytes are not this packet's
        d, dm = c.check_decode(data + bytes(r.randrange(256) for _ in range(r.choice([1, 5]))))
        self.st.judged(None, 4)

    def bad_flags(self, c, res, k):
        if res.flags & (1 | 16 | 32):
            raise Violation('short-flags', 'encoding into %d bytes: flags %d' % (k, res.flags), **c.info(cap=k))


class C10(VmCheck):
    pid = 'C10'
    quick, thorough = 20000, 500000
    rule = 'random nestings of if/else chains and switches (dense, sparse, negative, extreme case values) in structs, arrays and branches; discriminators at, next to and away from the cases; runs that decide a branch count'
    W = dict(scalar=4, bool=1, bits=1, enum=2, struct=2, array=1, If=5, switch=7, string=0.5, const=0.4, float=0.4)
    profiles = [dict(w=W, only=True, structs=3, enums=2, depth=4), dict(w=W, only=True, structs=2, depth=3, alias=0.3, unaligned=0.3, fields=(2, 6)),
                dict(w=dict(scalar=3, switch=5), only=True, structs=0, enums=0, depth=2), dict(w=dict(scalar=2, If=5, bool=1), only=True, structs=0, depth=4)]
    values = dict(overflow=0.0)
    focus = ('if', 'case', 'default', 'no-case')
    need = ('schemas', 'encode OK', 'decode OK', 'feature if-taken-0', 'feature if-taken-1', 'feature else', 'feature case', 'feature default', 'feature no-case',
            'dispatch tables')

    def case(self, r, i):
        if i % 4 == 1:
            return self.every_value(r, i)
        VmCheck.case(self, r, i)

    def every_value(self, r, i):
        """One switch over 64-bit values: every case, its neighbours, the extremes and wrap-arounds."""
        t = r.choice(['uint64', 'int64', 'uint8', 'int16', 'uint32', 'int32', 'int8', 'uint16'])
        lo, hi = S.int_lo(t), S.int_hi(t)
        n = r.choice([1, 2, 3, 4, 5, 8, 20, 20, 300])
        base = r.choice([lo, hi - 300, -3, 0, r.randint(lo, hi)])
        base = max(lo, min(hi, base))
        spread = r.choice([6, 40, 255, 256, 257, 1 << 20, 1 << 40])
        vals = []
        for _ in range(n):
            x = base + r.randint(0, spread)
            if lo <= x <= hi and x not in vals:
                vals.append(x)
        if not vals:
            vals = [base]
        if r.random() < 0.3 and base + spread <= hi and base + spread not in vals:
            vals.append(base + spread)
        cases = [(x, None, [S.Field('c%d' % k, r.choice(['uint8', 'uint16']))] + ([S.Field('d%d' % k, 'uint8')] if r.random() < 0.3 else [])) for k, x in enumerate(vals)]
        sw = S.Switch('k', cases, r.choice([None, [], [S.Field('other', 'uint32')]]))
        sw.default_at = r.randint(0, len(cases))
        s = S.Schema([], 'P', [S.Field('k', t), sw, S.Field('end', 'uint8')], endian=r.choice(['le', 'be']))
        s.eof = False
        c = Case(self.drv, s, S.render(s))
        self.st.count('schemas')
        if b'\x53' in c.il and len(vals) > 3 and max(vals) - min(vals) < 256:
            self.st.count('dispatch tables')
        probe = set(vals) | {x + d for x in vals for d in (1, -1, 256, -256, 65536, 1 << 32)} | {lo, hi, 0, -1, min(vals) - 1, max(vals) + 1}
        probe = sorted(x for x in probe if lo <= x <= hi)
        for x in r.sample(probe, min(len(probe), 14)):
            v = gen.Values(r)
            v.first = True

            def integer(f, path, m, tt, v=v, x=x):
                return x if path == 'k' else gen.Values.integer(v, f, path, m, tt)
            v.integer = integer
            m = c.enc_model(v)
            res = c.check_encode(m, m.length, 0, 0)
            c.check_decode(res.data)
            self.seen(c, m)
            self.st.judged()
            self.st.count('decode OK')


class C11(VmCheck):
    pid = 'C11'
    quick, thorough = 24000, 600000
    rule = 'random expression trees of all operators and functions within the stack limit, as @expr fields of every type and as conditions, over random operands; spelt with and without redundant parentheses; runs that evaluate an expression count'
    W = dict(scalar=4, float=2.5, bits=1, bool=1, expr=7, If=2.5, struct=1, trans=0.5)
    profiles = [dict(w=W, only=True, structs=2, expr_depth=4, fields=(2, 8)), dict(w=W, only=True, structs=1, expr_depth=3, float_expr=0.9),
                dict(w=dict(scalar=2, expr=5), only=True, structs=0, expr_depth=5, float_expr=0.0), dict(w=W, only=True, structs=3, alias=0.5, expr_depth=2)]
    values = dict(overflow=0.0)
    records = 4
    focus = ('expr', 'if')
    need = ('schemas', 'encode OK', 'decode OK', 'encode ARITHMETIC', 'feature expr', 'feature if', 'respelled', 'operator pairs', 'operator pair records OK')

    BIN = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '==', '!=', '<', '>', '<=', '>=', '&&', '||']
    UN = ['!', '~', '-']

    def pair(self, r, k):
        """The k-th combination of two or three operators, in every shape, over a, b, c, d."""
        a, b, c, d = (('var', x) for x in 'abcd')
        n = len(self.BIN)
        o1, o2, o3 = self.BIN[k % n], self.BIN[k // n % n], r.choice(self.BIN)
        u = r.choice(self.UN)
        B = lambda o, x, y: ('bin', o, x, y)
        return r.choice([lambda: B(o2, B(o1, a, b), c), lambda: B(o1, a, B(o2, b, c)),
                         lambda: B(o2, B(o1, a, b), c), lambda: B(o1, a, B(o2, b, c)),
                         lambda: B(o3, B(o2, B(o1, a, b), c), d), lambda: B(o1, a, B(o2, b, B(o3, c, d))),
                         lambda: B(o2, B(o1, a, b), B(o3, c, d)), lambda: B(o2, ('un', u, B(o1, a, b)), c),
                         lambda: B(o1, ('un', u, a), B(o2, ('un', r.choice(self.UN), b), c)),
                         lambda: B(o1, a, ('un', u, ('un', r.choice(self.UN), B(o2, b, c))))])()

    def pairs(self, r, i):
        fs = [S.Field(x, r.choice(['uint8', 'uint64', 'uint64'])) for x in 'abcd']
        m = len(self.BIN) ** 2
        for j in range(12):
            fs.append(S.Field('x%d' % j, 'uint64', expr=self.pair(r, (i // 4 * 12 + j) % m)))
        s = S.Schema([], 'P', fs)
        s.eof = False
        c = Case(self.drv, s, S.render(s))
        self.st.count('operator pairs', 12)
        small = r.random() < 0.7
        for _ in range(10):
            v = gen.Values(r)
            v.integer = lambda f, path, m, t: r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 12]) if r.random() < (0.9 if small else 0.4) \
                else r.randrange(1 << (8 if t == 'uint8' else 64))
            m = c.enc_model(v)
            self.st.count('operator pair records ' + rcname(m.rc))
            self.roundtrip(r, c, s, m)

    def case(self, r, i):
        if i % 4 == 1:
            return self.pairs(r, i)
        s = self.schema(r)
        style = S.Style(r, 0.3)
        style.parens = r.choice([0.0, 0.0, 0.3, 1.0])
        text = S.render(s, style)
        c = Case(self.drv, s, text)
        self.st.count('schemas')
        if style.parens:
            self.st.count('respelled')
        for _ in range(self.records):
            v = gen.Values(r, **self.values)
            m = c.enc_model(v)
            if 'nan-computed' in m.features:
                self.st.count('skipped: NaN computed')
                continue
            self.record(r, c, s, v, m)

    def record(self, r, c, s, v, m):
        out = self.roundtrip(r, c, s, m)
        if not out:
            return
        # a computed field that arrives with another value is refused
        data = out[0].data
        spans = [x for x in m.spans if x[1] == 'expr']
        if spans:
            p, kind, a, e, o = r.choice(spans)
            b = bytearray(data)
            b[r.randrange(a, e)] ^= 1 << r.randrange(8)
            c.check_decode(bytes(b))
            self.st.judged((c.text, bytes(b)))
            self.st.count('altered computed fields')


class C12(VmCheck):
    pid = 'C12'
    quick, thorough = 24000, 600000
    rule = 'random transforms and parameters on every wire type, singly and as array elements, next to plain neighbours; engineering values on and between the raw steps, raw values arriving on the wire; runs that apply a transform count'
    W = dict(scalar=3, float=1, trans=8, struct=1.5, array=3, bits=0.5, bool=0.5, enum=0.5)
    profiles = [dict(w=W, only=True, structs=2, range=0.15), dict(w=W, only=True, structs=2, unaligned=0.0, eof=0.3, range=0.1),
                dict(w=dict(trans=1), only=True, structs=0, range=0.0)]
    values = dict(overflow=0.0, fuzz=True, invalid=0.02)
    focus = ('trans',)
    need = ('schemas', 'encode OK', 'decode OK', 'encode ARITHMETIC', 'feature trans-scale', 'feature trans-add', 'feature trans-sub', 'feature trans-mul',
            'feature trans-div', 'feature trans-poly', 'feature trans-spline', 'decoded values encoded again')

    def record(self, r, c, s, v, m):
        out = self.roundtrip(r, c, s, m)
        if not out:
            return
        res, d, dm = out
        self.again(r, c, m, d, dm, res.data)
        # random raw values on the wire (integers): decode, encode what was decoded, decode: stable
        if 'trans-poly' not in m.features and 'trans-spline' not in m.features and 'trans-div' not in m.features:
            b = bytearray(res.data)
            for _ in range(3):
                if b:
                    b[r.randrange(len(b))] = r.randrange(256)
            c.check_decode(bytes(b))
            self.st.judged((c.text, bytes(b)))
            self.st.count('decodes of random raw values')

    def again(self, r, c, m, d, dm, data):
        tape = events_tape(d.events, dm.own)
        e = c.drv.encode(c.slot, len(data) + 8 if not c.s.eof else len(data), tape, 0, r.randint(0, 1))
        if e.rc != OK:
            raise Violation('trans-again', 'encoding the decoded engineering values fails with %s' % rcname(e.rc), **c.info(data=data, tape=' '.join(tape)))
        exact = not any(f in m.features for f in ('trans-mul', 'trans-poly')) or True
        d2 = c.drv.decode(c.slot, e.data)
        if d2.rc != OK or (exact and e.data != data and not self.float_trans(c, m)):
            raise Violation('trans-again', 'encoding the decoded values gives other bytes: %s' % e.data.hex(), **c.info(data=data, tape=' '.join(tape)))
        self.st.judged()
        self.st.count('decoded values encoded again')

    def float_trans(self, c, m):
        return m.float_trans


class C13(VmCheck):
    pid = 'C13'
    quick, thorough = 20000, 500000
    rule = 'random packets ending in 1-4 @optional fields of every kind; the full packet, the packet cut before each optional field, and cuts inside the mandatory part; every distinct (schema, record, cut) counts'
    profiles = [dict(tail_optional=1.0, structs=2, eof=0.0, range=0.4, enums=2, endian=0.4), dict(tail_optional=1.0, structs=3, fields=(0, 3), eof=0.0, range=0.6, enums=3)]
    values = dict(overflow=0.0, big=0.0)
    need = ('schemas', 'encode OK', 'decode OK', 'cut decodes', 'fields absent', 'mandatory cuts')

    def schema(self, r):
        return gen.Gen(r, gen.profile(alias=0.0, **r.choice(self.profiles))).schema()

    def record(self, r, c, s, v, m):
        out = self.roundtrip(r, c, s, m)
        if not out:
            return
        data = out[0].data
        tops = m.tops
        first = next((k for k in range(len(tops)) if all(isinstance(t[0], S.Field) and t[0].optional for t in tops[k:])), None)
        if first is None or first == len(tops):
            return
        for k in range(first, len(tops)):
            node, pos, bit, nev = tops[k]
            if bit:
                continue
            d, dm = c.check_decode(data[:pos], r.randint(0, 1))
            self.st.judged((c.text, tuple(m.tape), pos))
            self.st.count('cut decodes')
            if dm.rc == ARITHMETIC:      # a computed field divides by an absent one
                self.st.count('cut decodes with an undefined expression')
                continue
            absent = len(tops) - k
            if d.rc != OK:
                raise Violation('optional-cut', 'a packet without its last %d optional fields is refused: %s' % (absent, rcname(d.rc)), **c.info(data=data, cut=pos))
            self.st.count('fields absent', absent)
            # everything that is present is reported as in the full packet
            full = [e for e in out[1].events]
            n = sum(1 for e in dm.events) if False else None
        lim = tops[first][1]
        for pos in r.sample(range(lim), min(lim, 6)):
            d, dm = c.check_decode(data[:pos], r.randint(0, 1))
            self.st.judged()
            self.st.count('mandatory cuts')
            if d.rc == OK:
                raise Violation('mandatory-cut', 'a packet without mandatory bytes decodes', **c.info(data=data, cut=pos))


class C14(VmCheck):
    pid = 'C14'
    quick, thorough = 20000, 500000
    rule = 'random nestings and reuses of structs with every feature inside, in arrays, branches and under packet aliases; event names, nesting of start/end events and lookups in both directions checked; distinct (schema, record) with a nested name count'
    W = dict(scalar=3, struct=7, array=3, If=2, switch=2, expr=2, bits=1, enum=1, string=1, const=1, trans=1, crc=0.5, float=0.5, bool=0.5)
    profiles = [dict(w=W, only=True, structs=5, enums=2, depth=4, optional=0.0), dict(w=W, only=True, structs=4, alias=0.6, unaligned=0.4)]
    values = dict(overflow=0.0)
    need = ('schemas', 'encode OK', 'decode OK', 'names looked up', 'nested names', 'deep nesting')

    def case(self, r, i):
        self.checked = False
        VmCheck.case(self, r, i)

    def lookups(self, c, r):
        names = c.ld.names
        first = {}
        for k, n in enumerate(names):
            if n is None:
                raise Violation('key-name', 'key %d has no name' % k, **c.info())
            first.setdefault(n, k)
        for n, k in first.items():
            got = c.drv.key_id(c.slot, n)
            if got != k:
                raise Violation('key-id', 'looking up %r gives %d, its name is at %d' % (n, got, k), **c.info())
            self.st.count('names looked up')
        for n in (b'', b'no.such', names[0] + b'.', names[0] + b'x', names[0][:-1], b'.' + names[0]):
            if n not in first and c.drv.key_id(c.slot, n) != 0xFFFF:
                raise Violation('key-id', 'looking up the unknown name %r gives a key' % n, **c.info())
        for k in (len(names), len(names) + 1, 65535, 32768):
            if k >= len(names) and c.drv.key_name(c.slot, k) is not None:
                raise Violation('key-name', 'key %d of %d has a name' % (k, len(names)), **c.info())

    def record(self, r, c, s, v, m):
        if not self.checked:
            self.checked = True
            self.lookups(c, r)
        out = self.roundtrip(r, c, s, m)
        if not out:
            return
        for res in out[:2]:
            deep = check_balance(res.events)
            if deep >= 3:
                self.st.count('deep nesting')
        self.st.count('nested names', sum(1 for e in m.events if e[1] and '.' in e[1]))
        # dotted names follow the enter/exit events (without the model)
        for res in out[:2]:
            stack = []
            for e in res.events:
                op, key, val = parse_event(e)
                name = c.names[key]
                if op == '04':
                    stack.pop()
                    continue
                if op == '38':
                    continue
                parent = name.rsplit('.', 1)[0] if '.' in name else ''
                if parent != (stack[-1] if stack else ''):
                    raise Violation('prefix', 'event %s for %s inside %s' % (op, name, stack), **c.info())
                if op == '03':
                    stack.append(name)


class C32(VmCheck):
    pid = 'C32'
    quick, thorough = 12000, 120000
    rule = 'random schemas and records; the host refuses each callback in turn (all up to 40, sampled above), in both directions; every distinct (schema, record, refused callback) counts'
    profiles = [dict(), dict(w=dict(array=5, struct=4, string=3, trans=2, expr=2)), dict(alias=1, structs=3, unaligned=0.5)]
    # strings the host may leave out, anywhere in the schema
    left_out = [dict(optional=0.7, w=dict(array=4, struct=5, string=9, If=2, switch=2)), dict(optional=0.5, alias=0.7, w=dict(string=9, bits=2, struct=3)),
                dict(optional=0.6, tail_optional=0.7, w=dict(array=3, struct=4, string=5))]
    records = 1
    values = dict(overflow=0.0, big=0.0, max_count=3, budget=30)
    need = ('schemas', 'encode OK', 'decode OK', 'refusals while encoding', 'refusals while decoding', 'refusals of the bulk path',
            'optional strings left out', 'other strings refused')

    def case(self, r, i):
        VmCheck.case(self, r, i)
        for _ in range(3):
            s = gen.Gen(r, gen.profile(**r.choice(self.left_out))).schema()
            c = Case(self.drv, s, S.render(s))
            for _ in range(2):
                m = c.enc_model(gen.Values(r, refuse=r.choice([0.2, 0.5, 1.0]), **self.values))
                if 'refused-string' not in m.features or 'nan-computed' in m.features:
                    continue
                c.check_encode(m, self.cap(r, m, s), 0, r.randint(0, 1), r.choice([0, 255, 170]))
                self.seen(c, m, 'encode with strings left out')
                self.st.count('other strings refused' if m.rc == CALLBACK else 'optional strings left out')

    def record(self, r, c, s, v, m):
        out = self.roundtrip(r, c, s, m)
        if not out:
            return
        cap = m.length
        for what in ('encode', 'decode'):
            base = c.drv.encode(c.slot, cap, m.tape) if what == 'encode' else c.drv.decode(c.slot, out[0].data)
            n = base.ncb
            ks = range(1, n + 1) if n <= 40 else sorted(r.sample(range(1, n + 1), 40))
            for k in ks:
                res = c.drv.encode(c.slot, cap, m.tape, 0, 0, k) if what == 'encode' else c.drv.decode(c.slot, out[0].data, 0, k)
                self.st.judged((c.text, tuple(m.tape), what, k))
                if res.ncb != k and res.rc == OK and res.events == base.events:
                    self.st.count('refusals of the bulk path')      # refusing the bulk transfer is not an error
                    continue
                self.st.count('refusals while %sing' % what[:-1])
                if res.rc != CALLBACK:
                    raise Violation('refusal', 'the host refused callback %d and %s returned %s' % (k, what, rcname(res.rc)),
                                    **c.info(tape=' '.join(m.tape), data=out[0].data, k=k))
                if res.ncb != k:
                    raise Violation('refusal', 'the host refused callback %d and was called %d times' % (k, res.ncb), **c.info(k=k))
                if res.events != base.events[:len(res.events)]:
                    raise Violation('refusal', 'other events before the refusal', **c.info(k=k))
