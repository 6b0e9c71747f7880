"""C25 and C26: the command line tool on JSON records and on files of any kind."""
import json, math, os, random, struct
import gen, model, il as IL, schema as S
from build import VERIF
from cli import Cli
from core import Case, Violation, Skip, events_tape, rcname, OK
from drv import Driver, parse_event, Crash, Timeout
from model import M64, bits_f32, bits_f64
from runner import Check
from schema import Field, If, Switch, Struct, Enum, INT_BITS, is_int, is_signed

BIG = 1 << 53


class Small(gen.Values):
    """Values JSON numbers carry exactly."""

    def integer(self, f, path, m, t):
        for _ in range(20):
            v = super().integer(f, path, m, t)
            if abs(v) <= BIG:
                return v
        return v

    def bits(self, f, path, m, t, n):
        for _ in range(20):
            v = super().bits(f, path, m, t, n)
            if abs(v) <= BIG:
                return v
        return v


class Str(bytes):
    pass


class Free(int):
    """An element nobody asks for."""


class Hex(list):
    """An array of plain uint8."""


def computed_types(nodes, prefix, out):
    """Path -> types of the computed fields."""
    for n in nodes:
        if isinstance(n, If):
            for b in [b for _, b in n.branches] + [n.orelse or []]:
                computed_types(b, prefix, out)
        elif isinstance(n, Switch):
            for b in [b for _, _, b in n.cases] + [n.default or []]:
                computed_types(b, prefix, out)
        elif isinstance(n, Field):
            if isinstance(n.type, Struct):
                computed_types(n.type.body, prefix + n.name + '.', out)
            elif n.expr is not None:
                out.setdefault(prefix + n.name, set()).add(n.type)
    return out


def wire_of(t, w):
    """A computed word as a value of its field's type."""
    if t == 'float':
        return model.bits_f32(model.f32_bits(bits_f64(w)))
    if t == 'double':
        return bits_f64(w)
    if t == 'bool':
        return w != 0
    n = INT_BITS[t]
    w &= (1 << n) - 1
    return w - (1 << n) if is_signed(t) and w >> (n - 1) else w


def field_names(nodes):
    out = []
    for n in nodes:
        if isinstance(n, If):
            for b in [b for _, b in n.branches] + [n.orelse or []]:
                out += field_names(b)
        elif isinstance(n, Switch):
            for b in [b for _, _, b in n.cases] + [n.default or []]:
                out += field_names(b)
        elif isinstance(n, Field):
            out.append(n.name)
    return out


class Ambiguous(Exception):
    pass


BYTES = {0x35, 0x36, 0x37}


def tree(events, names, schema, computed):
    """The record a list of callback events tells of, as nested dicts and lists."""
    root = {}
    stack, counts = [root], {}
    eof = schema.body[-1] if isinstance(schema.body, list) and schema.body and isinstance(schema.body[-1], Field) else \
        schema.body.body[-1] if not isinstance(schema.body, list) and schema.body.body and isinstance(schema.body.body[-1], Field) else None
    eof = eof.name if eof is not None and eof.arr and eof.arr[0] == 'eof' else None
    if eof and field_names(schema.body if isinstance(schema.body, list) else schema.body.body).count(eof) > 1:
        raise Ambiguous

    def add(name, v):
        top = stack[-1]
        if isinstance(top, list):
            top.append(v)
            return
        k = name.rsplit('.', 1)[-1]
        if k in top:
            raise Ambiguous
        top[k] = v

    for e in events:
        op, key, val = parse_event(e)
        o = int(op, 16)
        name = names[key]
        if eof is not None and name == eof and len(stack) == 1 and o not in (0x38, 0x04):
            if o in (0x34, 0x35, 0x36, 0x37, 0x3b):
                raise Ambiguous          # another array of that name in a branch
            a = []
            add(name, a)
            stack.append(a)
        if o == 0x03:
            d = {}
            add(name, d)
            stack.append(d)
        elif o in (0x04, 0x38):
            a = stack.pop()
            if isinstance(a, list) != (o == 0x38):
                raise Ambiguous
            if o == 0x38 and not a:
                a += [Free(0)] * counts.pop(id(a), 0)      # constants: nobody was asked for them
        elif o in (0x34, 0x35, 0x36, 0x37, 0x3b):
            a = []
            add(name, a)
            if int(val):
                stack.append(a)
                counts[id(a)] = int(val)
        elif o in (0x30, 0x31, 0x32, 0x33):
            add(name, Str(bytes.fromhex(val[1:])))
        elif o == 0x18:
            add(name, bits_f32(int(val)))
        elif o == 0x19:
            add(name, bits_f64(int(val)))
        elif o in (0x1A, 0x22):
            add(name, bool(int(val)) if int(val) < 2 else int(val))
        elif o == 0x78:
            t = computed.get(name, set())
            if len(t) != 1:
                raise Ambiguous
            t = next(iter(t))
            v = wire_of(t, int(val))
            if t not in ('float', 'double') and v & M64 != int(val):
                raise Ambiguous          # what later references see of it is the host's choice
            add(name, v)
        else:
            add(name, int(val))
    return root


def no_json(t, decode=False):
    """Values outside what the property covers: NaN, infinities, embedded NULs, on encode
    integers a JSON number does not carry."""
    if isinstance(t, dict):
        return any(no_json(v, decode) for v in t.values())
    if isinstance(t, list):
        return any(no_json(v, decode) for v in t)
    if isinstance(t, Str):
        return b'\0' in t
    if isinstance(t, float):
        return not math.isfinite(t) and not decode
    if isinstance(t, int) and not decode:
        return abs(t) > BIG
    return False


def neg_zero(t):
    if isinstance(t, dict):
        return any(neg_zero(v) for v in t.values())
    if isinstance(t, list):
        return any(neg_zero(v) for v in t)
    return isinstance(t, float) and t == 0 and math.copysign(1, t) < 0


ESC = {8: '\\b', 9: '\\t', 10: '\\n', 12: '\\f', 13: '\\r', 34: '\\"', 92: '\\\\'}


def text_of(t, r, plain=False):
    """JSON in any of its spellings, as latin-1 text."""
    sp = lambda: '' if plain else r.choice(['', '', '', ' ', '\n', '\t', '\r\n  '])
    if isinstance(t, dict):
        ks = list(t)
        if not plain:
            r.shuffle(ks)
        return '{' + sp() + ','.join(sp() + text_of(Str(k.encode()), r, plain) + sp() + ':' + sp() + text_of(t[k], r, plain) + sp() for k in ks) + '}'
    if isinstance(t, list):
        if t and not plain and all(type(x) is int and 0 <= x < 256 for x in t) and isinstance(t, Hex) and r.random() < 0.5:
            return '"' + r.choice([str.upper, str.lower])(bytes(t).hex()) + '"'
        return '[' + sp() + ','.join(sp() + text_of(x, r, plain) + sp() for x in t) + ']'
    if isinstance(t, Str):
        if not plain and r.random() < 0.3:
            try:
                return json.dumps(t.decode('utf-8')).replace('/', r.choice(['/', '\\/']))
            except UnicodeDecodeError:
                pass
        return '"' + ''.join(ESC.get(b) or ('\\u%04x' % b if b < 32 else chr(b)) for b in t) + '"'
    if t is None:
        return 'null'
    if isinstance(t, bool):
        return ('true', '1')[not plain and r.random() < 0.2] if t else ('false', '0')[not plain and r.random() < 0.2]
    if isinstance(t, float):
        return repr(t) if t == t and abs(t) != math.inf else 'null'
    k = 1 if plain else r.random()
    return '%d.0' % t if k < 0.05 else '%de0' % t if k < 0.1 else str(t)


def same(want, got, hexmode):
    """None, or where the JSON differs from the record."""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return 'not an object'
        for k in want:
            if k not in got:
                return '%s missing' % k
            d = same(want[k], got[k], hexmode)
            if d:
                return k + '.' + d
        extra = [k for k in got if k not in want]
        return 'unexpected ' + extra[0] if extra else None
    if isinstance(want, list):
        if isinstance(got, str) and hexmode and all(type(x) is int and 0 <= x < 256 for x in want):
            return None if got.lower() == bytes(want).hex() else 'wrong hex'
        if not isinstance(got, list) or len(got) != len(want):
            return 'not an array of %d' % len(want)
        for i, (a, b) in enumerate(zip(want, got)):
            d = same(a, b, hexmode)
            if d:
                return '%d.%s' % (i, d)
        return None
    if isinstance(want, Str):
        return None if isinstance(got, str) and got.encode('latin-1', 'replace') == want else 'is %r, should be %r' % (got, want)
    if isinstance(want, bool):
        return None if got is want else 'is %r, should be %r' % (got, want)
    if isinstance(want, float):
        if not math.isfinite(want):
            return None
        return None if type(got) in (int, float) and float(got) == want else 'is %r, should be %r' % (got, want)
    return None if type(got) is int and got == want or type(got) is float and abs(want) < BIG and got == want else 'is %r, should be %r' % (got, want)


def parse(data):
    def pairs(p):
        d = {}
        for k, v in p:
            if k in d:
                raise ValueError('member %r twice' % k)
            d[k] = v
        return d
    return json.loads(data.decode('latin-1'), object_pairs_hook=pairs, parse_constant=lambda c: math.nan)


def nodes_of(t, at=()):
    yield at, t
    for k, v in (t.items() if isinstance(t, dict) else enumerate(t) if isinstance(t, list) else ()):
        yield from nodes_of(v, at + (k,))


def put_at(t, at, v):
    if not at:
        return v
    c = dict(t) if isinstance(t, dict) else list(t)
    c[at[0]] = put_at(t[at[0]], at[1:], v)
    return c


WRONG = {dict: [5, True, Str(b'x'), [], [{}], -1.5], list: [{}, 5, True, 1.5], Str: [5, True, {}, [], 1.5, [Str(b'a')]],
         bool: [2, -1, Str(b'true'), {}, [], 0.5, [True]], float: [Str(b'1'), {}, [], [1.5]], int: [Str(b'1'), {}, [], 0.5, 1e300, -1e300, 1 << 65, -(1 << 65), [1]]}


class C25(Check):
    pid = 'C25'
    technique = 'differential monitor: files written by the CLI against bytes and events of the VM under a native host, random records as JSON in random spellings, values of the wrong kind injected; CLI under ASan/UBSan'
    note = 'The native run is judged by C02-C14; names within one object are distinct.'
    rule = 'random schemas and records through encode, decode, --hex and back; failing records, wrong JSON values and cut or altered data; distinct (schema, JSON) count'
    assumptions = ['integers beyond 2^53 are exact from decode only', 'NaN, infinities, embedded NUL bytes and the sign of -0.0 are not carried by JSON']
    variants = ['driver', 'cli', 'cli-fast']
    quick, thorough = 2400, 80000
    need = ('encoded', 'decoded', 'decoded as hex', 'decoded and encoded again', 'failing encodes', 'failing decodes', 'wrong values refused', 'altered data decoded', 'until-end arrays', 'packets around the buffer size')
    profiles = [dict(), dict(eof=1.0), dict(tail_optional=1.0, alias=0.0), dict(alias=1, unaligned=0.5, structs=3), dict(depth=4, structs=4, enums=3),
                dict(w=dict(array=8, struct=3, string=3, scalar=6), structs=3), dict(w=dict(expr=4, If=3, switch=3, trans=3, float=3, crc=1)), dict(range=0.8, w=dict(array=3, struct=3, enum=2, const=2))]

    def start(self, w):
        self.d = Driver('driver')
        self.clis = [Cli('cli'), Cli('cli-fast')]

    def stop(self):
        self.d.close()
        for c in self.clis:
            c.close()

    def boundary(self, r):
        """Packets as long as the buffer of the encoder, or nearly."""
        kind = r.choice(['uint8', 'int16', 'double', 'S', 'bool', ''])
        text = 'struct S { uint8 a; } packet P { uint8 n[] prefix uint16; ' + ('@eof %s x[]; }' % kind if kind else 'uint8 z : 3; }')
        cli = self.clis[1]
        cli.put('p.il', self.d.compile(text)[2])
        n = (1024 << r.choice([0, 0, 0, 1, 2, 3, 4])) + r.randint(-3, 3) - 2
        k = r.choice([0, 1, 2, 5, 1100])
        size = dict(uint8=1, int16=2, double=8, S=1, bool=1).get(kind, 1)
        x = [dict(a=7) if kind == 'S' else True if kind == 'bool' else 1.0 if kind == 'double' else 7] * k
        rec = dict(n=Hex([r.randrange(256)] * n), **({'x': x} if kind else {'z': 5}))
        text2 = text_of(rec, r)
        o, got, before = self.encode(cli, text2, r)
        el = struct.pack('<d', 1.0) if kind == 'double' else b'\x07\0'[:size] if kind not in ('bool', '') else b'\x01' if kind else b'\x05'
        want = struct.pack('<H', n) + bytes(rec['n']) + el * (k if kind else 1)
        if o.rc or got != want:
            raise Violation('boundary', 'a packet of %d bytes (%d elements to the end) is encoded as %s bytes' % (len(want), k, got and len(got)),
                            schema=text, json=text2[-3000:], output=(o.out + o.err).decode(errors='replace')[:300])
        self.st.count('packets around the buffer size')
        self.st.judged((text, text2))

    def case(self, r, i):
        if i % 8 == 7:
            return self.boundary(r)
        s = gen.Gen(r, gen.profile(**r.choice(self.profiles))).schema()
        c = Case(self.d, s, S.render(s))
        cli = self.clis[0 if i % 4 == 0 else 1]
        cli.clean()
        cli.put('p.il', c.il)
        body = s.body if isinstance(s.body, list) else s.body.body
        if s.eof and body[-1].const is not None:
            return                       # no host is told of these elements
        comp = computed_types(body, '', {})
        for k in range(2):
            v = Small(r, budget=r.choice([150, 150, 3000]), overflow=0.0, nan=r.random() < 0.2, invalid=r.choice([0, 0, 0, 0.1]), max_count=r.choice([5, 5, 30]))
            m = c.enc_model(v)
            if 'nan-computed' in m.features:
                continue
            try:
                self.record(r, c, s, cli, comp, m)
            except Ambiguous:
                self.st.count('skipped: names not distinct, or computed values too wide')

    def encode(self, cli, text, r):
        cli.put('r.json', text.encode('latin-1'))
        before = b'before' if r.random() < 0.3 else None
        if before:
            cli.put('o.bin', before)
        elif os.path.exists(cli.path('o.bin')):
            os.unlink(cli.path('o.bin'))
        o = cli.run('encode', 'p.il', 'r.json', 'o.bin')
        return o, cli.get('o.bin'), before

    def decode(self, cli, data, r, hexmode=False):
        cli.put('d.bin', data)
        before = b'before' if r.random() < 0.3 else None
        if before:
            cli.put('o.json', before)
        elif os.path.exists(cli.path('o.json')):
            os.unlink(cli.path('o.json'))
        o = cli.run('decode', 'p.il', 'd.bin', 'o.json', *(['--hex'] if hexmode else []))
        return o, cli.get('o.json'), before

    def failed(self, what, o, got, before, info):
        if o.rc == 0:
            raise Violation(what + ' status', '%s cannot work but ends with status 0' % what, **info)
        if got != before:
            raise Violation(what + ' output', '%s failed but wrote its output file' % what, **info)
        if not o.out and not o.err:
            raise Violation(what + ' silent', '%s failed without a message' % what, **info)

    def record(self, r, c, s, cli, comp, m):
        st = self.st
        cap = m.length if m.rc == OK else m.length + 300
        res = self.d.encode(c.slot, cap, m.tape)
        # what the host gives while encoding; constants and computed values are not asked for
        tree(res.events, c.names, s, comp) if res.rc == OK else None
        rec = tree([e for e in res.events if not e.startswith('78:')], c.names, s, comp) if res.rc == OK else None
        if res.rc != OK:
            if m.rc != res.rc:
                return                       # C03's business
            try:
                tree(res.events, c.names, s, comp)
                rec = tree([e for e in res.events if not e.startswith('78:')], c.names, s, comp)
            except Ambiguous:
                return
            if no_json(rec) or m.rc == model.OOB:
                return
            text = text_of(rec, r)
            o, got, before = self.encode(cli, text, r)
            self.failed('encode', o, got, before, c.info(json=text, result=rcname(res.rc)))
            st.count('failing encodes')
            st.judged((c.text, text))
            return
        if not no_json(rec):
            if r.random() < 0.7:
                self.mark_hex(s, rec)
            text = text_of(rec, r)
            o, got, before = self.encode(cli, text, r)
            info = dict(json=text, native=res.data, cli=got or b'', output=(o.out + o.err).decode(errors='replace')[:500])
            if o.rc:
                raise Violation('encode refused', 'encode refuses a valid record', **c.info(**info))
            if got != res.data:
                raise Violation('encode bytes', 'encode writes other bytes than the VM with a native host', **c.info(**info))
            st.count('encoded')
            st.count('until-end arrays', 'array-eof' in m.features)
            st.judged((c.text, text))
            self.wrong(r, c, s, cli, rec, text)
        data = res.data
        for k in range(3):
            if k:
                b = bytearray(data)
                if not b:
                    break
                if r.random() < 0.4:
                    del b[r.randrange(len(b)):]
                else:
                    for _ in range(r.choice([1, 1, 3])):
                        b[r.randrange(len(b))] = r.choice([0, 255, 128, r.randrange(256)])
                data = bytes(b)
            self.decoding(r, c, s, cli, comp, data, k == 0)

    def mark_hex(self, s, rec):
        """Arrays of plain uint8 may be written as hex strings."""
        def go(nodes, t):
            for n in nodes:
                if isinstance(n, If):
                    for b in [b for _, b in n.branches] + [n.orelse or []]:
                        go(b, t)
                elif isinstance(n, Switch):
                    for b in [b for _, _, b in n.cases] + [n.default or []]:
                        go(b, t)
                elif isinstance(n, Field) and n.name in t:
                    v = t[n.name]
                    if isinstance(n.type, Struct):
                        if n.type.unaligned:
                            continue             # its bytes are bit fields
                        for x in (v if isinstance(v, list) else [v]):
                            if isinstance(x, dict):
                                go(n.type.body, x)
                    elif isinstance(v, list) and n.type == 'uint8' and n.arr and n.arr[0] != 'eof' and not n.bits and n.trans is None and n.range is None and n.const is None:
                        t[n.name] = Hex(v)
        if isinstance(s.body, list) or not s.body.unaligned:
            go(s.body if isinstance(s.body, list) else s.body.body, rec)

    def wrong(self, r, c, s, cli, rec, text):
        """One value replaced by something its field cannot take."""
        ns = [(at, v) for at, v in nodes_of(rec) if at and not isinstance(v, Free)]
        if not ns:
            return
        at, v = r.choice(ns)
        kind = bool if isinstance(v, bool) else Str if isinstance(v, Str) else list if isinstance(v, list) else dict if isinstance(v, dict) else type(v)
        w = r.choice(WRONG[kind])
        bad = put_at(rec, at, w)
        text = text_of(bad, r, True)
        o, got, before = self.encode(cli, text, r)
        self.failed('encode', o, got, before, c.info(json=text, wrong='%s = %r' % (at, w), output=(o.out + o.err).decode(errors='replace')[:300]))
        self.st.count('wrong values refused')
        self.st.judged((c.text, text))

    def decoding(self, r, c, s, cli, comp, data, first):
        st = self.st
        hexmode = r.random() < 0.3
        d = self.d.decode(c.slot, data)
        info = dict(data=data, hex=hexmode)
        if len(d.events) > 300000:           # more than the driver can tell of
            st.count('skipped: endless events')
            return
        if d.rc == OK:
            try:
                want = tree(d.events, c.names, s, comp)
            except Ambiguous:
                st.count('skipped: names not distinct, or computed values too wide')
                return
            if no_json(want, True):
                return
        o, got, before = self.decode(cli, data, r, hexmode)
        info['json'] = (got or b'').decode('latin-1')[:20000]
        if d.rc != OK:
            self.failed('decode', o, got, before, c.info(result=rcname(d.rc), **info))
            st.count('failing decodes')
            st.judged((c.text, data))
            return
        if o.rc:
            raise Violation('decode refused', 'decode refuses what the VM decodes: ' + (o.out + o.err).decode(errors='replace')[:200], **c.info(**info))
        try:
            j = parse(got)
        except (ValueError, TypeError) as e:
            raise Violation('decode json', 'the output is not valid JSON: %s' % e, **c.info(**info))
        diff = same(want, j, hexmode)
        if diff:
            raise Violation('decode value', 'the JSON differs from what a native host is told: ' + diff, **c.info(**info))
        st.count('decoded')
        st.count('decoded as hex', hexmode)
        st.count('altered data decoded', not first)
        st.judged((c.text, data, hexmode))
        st.sample(schema=c.text[:800], data=data.hex()[:200], json=got.decode('latin-1')[:400])
        # and back again, as far as JSON numbers carry the values
        if no_json(want) or neg_zero(want):
            return
        try:
            m = c.dec_model(data)
        except ValueError:
            return                       # outside the knots of a spline
        if m.rc != OK or m.features & {'absent', 'bits-overflow', 'nan-computed'}:
            return
        res = self.d.encode(c.slot, len(data) if s.eof else len(data) + 64, events_tape(d.events, m.own))
        if res.rc == model.OOB:
            return                       # an absent array has its full length here
        o2, bin2, before = self.encode(cli, got.decode('latin-1'), r)
        if res.rc != OK:
            self.failed('encode', o2, bin2, before, c.info(result=rcname(res.rc), **info))
            st.count('failing encodes')
            return
        if s.eof and not self.has_eof(s, j):
            return
        info['again'] = bin2 or b''
        if o2.rc:
            raise Violation('again refused', 'encode refuses what decode wrote: ' + (o2.out + o2.err).decode(errors='replace')[:200], **c.info(**info))
        if bin2 != res.data:
            raise Violation('again bytes', 'encoding what decode wrote gives other bytes than a native host', native=res.data.hex(), **c.info(**info))
        st.count('decoded and encoded again')

    @staticmethod
    def has_eof(s, j):
        b = s.body if isinstance(s.body, list) else s.body.body
        return b and isinstance(b[-1], Field) and bool(j.get(b[-1].name))
