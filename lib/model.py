"""Reference model: interprets a schema (lib/schema.py) over bytes, independently of the
repository's compiler and VM, and says which events, answers and bytes one run has."""
import math, struct
from schema import Field, Pad, Fill, If, Switch, Struct, Enum, INT_BITS, is_int, is_signed, int_lo, int_hi

OK, OOB, INVALID_OP, VALIDATION, CALLBACK, STACK_OVERFLOW, STACK_UNDERFLOW, CRC_MISMATCH, ARITHMETIC = range(9)
RC = ['OK', 'OOB', 'INVALID_OP', 'VALIDATION', 'CALLBACK', 'STACK_OVERFLOW', 'STACK_UNDERFLOW', 'CRC', 'ARITHMETIC']
IO = {'uint8': 0x10, 'uint16': 0x11, 'uint32': 0x12, 'uint64': 0x13, 'int8': 0x14, 'int16': 0x15,
      'int32': 0x16, 'int64': 0x17, 'float': 0x18, 'double': 0x19, 'bool': 0x1A}
BIT_U, BIT_I, BIT_BOOL = 0x20, 0x21, 0x22
STR_NULL, STR_PRE = 0x30, {'uint8': 0x31, 'uint16': 0x32, 'uint32': 0x33}
ARR_FIXED, ARR_PRE, ARR_END, ARR_EOF, ARR_DYN = 0x34, {'uint8': 0x35, 'uint16': 0x36, 'uint32': 0x37}, 0x38, 0x3A, 0x3B
ENTER, EXIT, STORE = 0x03, 0x04, 0x78
M64 = (1 << 64) - 1


class Fail(Exception):
    def __init__(self, rc):
        super().__init__(RC[rc])
        self.rc = rc


def f64_bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bits_f64(b):
    return struct.unpack('<d', struct.pack('<Q', b & M64))[0]


def f32_bits(x):
    """Bits of the double rounded to single precision, to nearest even."""
    if x != x:
        b = f64_bits(x)
        return ((b >> 32) & 0x80000000) | 0x7F800000 | ((b >> 29) & 0x7FFFFF) | 0x400000
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return 0x7F800000 if x > 0 else 0xFF800000


def bits_f32(b):
    """The double equal to the single with these bits."""
    if (b & 0x7F800000) == 0x7F800000 and b & 0x7FFFFF:
        return bits_f64(((b & 0x80000000) << 32) | 0x7FF0000000000000 | ((b & 0x7FFFFF) << 29) | (1 << 51))
    return struct.unpack('<f', struct.pack('<I', b))[0]


def crc(data, c):
    """Parametrised CRC, the slow textbook way."""
    w = c['width']
    poly = c.get('poly') if c.get('poly') is not None else (0x1021 if w == 16 else 0x04C11DB7)
    reg = c.get('init') if c.get('init') is not None else (0xFFFF if w == 16 else 0xFFFFFFFF)
    xor = c.get('xor') if c.get('xor') is not None else (0 if w == 16 else 0xFFFFFFFF)
    # the compiler reflects every CRC-32; 'raw' takes the flags as they stand in the IL
    refin = (w == 32 and not c.get('raw')) or c.get('refin')
    refout = (w == 32 and not c.get('raw')) or c.get('refout')
    top, mask = 1 << (w - 1), (1 << w) - 1
    if refin and refout:
        # The usual mirrored formulation (equal, and quicker to read off the standards)
        rp, reg = int(format(poly, '0%db' % w)[::-1], 2), int(format(reg, '0%db' % w)[::-1], 2)
        for byte in data:
            reg ^= byte
            for _ in range(8):
                reg = (reg >> 1) ^ rp if reg & 1 else reg >> 1
        return reg ^ xor
    for byte in data:
        if refin:
            byte = int(format(byte, '08b')[::-1], 2)
        for i in range(7, -1, -1):
            bit = (byte >> i & 1) ^ (1 if reg & top else 0)
            reg = (reg << 1) & mask
            if bit:
                reg ^= poly
    if refout:
        reg = int(format(reg, '0%db' % w)[::-1], 2)
    return reg ^ xor


def round_half_away(x):
    if abs(x) >= 2.0 ** 52 or x != x:
        return x
    t = math.trunc(x)
    d = x - t
    return float(t + 1) if d >= 0.5 else float(t - 1) if d <= -0.5 else float(t)


def poly_eval(cs, x):
    y = 0.0
    for c in reversed(cs):
        y = y * x + c
    return y


def spline_eval(pts, x):
    xs, ys = pts[0::2], pts[1::2]
    for i in range(len(xs) - 1):
        if xs[i] <= x <= xs[i + 1]:
            return ys[i] + (x - xs[i]) * (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])
    raise OverflowError('outside the knots')


def trans_kind(t):
    return 'f' if t[0] in ('scale', 'poly', 'spline') else 'i'


def to_eng(t, raw):
    """Engineering value of a raw wire value."""
    if t[0] == 'scale':
        return float(raw) * (1.0 if t[1] is None else float(t[1])) + (0.0 if t[2] is None else float(t[2]))
    if t[0] == 'poly':
        return poly_eval([float(c) for c in t[1]], float(raw))
    if t[0] == 'spline':
        return spline_eval([float(c) for c in t[1]], float(raw))
    r, v = int(raw), t[1]
    if t[0] == 'add':
        return wrap_i64(r + v)
    if t[0] == 'sub':
        return wrap_i64(r - v)
    if t[0] == 'mul':
        return wrap_i64(r * v)
    return wrap_i64(tdiv(r, v))


def wrap_i64(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


def tdiv(a, b):
    if b == 0:
        return a
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


# --- expressions ---------------------------------------------------------------
class Depth(Exception):
    pass


def expr_depth(e):
    k = e[0]
    if k in ('num', 'fnum', 'bool', 'var', 'fvar'):
        return 1
    if k in ('tofloat', 'toint'):
        return expr_depth(e[1])
    if k == 'un':
        return expr_depth(e[2])
    if k == 'bin':
        return max(expr_depth(e[2]), 1 + expr_depth(e[3]))
    d = [expr_depth(a) for a in e[2]]
    return max(i + x for i, x in enumerate(d))


def itof(w):
    return float(w - (1 << 64) if w >> 63 else w)


def ftoi(x):
    if not (-9223372036854775808.0 <= x < 9223372036854775808.0):
        raise Fail(ARITHMETIC)
    return int(x) & M64


def evaluate(e, load):
    """('i', 64-bit word) or ('f', double)."""
    k = e[0]
    if k == 'num':
        return 'i', e[1] & M64
    if k == 'fnum':
        return 'f', float(e[1])
    if k == 'bool':
        return 'i', int(e[1])
    if k == 'var':
        return 'i', load(e[1])
    if k == 'fvar':
        return 'f', bits_f64(load(e[1]))
    if k == 'tofloat':
        t, v = evaluate(e[1], load)
        return 'f', v if t == 'f' else itof(v)
    if k == 'toint':
        t, v = evaluate(e[1], load)
        return 'i', v if t == 'i' else ftoi(v)
    if k == 'un':
        t, v = evaluate(e[2], load)
        if e[1] == '-':
            return (t, -v) if t == 'f' else (t, -v & M64)
        assert t == 'i'
        return 'i', (~v & M64) if e[1] == '~' else int(v == 0)
    if k == 'call':
        a = []
        for x in e[2]:
            t, v = evaluate(x, load)
            a.append(v if t == 'f' else itof(v))
        return 'f', call(e[1], a)
    op = e[1]
    ta, a = evaluate(e[2], load)
    tb, b = evaluate(e[3], load)
    if 'f' in (ta, tb) and op in ('+', '-', '*', '/', '==', '!=', '<', '>', '<=', '>='):
        a = a if ta == 'f' else itof(a)
        b = b if tb == 'f' else itof(b)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return 'i', int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op])
        if op == '/':
            if b == 0:
                raise Fail(ARITHMETIC)
            return 'f', fdiv(a, b)
        return 'f', {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[op]()
    assert ta == tb == 'i', (op, ta, tb)
    if op in '/%':
        if b == 0:
            raise Fail(ARITHMETIC)
        return 'i', a // b if op == '/' else a % b
    r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b,
         '^': lambda: a ^ b, '<<': lambda: a << b if b < 64 else 0, '>>': lambda: a >> b if b < 64 else 0,
         '&&': lambda: int(a != 0 and b != 0), '||': lambda: int(a != 0 or b != 0), '==': lambda: int(a == b),
         '!=': lambda: int(a != b), '<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b),
         '>=': lambda: int(a >= b)}[op]()
    return 'i', r & M64


def fdiv(a, b):
    try:
        return a / b
    except OverflowError:
        return math.copysign(math.inf, a) * math.copysign(1, b)


def call(fn, a):
    x = a[0]
    try:
        if fn in ('sin', 'cos', 'tan'):
            return getattr(math, fn)(x) if math.isfinite(x) else math.nan
        if fn == 'sqrt':
            if x < 0:
                raise Fail(ARITHMETIC)
            return math.sqrt(x)
        if fn == 'log':
            if x <= 0:
                raise Fail(ARITHMETIC)
            return math.log(x)
        if fn == 'abs':
            return abs(x)
        y = a[1]
        if x < 0 and y == y and (math.isinf(y) is False and math.floor(y) != y):
            raise Fail(ARITHMETIC)
        if x == 0 and y <= 0:
            raise Fail(ARITHMETIC)
        return math.pow(x, y)
    except OverflowError:
        if fn == 'pow':
            return -math.inf if x < 0 and math.fmod(a[1], 2) else math.inf
        return math.inf
    except ValueError:
        return math.nan


# --- the machine ---------------------------------------------------------------
class Machine:
    """One run.  mode 'enc': `prov` supplies the values; mode 'dec': they come from `data`.
    After run(): rc, events [(op, name or None, text)], tape, data/pos, store, spans."""

    def __init__(self, schema, mode, prov=None, data=None, fill=0, tail_at=None):
        self.schema, self.mode, self.prov, self.fill = schema, mode, prov, fill
        self.enc = mode == 'enc'
        self.buf = bytearray() if self.enc else bytearray(data)
        self.pos = self.bit = 0
        self.events, self.tape, self.store = [], [], {}
        self.spans = []          # (path, kind, start, end, order) of every leaf on the wire
        self.elements = 0
        self.loop_depth = 0
        self.max_loop = 0
        self.rc = None
        self.features = set()
        self.tops = []           # (field, start position) of the packet's own nodes, as reached
        self.crcs = []           # (start, width, order) of every CRC
        self.choices = []        # what the provider chose, in order
        self.float_trans = False # a transformed floating point field was met
        self.own = set()         # indices of decode events that encoding does not ask for

    def run(self):
        body = self.schema.body if isinstance(self.schema.body, list) else None
        order = self.schema.endian or 'le'
        try:
            if body is None:
                s = self.schema.body
                self.body(s.body, '', 'be' if s.unaligned else order, s.unaligned, top=True)
                if s.unaligned and self.bit:
                    raise Fail(VALIDATION)
            else:
                self.body(body, '', order, False, top=True)
            self.rc = OK
        except Fail as e:
            self.rc = e.rc
        return self

    @property
    def length(self):
        return self.pos + (1 if self.bit else 0)

    # raw access
    def align(self):
        if self.bit:
            self.pos += 1
            self.bit = 0

    def need(self, n):
        """Room for n more bytes at the byte position."""
        if self.enc:
            if len(self.buf) < self.pos + n:
                self.buf.extend(bytes([self.fill]) * (self.pos + n - len(self.buf)))
            return True
        return self.pos + n <= len(self.buf)

    def put(self, v, size, order):
        self.need(size)
        self.buf[self.pos:self.pos + size] = (v & ((1 << 8 * size) - 1)).to_bytes(size, 'little' if order == 'le' else 'big')
        self.pos += size

    def get(self, size, order):
        if not self.need(size):
            raise Fail(OOB)
        v = int.from_bytes(self.buf[self.pos:self.pos + size], 'little' if order == 'le' else 'big')
        self.pos += size
        return v

    def have_bits(self, n):
        return self.pos * 8 + self.bit + n <= len(self.buf) * 8

    def put_bits(self, v, n, order):
        self.need((self.bit + n + 7) // 8)
        for i in range(n):
            if order == 'be':
                b, m = v >> (n - 1 - i) & 1, 0x80 >> self.bit
            else:
                b, m = v >> i & 1, 1 << self.bit
            self.buf[self.pos] = self.buf[self.pos] & ~m & 255 | (m if b else 0)
            self.step(1)

    def get_bits(self, n, order):
        v = 0
        for i in range(n):
            byte = self.buf[self.pos]
            if order == 'be':
                v = v << 1 | byte >> (7 - self.bit) & 1
            else:
                v |= (byte >> self.bit & 1) << i
            self.step(1)
        return v

    def step(self, n):
        p = self.bit + n
        self.pos += p // 8
        self.bit = p % 8

    def ask(self, kind, *a):
        v = getattr(self.prov, kind)(*a)
        self.choices.append(v)
        return v

    def ev(self, op, name, text):
        self.events.append((op, name, text))

    def span(self, path, kind, start, order):
        self.spans.append((path, kind, start, self.length, order))

    # structure
    def body(self, nodes, prefix, order, bitmode, top=False):
        for n in nodes:
            if top:
                self.tops.append((n, self.pos, self.bit, len(self.events)))
            if isinstance(n, Field):
                self.field(n, prefix, order, bitmode)
            elif isinstance(n, Pad):
                self.pad(n.n, order)
            elif isinstance(n, Fill):
                self.fill_byte(n.bit or 0, order)
            elif isinstance(n, If):
                self.features.add('if')
                for i, (c, b) in enumerate(n.branches):
                    if expr_depth(c) > 8:
                        raise Fail(STACK_OVERFLOW)
                    t, v = evaluate(c, lambda k: self.store.get(prefix + k, 0))
                    if t == 'f':
                        v = f64_bits(v)
                    if v:
                        self.features.add('if-taken-%d' % min(i, 3))
                        self.body(b, prefix, order, bitmode)
                        break
                else:
                    if n.orelse is not None:
                        self.features.add('else')
                        self.body(n.orelse, prefix, order, bitmode)
            elif isinstance(n, Switch):
                d = self.store.get(prefix + n.disc, 0)
                for v, label, b in n.cases:
                    if v & M64 == d:
                        self.features.add('case')
                        self.body(b, prefix, order, bitmode)
                        break
                else:
                    self.features.add('default' if n.default is not None else 'no-case')
                    if n.default is not None:
                        self.body(n.default, prefix, order, bitmode)
            else:
                raise TypeError(n)

    def pad(self, n, order):
        if self.enc:
            self.put_bits(0, n, order)
        else:
            if not self.have_bits(n):
                raise Fail(OOB)
            self.step(n)

    def fill_byte(self, b, order):
        if self.bit:
            n = 8 - self.bit
            if self.enc:
                self.put_bits(M64 if b else 0, n, order)
            else:
                self.step(n)

    def field(self, f, prefix, order, bitmode):
        if f.pre_pad:
            if f.pre_pad[0] == 'pad':
                self.pad(f.pre_pad[1], order)
            else:
                self.fill_byte(f.pre_pad[1] or 0, order)
        o = f.endian or order
        path = prefix + f.name
        if f.arr:
            self.array(f, path, prefix, o, bitmode)
        else:
            self.single(f, path, prefix, o, bitmode, f.optional and not self.enc)

    def array(self, f, path, prefix, o, bitmode):
        a = f.arr
        optional = f.optional and not self.enc
        self.align()
        start = self.pos
        missing = optional and self.pos >= len(self.buf)
        self.features.add('array-' + a[0])
        if a[0] == 'fixed':
            n = 0 if missing else a[1]
            self.ev(ARR_FIXED, path, str(n))
        elif a[0] == 'pre':
            bits = INT_BITS[a[1]]
            if self.enc:
                n = self.ask('count', f, path, self, (1 << bits) - 1)
                self.tape.append('%x' % n)
                self.ev(ARR_PRE[a[1]], path, str(n))
                self.put(n, bits // 8, o)
            else:
                n = 0 if missing else self.get(bits // 8, o)
                self.ev(ARR_PRE[a[1]], path, str(n))
            self.span(path, 'count', start, o)
        elif a[0] == 'dyn':
            n = self.store.get(prefix + a[1], 0)
            if n > 0xFFFFFFFF:
                raise Fail(ARITHMETIC)
            if missing:
                n = 0
            self.ev(ARR_DYN, path, str(n))
        else:
            n = None
            if self.enc:
                n = self.ask('count', f, path, self, 1 << 16)
            elif self.pos >= len(self.buf):
                n = 0
        if n == 0:
            self.features.add('array-empty')
            return
        self.loop_depth += 1
        self.max_loop = max(self.max_loop, self.loop_depth)
        if self.loop_depth > 8:
            raise Fail(STACK_OVERFLOW if a[0] == 'eof' else OOB)
        i = 0
        while n is None or i < n:
            mark = self.pos
            self.elements += 1
            if self.elements > 200000:
                raise OverflowError('too many elements')
            self.single(f, path, prefix, o, bitmode, False)
            self.align()
            i += 1
            if n is None:
                if self.pos >= len(self.buf):
                    break
                if self.pos == mark:
                    raise Fail(VALIDATION)
        self.loop_depth -= 1
        self.ev(ARR_END, None, '')

    def single(self, f, path, prefix, o, bitmode, optional):
        t = f.type
        if isinstance(t, Struct):
            if optional and self.pos >= len(self.buf):
                self.features.add('absent')
                return
            self.ev(ENTER, path, '')
            self.body(t.body, path + '.', 'be' if t.unaligned else ('be' if bitmode and not f.endian else o), t.unaligned)
            if t.unaligned and self.bit:
                raise Fail(VALIDATION)
            self.ev(EXIT, None, '')
            return
        if isinstance(t, Enum):
            return self.scalar(f, path, t.type, o, optional, [v for _, v, _ in t.members])
        if t == 'string':
            return self.string(f, path, o, optional)
        if f.const is not None:
            return self.const(f, path, o, optional)
        if f.crc is not None:
            return self.crc(f, path, o, optional)
        if f.expr is not None:
            return self.computed(f, path, prefix, o, optional)
        bits = f.bits
        if not bits and bitmode:
            bits = 1 if t == 'bool' else INT_BITS[t]
        if bits:
            return self.bitfield(f, path, t, bits, o, optional)
        self.scalar(f, path, t, o, optional, None)

    def bitfield(self, f, path, t, bits, o, optional):
        self.features.add('bits')
        start = self.pos
        op = BIT_BOOL if t == 'bool' else BIT_I if is_signed(t) else BIT_U
        if self.enc:
            v = self.ask('bits', f, path, self, t, bits)
            self.tape.append('%x' % (v & M64))
            self.ev(op, path, str(v))
            self.store[path] = v & M64
            if op == BIT_BOOL and v > 1:
                raise Fail(VALIDATION)
            self.put_bits(v & ((1 << bits) - 1), bits, o)
        else:
            if not self.have_bits(bits):
                if not optional:
                    raise Fail(OOB)
                self.features.add('absent')
                v = 0
            else:
                v = self.get_bits(bits, o)
                if op == BIT_I and v >> (bits - 1):
                    v -= 1 << bits
            self.ev(op, path, str(v))
            self.store[path] = v & M64
        self.span(path, 'bits', start, o)

    def const(self, f, path, o, optional):
        self.features.add('const')
        self.align()
        size = INT_BITS[f.type] // 8
        start = self.pos
        v = f.const
        if self.enc:
            self.put(v, size, o)
        else:
            if optional and self.pos + size > len(self.buf):
                self.features.add('absent')
                return
            if self.get(size, o) != v & ((1 << 8 * size) - 1):
                raise Fail(VALIDATION)
            self.own.add(len(self.events))
            self.ev(IO[f.type], path, str(v))
            self.store[path] = v & M64
        self.span(path, 'const', start, o)
        if f.range is not None and not f.range[0] <= v <= f.range[1]:
            raise Fail(VALIDATION)

    def crc(self, f, path, o, optional):
        self.features.add('crc')
        self.align()
        size = f.crc['width'] // 8
        want = crc(self.buf[:self.pos], f.crc)
        start = self.pos
        if self.enc:
            self.put(want, size, o)
        else:
            if optional and self.pos + size > len(self.buf):
                self.features.add('absent')
                return
            if self.get(size, o) != want:
                raise Fail(CRC_MISMATCH)
        self.crcs.append((start, size, o))
        self.span(path, 'crc', start, o)

    def computed(self, f, path, prefix, o, optional):
        self.features.add('expr')
        if expr_depth(f.expr) > 8:
            raise Fail(STACK_OVERFLOW)
        t, v = evaluate(f.expr, lambda k: self.store.get(prefix + k, 0))
        isf = f.type in ('float', 'double')
        if isf:
            d = v if t == 'f' else itof(v)
            w = f64_bits(d)
        else:
            w = v if t == 'i' else ftoi(v)
        self.ev(STORE, path, ('nan' if isf and d != d else str(w)))
        self.store[path] = w
        self.align()
        if f.type == 'bool' and w > 1:
            raise Fail(VALIDATION)
        size = 1 if f.type == 'bool' else 4 if f.type == 'float' else 8 if f.type == 'double' else INT_BITS[f.type] // 8
        wire = f32_bits(d) if f.type == 'float' else w & ((1 << 8 * size) - 1)
        start = self.pos
        if self.enc:
            if isf and d != d:
                self.features.add('nan-computed')
            self.put(wire, size, o)
        else:
            if optional and self.pos + size > len(self.buf):
                self.features.add('absent')
                return
            got = self.get(size, o)
            if got != wire:
                if f.type == 'float':
                    diff = bits_f32(wire) - bits_f32(got)
                    if not -1e-5 <= diff <= 1e-5:
                        raise Fail(VALIDATION)
                elif f.type == 'double':
                    diff = d - bits_f64(got)
                    if not -1e-7 <= diff <= 1e-7:
                        raise Fail(VALIDATION)
                else:
                    raise Fail(VALIDATION)
        self.span(path, 'expr', start, o)

    def scalar(self, f, path, t, o, optional, members):
        self.align()
        size = {'bool': 1, 'float': 4, 'double': 8}.get(t) or INT_BITS[t] // 8
        start = self.pos
        isf = t in ('float', 'double')
        if not self.enc and optional and not self.need(size):
            self.features.add('absent')
            self.ev(IO[t], path, '0')
            self.store[path] = 0
            return
        if self.enc:
            raw = self.encode_scalar(f, path, t, members)
        else:
            w = self.get(size, o)
            if t == 'bool' and w > 1:
                raise Fail(VALIDATION)
            raw = w if isf else (w - (1 << 8 * size) if is_int(t) and is_signed(t) and w >> (8 * size - 1) else w)
            self.decode_event(f, path, t, raw)
        # raw: bits for floats, the number otherwise
        if self.enc:
            self.put(raw, size, o)
        self.span(path, t, start, o)
        if members is not None and raw not in members:
            raise Fail(VALIDATION)
        if f.range is not None:
            if isf:
                conv = (lambda s: bits_f32(f32_bits(float(s)))) if t == 'float' else float
                x = bits_f32(raw) if t == 'float' else bits_f64(raw)
                ok = conv(f.range[0]) <= x <= conv(f.range[1])
            else:
                ok = f.range[0] <= raw <= f.range[1]
            if not ok:
                raise Fail(VALIDATION)

    def host_float(self, t, raw):
        return f64_bits(bits_f32(raw)) if t == 'float' else raw

    def decode_event(self, f, path, t, raw):
        isf = t in ('float', 'double')
        if f.trans is None:
            self.ev(IO[t], path, str(raw))
            self.store[path] = self.host_float(t, raw) if isf else raw & M64
            return
        self.features.add('trans-' + f.trans[0])
        x = (bits_f32(raw) if t == 'float' else bits_f64(raw)) if isf else raw
        if trans_kind(f.trans) == 'f':
            e = to_eng(f.trans, x)
            self.ev(IO['double'], path, ('~%r' % e) if f.trans[0] in ('poly', 'spline') else str(f64_bits(e)))
            self.store[path] = f64_bits(e)
        else:
            if isf:
                if not (-9223372036854775808.0 <= x < 9223372036854775808.0):
                    raise Fail(ARITHMETIC)
                x = int(x)
            x = wrap_i64(x)
            e = to_eng(f.trans, x)
            self.ev(IO['int64'], path, str(e))
            self.store[path] = e & M64

    def encode_scalar(self, f, path, t, members):
        isf = t in ('float', 'double')
        if f.trans is not None:
            self.features.add('trans-' + f.trans[0])
            self.float_trans |= isf
            raw, eng = self.ask('eng', f, path, self, t)
            if trans_kind(f.trans) == 'f':
                w = f64_bits(eng)
                self.tape.append('%x' % w)
                self.ev(IO['double'], path, str(w))
                self.store[path] = w
            else:
                self.tape.append('%x' % (eng & M64))
                self.ev(IO['int64'], path, str(eng))
                self.store[path] = eng & M64
            if raw is None:
                raise Fail(ARITHMETIC)
            return raw
        if isf:
            w = self.ask('flt', f, path, self, t)
            self.tape.append('%x' % w)
            self.ev(IO[t], path, str(w))
            self.store[path] = self.host_float(t, w)
            return w
        if t == 'bool':
            v = self.ask('boolean', f, path, self)
        elif members is not None:
            v = self.ask('enum', f, path, self, t, members)
        else:
            v = self.ask('integer', f, path, self, t)
        self.tape.append('%x' % (v & M64))
        self.ev(IO[t], path, str(v))
        self.store[path] = v & M64
        if t == 'bool' and v > 1:
            raise Fail(VALIDATION)
        return v

    def string(self, f, path, o, optional):
        self.align()
        start = self.pos
        if f.strspec and f.strspec[0] == 'pre':
            t = f.strspec[1]
            self.features.add('string-' + t)
            size, op = INT_BITS[t] // 8, STR_PRE[t]
            if self.enc:
                s = self.ask('string', f, path, self, (1 << INT_BITS[t]) - 1)
                if s is None:            # the host refuses it
                    self.tape.append('s!')
                    self.features.add('refused-string')
                    if not f.optional or f.arr:
                        raise Fail(CALLBACK)
                    return
                self.tape.append('s' + (s.hex() or '-'))
                self.ev(op, path, 's' + s.hex())
                if len(s) >> INT_BITS[t]:
                    self.features.add('string-cut')
                s = s[:(1 << INT_BITS[t]) - 1]
                self.put(len(s), size, o)
                self.need(len(s))
                self.buf[self.pos:self.pos + len(s)] = s
                self.pos += len(s)
            else:
                if optional and self.pos >= len(self.buf):
                    self.features.add('absent')
                    return
                n = self.get(size, o)
                if not self.need(n):
                    raise Fail(OOB)
                self.ev(op, path, 's' + self.buf[self.pos:self.pos + n].hex())
                self.pos += n
        else:
            self.features.add('string-nul')
            mx = 255 if not f.strspec or f.strspec[1] is None else f.strspec[1]
            if self.enc:
                s = self.ask('string', f, path, self, mx)
                if s is None:            # the host refuses it
                    self.tape.append('s!')
                    self.features.add('refused-string')
                    if not f.optional or f.arr:
                        raise Fail(CALLBACK)
                    return
                self.tape.append('s' + (s.hex() or '-'))
                self.ev(STR_NULL, path, 's' + s.hex())
                s = s[:mx] + b'\0'
                self.need(len(s))
                self.buf[self.pos:self.pos + len(s)] = s
                self.pos += len(s)
            else:
                if optional and self.pos >= len(self.buf):
                    self.features.add('absent')
                    return
                rest = self.buf[self.pos:]
                z = rest[:mx + 1].find(0)
                if z < 0:
                    raise Fail(VALIDATION if len(rest) > mx else OOB)
                self.ev(STR_NULL, path, 's' + rest[:z].hex())
                self.pos += z + 1
        self.span(path, 'string', start, o)
