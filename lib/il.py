"""The IL as the documentation describes it: image header, strings, instructions and
switch tables.  Written independently of the repository's own walker."""
import struct
from collections import namedtuple

NAMES = {}
for start, names in [
    (0x00, 'NOOP SET_ENDIAN_LE SET_ENDIAN_BE ENTER_STRUCT EXIT_STRUCT META_VERSION CTX_QUERY META_NAME'),
    (0x10, 'IO_U8 IO_U16 IO_U32 IO_U64 IO_I8 IO_I16 IO_I32 IO_I64 IO_F32 IO_F64 IO_BOOL'),
    (0x20, 'IO_BIT_U IO_BIT_I IO_BIT_BOOL ALIGN_PAD ALIGN_FILL ENTER_BIT_MODE EXIT_BIT_MODE'),
    (0x30, 'STR_NULL STR_PRE_U8 STR_PRE_U16 STR_PRE_U32 ARR_FIXED ARR_PRE_U8 ARR_PRE_U16 ARR_PRE_U32 ARR_END RAW_BYTES ARR_EOF ARR_DYNAMIC'),
    (0x40, 'CONST_CHECK CONST_WRITE RANGE_CHECK SCALE_LIN CRC_16 TRANS_ADD TRANS_SUB TRANS_MUL TRANS_DIV CRC_32 MARK_OPTIONAL ENUM_CHECK TRANS_POLY TRANS_SPLINE'),
    (0x50, 'JUMP_IF_NOT SWITCH JUMP SWITCH_TABLE'),
    (0x60, 'LOAD_CTX PUSH_IMM POP SWAP DUP EMIT'),
    (0x69, 'EQ NEQ GT LT GTE LTE LOG_AND LOG_OR LOG_NOT ADD SUB MUL DIV MOD NEG STORE_CTX'),
    (0x80, 'FADD FSUB FMUL FDIV FNEG SIN COS TAN SQRT POW LOG ABS'),
    (0x90, 'ITOF FTOI EQ_F NEQ_F GT_F LT_F GTE_F LTE_F'),
    (0xA0, 'BIT_AND BIT_OR BIT_XOR BIT_NOT SHL SHR')]:
    for i, n in enumerate(names.split()):
        NAMES[start + i] = n
OPS = {n: o for o, n in NAMES.items()}
UNKNOWN = [o for o in range(256) if o not in NAMES]
# operand layout: letters k key, b byte, h u16, w u32, r i32 relative, q u64, i i64, d double
LAYOUT = {n: '' for n in OPS}
LAYOUT.update(ENTER_STRUCT='k', META_VERSION='b', META_NAME='k', IO_BIT_U='kb', IO_BIT_I='kb', IO_BIT_BOOL='k', ALIGN_PAD='b', ALIGN_FILL='b',
              STR_NULL='kh', ARR_FIXED='kw', RAW_BYTES='kw', ARR_EOF='k', ARR_DYNAMIC='kk', SCALE_LIN='dd', CRC_16='hhhb', CRC_32='wwwb',
              JUMP='r', JUMP_IF_NOT='r', SWITCH='kw', SWITCH_TABLE='kw', LOAD_CTX='k', STORE_CTX='k', PUSH_IMM='q', EMIT='t')
for n in 'TRANS_ADD TRANS_SUB TRANS_MUL TRANS_DIV'.split():
    LAYOUT[n] = 'i'
for n in OPS:
    if n.startswith('IO_') and 'BIT' not in n or n.startswith('STR_PRE') or n.startswith('ARR_PRE'):
        LAYOUT[n] = 'k'
FMT = dict(k='<H', b='<B', h='<H', w='<I', r='<i', q='<Q', i='<q', d='<d', t='<B')
SCALAR = {0x10: '<B', 0x11: '<H', 0x12: '<I', 0x13: '<Q', 0x14: '<b', 0x15: '<h', 0x16: '<i', 0x17: '<q', 0x18: '<f', 0x19: '<d', 0x1A: '<B'}

# fields: list of (kind, value, offset of the operand); table: (start, end, default, [(value, rel)]) of a switch
Insn = namedtuple('Insn', 'ip op name size fields table')


class Bad(Exception):
    def __init__(self, why, ip):
        super().__init__('%s at %d' % (why, ip))
        self.why, self.ip = why, ip


def header(image):
    """(string count, string offset, bytecode offset, strings, bytecode) or Bad."""
    if len(image) < 16:
        raise Bad('short', 0)
    if image[:5] != b'CNDIL':
        raise Bad('magic', 0)
    if image[5] != 1:
        raise Bad('version', 5)
    n, so, bo = struct.unpack_from('<HII', image, 6)
    if so > len(image) or bo > len(image):
        raise Bad('offset', 8)
    strings, at = [], so
    for _ in range(n):
        z = image.find(b'\0', at)
        if z < 0:
            raise Bad('strings', at)
        strings.append(bytes(image[at:z]))
        at = z + 1
    return n, so, bo, strings, bytes(image[bo:])


def image(strings, bytecode):
    tab = b''.join(s + b'\0' for s in strings)
    return b'CNDIL\x01' + struct.pack('<HII', len(strings), 16, 16 + len(tab)) + tab + bytecode


def one(bc, ip):
    """The instruction at ip, its switch table excluded."""
    op = bc[ip]
    if op not in NAMES:
        raise Bad('unknown', ip)
    name, at, fields = NAMES[op], ip + 1, []

    def take(kind, fmt=None):
        nonlocal at
        fmt = fmt or FMT[kind]
        n = struct.calcsize(fmt)
        if at + n > len(bc):
            raise Bad('short', ip)
        v = struct.unpack_from(fmt, bc, at)[0]
        fields.append((kind, v, at))
        at += n
        return v

    if name in ('CONST_CHECK', 'CONST_WRITE', 'RANGE_CHECK', 'ENUM_CHECK'):
        if name == 'CONST_CHECK':
            take('k')
        t = take('t')
        if t not in SCALAR:
            raise Bad('type', ip)
        if name == 'ENUM_CHECK':
            for _ in range(take('h')):
                take('v', SCALAR[t])
        else:
            take('v', SCALAR[t])
            if name == 'RANGE_CHECK':
                take('v', SCALAR[t])
    elif name in ('TRANS_POLY', 'TRANS_SPLINE'):
        for _ in range(take('b') * (2 if name == 'TRANS_SPLINE' else 1)):
            take('d')
    else:
        for k in LAYOUT[name]:
            take(k)
    return Insn(ip, op, name, at - ip, fields, None)


def table(bc, insn):
    base = insn.ip + insn.size
    at = base + insn.fields[1][1]
    try:
        if insn.name == 'SWITCH':
            n, d = struct.unpack_from('<Hi', bc, at)
            return at, at + 6 + 12 * n, d, [struct.unpack_from('<Qi', bc, at + 6 + 12 * j) for j in range(n)]
        lo, hi, d = struct.unpack_from('<QQi', bc, at)
        if hi < lo or hi - lo > len(bc):
            raise Bad('table', insn.ip)
        return at, at + 20 + 4 * (hi - lo + 1), d, [(lo + j, struct.unpack_from('<i', bc, at + 20 + 4 * j)[0]) for j in range(hi - lo + 1)]
    except struct.error:
        raise Bad('table', insn.ip)


def walk(bc):
    """Every instruction, in order; switch tables are stepped over."""
    out, ip, tables = [], 0, []
    while True:
        while tables and ip >= tables[-1][0]:
            if ip > tables[-1][0]:
                raise Bad('runs into a table', ip)
            ip = tables.pop()[1]
        if ip >= len(bc):
            if ip > len(bc):
                raise Bad('short', ip)
            return out
        i = one(bc, ip)
        if i.name.startswith('SWITCH'):
            t = table(bc, i)
            if tables and t[1] > tables[-1][0]:
                raise Bad('tables overlap', ip)
            i = i._replace(table=t)
            tables.append(t)
        out.append(i)
        ip += i.size


def targets(i):
    """Branch targets of an instruction."""
    end = i.ip + i.size
    if i.name in ('JUMP', 'JUMP_IF_NOT'):
        return [end + i.fields[0][1]]
    if i.table:
        return [end + i.table[2]] + [end + r for _, r in i.table[3]]
    return []


def operand_spots(i):
    """(offset, size) of every 32 bit branch offset, in instruction or table."""
    if i.name in ('JUMP', 'JUMP_IF_NOT'):
        return [i.ip + 1]
    if i.name == 'SWITCH':
        return [i.table[0] + 2] + [i.table[0] + 6 + 12 * j + 8 for j in range(len(i.table[3]))]
    if i.name == 'SWITCH_TABLE':
        return [i.table[0] + 16] + [i.table[0] + 20 + 4 * j for j in range(len(i.table[3]))]
    return []


# A random program, structured so that most instructions make sense
def pack(name, *vals):
    out = bytes([OPS[name]])
    for k, v in zip(LAYOUT[name], vals):
        if k in 'kbhwqt':
            v &= (1 << 8 * struct.calcsize(FMT[k])) - 1
        out += struct.pack(FMT[k], v)
    return out


def scalar_bytes(t, v):
    f = SCALAR[t]
    if f[1] in 'fd':
        return struct.pack(f, v)
    n = struct.calcsize(f)
    return (v & (1 << 8 * n) - 1).to_bytes(n, 'little')


INTS = [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 31, 63, 64, 65, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**63 - 1, 2**63, 2**64 - 1]
DOUBLES = [0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, 1e300, float('inf'), float('-inf'), float('nan'), 2.0**63, -2.0**63, 2.0**64, 1e19, 255.0, 3.7]


def rand_insn(r, nkeys):
    k = lambda: r.choice([r.randrange(max(1, nkeys)), r.randrange(max(1, nkeys)), r.randrange(65536)])
    small = lambda: r.choice([0, 1, 2, 3, 4, 7, 8, 9, 20])
    name = r.choice(list(OPS))
    if name in ('CONST_CHECK', 'CONST_WRITE', 'RANGE_CHECK', 'ENUM_CHECK'):
        t = r.choice(list(SCALAR))
        v = lambda: scalar_bytes(t, r.choice(DOUBLES[:9]) if t in (0x19,) else r.choice([0.0, 1.5, -3.0]) if t == 0x18 else r.choice(INTS))
        b = bytes([OPS[name]]) + (struct.pack('<H', k()) if name == 'CONST_CHECK' else b'') + bytes([t])
        if name == 'ENUM_CHECK':
            n = r.choice([0, 1, 3])
            return b + struct.pack('<H', n) + b''.join(v() for _ in range(n))
        return b + v() + (v() if name == 'RANGE_CHECK' else b'')
    if name in ('TRANS_POLY', 'TRANS_SPLINE'):
        n = r.choice([0, 1, 2, 3, 16, 17])
        return bytes([OPS[name], n]) + b''.join(struct.pack('<d', r.choice(DOUBLES)) for _ in range(n * (2 if name == 'TRANS_SPLINE' else 1)))
    out = bytes([OPS[name]])
    for kind in LAYOUT[name]:
        if kind == 'k':
            v = k()
        elif kind == 'b':
            v = r.choice([small(), r.randrange(65), r.randrange(256)])
        elif kind == 't':
            v = r.choice(list(SCALAR))
        elif kind == 'r':
            v = r.choice([0, 0, 1, 3, 5, 9, 12, 20, -5, r.randrange(-40, 60), 2**31 - 1, -2**31])
        elif kind == 'd':
            v = r.choice(DOUBLES)
        elif kind == 'i':
            v = r.choice([r.choice(INTS[:22]), -r.choice(INTS[:22]), -2**63])
        elif kind == 'w':
            v = r.choice([small(), small(), 100, r.choice(INTS[:23])])
        else:
            v = r.choice([small(), r.choice(INTS) & 0xFFFF]) if kind == 'h' else r.choice(INTS)
        out += struct.pack(FMT[kind], v)
    return out


def rand_switch(r, nkeys):
    """A switch right before its table; a span the table does not have more often than not."""
    body = b''.join(pack('IO_U8', r.randrange(max(1, nkeys))) for _ in range(r.choice([0, 1, 2])))
    off = lambda: struct.pack('<i', r.choice([0, 0, 3, len(body), -7, len(body) + r.randrange(60), 2**31 - 1, -2**31]))
    n = r.choice([0, 1, 2, 5])
    rel = r.choice([len(body)] * 6 + [0, 2**32 - 1, 2**32 - 7, 2**32 - 27, 2**31])
    if r.random() < 0.4:
        t = struct.pack('<H', r.choice([n, n, n, n + 1, 65535])) + off() + b''.join(struct.pack('<Q', r.choice([0, 1, 2, 3, r.choice(INTS)])) + off() for _ in range(n))
        return pack('SWITCH', r.randrange(max(1, nkeys)), rel) + body + t
    lo = r.choice([0, 0, 0, 1, 2, r.choice(INTS)])
    hi = r.choice([lo + n - 1, 2**64 - 1, 2**63 - 1, 2**62, r.choice(INTS)])
    t = struct.pack('<QQ', lo, hi & 2**64 - 1) + off() + b''.join(off() for _ in range(n))
    return pack('SWITCH_TABLE', r.randrange(max(1, nkeys)), rel) + body + t


def rand_program(r, nkeys, n):
    """Random instructions, loops and expressions closed often enough to be executed."""
    out, open_ = b'', 0
    for _ in range(n):
        x = r.random()
        if x < 0.35:
            out += pack(r.choice([n for n in OPS if n.startswith('IO_') and 'BIT' not in n]), r.randrange(max(1, nkeys)))
        elif x < 0.45:
            out += pack('PUSH_IMM', r.choice(INTS)) if r.random() < 0.6 else pack('LOAD_CTX', r.randrange(max(1, nkeys)))
        elif x < 0.55 and open_ < 9:
            out += r.choice([pack('ARR_FIXED', 0, r.choice([0, 1, 2, 5])), pack('ARR_PRE_U8', 1), pack('ARR_DYNAMIC', 0, 1), pack('ARR_EOF', 2)])
            open_ += 1
        elif x < 0.75 and x >= 0.63:
            op = r.choice(list(OPS)[list(OPS).index('EQ'):])
            a = lambda: pack('PUSH_IMM', r.choice(INTS) if r.random() < 0.6 else struct.unpack('<Q', struct.pack('<d', r.choice(DOUBLES)))[0])
            out += a() + (a() if r.random() < 0.8 else b'')
            if not LAYOUT[op]:
                out += pack(op)
            out += r.choice([pack('POP'), pack('STORE_CTX', 0), pack('EMIT', r.choice(list(SCALAR))), pack('JUMP_IF_NOT', r.choice([0, 1, 3])), b'', pack('SWAP'), pack('DUP')])
        elif x < 0.61 and x >= 0.59:
            out += rand_switch(r, nkeys)
        elif x < 0.63 and open_:
            out += pack('ARR_END')
            open_ -= 1
        else:
            p = rand_insn(r, nkeys)
            # a bare operator would only end the run
            while p[0] >= 0x62 and r.random() < 0.9:
                p = rand_insn(r, nkeys)
            out += p
    return out + pack('ARR_END') * open_
