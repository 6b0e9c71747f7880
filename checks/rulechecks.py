"""C21 and C31: broken language rules are refused, and where the diagnostics point."""
import json, os, re
import gen, schema as S
from core import Violation
from drv import Driver
from layout import Layout
from runner import Check
from schema import Renderer, Style, INT_BITS, is_signed, int_lo, int_hi, ALIASES
from textchecks import some_schema, tokens

INTS = list(INT_BITS)

TOK = re.compile(r'//[^\n]*|"[^"]*"|-?0[xX][0-9a-fA-F]*|-?\d+(?:\.\d+)?|[A-Za-z_]\w*|==|!=|<=|>=|<<|>>|&&|\|\||\S')


def tok(text):
    return TOK.findall(text)


class Spots(Renderer):
    """A renderer remembering where another statement could stand."""

    def __init__(self, style=None):
        super().__init__(style)
        self.spots, self.tops, self.plain = [], [], True

    def body(self, nodes):
        self.put('{')
        self.nl()
        if self.plain:
            self.spots.append(len(self.t))
        for n in nodes:
            self.node(n)
            if self.plain:
                self.spots.append(len(self.t))
        self.put('}')

    def typedef(self, t):
        self.tops.append(len(self.t))
        self.plain = not getattr(t, 'unaligned', False)
        super().typedef(t)
        self.plain = True

    def packet(self, s):
        self.tops.append(len(self.t))
        super().packet(s)
        self.tops.append(len(self.t))

    def schema(self, s):
        for t in s.types:
            self.typedef(t)
        self.tops.append(len(self.t))
        if s.version is not None:
            self.dec('version', s.version)
        if s.endian:
            self.dec({'le': 'little_endian', 'be': 'big_endian'}[s.endian])
        before = len(self.t)
        self.packet(s)
        if before in self.tops and before != self.tops[-1] and (s.version is not None or s.endian):
            self.tops.remove(before)       # between decorators and the packet: not a place for definitions
        return self


HELP = 'enum Zk : uint8 { ZA = 1, ZB, ZC = 9 } struct Zs { uint8 zv; } @unaligned_bytes struct Zu { uint8 zb : 3; uint8 zc : 5; } '


def num(r, n):
    return str(n) if r.random() < 0.6 else ('-0x%x' % -n if n < 0 else r.choice(['0x%x', '0x%X']) % n)


def alias(r, t):
    return r.choice(ALIASES[t])


# Every rule: r -> (good text, bad text).  Field rules stand anywhere fields can stand.
FIELD, TOP = [], []


def field(f):
    FIELD.append(f)
    return f


def top(f):
    TOP.append(f)
    return f


def outside(r, t):
    lo, hi = int_lo(t), int_hi(t)
    return r.choice([lo - 1, hi + 1, lo - 1 - r.randrange(1 << 20), hi + 1 + r.randrange(1 << 20), (1 << 64) + r.randrange(3), -(1 << 63) - 1, (hi + 1) * 2, 10 ** 30, (1 << 64) + max(0, lo + 5)])


def inside(r, t):
    lo, hi = int_lo(t), int_hi(t)
    return r.choice([lo, hi, 0, 1, r.randint(lo, hi)])


@field
def same_field_twice(r):
    a, b = alias(r, r.choice(INTS)), alias(r, r.choice(INTS))
    return '%s zx; uint8 zp; %s zy;' % (a, b), '%s zx; uint8 zp; %s zx;' % (a, b)


@field
def same_field_in_if(r):
    return 'uint8 zx; if (zx > 1) { uint8 zy; }', 'uint8 zx; if (zx > 1) { uint8 zx; }'


@field
def same_field_in_case(r):
    return 'uint8 zx; switch (zx) { case 1: uint8 zy; case 2: { uint8 zy; uint8 zq; } }', 'uint8 zx; switch (zx) { case 1: uint8 zy; case 2: { uint8 zy; %s; } }' % r.choice(['uint8 zy', 'uint8 zx', 'Zs zy'])


@field
def unknown_type(r):
    bad = r.choice(['Nope', 'uint9', 'uint', 'int', 'Uint8', 'u128', 'char', 'zs', 'ZS', 'Zk2', 'strin', 'stringx', 'prefix', 'bool8', 'i7', 'ZA', 'Float'])
    return 'Zs zx;', r.choice(['%s zx;', '%s zx[3];', '@range(1, 2) %s zx;', '%s zx[] prefix uint8;', '@optional %s zx;']) % bad


@field
def const_fits(r):
    t = r.choice(INTS)
    return '@const(%s) %s zx;' % (num(r, inside(r, t)), alias(r, t)), '@const(%s) %s zx;' % (num(r, outside(r, t)), alias(r, t))


@field
def const_type(r):
    return '@match(5) uint8 zx;', '@%s(5) %s;' % (r.choice(['const', 'match']), r.choice(['float zx', 'double zx', 'string zx', 'bool zx', 'Zs zx', 'uint8 zx : 5', 'Zk zx', 'string zx prefix uint8', 'f64 zx', 'int16 zx : 16']))


@field
def range_fits(r):
    t = r.choice(INTS)
    a, b = sorted([inside(r, t), inside(r, t)])
    x = outside(r, t)
    bad = (num(r, a), num(r, x)) if x > b else (num(r, x), num(r, b))
    return '@range(%s, %s) %s zx;' % (num(r, a), num(r, b), alias(r, t)), '@range(%s, %s) %s zx;' % (bad + (alias(r, t),))


@field
def range_order(r):
    t = r.choice(INTS + ['float', 'double'])
    a, b = (r.randint(0, 50), r.randint(51, 120)) if t not in ('float', 'double') else ('%d.5' % r.randint(-50, 0), '1.25')
    return '@range(%s, %s) %s zx;' % (a, b, alias(r, t)), '@range(%s, %s) %s zx;' % (b, a, alias(r, t))


@field
def range_type(r):
    return '@range(1, 5) Zk zx;', '@range(1, 5) %s;' % r.choice(['bool zx', 'string zx', 'Zs zx', 'uint8 zx : 5', 'string zx prefix u8', 'Zu zx'])


@field
def range_on_computed(r):
    return '@expr(1 + 1) uint8 zx;', r.choice(['@range(1, 5) @expr(1 + 1) uint8 zx;', '@expr(1 + 1) @range(1, 5) uint16 zx;', '@crc(16) @range(1, 5) uint16 zx;'])


@field
def range_arguments(r):
    return '@range(1, 5) uint8 zx;', '@range%s uint8 zx;' % r.choice(['', '()', '(1)', '(1, 2, 3)', '(1 2)', '(a, 5)', '(1, b)', '(1, )', '(, 1)', '(1, 5', '1, 5)', '("1", 5)', '(true, 5)'])


@field
def bit_width(r):
    t = r.choice(INTS)
    w = INT_BITS[t]
    return '%s zx : %d; @fill uint8 zy;' % (alias(r, t), r.choice([1, w, r.randint(1, w)])), '%s zx : %s; @fill uint8 zy;' % (alias(r, t), num(r, r.choice([0, w + 1, w + 8, 255, 256, 257, 256 + w, 1 << 32, 65, -1])))


@field
def bit_type(r):
    return 'bool zx : 1; @fill uint8 zy;', '%s; @fill uint8 zy;' % r.choice(['bool zx : 2', 'float zx : 3', 'double zx : 8', 'string zx : 8', 'Zs zx : 3', 'Zk zx : 4', 'bool zx : 8', 'f32 zx : 32'])


@field
def padding(r):
    return '@pad(%s) uint8 zx;' % num(r, r.choice([0, 1, 8, 255])), '@pad(%s) uint8 zx;' % num(r, r.choice([256, -1, 257, 512, 65536, 1 << 32, 1 << 64]))


@field
def fill_bit(r):
    return '@fill%s uint8 zx;' % r.choice(['(0)', '(1)', '', '(0x1)']), '@fill(%s) uint8 zx;' % r.choice(['2', '-1', '256', '0x100', '4294967296', 'x', '', '255', '3'])


@field
def crc_width(r):
    w = r.choice([16, 32])
    return '@crc(%s) uint%d zx;' % (num(r, w), w), r.choice(['@crc(%d) uint8 zx;' % r.choice([8, 16, 32]), '@crc(16) uint32 zx;', '@crc(32) uint16 zx;', '@crc(%s) uint32 zx;' % r.choice(['0', '31', '64', '4294967328', '-32', '24', '33', '17', '272']),
                                                             '@crc(16) int16 zx;', '@crc(32) int32 zx;', '@crc(32) float zx;', '@crc(32) Zs zx;', '@crc(16) string zx;', '@crc(16) Zk zx;', '@crc uint32 zx;', '@crc() uint16 zx;', '@crc(x) uint16 zx;', '@crc(32) uint64 zx;', '@crc(16) bool zx;'])


@field
def crc_parameters(r):
    w = r.choice([16, 32])
    k = r.choice(['poly', 'init', 'xor'])
    hi = (1 << w) - 1
    return '@crc(%d) @crc_%s(%s) uint%d zx;' % (w, k, num(r, r.choice([0, hi, r.randint(0, hi)])), w), '@crc(%d) @crc_%s(%s) uint%d zx;' % (w, k, num(r, r.choice([hi + 1, -1, hi + 1 + r.randrange(99999), 1 << 64, hi * 16])), w)


@field
def crc_needed(r):
    d = r.choice(['@crc_poly(5)', '@crc_init(1)', '@crc_xor(0)', '@crc_refin', '@crc_refout'])
    return '@crc(16) %s uint16 zx;' % d, '%s uint16 zx;' % d


@field
def crc_carrier(r):
    return '@crc(16) uint16 zx;', r.choice(['@crc(16) uint16 zx[2];', '@crc(16) uint16 zx : 16;', '@crc(16) @const(1) uint16 zx;', '@crc(16) @expr(1) uint16 zx;', '@crc(16) uint16 zx[] prefix u8;', '@crc(16) @scale(2.0) uint16 zx;', '@add(1) @crc(32) uint32 zx;'])


@field
def expr_carrier(r):
    return '@expr(%s) %s zx;' % r.choice([('1 + 2', 'uint8'), ('1.5', 'double'), ('true', 'bool'), ('2', 'int64')]), '@expr(1 + 2) %s;' % r.choice(['Zs zx', 'Zk zx', 'string zx', 'uint8 zx[3]', 'uint8 zx : 4', 'uint16 zx[] prefix u8', 'string zx prefix u16', 'Zu zx'])


@field
def expr_and_const(r):
    return '@expr(1) uint8 zx;', r.choice(['@expr(1) @const(1) uint8 zx;', '@const(1) @expr(1) uint8 zx;'])


@field
def expr_syntax(r):
    return 'uint8 zn; @expr(zn + (1 * 2)) uint8 zx;', 'uint8 zn; @expr(%s) uint8 zx;' % r.choice(['zn +', '+ zn', '(zn', 'zn)', 'zn zn', '', '1 2', 'zn = 1', 'zn.', '.zn', 'nofunc(zn)', 'sin()', 'pow(1.0)', 'zn ? 1 : 2', '"s"', 'zn[0]', '1 +* 2', 'zn.1', '()', '@zn', '$', 'pow(1.0, 2.0, 3.0)'])


@field
def transform_carrier(r):
    d = r.choice(['@scale(0.5)', '@offset(2)', '@add(1)', '@sub(1)', '@mul(2)', '@div(2)', '@poly(0.0, 1.0)', '@spline(0.0, 0.0, 1.0, 1.0)'])
    return '%s %s zx;' % (d, alias(r, r.choice(INTS))), '%s %s;' % (d, r.choice(['uint8 zx : 4', 'bool zx', 'Zs zx', 'Zk zx', 'string zx', 'string zx prefix u8', 'bool zx : 1', 'Zu zx']))


@field
def transform_computed(r):
    d = r.choice(['@scale(0.5)', '@offset(2)', '@add(1)', '@mul(2)', '@poly(0.0, 1.0)'])
    return '%s uint8 zx;' % d, r.choice(['%s @const(4) uint8 zx;', '%s @expr(4) uint8 zx;', '%s @crc(16) uint16 zx;']) % d


@field
def transform_operand(r):
    k = r.choice(['add', 'sub', 'mul', 'div'])
    return '@%s(%s) int32 zx;' % (k, num(r, r.choice([1, -1, (1 << 63) - 1, -(1 << 63), 77]))), '@%s(%s) int32 zx;' % (k, r.choice(['9223372036854775808', '-9223372036854775809', '99999999999999999999', '18446744073709551616', '', 'x', '1.5', '0x10000000000000000', '1, 2']))


@field
def poly_size(r):
    return '@poly(%s) uint8 zx;' % ', '.join(['1.5'] * r.choice([1, 2, 16])), '@poly(%s) uint8 zx;' % ', '.join(['1.5'] * r.choice([0, 17, 18, 40]))


@field
def spline_size(r):
    return '@spline(%s) uint8 zx;' % ', '.join('%d.0, %d.0' % (k, k * 2) for k in range(r.choice([1, 2, 16]))), '@spline(%s) uint8 zx;' % ', '.join(['%d.0' % k for k in range(r.choice([0, 1, 3, 33, 34, 31]))])


@field
def string_end(r):
    return 'string zx until %s max %s;' % (r.choice(['0', '0x0', '0x00']), num(r, r.choice([0, 1, 65535]))), r.choice(['string zx until %s;' % r.choice(['1', '10', '255', '256', '-1', 'x', '', '0 0']), 'string zx max %s;' % r.choice(['65536', '-1', '4294967296', '65537', 'x', '', '131071', '1 max 2']), 'string zx until 0 max 65536;'])


@field
def string_prefix(r):
    return 'string zx prefix %s;' % r.choice(['uint8', 'u8', 'uint16', 'u16', 'uint32', 'u32']), 'string zx prefix %s;' % r.choice(['uint64', 'u64', 'int8', 'i16', 'float', 'bool', 'string', 'Zs', 'Zk', 'nope', 'byte', '', '8', 'int32'])


@field
def prefix_carrier(r):
    return 'uint8 zx[] prefix u8;', r.choice(['uint8 zx prefix u8;', 'uint8 zx[3] prefix u8;', 'float zx prefix u16;', 'Zs zx prefix u8;', 'uint8 zn; @count(zn) uint8 zx[] prefix u8;', '@count(3) uint8 zx[] prefix u8;', 'Zk zx prefix u8;', 'bool zx prefix u8;'])


@field
def prefix_type(r):
    return 'int16 zx[] prefix %s;' % r.choice(['uint8', 'u8', 'uint16', 'u16', 'uint32', 'u32']), 'int16 zx[] prefix %s;' % r.choice(['uint64', 'u64', 'int8', 'i16', 'float', 'bool', 'string', 'Zs', 'Zk', 'nope', 'byte', '', '8'])


@field
def array_size(r):
    return 'uint8 zx[%s];' % num(r, r.choice([1, 3, 65536])), 'uint8 zx[%s];' % r.choice(['4294967296', '-1', '18446744073709551616', '4294967297', 'zn', '1.5', '1, 2', '"3"'])


@field
def array_sizing(r):
    return 'uint8 zn; @count(zn) uint8 zx[];', r.choice(['uint8 zx[];', 'Zs zx[];', 'float zx[];', '@count(2) uint8 zx[3];', 'uint8 zn; @count(zn) uint8 zx[3];', '@count(3) uint8 zx;', 'uint8 zn; @count(zn) uint8 zx;', '@eof uint8 zx;', '@eof uint8 zx[4];', 'Zk zx[];', '@count(4294967296) uint8 zx[];', '@count(-1) uint8 zx[];', '@count() uint8 zx[];', '@count uint8 zx[];', 'uint8 zx[2][3];', '@len(3) float zx;', '@count(1.5) uint8 zx[];', '@eof Zs zx;'])


@field
def string_array(r):
    return r.choice(['string zx[2] prefix u8;', '@count(3) string zx[] until 0 max 9;', 'string zx[2] until 0;']), r.choice(['string zx[];', '@eof string zx[] ;', 'string zx[] max 5;'])


@field
def case_values(r):
    k = r.choice([0, 1, 255, (1 << 64) - 1, -1, (1 << 63) - 1])
    a, b = num(r, k), num(r, k)
    o = r.choice([7, 8, 99])
    return 'uint64 zd; switch (zd) { case %s: uint8 zx; case %d: uint8 zy; }' % (a, o), 'uint64 zd; switch (zd) { case %s: uint8 zx; case %d: uint8 zy; case %s: uint8 zz; }' % (a, o, b)


@field
def case_labels(r):
    return 'Zk zd; switch (zd) { case Zk.ZA: uint8 zx; case Zk.ZB: uint8 zy; case 9: uint8 zw; }', 'Zk zd; switch (zd) { case Zk.ZA: uint8 zx; case %s: uint8 zy; }' % r.choice(['Zk.ZA', '1', '0x1', 'Zk.ZD', 'Zq.ZA', 'Zk', 'Zk.', 'ZB', 'Zs.zv', '.ZB', 'Zk.za', 'Zk.ZB.ZC', 'Zk.1', '"ZB"', ''])


@field
def case_literal(r):
    return 'uint64 zd; switch (zd) { case %s: uint8 zx; }' % r.choice(['18446744073709551615', '-9223372036854775808', '0xFFFFFFFFFFFFFFFF']), 'uint64 zd; switch (zd) { case %s: uint8 zx; }' % r.choice(['18446744073709551616', '-9223372036854775809', '0x10000000000000000', '99999999999999999999999', '1.5', '1 + 1', '1, 2', 'true'])


@field
def default_twice(r):
    return 'uint8 zd; switch (zd) { case 1: uint8 zx; default: uint8 zy; }', 'uint8 zd; switch (zd) { default: uint8 zx; case 1: uint8 zw; default: uint8 zy; }'


@field
def switch_syntax(r):
    return 'uint8 zd; switch (zd) { case 1: uint8 zx; }', 'uint8 zd; ' + r.choice(['switch zd { case 1: uint8 zx; }', 'switch (zd) case 1: uint8 zx;', 'switch () { case 1: uint8 zx; }', 'switch (zd) { case 1 uint8 zx; }', 'switch (zd) { uint8 zx; }', 'switch (zd + 1) { case 1: uint8 zx; }', 'switch (1) { case 1: uint8 zx; }',
                                                                                      'switch (zd) { case: uint8 zx; }', 'switch (zd) { case 1: uint8 zx }', 'switch (zd) { default uint8 zx; }', 'switch (zd.x) { case 1: uint8 zx; }', 'switch (zd) { case 1: }', 'switch (zd, zd) { case 1: uint8 zx; }'])


@field
def if_syntax(r):
    return 'uint8 zd; if (zd > 1) { uint8 zx; } else if (zd == 0) { uint8 zy; } else { uint8 zz; }', 'uint8 zd; ' + r.choice(['if zd > 1 { uint8 zx; }', 'if () { uint8 zx; }', 'if (zd > 1) uint8 zx;', 'if (zd > 1) { uint8 zx; } else uint8 zy;', 'else { uint8 zx; }', 'if (zd > 1) { uint8 zx; } else { uint8 zy; } else { uint8 zz; }', 'if (zd >) { uint8 zx; }', 'if { uint8 zx; }', 'case 1: uint8 zx;', 'default: uint8 zx;'])


@field
def field_syntax(r):
    return 'uint8 zx;', r.choice(['uint8 ;', 'uint8 zx', 'uint8 zx zy;', 'uint8 zx, zy;', 'zx uint8 zy;', 'uint8 zx = 5;', 'uint8 5;', 'uint8 self;', 'uint8 switch;', 'uint8 struct;', 'struct Q { uint8 zy; }', 'enum Q { A }', ': 3;', 'uint8 zx :;', 'uint8 zx[;', 'uint8 zx[3;', 'uint8 zx 3];', '@ uint8 zx;', '@5 uint8 zx;', 'uint8 "zx";', 'uint8 true;', '5 zx;', 'uint8.x zx;', '$', 'uint8 zx ?;', '@;', '(uint8 zx);', '{ uint8 zx; }', 'if;', 'uint8 case;'])


@field
def unknown_decorator(r):
    return '@range(1, 2) uint8 zx;', '@%s uint8 zx;' % r.choice(['nosuch(1)', 'nosuch', 'Range(1, 2)', 'ranges(1, 2)', 'version(1)', 'import("x")', 'be(1)', 'optional(1)', 'eof(2)', 'unaligned_bytes', 'expr', 'const', 'crc_refin(1)', 'crc_refout()', 'scale', 'pad', 'count', 'RANGE(1, 2)', 'le()', 'little_endian(0)', 'poly', 'spline', 'le_(1)'])


@field
def literal_form(r):
    bad = r.choice(['1.5', '0x', '0x1.5', '1.0', '12.75', '0xZZ'])
    good, form = '7', r.choice(['@const(%s) uint8 zx;', 'uint8 zx[%s];', 'uint8 zx : %s; @fill uint8 zy;', '@pad(%s) uint8 zx;', '@range(0, %s) uint8 zx;', '@count(%s) uint8 zx[];', 'string zx max %s;', '@mul(%s) uint8 zx;', 'uint8 zd; switch (zd) { case %s: uint8 zy; }'])
    return form % good, form % bad


@field
def long_path(r):
    return 'uint8 %s;' % ('z' * 250), 'uint8 zn; @expr(%s) uint8 zx;' % '.'.join(['z' * 50] * r.choice([6, 10, 100]))


@field
def deep_nesting(r):
    n = r.choice([230, 240])
    m = r.choice([257, 258, 300, 1000])
    if r.random() < 0.5:
        f = lambda k: 'uint8 zd; ' + 'if (zd) { ' * k + 'uint8 zx; ' + '} ' * k
    else:
        f = lambda k: 'uint8 zd; @expr(%szd%s) uint64 zx;' % ('(' * k, ')' * k)
    return f(n // 2), f(m)


@top
def same_struct_twice(r):
    return 'struct Za { uint8 x; } struct Zb { uint8 x; }', 'struct Za { uint8 x; } struct Za { uint8 x; }'


@top
def same_enum_twice(r):
    return 'enum Za { A } enum Zb { A }', 'enum Za { A } enum Za { A }'


@top
def struct_and_enum(r):
    return 'struct Za { uint8 x; } enum Zb { A }', r.choice(['struct Za { uint8 x; } enum Za { A }', 'enum Za { A } struct Za { uint8 x; }'])


@top
def recursion(r):
    return 'struct Za { uint8 x; } struct Zb { Za x; }', r.choice(['struct Za { uint8 y; Za x; }', 'struct Za { Za x[] prefix uint8; }', 'struct Za { uint8 n; if (n) { Za x; } }', 'struct Za { Zb x; } struct Zb { Za y; }', 'struct Za { uint8 d; switch (d) { case 1: Za x; } }', 'struct Za { @optional Za x; }', '@unaligned_bytes struct Za { uint8 a; Za x; }'])


@top
def use_before_definition(r):
    return 'struct Zb { uint8 x; } struct Za { Zb x; }', r.choice(['struct Za { Zb x; } struct Zb { uint8 x; }', 'struct Za { Ze x; } enum Ze { A }', 'struct Za { uint8 d; switch (d) { case Ze.A: uint8 x; } } enum Ze { A }'])


@top
def enum_names(r):
    return 'enum Za { A = 1, B, C }', r.choice(['enum Za { A = 1, B, A }', 'enum Za { A, A }', 'enum Za { B = 1, A = 2, A = 3 }', 'enum Za { A = 1, B = 2, A = 1 }'])


@top
def enum_values(r):
    return 'enum Za { A = 5, B, C = 4 }', 'enum Za { %s }' % r.choice(['A = 5, B = 5', 'A = 5, B, C = 6', 'A = 1, B = 0, C', 'A, B = 0', 'A = 0x5, B = 5', 'A = 4, B, C, D = 5'])


@top
def enum_value_fits(r):
    t = r.choice(INTS)
    v = inside(r, t)
    return 'enum Za : %s { A = %s }' % (r.choice([t, t.replace('uint', 'u') if t[0] == 'u' else t.replace('int', 'i')]), num(r, v)), \
        r.choice(['enum Za : %s { A = %s }' % (t, num(r, outside(r, t))), 'enum Za : %s { A = %s, B }' % (t, num(r, int_hi(t))), 'enum Za { A = 4294967296 }', 'enum Za { A = -1 }', 'enum Za { A = 4294967295, B }'])


@top
def enum_base(r):
    return 'enum Za : %s { A }' % r.choice(['uint8', 'u64', 'i16']), 'enum Za : %s { A }' % r.choice(['float', 'double', 'bool', 'string', 'byte', 'Zs', 'Zk', 'nope', '', '8', 'u128'])


@top
def enum_syntax(r):
    return 'enum Za { A, B }', r.choice(['enum { A, B }', 'enum Za A, B', 'enum Za { A = , B }', 'enum Za { 1, 2 }', 'enum Za { A = B }', 'enum Za { A; B }', 'enum Za { A, B', 'enum Za { "A" }', 'enum Za { A = 1.5 }', 'enum Za { A == 1 }', 'enum Za : uint8 : uint8 { A }', 'enum Za { A = 0x }', 'enum 5 { A }', 'enum Za { , A }', 'enum Za { A,, B }', 'enum struct { A }'])


@top
def struct_syntax(r):
    return 'struct Za { uint8 x; }', r.choice(['struct { uint8 x; }', 'struct Za uint8 x;', 'struct Za { uint8 x; } }', 'struct Za { uint8 x;', 'struct 5 { uint8 x; }', 'struct Za = Zs;', 'Za struct { uint8 x; }', 'union Za { uint8 x; }', 'uint8 x;', 'struct Za : uint8 { uint8 x; }', 'struct Za;', 'struct packet { uint8 x; }', 'x', '5', '"s"', '$', '(', '@', '@5'])


@top
def unaligned_end(r):
    n = r.randint(1, 30)
    m = (8 - n % 8) % 8
    good = 'uint32 a : %d; ' % n + ('uint8 b : %d; ' % m if m else '')
    k = r.choice([x for x in range(1, 31) if x % 8])
    bad = r.choice(['uint32 a : %d;' % k, 'uint8 a : 8; uint32 b : %d;' % k, 'uint8 a; uint32 b : %d;' % k, 'bool a;', 'uint16 a; bool b : 1;', 'uint8 a : 3; @fill uint8 b : 3;', 'uint8 a; @pad(%d);' % r.choice([1, 7, 9, 255]),
                    'uint32 a : %d; @pad(8);' % k, 'uint8 a : 4; uint8 b : 3; ', 'int16 a : 9;', 'uint8 x[2]; uint8 a : 1;', 'Zk k; bool a;', '@const(1) uint8 c; uint8 a : 5;'])
    return '@unaligned_bytes struct Za { %s}' % good, '@unaligned_bytes struct Za { %s }' % bad


@top
def unaligned_types(r):
    return '@unaligned_bytes struct Za { int64 a; Zk k; string s; }', '@unaligned_bytes struct Za { %s }' % r.choice(['float a;', 'double a;', 'uint8 b; f64 a;', 'float a[2];', '@range(1, 2) uint8 a;', '@scale(2.0) uint8 a;', '@expr(1) uint8 a;', '@crc(16) uint16 a;'])


@top
def versions(r):
    return '@version(%s) struct Za { uint8 x; }' % num(r, r.choice([0, 1, 255])), '@version%s struct Za { uint8 x; }' % r.choice(['(256)', '(-1)', '(65536)', '(4294967296)', '(1.5)', '()', '', '(x)', '(1', '(1, 2)', '(0x100)'])


@top
def two_packets(r):
    return 'struct Zp { uint8 x; }', 'packet Zp { uint8 x; }'


ALL = [('field', f) for f in FIELD] + [('top', f) for f in TOP] + [('whole', k) for k in range(4)]


class C21(Check):
    pid = 'C21'
    technique = 'fault injection by language rule at every kind of place of random schemas; monitor: the version without the fault compiles, the one with it is refused with a diagnostic and no output (ASan/UBSan)'
    note = 'The rules are those of the documentation and of the grammar; one fault at a time.'
    rule = 'every rule x random schemas x random places x random variants and layouts; distinct broken texts count'
    assumptions = ['a fault in a definition nobody uses counts as well']
    variants = ['driver']
    quick, thorough = 100 * len(ALL), 4000 * len(ALL)
    need = ('accepted without the fault', 'refused with the fault', 'faults in imported files')

    def start(self, w):
        self.d = Driver('driver')

    def stop(self):
        self.d.close()

    def case(self, r, i):
        st = self.st
        kind, rule = ALL[i % len(ALL)]
        s = some_schema(r, eof=0, size=150, tail_optional=0, optional=0)
        if kind == 'whole':
            self.whole(r, s, rule)
            return
        q = Spots().schema(s)
        spots = q.spots if kind == 'field' else q.tops
        if not spots:
            spots, kind = q.tops, 'wrap'
        at = r.choice(spots)
        good, bad = rule(r)
        if kind == 'wrap':
            good, bad = 'struct Zw { %s }' % good, 'struct Zw { %s }' % bad
        name = getattr(rule, '__name__', str(rule))
        texts = []
        for x in (good, bad):
            t = tok(HELP) + q.t[:at] + ['\n'] + tok(x) + ['\n'] + q.t[at:]
            texts.append(Layout(r, docs=0).write(t) if r.random() < 0.3 else S.join([y for y in t if y != '\n']))
        if good is not None:
            rc, diag, il = self.d.compile(texts[0])
            if rc or il is None:
                raise Violation('refused ' + name, 'a valid schema was refused (%s): %s' % (good[:200], diag.decode(errors='replace')[:400]), schema=texts[0], inserted=good)
            st.count('accepted without the fault')
        self.refuse(r, name, texts[1], bad)
        if kind != 'field' and r.random() < 0.5:      # the same in a file imported from there
            path = os.path.join(self.d.dir, 'part.cnd')
            text = S.join([y for y in tok(HELP) + q.t[:at] + ['@', 'import', '(', '"part.cnd"', ')'] + q.t[at:] if y != '\n'])
            for x in (good, bad):
                with open(path, 'w', encoding='utf-8', errors='surrogateescape') as f:
                    f.write(S.join(tok(x)))
                if x is not bad:
                    rc, diag, il = self.d.compile(text)
                    if rc or il is None:
                        raise Violation('refused imported ' + name, 'a valid schema was refused (%s imported): %s' % (good[:200], diag.decode(errors='replace')[:400]), schema=text, inserted=good)
            self.refuse(r, name, text, 'imported: ' + bad)
            st.count('faults in imported files')

    def refuse(self, r, name, text, bad):
        st = self.st
        js = r.randint(0, 1)
        rc, diag, il = self.d.compile(text, js)
        if rc == 0 or il is not None:
            raise Violation('accepted ' + name, 'a broken schema was accepted: ' + bad[:300], schema=text, inserted=bad)
        if (b'"message"' if js else b'error') not in diag:
            raise Violation('silent ' + name, 'refused without a diagnostic: ' + bad[:300], schema=text, inserted=bad)
        st.count('refused with the fault')
        st.count('rule ' + name)
        st.judged(text)
        st.sample(rule=name, inserted=bad[:300], diagnostic=diag.decode(errors='replace')[:200])

    def whole(self, r, s, k):
        q = Spots().schema(s)
        if k == 0:       # no packet
            t = list(q.t)
            j = t.index('packet')
            self.refuse(r, 'no packet', S.join([x for x in t[:j] if x != '\n']), 'no packet')
        elif k == 1:     # the packet named like a type
            if not s.types:
                return
            s.name = r.choice(s.types).name
            self.refuse(r, 'packet named like a type', S.render(s), 'packet ' + s.name)
        elif k == 2:     # an alias of nothing, of an enum, of itself
            head = [x for t in q.t for x in [t] if x != '\n']
            j = head.index('packet')
            enums = [t.name for t in s.types if t.kind == 'enum']
            n = r.choice(['Nope', s.name, 'uint8', 'string'] + enums)
            self.refuse(r, 'packet alias', S.join(head[:j]) + ' packet %s = %s ;' % (s.name, n), 'packet = ' + n)
        else:            # text missing at the end, or too much of it
            t = [x for x in q.t if x != '\n']
            if r.random() < 0.5:
                self.refuse(r, 'end missing', S.join(t[:-1]), 'end missing')
            else:
                self.refuse(r, 'more at the end', S.join(t + [r.choice(['}', 'x', ')', '5', 'packet', '@', 'struct', 'enum X', '@nosuch(', 'uint8 x;', ']', '$', '"', '"a"', ':'])]), 'more at the end')


ANSI = re.compile(rb'\x1b\[[0-9;]*m')
# What is wrong shows only at a token behind the inserted text
LATER = {'end missing'}
NASTY = ['a"b.cnd', "it's.cnd", 'back\\slash.cnd', 'tab\there.cnd', 'new\nline.cnd', '\u00fc\u6f22\U0001f600.cnd', '\x01\x1f\x7f.cnd', 'a b.cnd', '%s%n.cnd', '{"x": 1}.cnd', '\udcff\udc80.cnd', 'x:12:3: error.cnd',
         '\udce6\udcbc.cnd', '\x1b[31m.cnd', '-', 'null', '\u2028.cnd']


class C31(Check):
    pid = 'C31'
    technique = 'fault injection at known tokens of random texts; monitor: file and line of the first diagnostic against the positions the generator wrote down, JSON lines parsed strictly and compared with the text form'
    note = 'A fault that takes a whole statement to see may be reported anywhere in that statement.'
    rule = 'random schemas in random layouts with a stray token at a random place or a broken rule, in the main or an imported file, under odd file names; distinct texts count'
    assumptions = ['lines end in LF or CRLF; a lone carriage return does not end a line']
    variants = ['driver']
    quick, thorough = 40000, 400000
    need = ('stray tokens', 'exact lines', 'broken rules', 'imported files', 'JSON lines', 'odd file names', 'CRLF texts', 'odd tokens')

    def start(self, w):
        self.d = Driver('driver')

    def stop(self):
        self.d.close()

    def case(self, r, i):
        st = self.st
        s = some_schema(r, eof=0, size=150, tail_optional=0, optional=0)
        q = Spots().schema(s)
        t = list(q.t)
        if i % 3 == 0:
            kind, rule = r.choice([x for x in ALL if x[0] != 'whole' and x[1] is not two_packets])     # which of the two is too many depends on the order
            spots = q.spots if kind == 'field' else q.tops
            if not spots:
                return
            at = r.choice(spots)
            bad = tok(rule(r)[1])
            t = tok(HELP) + t[:at] + ['\n'] + bad + ['\n'] + t[at:]
            at += len(tok(HELP)) + 1
            first, last, exact = at, at + len(bad), False     # the token after it may be the one in the way
            st.count('broken rules')
            what = rule.__name__
        else:
            at = r.choice([k for k in range(len(t)) if t[k] != '\n'])
            stray = r.choice(['$', '`', '\\', '\x80', '\u6f22', '#', '\x01', '\x7f', "'", '?', '\xff', '\udcff', '\udc80\udc80', '"%s"', '"\n"', '"a\tb"', '"\\n"'] if i % 3 == 1 else ['$'])
            if stray[0] == '"' and (t[at] == '"' or t[at - 1:at] == ['(']):
                stray = '$'
            if stray[0] == '"':
                stray = stray.replace('%s', r.choice(['', '\u00e9', '\udce9', '\\', '{', '\x02']))
            st.count('odd tokens', stray != '$')
            if r.random() < 0.3:
                t[at] = stray
            else:
                t.insert(at, stray)
            # the statement it stands in
            first = at
            while first > 0 and t[first - 1] not in (';', '{', '}'):
                first -= 1
            exact = not ({'@', '[', 'string', ':'} & set(t[first:at])) and 'enum' not in t[max(0, first - 5):first]
            last = at
            st.count('stray tokens')
            what = 'stray'
        lay = Layout(r, comments=r.choice([0, 0.1, 0.4]), docs=0, breaks=r.choice([0, 0.2, 0.5]), one_line=r.random() < 0.3, odd=True)
        text = lay.write(t)
        if first < len(t):
            while first < at and t[first] == '\n':
                first += 1
        lines = lay.lines
        lo = lines[at] if exact else min(lines[first:at + 1])
        end = last if last < len(lines) else len(lines) - 1
        while what != 'stray' and end + 1 < len(t) and t[end] == '\n':
            end += 1
        while what != 'stray' and end + 1 < len(t) and t[end] not in (';', '{', '}'):
            end += 1                  # something left open may be missed only in the next statement
        hi = lines[at] if what == 'stray' else lines[end]
        if what != 'stray' and end == len(t) - 1:
            hi = text.count('\n') + 1
        st.count('exact lines', lo == hi)
        st.count('CRLF texts', lay.eol != '\n')
        data = text.encode('utf-8', 'surrogateescape')
        self.judge(r, i, data, lo, hi, what)

    def judge(self, r, i, data, lo, hi, what):
        st, d = self.st, self.d.dir
        name = r.choice(NASTY) if r.random() < 0.4 else 'in.cnd'
        st.count('odd file names', name != 'in.cnd')
        path = os.path.join(d, name)
        main = path
        imported = '"' not in name and '\n' not in name and r.random() < 0.3
        if imported:
            main = os.path.join(d, 'main.cnd')
            with open(main, 'wb') as f:
                f.write(b'// first\n' * r.choice([0, 1, 7]) + b'@import("' + os.fsencode(name) + b'")\n packet ZZ { uint8 x; }\n')
            st.count('imported files')
        with open(path, 'wb') as f:
            f.write(data)
        info = dict(schema=data.decode('latin-1'), file=os.fsencode(name).decode('latin-1'), expected='%d-%d' % (lo, hi), fault=what)
        try:
            rc, diag, il = self.d.compile_file(main, 1)
            rc2, diag2, il2 = self.d.compile_file(main, 0)
        finally:
            os.unlink(path)
        if rc == 0 or rc2 == 0:
            raise Violation('accepted', 'a broken text was accepted', **info)
        info['output'] = diag.decode('latin-1')[:2000]
        first = None
        for line in diag.split(b'\n'):
            if not line:
                continue
            try:
                j = json.loads(line.decode('utf-8'))
            except ValueError as e:
                raise Violation('json', 'a line of the output is not valid JSON: %s' % e, **info)
            if not isinstance(j, dict) or not isinstance(j.get('file'), str) or not isinstance(j.get('line'), int) or not isinstance(j.get('message'), str):
                raise Violation('json members', 'a JSON diagnostic lacks file, line or message', **info)
            st.count('JSON lines')
            first = first or j
        if first is None:
            raise Violation('silent', 'no diagnostic', **info)
        if not lo <= first['line'] <= hi:
            raise Violation('line', 'the diagnostic is on line %d, the fault (%s) on line %d-%d: %s' % (first['line'], what, lo, hi, first['message']), **info)
        ok = not any(0xdc80 <= ord(c) <= 0xdcff for c in name)
        if ok and first['file'] != os.path.realpath(path):
            raise Violation('file', 'the diagnostic names the file %r' % first['file'], **info)
        # the text form says the same
        if '\n' not in name and '\x1b' not in name and ok:
            text = ANSI.sub(b'', diag2)
            want = (os.fsencode(os.path.realpath(path)) + b':%d:' % first['line'])
            head = text.split(b'\n')[0]
            if not head.startswith(want) or not head.endswith(b': error: ' + first['message'].encode()):
                raise Violation('text', 'the text form differs from the JSON one', text=diag2.decode('latin-1')[:1500], **info)
            st.count('text lines compared')
        st.judged((data, name, imported))
        st.sample(file=name.encode('utf-8', 'replace').decode(), expected='%d-%d' % (lo, hi), diagnostic=info['output'][:300], text=info['schema'][:300])
