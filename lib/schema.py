"""Schemas as values: the description the reference model interprets and the text
renderer prints.  Nothing here looks at the repository's own representation."""
from dataclasses import dataclass, field as dfield
from typing import Any, List, Optional

INT_BITS = {'uint8': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64,
            'int8': 8, 'int16': 16, 'int32': 32, 'int64': 64}
ALIASES = {'uint8': ['uint8', 'u8', 'byte'], 'uint16': ['uint16', 'u16'], 'uint32': ['uint32', 'u32'],
           'uint64': ['uint64', 'u64'], 'int8': ['int8', 'i8'], 'int16': ['int16', 'i16'],
           'int32': ['int32', 'i32'], 'int64': ['int64', 'i64'], 'float': ['float', 'f32'],
           'double': ['double', 'f64'], 'bool': ['bool'], 'string': ['string']}


def is_int(t):
    return isinstance(t, str) and t in INT_BITS


def is_signed(t):
    return t[0] == 'i'


def int_lo(t):
    return -(1 << (INT_BITS[t] - 1)) if is_signed(t) else 0


def int_hi(t):
    return (1 << (INT_BITS[t] - (1 if is_signed(t) else 0))) - 1


@dataclass
class Enum:
    name: str
    base: Optional[str]                    # None: uint32 by default
    members: list                          # (name, value, explicit)
    kind = 'enum'

    @property
    def type(self):
        return self.base or 'uint32'


@dataclass
class Struct:
    name: str
    body: list
    unaligned: bool = False
    kind = 'struct'


@dataclass
class Field:
    name: str
    type: Any                              # primitive name, 'string', Enum or Struct
    bits: int = 0
    arr: Any = None                        # ('fixed', n, 'count'|'bracket'), ('pre', t), ('dyn', ref), ('eof',)
    strspec: Any = None                    # ('pre', t) | ('nul', max|None, until)
    endian: Optional[str] = None
    range: Any = None                      # (lo, hi): numbers, or texts for floats
    const: Any = None
    crc: Any = None                        # dict(width, poly, init, xor, refin, refout) None = default
    trans: Any = None
    optional: bool = False
    expr: Any = None
    pre_pad: Any = None                    # ('pad', n) | ('fill', bit) written in front of the field
    hint: Any = None                       # values worth choosing for it
    hint_max: Any = None


@dataclass
class Pad:
    n: int


@dataclass
class Fill:
    bit: Optional[int]                     # None: @fill without argument


@dataclass
class If:
    branches: list                         # (cond, body)
    orelse: Optional[list] = None


@dataclass
class Switch:
    disc: str
    cases: list                            # (value, label or None, body)
    default: Optional[list] = None
    default_at: Optional[int] = None       # position of default among the cases


@dataclass
class Schema:
    types: list
    name: str
    body: Any                              # list of nodes, or a Struct for an alias
    endian: Optional[str] = None
    version: Optional[int] = None


def fmt_float(x):
    """A decimal literal without exponent that reads back as exactly x."""
    if x == int(x) and abs(x) < 1e15:
        return '%d.0' % int(x) if not (x == 0 and str(x)[0] == '-') else '0.0'
    for p in range(1, 340):
        s = '%.*f' % (p, x)
        if float(s) == x:
            return s
    raise ValueError(x)


class Style:
    """How to spell things.  The default is plain; a random one varies everything
    that must not change the meaning."""

    def __init__(self, rng=None, noise=0.0):
        self.rng, self.noise, self.parens = rng, noise, 0.0

    def type(self, t):
        if self.rng and self.noise:
            return self.rng.choice(ALIASES[t])
        return t

    def num(self, n):
        if self.rng and self.noise and self.rng.random() < 0.4:
            return ('-0x%x' % -n) if n < 0 else self.rng.choice(['0x%x', '0x%X', '0X%x'])  % n
        return str(n)


# --- expressions -----------------------------------------------------------
# ('num', n) ('fnum', x) ('bool', b) ('var', name) ('fvar', name) ('tofloat', e)
# ('toint', e) ('un', op, e) ('bin', op, a, b) ('call', fn, args)
PREC = {'||': 1, '&&': 2, '|': 3, '^': 4, '&': 5, '==': 6, '!=': 6, '<': 7, '>': 7, '<=': 7, '>=': 7,
        '<<': 8, '>>': 8, '+': 9, '-': 9, '*': 10, '/': 10, '%': 10}


def expr_tokens(e, st):
    """Token list of the expression with the parentheses it needs (and some it does not)."""
    def go(e, prec):
        k = e[0]
        if k == 'num':
            if e[1] < 0:
                return [str(e[1])]
            return [st.num(e[1])]
        if k == 'fnum':
            return [fmt_float(e[1])]
        if k == 'bool':
            return ['true' if e[1] else 'false']
        if k in ('var', 'fvar'):
            out = []
            for i, p in enumerate(e[1].split('.')):
                out += (['.'] if i else []) + [p]
            return out
        if k == 'tofloat':
            return ['float', '('] + go(e[1], 0) + [')']
        if k == 'toint':
            return ['int', '('] + go(e[1], 0) + [')']
        if k == 'call':
            out = [e[1], '(']
            for i, a in enumerate(e[2]):
                out += ([','] if i else []) + go(a, 0)
            return out + [')']
        if k == 'un':
            t = [e[1]] + go(e[2], 11)
            p = 11
        else:
            p = PREC[e[1]]
            t = go(e[2], p) + [e[1]] + go(e[3], p + 1)
        if p < prec or (st.rng and st.parens and st.rng.random() < st.parens):
            return ['('] + t + [')']
        return t
    return go(e, 0)


# --- rendering as tokens ---------------------------------------------------
class Renderer:
    def __init__(self, style=None):
        self.st = style or Style()
        self.t = []          # tokens; '\n' marks a suggested line break
        self.lines = {}      # id(node) -> token index

    def put(self, *a):
        self.t += [x for x in a]

    def nl(self):
        self.t.append('\n')

    def number(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, float):
            return fmt_float(v)
        return self.st.num(v)

    def dec(self, name, *args):
        self.put('@', name)
        if args:
            self.put('(')
            for i, a in enumerate(args):
                if i:
                    self.put(',')
                self.put(self.number(a))
            self.put(')')

    def decorators(self, f):
        ds = []
        if f.endian:
            long_ = self.st.rng and self.st.noise and self.st.rng.random() < 0.5
            ds.append(({'le': 'little_endian', 'be': 'big_endian'}[f.endian] if long_ else f.endian,))
        if f.optional:
            ds.append(('optional',))
        if f.range is not None:
            ds.append(('range', f.range[0], f.range[1]))
        if f.const is not None:
            ds.append(('const', f.const))
        if f.crc is not None:
            c = f.crc
            ds.append(('crc', c['width']))
            for k in ('poly', 'init', 'xor'):
                if c.get(k) is not None:
                    ds.append(('crc_' + k, c[k]))
            for k in ('refin', 'refout'):
                if c.get(k):
                    ds.append(('crc_' + k,))
        if f.trans is not None:
            t = f.trans
            if t[0] == 'scale':
                if t[1] is not None:
                    ds.append(('scale', t[1]))
                if t[2] is not None:
                    ds.append(('offset', t[2]))
            elif t[0] in ('poly', 'spline'):
                ds.append((t[0],) + tuple(t[1]))
            else:
                ds.append((t[0], t[1]))
        if f.arr:
            if f.arr[0] == 'fixed' and f.arr[2] == 'count':
                ds.append(('count', f.arr[1]))
            elif f.arr[0] == 'dyn':
                ds.append(('count', f.arr[1]))
            elif f.arr[0] == 'eof':
                ds.append(('eof',))
        return ds

    def field(self, f):
        if f.pre_pad:
            if f.pre_pad[0] == 'pad':
                self.dec('pad', f.pre_pad[1])
            elif f.pre_pad[1] is None:
                self.dec('fill')
            else:
                self.dec('fill', f.pre_pad[1])
        for d in self.decorators(f):
            self.dec(*d)
        if f.expr is not None:
            self.put('@', 'expr', '(')
            self.t += expr_tokens(f.expr, self.st)
            self.put(')')
        self.put(f.type.name if not isinstance(f.type, str) else self.st.type(f.type))
        self.put(f.name)
        if f.bits:
            self.put(':', self.st.num(f.bits))
        if f.arr:
            self.put('[')
            if f.arr[0] == 'fixed' and f.arr[2] == 'bracket':
                self.put(self.st.num(f.arr[1]))
            self.put(']')
            if f.arr[0] == 'pre':
                self.put('prefix', self.st.type(f.arr[1]) if f.arr[1] != 'uint8' else self.u8())
        if f.strspec:
            if f.strspec[0] == 'pre':
                self.put('prefix', self.st.type(f.strspec[1]) if f.strspec[1] != 'uint8' else self.u8())
            else:
                if f.strspec[2]:
                    self.put('until', self.st.num(0))
                if f.strspec[1] is not None:
                    self.put('max', self.st.num(f.strspec[1]))
        self.put(';')

    def u8(self):
        return self.st.rng.choice(['uint8', 'u8']) if self.st.rng and self.st.noise else 'uint8'

    def body(self, nodes):
        self.put('{')
        self.nl()
        for n in nodes:
            self.node(n)
        self.put('}')

    def node(self, n):
        self.lines[id(n)] = len(self.t)
        if isinstance(n, Field):
            self.field(n)
        elif isinstance(n, Pad):
            self.dec('pad', n.n)
            self.put(';')
        elif isinstance(n, Fill):
            self.dec('fill', *([] if n.bit is None else [n.bit]))
            self.put(';')
        elif isinstance(n, If):
            for i, (c, b) in enumerate(n.branches):
                if i:
                    self.put('else')
                self.put('if', '(')
                self.t += expr_tokens(c, self.st)
                self.put(')')
                self.body(b)
            if n.orelse is not None:
                self.put('else')
                self.body(n.orelse)
        elif isinstance(n, Switch):
            self.put('switch', '(', n.disc, ')', '{')
            self.nl()
            at = len(n.cases) if n.default_at is None else n.default_at
            for i in range(len(n.cases) + 1):
                if i == at and n.default is not None:
                    self.put('default', ':')
                    self.case_body(n.default)
                if i < len(n.cases):
                    v, label, b = n.cases[i]
                    if label:
                        self.put('case', label.split('.')[0], '.', label.split('.')[1], ':')
                    else:
                        self.put('case', self.st.num(v), ':')
                    self.case_body(b)
            self.put('}')
        self.nl()

    def case_body(self, b):
        if len(b) == 1 and isinstance(b[0], Field) and sum(b[0].name.encode()) % 2 == 0 and not b[0].pre_pad:
            self.field(b[0])
        else:
            self.body(b)
        self.nl()

    def typedef(self, t):
        self.lines[id(t)] = len(self.t)
        if t.kind == 'enum':
            self.put('enum', t.name)
            if t.base:
                self.put(':', self.st.type(t.base) if t.base != 'uint8' else self.u8())
            self.put('{')
            self.nl()
            for i, (n, v, explicit) in enumerate(t.members):
                self.put(n)
                if explicit:
                    self.put('=', self.st.num(v))
                if i < len(t.members) - 1:
                    self.put(',')
                self.nl()
            self.put('}')
        else:
            if t.unaligned:
                self.dec('unaligned_bytes')
            self.put('struct', t.name)
            self.body(t.body)
        self.nl()

    def schema(self, s):
        for t in s.types:
            self.typedef(t)
        if s.version is not None:
            self.dec('version', s.version)
        if s.endian:
            self.dec({'le': 'little_endian', 'be': 'big_endian'}[s.endian])
        self.packet(s)
        return self

    def packet(self, s):
        self.put('packet', s.name)
        if isinstance(s.body, list):
            self.body(s.body)
        else:
            self.put('=', s.body.name, ';')
        self.nl()

    def text(self):
        out, line = [], []
        depth = 0
        for tok in self.t:
            if tok == '\n':
                if line:
                    d = depth - (1 if line[0] == '}' else 0)
                    out.append('    ' * max(d, 0) + join(line))
                    depth += line.count('{') - line.count('}')
                    line = []
            else:
                line.append(tok)
        if line:
            out.append(join(line))
        return '\n'.join(out) + '\n'


def join(tokens):
    s = ''
    for t in tokens:
        if s and need_space(s, t):
            s += ' '
        s += t
    return s


def need_space(s, t):
    if t in (';', ',', ')', ']', '.') or s[-1] in '(@.[':
        return False
    if t in ('(', '[', ':') and s[-1] not in '&|=<>+-*/%^':
        return False
    return True


def render(s, style=None):
    return Renderer(style).schema(s).text()
