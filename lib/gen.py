"""Random schemas and random records for them."""
import math
from schema import *
import model
from model import f64_bits, bits_f64, f32_bits, bits_f32, M64, to_eng, trans_kind, round_half_away

INTS = list(INT_BITS)
NAMES = ['a', 'b', 'c', 'x', 'y', 'z', 'id', 'n', 'len', 'type', 'val', 'data', 'flags', 'hdr', 'kind', 'seq', 'ts',
         'item', 'items', 'body', 'crc_', 'temp', 'mode', 'count', 'lat', 'lon', 'q', 'k', 'sub', 'inner', 'payload',
         'value', 'max', 'prefix', 'until', '_u', 'A', 'Z9', 'long_field_name_that_is_quite_descriptive', 'p0', 'p1']
FUNCTIONS = ['sin', 'cos', 'tan', 'sqrt', 'log', 'abs', 'pow']
RESERVED = {'sin', 'cos', 'tan', 'sqrt', 'log', 'abs', 'pow', 'float', 'int', 'self', 'true', 'false', 'if', 'else',
            'switch', 'case', 'default', 'struct', 'enum', 'packet'}

BASE = dict(fields=(1, 7), depth=3, structs=2, enums=2, endian=0.25, packet_endian=0.5, version=0.3, alias=0.1,
            w=dict(scalar=6, bool=1, float=1.5, bits=2, enum=1.5, const=1, string=1.5, struct=2, array=3, crc=0.5,
                   expr=1, trans=1, If=1, switch=1, pad=0.4, fill=0.4),
            size=400, huge=0.012, range=0.2, optional=0.0, tail_optional=0.0, unaligned=0.25, eof=0.06, big=0.02, if_depth=2, loops=4,
            expr_depth=3, float_expr=0.4, poly=True, float_trans=True, nan=True, arr_kinds=('fixed', 'pre', 'dyn'))


def profile(**kw):
    p = dict(BASE)
    w = kw.pop('w', None)
    p['w'] = dict(BASE['w'])
    if w is not None:
        if kw.pop('only', False):
            p['w'] = {k: 0 for k in p['w']}
        p['w'].update(w)
    p.update(kw)
    return p


class Scope:
    """What a body can refer to and which names it has used."""

    def __init__(self, parent=None):
        self.refs = list(parent.refs) if parent else []     # (name, 'i'|'f', field or None)
        self.used = set(parent.used) if parent else set()
        self.top = False


class Gen:
    def __init__(self, rng, prof):
        self.r, self.p = rng, prof
        self.types = []
        self.type_names = set()
        self.loops = 0
        self.nsp = 0
        self.huge = False        # sizes beyond one byte: fields, members, cases
        self.cur = None          # partly used byte in front of the node being made

    # -- helpers
    def chance(self, p):
        return self.r.random() < p

    def pick(self, weights):
        ks = [k for k, v in weights.items() if v > 0]
        return self.r.choices(ks, [weights[k] for k in ks])[0]

    def name(self, sc):
        for _ in range(50):
            n = self.r.choice(NAMES)
            if self.chance(0.3):
                n += str(self.r.randrange(100))
            if n not in sc.used and n not in RESERVED and n not in self.type_names:
                sc.used.add(n)
                return n
        n = 'f%d' % len(sc.used)
        while n in sc.used:
            n += '_'
        sc.used.add(n)
        return n

    def type_name(self):
        while True:
            if self.type_names and self.chance(0.12):          # a name easily mistaken for another
                o = self.r.choice(sorted(self.type_names))
                n = self.r.choice([o.upper(), o.lower(), o.swapcase(), o + '_', o + 'x', o[:-1], '_' + o])
                if not n or n in RESERVED or n in INTS or n in self.type_names or n in NAMES or n[0].isdigit() or n in ('float', 'double', 'bool', 'string', 'byte'):
                    continue
                self.type_names.add(n)
                return n
            n = self.r.choice(['Point', 'Header', 'Item', 'Status', 'S', 'T', 'Kind', 'Body', 'Frame', 'Rec', 'E']) + \
                (str(self.r.randrange(100)) if self.chance(0.6) else '')
            if n not in self.type_names:
                self.type_names.add(n)
                return n

    def int_near(self, t):
        lo, hi = int_lo(t), int_hi(t)
        return self.r.choice([lo, hi, max(lo, -1), 0, 1, hi // 2, self.r.randint(lo, hi), self.r.randint(0, min(hi, 300))])

    def order(self):
        return self.r.choice(['le', 'be']) if self.chance(self.p['endian']) else None

    # -- schema
    def schema(self):
        """A random schema of reasonable expanded size."""
        self.huge = bool(self.p['huge']) and self.chance(self.p['huge'])
        while True:
            s = self.schema1()
            big = max([body_size(s.body if isinstance(s.body, list) else s.body.body)] + [t.size // 5 for t in self.types if t.kind == 'struct'])
            if big <= (2000 if self.huge else self.p['size']):
                return s
            self.types, self.type_names, self.loops, self.cur = [], set(), 0, None

    def schema1(self):
        p = self.p
        self.pname = self.type_name()
        for _ in range(self.r.randint(0, p['enums'])):
            self.types.append(self.enum())
        for _ in range(self.r.randint(0, p['structs'])):
            self.struct()
        s = Schema(self.types, self.pname, None)
        if self.chance(p['packet_endian']):
            s.endian = self.r.choice(['le', 'be'])
        if self.chance(p['version']):
            s.version = self.r.choice([0, 1, 255, self.r.randrange(256)])
        structs = [t for t in self.types if t.kind == 'struct']
        if structs and self.chance(p['alias']):
            s.body = self.r.choice(structs)
            s.eof = False
        else:
            sc = Scope()
            sc.top = True
            n = self.r.randint(*p['fields'])
            s.body = self.body(sc, p['depth'], n * self.r.choice([1, 8, 25]) if self.huge else n, False)
            s.eof = False
            if self.chance(p['eof']):
                self.flush_tail(s.body, False)
                s.body.append(self.eof_field(sc))
                s.eof = True
            elif self.chance(p['tail_optional']):
                self.optional_tail(s.body, sc)
        self.check_names(s)
        return s

    def check_names(self, s):
        pass

    def enum(self):
        base = self.r.choice([None] + INTS)
        t = base or 'uint32'
        ms, nxt, seen, names = [], 0, set(), set()
        for i in range(self.r.choice([1, 2, 3, 5, 8]) if not self.huge else self.r.choice([8, 70, 130, 300])):
            n = self.r.choice(['A', 'B', 'C', 'ON', 'OFF', 'IDLE', 'ERR', 'X']) + (str(i) if self.chance(0.7) else '')
            if n in names:
                n = 'V%d' % i
                if n in names:
                    continue
            names.add(n)
            explicit = self.chance(0.5) or nxt in seen or nxt > int_hi(t)
            v = nxt
            if explicit:
                for _ in range(20):
                    v = self.int_near(t)
                    if v not in seen:
                        break
                else:
                    continue
            seen.add(v)
            ms.append((n, v, explicit))
            nxt = v + 1
        return Enum(self.type_name(), base, ms)

    def struct(self, unaligned=None):
        un = self.chance(self.p['unaligned']) if unaligned is None else unaligned
        name = self.type_name()
        sc = Scope()
        s = Struct(name, None, un)
        saved, self.loops = self.loops, 1
        s.body = self.body(sc, self.p['depth'] - 1, self.r.randint(1, max(1, self.p['fields'][1] - 2)), un)
        self.loops = saved
        if un:
            s.body.append(Fill(self.r.choice([None, 0, 1])))
        s.refs = [x for x in sc.refs]
        s.leaves = None if un else self.dirty_after(s.body)
        s.loops = body_loops(s.body)
        s.size = body_size(s.body)
        s.solid = body_solid(s.body, un)
        s.pure = body_pure(s.body, un)
        self.types.append(s)
        return s

    # -- which partial byte a body leaves: None, 'base' (order of the body) or 'other'
    def dirty_after(self, nodes, dirty=None, un=False):
        for n in nodes:
            dirty = self.dirty_node(n, dirty, un)
        return dirty

    def dirty_node(self, n, dirty, un):
        if isinstance(n, Fill):
            return None
        if isinstance(n, Pad):
            return dirty if n.n % 8 == 0 else (dirty or 'base')
        if isinstance(n, (If, Switch)):
            bodies = [b for _, b in n.branches] + [n.orelse or []] if isinstance(n, If) else \
                [b for _, _, b in n.cases] + [n.default or []]
            out = {self.dirty_after(b, dirty, un) for b in bodies} | ({dirty} if isinstance(n, If) or n.default is None else set())
            return 'other' if 'other' in out else 'base' if 'base' in out else None
        f = n
        d = dirty
        if f.pre_pad:
            d = None if f.pre_pad[0] == 'fill' else (d if f.pre_pad[1] % 8 == 0 else d or 'base')
        if f.arr:
            return None
        if isinstance(f.type, Struct):
            if f.type.unaligned:
                return None
            inner = f.type.leaves
            if body_aligns(f.type.body):
                return ('other' if f.endian else inner) if inner else None
            if inner:
                return 'other' if f.endian else inner
            return d if not body_any(f.type.body) else None if inner is None and body_aligns(f.type.body) else d
        if isinstance(f.type, Enum) or f.type in ('string', 'float', 'double') or f.const is not None or f.crc or f.expr:
            return None
        if f.bits or un:
            return 'other' if f.endian else 'base'
        return None

    def needs_fill(self, f, dirty, un):
        """A field whose bits would share a byte with bits of another byte order."""
        if dirty is None:
            return False
        if f.arr:
            return False
        if isinstance(f.type, Struct):
            return f.type.unaligned or bool(f.endian) or dirty == 'other' or not f.type.pure
        if f.bits or (un and (is_int(f.type) or f.type == 'bool')):
            return bool(f.endian) or dirty == 'other'
        return False

    def body(self, sc, depth, n, un, dirty=None):
        out = []
        for i in range(n):
            self.cur = 'base' if dirty else None     # 'other' gets a spacer
            node = self.node(sc, depth, un)
            if node is None:
                continue
            if isinstance(node, Field):
                if dirty == 'other':
                    node.pre_pad = None
                if self.needs_fill(node, dirty, un):
                    out.append(self.spacer(sc, dirty))
                    dirty = None
            elif dirty == 'other':
                out.append(self.spacer(sc, dirty))
                dirty = None
            out.append(node)
            dirty = self.dirty_node(node, dirty, un)
        if dirty == 'other':
            out.append(self.spacer(sc, dirty))
        return out

    def spacer(self, sc, dirty):
        """Something that ends a partly used byte.  @fill works in the surrounding byte order, so
        behind bits of the other order only a byte-aligned field does."""
        if dirty == 'base':
            return Fill(self.r.choice([None, 0, 1]))
        self.nsp += 1
        return Field('sp_%d' % self.nsp, 'uint8', const=self.r.randrange(256))

    def flush_tail(self, body, un):
        if self.dirty_after(body, None, un):
            body.append(Fill(None))

    def node(self, sc, depth, un):
        w = dict(self.p['w'])
        if depth <= 0:
            w['If'] = w['switch'] = 0
            w['array'] *= 0.5
        if un:
            w['float'] = w['trans'] = w['crc'] = 0
            w['expr'] = 0
            w['bits'] *= 3
            w['array'] *= 0.4
            w['string'] *= 0.4
            w['const'] *= 0.4
        if not [t for t in self.types if t.kind == 'struct' and t.loops + self.loops <= self.p['loops']]:
            w['struct'] = 0
        if not [t for t in self.types if t.kind == 'enum']:
            w['enum'] = 0
        if not any(w.values()):
            w['scalar'] = 1
        k = self.pick(w)
        return getattr(self, 'n_' + k)(sc, depth, un)

    def ref(self, sc, f, kind=None):
        if kind is None:
            kind = 'f' if f.type in ('float', 'double') else 'i'
            if f.trans is not None:
                kind = trans_kind(f.trans)
        if f.trans is not None and (f.trans[0] in ('poly', 'spline') or f.type in ('float', 'double')):
            return                       # decoding gives these back only approximately
        sc.refs.append((f.name, kind, f))

    def decorate(self, f, sc, un):
        f.endian = self.order()
        if self.chance(self.p['optional']):
            f.optional = True
        if self.chance(0.04) and not un:
            f.pre_pad = self.r.choice([('pad', self.r.choice([1, 4, 8, 24])), ('fill', self.r.choice([None, 0, 1]))])
            if f.pre_pad[0] == 'pad' and (f.bits or isinstance(f.type, Struct)):
                f.pre_pad = ('fill', 1)
        return f

    def n_scalar(self, sc, depth, un):
        t = self.r.choice(INTS)
        f = Field(self.name(sc), t)
        if self.chance(self.p['range']) and not un:
            a, b = sorted([self.int_near(t), self.int_near(t)])
            f.range = (a, b)
        if not un and self.chance(0.05):
            f.hint = []
        self.ref(sc, f)
        return self.decorate(f, sc, un)

    def n_bool(self, sc, depth, un):
        f = Field(self.name(sc), 'bool')
        self.ref(sc, f)
        return self.decorate(f, sc, un)

    def rnd_float(self, t):
        r = self.r
        x = r.choice([0.0, 1.0, -1.0, 0.5, -2.25, 1e10, 3.14159, 1e-7, r.uniform(-1000, 1000), r.uniform(-1, 1),
                      float(r.randint(-10 ** 6, 10 ** 6)), r.uniform(-1, 1) * 10 ** r.randint(-30, 30)])
        return bits_f32(f32_bits(x)) if t == 'float' else x

    def n_float(self, sc, depth, un):
        t = self.r.choice(['float', 'double'])
        f = Field(self.name(sc), t)
        if self.chance(self.p['range']):
            a, b = sorted([self.rnd_float(t), self.rnd_float(t)])
            f.range = (a, b)
        self.ref(sc, f)
        return self.decorate(f, sc, un)

    def n_bits(self, sc, depth, un):
        t = self.r.choice(INTS + ['uint8', 'uint16', 'uint32', 'bool'])
        if t == 'bool':
            f = Field(self.name(sc), t, bits=1)
        else:
            m = INT_BITS[t]
            f = Field(self.name(sc), t, bits=self.r.choice([1, 2, 3, 4, 5, 7, 8, m - 1, m, self.r.randint(1, m)]))
            f.bits = min(f.bits, m)
        self.ref(sc, f)
        return self.decorate(f, sc, un)

    def n_enum(self, sc, depth, un):
        e = self.r.choice([t for t in self.types if t.kind == 'enum'])
        f = Field(self.name(sc), e)
        if self.chance(self.p['range'] * 0.3):
            v = [m[1] for m in e.members]
            f.range = (min(v), max(v)) if self.chance(0.5) else (self.r.choice(v),) * 2
        self.ref(sc, f, 'i')
        return self.decorate(f, sc, un)

    def n_const(self, sc, depth, un):
        t = self.r.choice(INTS)
        f = Field(self.name(sc), t, const=self.int_near(t))
        if self.chance(self.p['range'] * 0.5):
            lo, hi = int_lo(t), int_hi(t)
            f.range = (self.r.randint(lo, f.const), self.r.randint(f.const, hi))
        return self.decorate(f, sc, un)

    def strspec(self, array=False):
        if self.chance(0.55):
            return ('pre', self.r.choice(['uint8', 'uint16', 'uint32']))
        k = self.r.random()
        mx = self.r.choice([0, 1, 2, 5, 20, 254, 255, 256, 300, 1000]) if k < 0.6 else None
        until = array or self.chance(0.6)
        return ('nul', mx, until)

    def n_string(self, sc, depth, un):
        f = Field(self.name(sc), 'string', strspec=self.strspec())
        return self.decorate(f, sc, un)

    def n_struct(self, sc, depth, un):
        c = [t for t in self.types if t.kind == 'struct' and t.loops + self.loops <= self.p['loops']]
        s = self.r.choice(c)
        f = Field(self.name(sc), s)
        for n, k, g in s.refs:
            sc.refs.append((f.name + '.' + n, k, g))
        return self.decorate(f, sc, un)

    def crc_params(self):
        r = self.r
        w = r.choice([16, 32])
        c = dict(width=w)
        if self.chance(0.5):
            if self.chance(0.7):
                c['poly'] = r.choice([0x8005, 0x1021, 0x3D65, 0xC867] if w == 16 else
                                     [0x04C11DB7, 0x1EDC6F41, 0x741B8CD7, 0x814141AB, 0xA833982B])
                if self.chance(0.2):
                    c['poly'] = r.randrange(1 << w) | 1
            if self.chance(0.5):
                c['init'] = r.choice([0, (1 << w) - 1, r.randrange(1 << w)])
            if self.chance(0.5):
                c['xor'] = r.choice([0, (1 << w) - 1, r.randrange(1 << w)])
            if self.chance(0.4):
                c['refin'] = True
            if self.chance(0.4):
                c['refout'] = True
        return c

    def n_crc(self, sc, depth, un):
        c = self.crc_params()
        f = Field(self.name(sc), 'uint%d' % c['width'], crc=c)
        return self.decorate(f, sc, un)

    def n_pad(self, sc, depth, un):
        return Pad(self.r.choice([0, 1, 3, 4, 7, 8, 9, 16, 24, 40, 255, self.r.randrange(256)]))

    def n_fill(self, sc, depth, un):
        return Fill(self.r.choice([None, 0, 1]))

    # -- arrays
    def n_array(self, sc, depth, un):
        if self.loops >= self.p['loops']:
            return self.n_scalar(sc, depth, un)
        kinds = list(self.p['arr_kinds'])
        ints = [x for x in sc.refs if x[1] == 'i' and x[2] is not None and '.' not in x[0] and can_count(x[2])]
        if not ints and 'dyn' in kinds:
            kinds.remove('dyn')
        if not kinds:
            return self.n_scalar(sc, depth, un)
        k = self.r.choice(kinds)
        f = self.element(sc, un, solid=(k == 'dyn'), string_pre_ok=(k != 'pre'))
        if k == 'pre':
            f.arr = ('pre', self.r.choice(['uint8', 'uint16', 'uint32']))
        elif k == 'fixed':
            n = self.r.choice([0, 1, 2, 3, 4, 7])
            if not isinstance(f.type, Struct) and self.chance(self.p['big']):
                n = self.r.choice([255, 256, 257, 300, 1000])
            f.arr = ('fixed', n, self.r.choice(['count', 'bracket']))
        else:
            name, _, g = self.r.choice(ints)
            g.hint_max = 5 if g.hint_max is None else min(5, g.hint_max)
            f.arr = ('dyn', name)
        if k == 'pre' and f.strspec:
            raise AssertionError
        f.endian = self.order()
        if self.chance(self.p['optional']):
            f.optional = True
        return f

    def element(self, sc, un, solid=False, string_pre_ok=True):
        """A field usable as the element of an array."""
        kinds = dict(int=4, u8=2, float=1, bool=0.6, bits=1, enum=1, const=0.3, string=1 if string_pre_ok else 0,
                     struct=3, trans=1, range=1)
        for k, fam in (('float', 'float'), ('bool', 'bool'), ('bits', 'bits'), ('enum', 'enum'), ('const', 'const'),
                       ('string', 'string'), ('struct', 'struct'), ('trans', 'trans')):
            if not self.p['w'].get(fam):
                kinds[k] = 0
        if not self.p['range']:
            kinds['range'] = 0
        structs = [t for t in self.types if t.kind == 'struct' and t.loops + self.loops + 1 <= self.p['loops'] and
                   (t.solid or not solid)]
        enums = [t for t in self.types if t.kind == 'enum']
        if not structs:
            kinds['struct'] = 0
        if not enums:
            kinds['enum'] = 0
        if un:
            kinds['float'] = kinds['trans'] = kinds['range'] = 0
        k = self.pick(kinds)
        n = self.name(sc)
        if k == 'int':
            return Field(n, self.r.choice(INTS))
        if k == 'u8':
            return Field(n, self.r.choice(['uint8', 'int8']))
        if k == 'float':
            return Field(n, self.r.choice(['float', 'double']))
        if k == 'bool':
            return Field(n, 'bool')
        if k == 'bits':
            t = self.r.choice(INTS)
            return Field(n, t, bits=self.r.randint(1, INT_BITS[t]))
        if k == 'enum':
            return Field(n, self.r.choice(enums))
        if k == 'const':
            t = self.r.choice(INTS)
            return Field(n, t, const=self.int_near(t))
        if k == 'string':
            return Field(n, 'string', strspec=self.strspec(True))
        if k == 'struct':
            return Field(n, self.r.choice(structs))
        f = Field(n, self.r.choice(INTS))
        if k == 'trans':
            f.trans = self.transform(f)
        else:
            a, b = sorted([self.int_near(f.type), self.int_near(f.type)])
            f.range = (a, b)
        return f

    def eof_field(self, sc):
        f = self.element(sc, False, solid=True)
        while isinstance(f.type, str) and f.type == 'string' and False:
            f = self.element(sc, False, solid=True)
        f.arr = ('eof',)
        f.endian = self.order()
        return f

    # -- transforms
    def transform(self, f):
        r = self.r
        ks = ['scale', 'offset', 'both', 'add', 'sub', 'mul', 'div']
        if self.p['poly']:
            ks += ['poly'] + ['spline'] * (f.type[-2:] != '64')
        k = r.choice(ks)
        if k in ('scale', 'offset', 'both'):
            s = r.choice([0.5, 0.1, 0.01, 2.0, 10.0, 0.25, 1.5, -1.0, -0.5, 0.001, 1, 3])
            o = r.choice([0.0, -40.0, 100.0, 0.5, -0.25, 273.15, 1000, -5])
            return ('scale', s if k != 'offset' else None, o if k != 'scale' else None)
        if k in ('add', 'sub'):
            return (k, r.choice([1, -1, 100, -100, 1 << 31, -(1 << 40), (1 << 63) - 1, r.randint(-1000, 1000)]))
        if k in ('mul', 'div'):
            return (k, r.choice([2, 3, 10, -1, -2, 100, 7, 1]))
        if k == 'poly':
            n = r.randint(2, 4)
            if f.type in ('float', 'double', 'uint64', 'int64'):    # exactly invertible
                return ('poly', [r.choice([0, 1, -3, 10.5, 0.25]), r.choice([1, 2, 0.5, -0.25, -4])])
            small = [1e-10, 5e-11, 0] if f.type[-2:] == '32' else [0.001, 0.0005, 0.0001]
            return ('poly', [r.choice([0, 1, -3, 10.5, 0.25])] + [r.choice([1, 2, 0.5, 3.25])] +
                    [r.choice(small) * 10 ** -((9 if small[-1] == 0 else 4) * i) for i in range(n - 2)])
        if f.type in ('float', 'double'):
            pts, x, y, up = [], r.choice([0, -64, -1024.5]), r.choice([0.0, -50.0, 5.5]), r.choice([1, -1])
            for _ in range(r.choice([2, 3, 5, 16])):
                pts += [x, y]
                dx = r.choice([0.25, 1, 8, 100])
                x, y = x + dx, y + up * dx * r.choice([0.25, 0.5, 1, 2])
            return ('spline', pts)
        lo, hi = int_lo(f.type), int_hi(f.type)
        n = r.randint(2, 6)
        xs = sorted(r.sample(range(lo, hi + 1), n)) if hi < 1000 else sorted({lo, hi} | {r.randint(lo, hi) for _ in range(n)})
        y, ys = r.choice([0.0, -50.0, 5.5]), []
        up = r.choice([1, -1])
        for i in range(len(xs)):
            ys.append(round(y, 3))
            if i + 1 < len(xs):
                y += up * (xs[i + 1] - xs[i]) * r.choice([0.1, 0.5, 1.0, 2.0])
        if r.random() < 0.3:
            xs = [float(x) for x in xs]
        pts = []
        for a, b in zip(xs, ys):
            pts += [a, b]
        return ('spline', pts)

    def n_trans(self, sc, depth, un):
        pool = INTS + (['float', 'double'] if self.p['float_trans'] else [])
        f = Field(self.name(sc), self.r.choice(pool))
        f.trans = self.transform(f)
        if f.type not in ('float', 'double') and self.chance(self.p['range'] * 0.5):
            lo, hi = max(int_lo(f.type), -(1 << 20)), min(int_hi(f.type), 1 << 20)
            f.range = tuple(sorted([self.r.choice([lo, hi, self.r.randint(lo, hi)]), self.r.randint(max(lo, -200), min(hi, 200))]))
        self.ref(sc, f)
        return self.decorate(f, sc, un)

    # -- expressions
    def int_expr(self, sc, d):
        r = self.r
        ints = [x for x in sc.refs if x[1] == 'i']
        flts = [x for x in sc.refs if x[1] == 'f']
        k = r.random()
        if d <= 0 or k < 0.25:
            if ints and r.random() < 0.7:
                return ('var', r.choice(ints)[0])
            if r.random() < 0.1:
                return ('bool', r.random() < 0.5)
            return ('num', r.choice([0, 1, 2, 3, 5, 7, 10, 63, 64, 255, 256, 65535, -1, -5, 1 << 31, (1 << 63) - 1,
                                     1 << 63, M64, -(1 << 63), r.randrange(1000)]))
        if k < 0.37:
            return ('un', r.choice(['!', '~', '-', '!', '-']), self.int_expr(sc, d - 1))
        if k < 0.43 and self.chance(self.p['float_expr'] * 2):
            return ('toint', self.flt_expr(sc, d - 1))
        if k < 0.5 and self.chance(self.p['float_expr'] * 2):
            op = r.choice(['<', '>', '<=', '>=', '==', '!='])
            return ('bin', op) + self.flt_pair(sc, d - 1)
        op = r.choice(['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '==', '!=', '<', '>', '<=', '>=', '&&', '||',
                       '+', '-', '*', '==', '&&', '||'])
        a, b = self.int_expr(sc, d - 1), self.int_expr(sc, d - 1)
        if op in '/%' and r.random() < 0.8:
            b = ('num', r.choice([1, 2, 3, 7, 10, 256]))
        if op in ('<<', '>>') and r.random() < 0.8:
            b = ('num', r.choice([0, 1, 3, 8, 31, 32, 63, 64, 65]))
        return ('bin', op, a, b)

    def flt_pair(self, sc, d):
        """Two operands, at least one of them floating point for sure."""
        r = self.r
        flts = [x for x in sc.refs if x[1] == 'f']
        a = self.flt_expr(sc, d, sure=True)
        k = r.random()
        if k < 0.35 and flts:
            b = ('fvar', r.choice(flts)[0])
        elif k < 0.5:
            b = ('num', r.choice([0, 1, 2, 10, -3, 1000]))
        else:
            b = self.flt_expr(sc, d, sure=True)
        return (a, b) if r.random() < 0.5 else (b, a)

    def flt_expr(self, sc, d, sure=True):
        r = self.r
        ints = [x for x in sc.refs if x[1] == 'i']
        flts = [x for x in sc.refs if x[1] == 'f']
        k = r.random()
        if not sure and flts and k < 0.4:
            return ('fvar', r.choice(flts)[0])
        if d <= 0 or k < 0.2:
            if ints and r.random() < 0.4:
                return ('tofloat', ('var', r.choice(ints)[0]))
            return ('fnum', r.choice([0.0, 1.0, 0.5, -1.5, 2.25, 3.14159, 100.0, 1e6, -0.001, r.uniform(-10, 10)]))
        if k < 0.3:
            return ('tofloat', self.int_expr(sc, d - 1))
        if k < 0.4:
            return ('un', '-', self.flt_expr(sc, d - 1))
        if k < 0.6:
            fn = r.choice(FUNCTIONS)
            args = []
            for _ in range(2 if fn == 'pow' else 1):
                j = r.random()
                if j < 0.25:
                    args.append(('num', r.choice([0, 1, 2, 3, 10, -2])))
                else:
                    args.append(self.flt_expr(sc, d - 1, sure=False))
            return ('call', fn, args)
        return ('bin', r.choice(['+', '-', '*', '/', '+', '*'])) + self.flt_pair(sc, d - 1)

    def expr_ok(self, e, room):
        return model.expr_depth(e) <= 8 - room

    def cond(self, sc):
        for _ in range(30):
            e = self.int_expr(sc, self.r.randint(0, self.p['expr_depth']))
            if self.r.random() < 0.5 and e[0] in ('num', 'bool'):
                continue
            if model.expr_depth(e) <= 8:
                return e
        return ('num', 1)

    def n_expr(self, sc, depth, un):
        r = self.r
        t = r.choice(INTS + ['bool', 'float', 'double'])
        for _ in range(50):
            d = r.randint(0, self.p['expr_depth'])
            if t in ('float', 'double'):
                e = self.flt_expr(sc, d, sure=r.random() < 0.8) if self.chance(0.8) else \
                    ('bin', r.choice(['<', '==', '&&', '+', '*']), self.int_expr(sc, d - 1), self.int_expr(sc, d - 1))
            else:
                e = self.int_expr(sc, d)
                if r.random() < 0.2 and self.chance(self.p['float_expr'] * 2) and t != 'bool':
                    e = self.flt_expr(sc, d)
                if t == 'bool':
                    e = ('bin', r.choice(['==', '<', '&&', '||', '>=', '!=']), e, self.int_expr(sc, d - 1)) \
                        if r.random() < 0.8 else ('un', '!', e)
            if model.expr_depth(e) <= 7 or (model.expr_depth(e) <= 8):
                break
        else:
            e = ('num', 1)
        f = Field(self.name(sc), t, expr=e)
        self.ref(sc, f)
        f.endian = self.order()
        if self.chance(self.p['optional']):
            f.optional = True
        return f

    # -- branches
    def n_If(self, sc, depth, un):
        cur = self.cur
        branches, orelse = [], None
        for _ in range(self.r.choice([1, 1, 2, 3])):
            inner = Scope(sc)
            branches.append((self.cond(sc), self.body(inner, depth - 1, self.r.randint(0, 3), un, cur)))
            sc.used |= inner.used          # branches share the names of the enclosing scope
        if self.chance(0.6):
            inner = Scope(sc)
            orelse = self.body(inner, depth - 1, self.r.randint(0, 3), un, cur)
            sc.used |= inner.used
        return If(branches, orelse)

    def n_switch(self, sc, depth, un):
        cur = self.cur
        cands = [x for x in sc.refs if x[1] == 'i' and x[2] is not None and '.' not in x[0]]
        if not cands:
            return self.n_scalar(sc, depth, un)
        name, _, g = self.r.choice(cands)
        r = self.r
        vals = []
        if isinstance(g.type, Enum):
            pool = [(v, '%s.%s' % (g.type.name, n)) for n, v, _ in g.type.members]
            r.shuffle(pool)
            pool = [(v, lab if r.random() < 0.7 else None) for v, lab in pool][:r.randint(1, 60 if self.huge and depth >= self.p['depth'] else 6)]
            vals = pool
        else:
            dense = r.random() < 0.5
            t = g.type if g.type in INT_BITS else 'uint8'
            n = r.choice([1, 2, 3, 4, 5, 6]) if not self.huge or depth < self.p['depth'] else r.choice([3, 30, 70])
            hi = int_hi(t) if not g.bits else min((1 << (g.bits - is_signed(t))) - 1, int_hi(t))
            lo = int_lo(t) if not g.bits else (-(1 << (g.bits - 1)) if is_signed(t) else 0)
            if g.type == 'bool':
                lo, hi = 0, 1
            base = r.choice([0, 1, lo, hi, max(lo, hi - 5), r.randint(lo, hi)])
            for i in range(n):
                v = base + r.randint(0, 6 if n < 10 else n) * r.choice([1, -1]) if dense else \
                    r.choice([lo, hi, 0, 1, r.randint(lo, hi), base + 255, base + 256])
                vals.append((v, None))
            if g.trans is not None or g.expr is not None:
                pass
        seen, cases = set(), []
        for v, lab in vals:
            if v & M64 in seen or not -(1 << 63) <= v <= M64:
                continue
            seen.add(v & M64)
            inner = Scope(sc)
            cases.append((v, lab, self.case_body(inner, depth, un, cur)))
        default = None
        if self.chance(0.5):
            default = self.case_body(Scope(sc), depth, un, cur)
        if not cases and default is None:
            default = []
        if g.hint is None:
            g.hint = []
        g.hint += [v for v, _, _ in cases] + [v + 1 for v, _, _ in cases] + [v - 1 for v, _, _ in cases]
        s = Switch(name, cases, default)
        s.default_at = r.randint(0, len(cases)) if r.random() < 0.3 else None
        return s

    def case_body(self, sc, depth, un, cur):
        return self.body(sc, depth - 1, self.r.choice([0, 1, 1, 1, 2, 3]), un, cur)

    # -- optional tail
    def optional_tail(self, body, sc):
        self.flush_tail(body, False)
        n = self.r.randint(1, 4)
        first = len(body)
        for _ in range(n):
            k = self.pick(dict(scalar=4, float=1, bool=1, enum=1, string=2, struct=2, array=2, trans=1, const=0.5, crc=0.3,
                               expr=1, bits=0.7))
            if k == 'struct' and not [t for t in self.types if t.kind == 'struct' and t.solid and t.loops + self.loops <= self.p['loops']]:
                k = 'scalar'
            if k == 'enum' and not [t for t in self.types if t.kind == 'enum']:
                k = 'scalar'
            f = getattr(self, 'n_' + k)(sc, 0, False)
            if isinstance(f.type, Struct) and not f.type.solid:
                solid = [t for t in self.types if t.kind == 'struct' and t.solid and t.loops + self.loops < self.p['loops']]
                if not solid:
                    sc.used.discard(f.name)
                    continue
                f.type = self.r.choice(solid)
            f.optional = True
            f.pre_pad = None
            if f.bits:
                f.bits = 0 if f.type == 'bool' else INT_BITS[f.type] if self.chance(0.3) else f.bits
                if f.bits % 8 or f.endian:
                    f.bits = 0
                f.endian = None if f.bits else f.endian
            body.append(f)
        return first


def can_count(f):
    return isinstance(f.type, str) and f.type in INT_BITS and f.trans is None and f.expr is None and f.range is None \
        and not f.optional and (f.hint is None or f.hint == [])


def body_any(nodes):
    return bool(nodes)


def body_aligns(nodes):
    """Does processing the body surely reach a byte boundary at its very start?"""
    for n in nodes:
        if isinstance(n, Fill):
            return True
        if isinstance(n, Field) and not n.bits:
            if n.pre_pad and n.pre_pad[0] == 'fill':
                return True
            if isinstance(n.type, Struct) and not n.arr:
                if n.type.unaligned or body_aligns(n.type.body):
                    return True
                continue
            return True
    return False


def body_pure(nodes, un=False):
    """No bits in an order of their own inside."""
    for n in nodes:
        if isinstance(n, If):
            if not all(body_pure(b, un) for b in [b for _, b in n.branches] + [n.orelse or []]):
                return False
        elif isinstance(n, Switch):
            if not all(body_pure(b, un) for b in [b for _, _, b in n.cases] + [n.default or []]):
                return False
        elif isinstance(n, Field):
            if isinstance(n.type, Struct):
                if n.endian or not n.type.pure:
                    return False
            elif n.endian and (n.bits or un):
                return False
    return True


def body_size(nodes):
    """Number of fields once every struct is written out."""
    n = 0
    for x in nodes:
        n += 1
        if isinstance(x, Field):
            if isinstance(x.type, Struct):
                n += x.type.size
        elif isinstance(x, If):
            n += sum(body_size(b) for _, b in x.branches) + body_size(x.orelse or [])
        elif isinstance(x, Switch):
            n += sum(body_size(b) for _, _, b in x.cases) + body_size(x.default or [])
    return n


def body_loops(nodes):
    """Deepest array nesting in the body."""
    m = 0
    for n in nodes:
        if isinstance(n, Field):
            d = n.type.loops if isinstance(n.type, Struct) else 0
            m = max(m, d + (1 if n.arr else 0))
        elif isinstance(n, If):
            m = max([m] + [body_loops(b) for _, b in n.branches] + [body_loops(n.orelse or [])])
        elif isinstance(n, Switch):
            m = max([m] + [body_loops(b) for _, _, b in n.cases] + [body_loops(n.default or [])])
    return m


def body_solid(nodes, un=False):
    """Does the body always put at least one whole byte on the wire?"""
    for n in nodes:
        if isinstance(n, Field):
            if n.optional:
                continue
            if n.arr:
                if n.arr[0] == 'pre' or (n.arr[0] == 'fixed' and n.arr[1] > 0 and
                                         (not isinstance(n.type, Struct) or n.type.solid)):
                    return True
                continue
            if isinstance(n.type, Struct):
                if n.type.solid:
                    return True
                continue
            if n.bits or n.type == 'bool' or (un and is_int(n.type)):
                if un and not n.bits and n.type != 'bool':
                    return True
                if un:
                    return True
                continue
            return True
        if isinstance(n, Pad) and n.n >= 8:
            return True
    return False


# --- records -----------------------------------------------------------------
class Values:
    """Chooses the values of one record.  invalid: probability of breaking a field's rule."""

    def __init__(self, rng, invalid=0.0, overflow=0.1, max_count=5, budget=150, nan=True, big=0.02, fuzz=False, refuse=0.0):
        self.refuse = refuse      # strings the host refuses
        self.fuzz = fuzz          # encode engineering values between the raw steps
        self.r, self.invalid, self.overflow = rng, invalid, overflow
        self.max_count, self.budget, self.nan, self.big = max_count, budget, nan, big
        self.broken = []          # (path, rule) of every rule broken on purpose

    def bad(self):
        return self.invalid and self.r.random() < self.invalid

    def count(self, f, path, m, hi):
        if m.elements > self.budget:
            return 0 if f.arr[0] != 'eof' or self.r.random() < 0.5 else 1
        n = self.r.choice([0, 1, 1, 2, 2, 3, self.r.randint(0, self.max_count)])
        if not isinstance(f.type, Struct) and f.type != 'string' and m.loop_depth == 0 and self.r.random() < self.big:
            n = self.r.choice([255, 256, 257, 300, 520])
        return min(n, hi)

    def integer(self, f, path, m, t):
        r = self.r
        lo, hi = int_lo(t), int_hi(t)
        if f.hint_max is not None:
            return r.randint(0, f.hint_max)
        if f.range is not None:
            a, b = max(lo, f.range[0]), min(hi, f.range[1])
            if self.bad() and (a > lo or b < hi):
                self.broken.append((path, 'range'))
                c = ([a - 1, lo, r.randint(lo, a - 1)] if a > lo else []) + ([b + 1, hi, r.randint(b + 1, hi)] if b < hi else [])
                return r.choice(c)
            if f.hint and r.random() < 0.7:
                c = [v for v in f.hint if a <= v <= b]
                if c:
                    return r.choice(c)
            return r.choice([a, b, min(a + 1, b), max(b - 1, a), r.randint(a, b)])
        if f.hint and r.random() < 0.75:
            c = [v for v in f.hint if lo <= v <= hi]
            if c:
                return r.choice(c)
        if r.random() < 0.3:
            n = INT_BITS[t] // 8
            v = int.from_bytes(bytes(range(1, n + 1)), 'big')      # every byte different
            return v
        return r.choice([lo, hi, 0, 1, hi // 2, hi // 2 + 1, max(lo, -1), r.randint(lo, hi), r.randint(lo, hi),
                         r.randint(0, min(hi, 20)), r.randint(0, min(hi, 20))])

    def bits(self, f, path, m, t, n):
        r = self.r
        if t == 'bool':
            if self.bad():
                self.broken.append((path, 'bool'))
                return r.choice([2, 3, 255, 128])
            return r.randint(0, 1)
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if is_signed(t) else (0, (1 << n) - 1)
        if f.hint_max is not None:
            return r.randint(0, min(hi, f.hint_max))
        if f.hint and r.random() < 0.75:
            c = [v for v in f.hint if lo <= v <= hi]
            if c:
                return r.choice(c)
        if n < 64 and r.random() < self.overflow:
            v = r.getrandbits(64)
            m.features.add('bits-overflow')
            return v - (1 << 64) if is_signed(t) and v >> 63 else v
        return r.choice([lo, hi, 0, min(1, hi), max(lo, -1), r.randint(lo, hi), r.randint(lo, hi),
                         (0xA5A5A5A5A5A5A5A5 & ((1 << n) - 1)) if not is_signed(t) else r.randint(lo, hi)])

    def boolean(self, f, path, m):
        if self.bad():
            self.broken.append((path, 'bool'))
            return self.r.choice([2, 3, 255, 128])
        return self.r.randint(0, 1)

    def enum(self, f, path, m, t, members):
        r = self.r
        ok = [v for v in members if f.range is None or f.range[0] <= v <= f.range[1]]
        if self.bad() or not ok:
            self.broken.append((path, 'enum'))
            c = [v + d for v in members for d in (1, -1, 256, 65536)] + [int_lo(t), int_hi(t), r.randint(int_lo(t), int_hi(t))]
            c = [v for v in c if int_lo(t) <= v <= int_hi(t) and v not in members] or \
                [v for v in members if v not in ok]
            if c:
                return r.choice(c)
            self.broken.pop()
        return r.choice(ok)

    def flt(self, f, path, m, t):
        r = self.r
        to = f32_bits if t == 'float' else f64_bits
        fr = bits_f32 if t == 'float' else bits_f64
        if f.range is not None:
            a, b = fr(to(float(f.range[0]))), fr(to(float(f.range[1])))
            if self.bad():
                self.broken.append((path, 'range'))
                return r.choice([to(math.nan), to(math.inf), to(-math.inf), next_up(to(b), t), next_down(to(a), t),
                                 to(b + abs(b) + 1), to(a - abs(a) - 1)])
            x = r.choice([a, b, a + (b - a) / 2 if math.isfinite(b - a) else a, r.uniform(a, b) if math.isfinite(b - a) else b])
            w = to(x)
            return w if a <= fr(w) <= b else to(a)
        if f.hint and r.random() < 0.3:
            return to(float(r.choice(f.hint)))
        k = r.random()
        if k < 0.12:
            return r.getrandbits(32 if t == 'float' else 64) if self.nan else to(1.25)
        sp = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 3.25, -2.75, 100.0, 12345.678, 1e-3, r.uniform(-100, 100), r.uniform(-1e6, 1e6)]
        if self.nan:
            sp += [math.inf, -math.inf, math.nan, 5e-324 if t == 'double' else 1e-45, 3.4e38, 1e300 if t == 'double' else 1e30]
        return to(r.choice(sp))

    def string(self, f, path, m, mx):
        r = self.r
        if self.refuse and (f.optional and not f.arr or r.random() < 0.05) and r.random() < self.refuse:
            return None
        n = r.choice([0, 1, 2, 3, 5, 10, r.randint(0, 40)])
        if r.random() < 0.15 and m.elements < self.budget:
            n = r.choice([mx, mx - 1, 255, 254, 256, 300] if mx < 5000 else [255, 256, 300, 1000])
        if f.strspec and f.strspec[0] == 'nul' or f.strspec is None:
            if r.random() < 0.1 and mx < 1200:
                n = mx + r.choice([0, 1, 2, 50])
        elif mx == 255 and r.random() < 0.06:          # longer than the prefix can tell
            n = mx + r.choice([1, 2, 50, 256, 257])
        elif mx == 65535 and r.random() < 0.002 and self.budget > 100:
            n = mx + r.choice([-1, 0, 1, 2, 300])
        else:
            n = min(n, mx)
        n = max(0, n)
        k = r.random()
        if k < 0.4:
            return bytes(r.choice(b'abcdefghijklmnopqrstuvwxyz 0123456789') for _ in range(n))
        return bytes(r.randint(1, 255) for _ in range(n))

    def eng(self, f, path, m, t):
        """(raw for the wire, engineering value); raw None: does not fit the field."""
        r = self.r
        tr = f.trans
        isf = t in ('float', 'double')
        size = INT_BITS.get(t)
        lo, hi = (int_lo(t), int_hi(t)) if not isf else (0, 0)
        if not isf and f.range is not None:
            a, b = max(lo, f.range[0]), min(hi, f.range[1])
            if self.bad() and (a > lo or b < hi):
                self.broken.append((path, 'range'))
                lo, hi = (lo, a - 1) if a > lo and (b >= hi or r.random() < 0.5) else (b + 1, hi)
            else:
                lo, hi = a, b
        if tr[0] == 'scale' and not isf and self.bad():
            fac = float(tr[1]) if tr[1] is not None else 1.0
            off = float(tr[2]) if tr[2] is not None else 0.0
            x = r.choice([float(int_hi(t)) * 1.5 + 10, float(int_lo(t)) * 1.5 - 10, math.nan, math.inf])
            e = x * fac + off
            back = (e - off) / fac
            if not (math.isfinite(back) and int_lo(t) <= round_half_away(back) <= int_hi(t)):
                self.broken.append((path, 'fit'))
                return None, e
        for _ in range(60):
            if isf:
                if trans_kind(tr) == 'i':
                    x = float(r.randint(-10000, 10000))
                    if tr[0] == 'div':
                        x = x * tr[1]
                    e = to_eng(tr, int(x))
                    inv = {'add': lambda: e - tr[1], 'sub': lambda: e + tr[1], 'mul': lambda: model.tdiv(e, tr[1]),
                           'div': lambda: e * tr[1]}[tr[0]]()
                    inv = model.wrap_i64(inv)
                    return (f32_bits(float(inv)) if t == 'float' else f64_bits(float(inv))), e
                if tr[0] in ('poly', 'spline'):
                    a, b = (-4000, 4000) if tr[0] == 'poly' else (int(tr[1][0] * 4), int(tr[1][-2] * 4))
                    x = r.choice([a, b, r.randint(a, b), min(b, max(a, 0))]) / 4
                    return (f32_bits(x) if t == 'float' else f64_bits(x)), to_eng(tr, x)
                fac = float(tr[1]) if tr[1] is not None else 1.0
                off = float(tr[2]) if tr[2] is not None else 0.0
                x = r.choice([0.0, 1.0, -3.5, r.uniform(-1e4, 1e4)])
                e = x * fac + off
                raw = (e - off) / fac
                return (f32_bits(raw) if t == 'float' else f64_bits(raw)), e
            raw = r.choice([lo, hi, r.randint(lo, hi), min(hi, max(lo, r.randint(-100, 200))), min(hi, max(lo, 0)), min(hi, max(lo, r.randint(-1 << 45, 1 << 45)))])
            if tr[0] == 'spline':
                raw = min(int(tr[1][-2]), max(int(tr[1][0]), raw))
                if not lo <= raw <= hi:
                    raw = r.randint(lo, hi)
                if not tr[1][0] <= raw <= tr[1][-2]:
                    continue
            if tr[0] == 'div':
                q = model.tdiv(raw, tr[1])
                raw = q * tr[1]
                if not lo <= raw <= hi:
                    continue
            if tr[0] in ('mul',) and not -(1 << 63) <= raw * tr[1] < 1 << 63:
                continue
            if trans_kind(tr) == 'i':
                e = to_eng(tr, model.wrap_i64(raw))
                if tr[0] == 'mul' and size == 64 and raw >= 1 << 63:
                    continue
                if tr[0] == 'div' and size == 64 and raw >= 1 << 63:
                    continue
                return raw, e
            e = to_eng(tr, raw)
            if tr[0] == 'scale':
                fac = float(tr[1]) if tr[1] is not None else 1.0
                off = float(tr[2]) if tr[2] is not None else 0.0
                back = round_half_away((e - off) / fac)
                if not abs(raw) < 2 ** 50 or back != raw:
                    continue
                # anywhere inside the raw value's step
                e2 = e + fac * r.choice([0, 0, 0.3, -0.3])
                if self.fuzz and lo <= raw <= hi and round_half_away((e2 - off) / fac) == raw:
                    e = e2
                return raw, e
            if tr[0] == 'poly' and not (abs(raw) < 2 ** 50 and newton_ok(tr[1], e, raw)):
                continue
            return raw, e
        raw = min(hi, max(lo, 0))
        if tr[0] == 'div':
            raw = model.tdiv(raw, tr[1]) * tr[1]
        if tr[0] == 'spline':
            raw = int(tr[1][0])
        if tr[0] == 'poly':
            raw = 0
        e = to_eng(tr, raw if trans_kind(tr) == 'f' else model.wrap_i64(raw))
        return raw, e


def next_up(w, t):
    n = 32 if t == 'float' else 64
    x = bits_f32(w) if n == 32 else bits_f64(w)
    if x == 0:
        return 1
    return w + 1 if x > 0 else w - 1


def next_down(w, t):
    n = 32 if t == 'float' else 64
    x = bits_f32(w) if n == 32 else bits_f64(w)
    if x == 0:
        return (1 << (n - 1)) | 1
    return w - 1 if x > 0 else w + 1


def newton_ok(cs, y, raw):
    """Is the polynomial well conditioned at raw, and Newton from 0 sure to get there?"""
    cs = [float(c) for c in cs]
    x = 0.0
    for _ in range(14):
        v = dv = 0.0
        for c in reversed(cs):
            dv = dv * x + v
            v = v * x + c
        if abs(v - y) < 0.001:
            break
        if dv == 0:
            return False
        x -= (v - y) / dv
    else:
        return False
    return abs(x - raw) < 0.2 and abs(dv) > 0.05
