"""C20, C22, C24: any text through the compiler and the formatter; what only the tokens may decide."""
import glob, os, re
import build, gen, schema as S, fuzz
from build import REPO
from core import Violation
from drv import Driver
from layout import Layout, comments
from runner import Check
from schema import Schema, Field, Struct, Enum, Style, Renderer

WIDE = [dict(), dict(depth=4, structs=4), dict(eof=1), dict(tail_optional=1.0, alias=0.0), dict(alias=1, unaligned=0.5),
        dict(w=dict(array=6, struct=3, switch=3, If=3, expr=4, trans=4), structs=3, depth=4),
        dict(w=dict(bits=6, pad=2, fill=2, string=2, crc=2, trans=3, enum=1, const=1, expr=3, array=2, switch=2)),
        dict(enums=6, structs=5, w=dict(enum=5, struct=5)), dict(w=dict(expr=8, If=5), expr_depth=5)]


def some_schema(r, **kw):
    p = dict(r.choice(WIDE))
    p.update(kw)
    return gen.Gen(r, gen.profile(**p)).schema()


def tokens(s, style=None):
    return Renderer(style).schema(s).t


def examples():
    out = []
    for p in sorted(glob.glob(REPO + '/examples/**/*.cnd', recursive=True) + glob.glob(REPO + '/demos/**/*.cnd', recursive=True)):
        with open(p, encoding='utf-8') as f:
            t = f.read()
        if '@import' not in t:
            out.append((p, t))
    return out


def judge_compile(d, text, st, slot=0, json=0):
    """Compiles; the outcome must be one of the two allowed ones.  Returns the image or None."""
    rc, diag, il = d.compile(text, json)
    shown = text if isinstance(text, str) else text.decode('latin-1')
    if rc == 0:
        if il is None:
            raise Violation('no-output', 'success without an output file', schema=shown[:20000])
        ld = d.load(slot, il)
        if ld.rc != 0:
            raise Violation('no-load', 'the compiled image does not load: %d' % ld.rc, schema=shown[:20000], image=il[:5000].hex())
        if ld.verify != 0:
            raise Violation('no-verify', 'the compiled image does not verify: %d' % ld.verify, schema=shown[:20000], image=il[:5000].hex())
        return il
    if il is not None:
        raise Violation('output', 'an output file for a rejected schema', schema=shown[:20000])
    if (b'"message"' if json & 1 else b'error') not in diag:
        raise Violation('silent', 'rejected without a diagnostic', schema=shown[:20000], output=diag.decode(errors='replace')[:2000])
    return None


NUMBERS = ['0', '1', '-1', '255', '256', '65535', '65536', '4294967295', '4294967296', '9223372036854775807', '9223372036854775808',
           '-9223372036854775808', '-9223372036854775809', '18446744073709551615', '18446744073709551616', '0x', '0xFFFFFFFFFFFFFFFFF',
           '1.5', '-0.0', '99999999999999999999999999999999999999', '0.' + '1' * 400, '1' * 400 + '.5', '-0x80', '00012', '1e5', '0x1g', '1.2.3', '340282350000000000000000000000000000000.0', '-' + '9' * 310 + '.0']
WORDS = ['struct', 'packet', 'enum', 'switch', 'case', 'default', 'if', 'else', 'true', 'false', 'self', 'uint8', 'int64', 'float', 'double', 'string',
         'bool', 'prefix', 'until', 'max', '@', '@count', '@range', '@const', '@expr', '@scale', '@poly', '@spline', '@crc', '@crc_poly', '@pad', '@fill',
         '@optional', '@eof', '@unaligned_bytes', '@version', '@import', '@be', '@le', '@mul', '@div', '@add', '@sub', '@offset', '@match', '@len',
         '(', ')', '[', ']', '{', '}', ';', ':', ',', '.', '=', '==', '!=', '<', '>', '<=', '>=', '<<', '>>', '&&', '||', '&', '|', '^', '~', '!', '+', '-', '*', '/', '%',
         '"', '""', '"x.cnd"', '/*', '*/', '//', '///', '$', '`', '\\', '\x00', '\x80', 'sin', 'pow', 'int', 'float(', 'x', 'P', 'P.x', 'a.b.c']


def soup(r, toks):
    """Tokens with some of them dropped, repeated, swapped or replaced."""
    t = [x for x in toks]
    for _ in range(r.choice([1, 1, 2, 5, 20])):
        if not t:
            break
        k = r.randrange(len(t))
        x = r.randrange(7)
        if x == 0:
            del t[k]
        elif x == 1:
            t.insert(k, t[r.randrange(len(t))])
        elif x == 2:
            t[k] = t[r.randrange(len(t))]
        elif x == 3:
            t.insert(k, r.choice(WORDS + NUMBERS))
        elif x == 4:
            nums = [i for i, w in enumerate(t) if re.match(r'-?\d', w)]
            if nums:
                t[r.choice(nums)] = r.choice(NUMBERS)
            else:
                t[k] = r.choice(NUMBERS)
        elif x == 5:
            j = min(len(t), k + r.choice([1, 2, 5, 30]))
            del t[k:j]
        else:
            j = min(len(t), k + r.choice([2, 5, 30]))
            t[k:k] = t[k:j] * r.choice([1, 1, 3])
    return t


def deep(r):
    """Nesting and lengths far from ordinary."""
    if r.random() < 0.15:
        return sized(r)
    n = r.choice([10, 100, 255, 256, 257, 300, 1000, 20000])
    w = r.choice([10, 255, 256, 1000, 70000])
    x = r.randrange(16)
    e = {0: '(' * n + '1' + ')' * n, 1: '!' * n + 'true', 2: '-(' * n + '1' + ')' * n, 3: '+'.join(['a'] * n), 4: '~' * n + 'a',
         5: 'abs(' * n + '1.0' + ')' * n, 6: 'a.' * n + 'b', 7: 'a' * w}.get(x)
    if e is not None:
        return r.choice(['packet P { uint8 a; @expr(%s) uint64 c; }', 'packet P { uint8 a; if (%s) { uint8 x; } }', 'packet P { uint8 a; switch (%s) { case 1: uint8 x; } }']) % e
    if x == 8:
        return 'packet P { uint8 a; ' + 'if (a) { ' * n + 'uint8 x;' + ' }' * r.choice([n, n, n - 1]) + ' }'
    if x == 9:
        return 'packet P { uint8 a; ' + 'switch (a) { case 1: { ' * n + 'uint8 x;' + ' } }' * n + ' }'
    if x == 10:
        n = min(n, 300)
        return ''.join('struct S%d { %s x; }' % (i, 'S%d' % (i - 1) if i else 'uint8') for i in range(n)) + ' packet P { S%d x; }' % (n - 1)
    if x == 11:
        return 'packet %s { uint8 %s; string %s max %s; }' % ('n' * w, 'm' * w, 'k' * w, '9' * r.choice([1, 5, 6, 300]))
    if x == 12:
        return 'packet P { uint8 a; if (a) { uint8 x0; } ' + ''.join('else if (a > %d) { uint8 y%d; } ' % (i, i) for i in range(min(n, 1000))) + '}'
    if x == 13:
        return 'packet P { ' + '@be ' * n + 'uint8 a; }'
    if x == 14:
        m = r.choice([1, 16, 17, 300])
        return 'packet P { @%s(%s) uint8 a; }' % (r.choice(['poly', 'spline']), ', '.join(r.choice(NUMBERS) for _ in range(m)))
    # sizes that double at every level
    n = r.choice([3, 8, 12])
    return 'struct S0 { uint8 x; }' + ''.join('struct S%d { S%d a; S%d b; }' % (i, i - 1, i - 1) for i in range(1, n)) + ' packet P { S%d q; }' % (n - 1)


def sized(r):
    """A valid text with a number of alike things at or next to a power of two."""
    n = max(1, 2 ** r.randrange(3, 8) + r.choice([-1, 0, 0, 1]))
    many = lambda f, k=n: ' '.join(f % ((j,) * f.count('%d')) for j in range(k))
    x = r.randrange(9)
    if x < 2:
        cases = ['case %d: uint8 a%d;' % (j * 500 if x else j, j) for j in range(n)]
        if r.random() < 0.8:
            cases.insert(r.choice([0, len(cases) // 2, len(cases), len(cases)]), 'default: uint8 z;')
        return 'packet P { uint16 k; switch (k) { %s } }' % ' '.join(cases)
    if x == 2:
        return 'packet P { uint8 k; if (k == 200) { uint8 z; } %s %s }' % (many('else if (k == %d) { uint8 a%d; }'), r.choice(['', 'else { uint8 y; }']))
    if x == 3:
        return 'enum E : uint16 { %s } packet P { E e; }' % many('M%d,')
    if x == 4:
        return many('struct S%d { uint8 a; }') + ' packet P { %s }' % many('S%d m%d;', r.choice([1, n]))
    if x == 5:
        return many('enum E%d { A = %d }') + ' packet P { %s }' % many('E%d m%d;', r.choice([1, n]))
    if x == 6:
        return 'packet P { %s }' % many('uint8 f%d;')
    if x == 7:                  # the size of the text
        t = 'packet P { uint8 a; } '
        k = 2 ** r.randrange(10, 16) + r.choice([-2, -1, 0, 0, 1])
        return t + r.choice([' ' * (k - len(t)), '/*' + '*' * (k - len(t) - 4) + '*/', '//' + 'x' * (k - len(t) - 2)])
    return 'packet P { %s uint8 a; }' % many('/// d%d\n')


class C20(Check):
    pid = 'C20'
    technique = 'ASan/UBSan over the compiler fed mutated schemas, token soup, extreme nesting and libFuzzer-evolved texts; monitor: accepted means a loading and verifying image, rejected means a diagnostic and no file'
    note = 'Sampled texts; resource use is bounded by a time limit only.'
    rule = 'texts of all kinds; distinct texts count'
    assumptions = ['a diagnostic is output containing the word error (with --json, a message member)']
    variants = ['driver', 'driver-fast', 'fuzz-compile']
    quick, thorough = 2400, 100000
    need = ('accepted', 'rejected', 'mutated tokens', 'mutated bytes', 'truncated', 'deep or long', 'sized', 'random', 'more names than ids', 'fuzz executions')

    def start(self, w):
        self.d = Driver('driver', timeout=120)

    def stop(self):
        self.d.close()

    def texts(self, r, i):
        k = i % 6
        if k == 5:
            yield 'deep or long', deep(r)
            for _ in range(2):
                yield 'sized', sized(r)
            return
        if k == 4:
            n = r.choice([0, 1, 5, 40, 300])
            x = r.randrange(3)
            if x == 0:
                yield 'random', bytes(r.randrange(256) for _ in range(n))
            elif x == 1:
                yield 'random', ' '.join(r.choice(WORDS + NUMBERS) for _ in range(n))
            else:
                yield 'random', 'packet P { ' + ' '.join(r.choice(WORDS + NUMBERS) for _ in range(n)) + ' }'
            return
        s = some_schema(r, size=200)
        t = tokens(s)
        for _ in range(4):
            if k < 2:
                t2 = soup(r, t)
                yield 'mutated tokens', S.join([x for x in t2 if x != '\n']) if r.random() < 0.5 else Layout(r).write(t2)
            else:
                b = bytearray(Layout(r).write(t).encode())
                if k == 2:
                    yield 'truncated', bytes(b[:r.randrange(len(b))])
                else:
                    for _ in range(r.choice([1, 2, 10])):
                        b[r.randrange(len(b))] = r.choice([0, 10, 13, 32, 34, 47, 42, 45, 48, 59, 123, 125, r.randrange(256)])
                    yield 'mutated bytes', bytes(b)

    def case(self, r, i):
        if i < 2:
            # more names than there are ids
            n = r.randrange(17, 24)
            t = 'packet P { %s }' % ''.join('uint8 f%d; ' % k for k in range(65536 + r.randrange(9))) if i else \
                'struct S0 { uint8 x; }' + ''.join('struct S%d { S%d a; S%d b; }' % (k, k - 1, k - 1) for k in range(1, n)) + ' packet P { S%d q; }' % (n - 1)
            d = Driver('driver-fast', timeout=400)
            try:
                if judge_compile(d, t, self.st) is not None:
                    raise Violation('names', 'a schema with more names than ids is accepted', text=t[:3000])
            finally:
                d.close()
            self.st.count('more names than ids')
            self.st.judged(t)
            return
        for kind, t in self.texts(r, i):
            self.st.count(kind)
            im = judge_compile(self.d, t, self.st, json=r.choice([0, 0, 1, 1, 2]))
            if kind == 'sized' and im is None:
                raise Violation('sized', 'a valid text is refused', text=t[:3000])
            self.st.count('rejected' if im is None else 'accepted')
            self.st.judged(t)
            self.st.sample(kind=kind, text=(t if isinstance(t, str) else t.decode('latin-1'))[:400], accepted=im is not None)

    def finish(self):
        r = self.rng('fuzz')
        seeds = [t.encode() for _, t in examples()]
        for k in range(150):
            t = tokens(some_schema(r, size=100))
            seeds.append(S.join([x for x in (soup(r, t) if k % 2 else t) if x != '\n']).encode())
        seeds = [s for s in seeds if len(s) < 1500]
        d = build.build('fuzz-compile')
        path = os.path.join(os.path.dirname(d), 'words')
        with open(path, 'w') as f:
            for w in WORDS + NUMBERS[:20]:
                if w.isprintable() and len(w) < 60:
                    f.write('"%s"\n' % w.replace('\\', '\\\\').replace('"', '\\"'))
        fuzz.run(self.st, 'fuzz-compile', seeds, 6000 if self.tier == 'quick' else 600000, self.seed, 1500, ['-dict=' + path],
                 wall=120 if self.tier == 'quick' else 3600)


def unused_types(r, k):
    """Types nobody uses, with names of their own."""
    out = []
    for j in range(k):
        n = 'Unused%d_%d' % (j, r.randrange(1000))
        if r.random() < 0.4:
            out.append(Enum(n, r.choice([None, 'uint8', 'int16']), [('UM%d_%d' % (j, i), i, r.random() < 0.5) for i in range(r.choice([1, 3]))]))
        else:
            body = [Field('uf%d_%d' % (j, i), r.choice(['uint8', 'int32', 'float', 'bool'])) for i in range(r.choice([0, 1, 4]))]
            if out and r.random() < 0.3:
                body.append(Field('ut%d' % j, r.choice(out)))
            if r.random() < 0.3:
                body.append(Field('us%d' % j, 'string', strspec=('pre', 'uint8')))
            out.append(Struct(n, body))
    return out


def mix(r, types, extra):
    """Puts the extra types between the others, keeping both orders (definitions come before uses)."""
    out = list(types)
    at = sorted(r.randrange(len(out) + 1) for _ in extra)
    for k, e in reversed(list(zip(at, extra))):
        out.insert(k, e)
    return out


class C22(Check):
    pid = 'C22'
    technique = 'metamorphic monitor: many spellings of one token sequence through the compiler (ASan/UBSan, and MemorySanitizer), images compared byte for byte'
    note = 'Sampled schemas and layouts.'
    rule = 'random schemas, each written in several layouts, spellings and places; distinct texts count'
    assumptions = ['doc comments stand in front of declarations, their decorators, cases and closing braces only, as the grammar has it', 'no lone carriage returns']
    variants = ['driver', 'msan-compile', 'cli-fast']
    quick, thorough = 1600, 60000
    need = ('layouts compared', 'spellings compared', 'unused types added', 'compiled again', 'compiled from another place', 'compiled under MemorySanitizer', 'compiled verbosely',
            'comments written', 'doc comments written', 'CRLF texts')

    def start(self, w):
        self.d = Driver('driver')
        self.ms = Driver('msan-compile')

    def stop(self):
        self.d.close()
        self.ms.close()

    def il(self, d, text, first=None, what='', flags=0):
        rc, diag, il = d.compile(text, flags)
        if rc:
            raise Violation('refused ' + what if first is not None else 'compile-refused', 'a valid schema was refused: ' + diag.decode(errors='replace')[:500], schema=text)
        if first is not None and il != first[1]:
            raise Violation('differs ' + what, 'another image (%s)' % what, schema=first[0], other=text, image=first[1].hex(), image2=il.hex())
        return il

    def case(self, r, i):
        st = self.st
        s = some_schema(r)
        text = S.render(s)
        first = (text, self.il(self.d, text))
        st.judged(text)
        t = tokens(s)
        for _ in range(3):
            lay = Layout(r, comments=r.choice([0, 0.1, 0.4]), breaks=r.choice([0, 0.2, 0.6]), tight=r.choice([0, 0.5, 0.95]))
            o = lay.write(t)
            self.il(self.d, o, first, 'layout')
            st.count('layouts compared')
            st.count('comments written', len(lay.found))
            st.count('doc comments written', sum(c.startswith('///') for c in lay.found))
            st.count('CRLF texts', lay.eol != '\n')
            st.judged(o)
        o = S.render(s, Style(r, 1.0))
        self.il(self.d, o, first, 'spelling')
        st.count('spellings compared')
        st.judged(o)
        x = unused_types(r, r.choice([1, 2, 5]))
        old, s.types = s.types, mix(r, s.types, x)
        o = S.render(s)
        self.il(self.d, o, first, 'unused types')
        s.types = old
        st.count('unused types added', len(x))
        st.judged(o)
        self.il(self.d, text, first, 'again')
        st.count('compiled again')
        self.il(self.ms, text, first, 'MemorySanitizer')
        st.count('compiled under MemorySanitizer')
        for d in (self.d, self.ms):
            if r.random() < 0.3:
                self.il(d, text, first, 'verbose', 2)
                st.count('compiled verbosely')
        st.judged(None, 2)
        if i % 8 == 0:
            self.places(r, first)
        st.sample(schema=text[:400], other=o[:600])

    def places(self, r, first):
        """Other directories, names, links and working directories."""
        d = self.d.dir
        deep = os.path.join(d, 'x' * r.choice([1, 40]), 'y')
        os.makedirs(deep, exist_ok=True)
        a = os.path.join(deep, 'schema.txt')
        with open(a, 'w') as f:
            f.write(first[0])
        link = os.path.join(d, 'link%d.cnd' % r.randrange(3))
        if not os.path.lexists(link):
            os.symlink(a, link)
        up = os.path.relpath(a, d)
        for p in (a, link, up, './' + up, os.path.join(deep, '..', 'y', '.', 'schema.txt')):
            rc, diag, il = self.d.compile_file(p, r.randint(0, 1))
            if rc or il != first[1]:
                raise Violation('place', 'another result from another place: %s' % p, schema=first[0], output=diag.decode(errors='replace')[:500])
            self.st.count('compiled from another place')
            self.st.judged()
        for p in (a, link):
            os.unlink(p)


class C24(Check):
    pid = 'C24'
    technique = 'metamorphic monitor over the formatter under ASan/UBSan: image before = image after, comments kept, formatting twice changes nothing; libFuzzer for arbitrary text'
    note = 'Sampled schemas, layouts and texts.'
    rule = 'random schemas in random layouts with comments everywhere, the repository\'s examples, mutated and arbitrary texts; distinct texts count'
    assumptions = ['comments are compared without the trailing carriage return of a line']
    variants = ['driver', 'fuzz-fmt']
    quick, thorough = 2400, 100000
    need = ('layouts formatted', 'examples formatted', 'comments kept', 'broken texts formatted', 'fuzz executions', 'CRLF texts', 'files formatted', 'imports of odd names', 'counts at powers of two')

    def start(self, w):
        self.d = Driver('driver')
        self.ex = examples()

    def stop(self):
        self.d.close()

    def judge(self, text, il=None):
        st = self.st
        f = self.d.format(text)
        if f is None:
            raise Violation('none', 'the formatter returned nothing', text=text)
        f = f.decode()
        rc, diag, il2 = self.d.compile(f)
        if rc:
            raise Violation('refused', 'the formatted text does not compile: ' + diag.decode(errors='replace')[:400], text=text, formatted=f)
        self.spaces(text, f)
        if il2 != il:
            raise Violation('meaning', 'the formatted text compiles to another image', text=text, formatted=f)
        a, b = comments(text), comments(f)
        if a != b:
            k = next(k for k in range(len(a) + 1) if a[k:k + 1] != b[k:k + 1])
            raise Violation('comments', 'comment %d: %r became %r' % (k, a[k:k + 1], b[k:k + 1]), text=text, formatted=f)
        g = self.d.format(f)
        if g is None or g.decode() != f:
            raise Violation('idempotent', 'formatting the formatted text changes it', text=text, formatted=f, again=g and g.decode())
        st.count('comments kept', len(a))
        st.judged(text)
        return f

    def spaces(self, text, f):
        """Only white space may change, whatever the text is."""
        a, b = (x.encode() if isinstance(x, str) else x for x in (text, f))
        a, b = a.translate(None, b' \t\r\n\v\f'), b.translate(None, b' \t\r\n\v\f')
        if a != b:
            k = next(k for k in range(len(a) + 1) if a[k:k + 1] != b[k:k + 1])
            raise Violation('content', 'more than white space changed, at %r' % a[max(k - 20, 0):k + 20], text=text if isinstance(text, str) else text.hex())
        self.st.judged()
        self.st.count('texts compared but for white space')

    def imported(self, r):
        """The types in a file of an odd name, imported: strings are left alone."""
        s = some_schema(r)
        x, y = Renderer(), Renderer()
        for t in s.types:
            x.typedef(t)
        name = r.choice(['a{1}.cnd', 'a;b', 'sub//t.cnd', 'sub/*.cnd', "it's", '@x(1),[2]', 'a  b\t.cnd', 'n\nl', '}', 'a:b', 'x  { y ;}'])
        path = os.path.join(self.d.dir, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(x.text())
        if s.version is not None:
            y.dec('version', s.version)
        if s.endian:
            y.dec({'le': 'little_endian', 'be': 'big_endian'}[s.endian])
        y.packet(s)
        o = Layout(r, comments=0.2, breaks=0.2).write(['@', 'import', '(', '"%s"' % name, ')', '\n'] + y.t)
        rc, diag, il = self.d.compile(o)
        if rc:
            raise Violation('compile-refused', 'a valid schema was refused: ' + diag.decode(errors='replace')[:400], schema=o)
        self.judge(o, il)
        os.unlink(path)
        self.st.count('imports of odd names')

    def case(self, r, i):
        st = self.st
        if i % 4 == 0:
            self.imported(r)
        if i % 8 == 1:
            t = sized(r)
            rc, diag, il = self.d.compile(t)
            if rc:
                raise Violation('compile-refused', 'a valid schema was refused: ' + diag.decode(errors='replace')[:400], schema=t)
            self.judge(t, il)
            st.count('counts at powers of two')
        if i < len(self.ex):
            rc, diag, il = self.d.compile(self.ex[i][1])
            if rc == 0:
                self.judge(self.ex[i][1], il)
                st.count('examples formatted')
        s = some_schema(r)
        t = tokens(s, Style(r, 0.5))
        for _ in range(2):
            lay = Layout(r, comments=r.choice([0, 0.1, 0.4, 0.7]), breaks=r.choice([0, 0.2, 0.6]), tight=r.choice([0, 0.5, 0.95]), cr=True)
            o = lay.write(t)
            rc, diag, il = self.d.compile(o)
            if rc:
                raise Violation('compile-refused', 'a valid schema was refused: ' + diag.decode(errors='replace')[:400], schema=o)
            f = self.judge(o, il)
            st.count('layouts formatted')
            st.count('CRLF texts', lay.eol != '\n')
        st.sample(text=o[:600], formatted=f[:600])
        # robustness, and through the file interface
        b = bytearray(o.encode())
        for _ in range(r.choice([1, 3, 10])):
            k = r.randrange(len(b))
            b[k] = r.choice([10, 13, 32, 34, 47, 42, 45, 48, 59, 123, 125, 1 + r.randrange(255)])
        b = bytes(b).replace(b'\0', b' ')
        if r.random() < 0.3:
            b = b[:r.randrange(len(b))]
        f = self.d.format(b)
        if f is None:
            raise Violation('none', 'the formatter returned nothing', text=b.hex())
        self.spaces(b, f)
        st.count('broken texts formatted')
        st.judged(b)

    def finish(self):
        from cli import Cli
        c = Cli('cli')
        try:
            r = self.rng('files')
            d = Driver('driver')
            for k in range(25):
                t = Layout(r).write(tokens(some_schema(r)))
                c.put('a.cnd', t)
                want = d.format(t)
                o = c.run('fmt', 'a.cnd')
                if o.rc or o.out != want or c.get('a.cnd') != t.encode():
                    raise Violation('file', 'cnd fmt FILE prints something else', text=t, output=o.out.decode(errors='replace'), want=want.decode())
                o = c.run('fmt', 'a.cnd', 'b.cnd')
                if o.rc or c.get('b.cnd') != want or c.get('a.cnd') != t.encode():
                    raise Violation('file', 'cnd fmt FILE OUT writes something else', text=t)
                self.st.count('files formatted', 2)
                self.st.judged(None, 2)
            d.close()
        finally:
            c.close()
        seeds = [t.encode() for _, t in examples()]
        for k in range(150):
            t = Layout(r, comments=0.4).write(tokens(some_schema(r, size=100)))
            seeds.append(t.encode())
        fuzz.run(self.st, 'fuzz-fmt', seeds, 20000 if self.tier == 'quick' else 2000000, self.seed, 3000, wall=100 if self.tier == 'quick' else 3000)
