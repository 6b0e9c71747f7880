"""C30: the binding generator."""
import ast, os, re, shutil, subprocess, tempfile
import build
from build import REPO, HarnessError
from core import Violation
from drv import Crash, Timeout
from runner import Check

UPPER = ('OOB', 'CRC', 'ID', 'VM')
TARGETS = ('go', 'python', 'ts')
KINDS = {'OP_': ('OpCode', 'Op'), 'CND_ERR_': ('Error', 'Err'), 'CND_MODE_': ('Mode', 'Mode'), 'CND_TRANS_': ('Trans', 'Trans')}
ENUMS = ('CND_ERR_', 'CND_MODE_', 'CND_', 'CND_TRANS_')
WORDS = ['LOAD', 'STORE', 'CRC', 'CRC32', 'OOB', 'ID', 'VM', 'IDX', 'U8', 'F64', 'X', 'A', 'LONG', 'VMX', 'OOBS', 'TABLE', 'Z9', 'DIV', 'RAW', 'CACHE', 'Mixed', 'low']


def binding_name(c):
    """(kind, name) a constant has in the bindings."""
    for p, (kind, pre) in KINDS.items():
        if c.startswith(p):
            return kind, pre + pascal(c[len(p):])
    return '', pascal(c[4:])


def pascal(s):
    return ''.join(w if w in UPPER else w[:1].upper() + w[1:].lower() for w in s.split('_'))


def c_values(text, names, d):
    """What the C compiler makes of the constants."""
    with open(d + '/h.h', 'w', newline='') as f:
        f.write(text)
    with open(d + '/v.c', 'w') as f:
        f.write('#include "h.h"\nlong long v[] = { %s };\n' % ', '.join('(long long)(%s)' % n for n in names))
    p = subprocess.run(['gcc', '-w', '-c', 'v.c', '-o', 'v.o'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise HarnessError('the header does not compile: ' + p.stdout.decode(errors='replace')[:2000])
    p = subprocess.run(['objcopy', '-O', 'binary', '--only-section=.data', 'v.o', 'v.bin'], cwd=d)
    b = open(d + '/v.bin', 'rb').read() if os.path.exists(d + '/v.bin') else b''
    if len(b) < 8 * len(names):                     # all zero: the section is .bss
        b += bytes(8 * len(names) - len(b))
    return {n: int.from_bytes(b[8 * i:8 * i + 8], 'little', signed=True) for i, n in enumerate(names)}


def c_names(path):
    """The constants a header defines, as the compiler's preprocessor and a tokenizer see them."""
    m = subprocess.run(['gcc', '-E', '-dM', path], stdout=subprocess.PIPE, check=True).stdout.decode()
    names = re.findall(r'^#define (OP_\w+) \S', m, re.M)
    t = subprocess.run(['gcc', '-E', '-P', path], stdout=subprocess.PIPE, check=True).stdout.decode()
    for body in re.findall(r'\benum\b[^{;]*\{([^}]*)\}', t):
        names += re.findall(r'(?:^|,)\s*(\w+)', re.sub(r'=[^,]*', '', body))
    return names


def parse_go(t):
    out = []
    types = {}
    inside = False
    for n, line in enumerate(t.split('\n')):
        s = line.split('//')[0].strip()
        if not s or n == 0 or s == 'package concordia':
            continue
        m = re.fullmatch(r'type (\w+) (u?int\d*)', s)
        if m:
            types[m[1]] = m[2]
        elif s == 'const (' and not inside:
            inside = True
        elif s == ')' and inside:
            inside = False
        else:
            m = re.fullmatch(r'(\w+)(?:\s+(\w+))?\s*=\s*(\S+)', s)
            if not inside or not m or m[2] and m[2] not in types:
                raise ValueError('line %d of the Go output: %r' % (n + 1, line))
            out.append((m[2] or '', m[1], go_int(m[3])))
    return out


def go_int(s):
    m = re.fullmatch(r'\(*(-?)(0[xX][0-9a-fA-F]+|0[oO]?[0-7]+|0[bB][01]+|0|[1-9]\d*)\)*', s)
    if not m:
        raise ValueError('not an integer: %r' % s)
    b = m[2].lower()
    v = int(b, 16) if b[:2] == '0x' else int(b, 2) if b[:2] == '0b' else int(b.replace('o', ''), 8) if b[0] == '0' else int(b)
    return -v if m[1] else v


def parse_python(t):
    out = []
    for c in ast.parse(t).body:
        if isinstance(c, ast.ClassDef):
            for a in c.body:
                out.append((c.name, a.targets[0].id, ast.literal_eval(a.value)))
    exec(compile(t, 'bindings', 'exec'), {})
    return out


def parse_ts(t):
    out, kind = [], None
    for n, line in enumerate(t.split('\n')):
        s = line.split('//')[0].strip()
        m = re.fullmatch(r'export enum (\w+) \{', s)
        if m and kind is None:
            kind = m[1]
        elif s == '}' and kind:
            kind = None
        elif s:
            m = re.fullmatch(r'(\w+)\s*=\s*(-?(?:0[xX][0-9a-fA-F]+|0|[1-9]\d*)),?', s)
            if not m or kind is None:
                raise ValueError('line %d of the TypeScript output: %r' % (n + 1, line))
            out.append((kind, m[1], int(m[2], 0)))
    return out


PARSE = dict(go=parse_go, python=parse_python, ts=parse_ts)


class Header:
    """The shipped header's constants, to be changed and written out again."""

    def __init__(self, text):
        self.lines = text.split('\n')
        self.items = []              # lines of text, ['op', name, value], ['enum', [[name, value or None]..], typename]
        i = 0
        while i < len(self.lines):
            l = self.lines[i]
            m = re.match(r'#define\s+(OP_\w+)\s+(\w+)', l)
            if m:
                self.items.append(['op', m[1], int(m[2], 0)])
            elif re.match(r'typedef\s+enum\b', l):
                ms, v = [], -1
                while '}' not in self.lines[i]:
                    i += 1
                    m = re.match(r'\s*(\w+)\s*(?:=\s*(-?\w+))?', self.lines[i].split('//')[0])
                    if m:
                        v = int(m[2], 0) if m[2] else v + 1
                        ms.append([m[1], v])
                self.items.append(['enum', ms, re.search(r'\}\s*(\w+)', self.lines[i])[1]])
            else:
                self.items.append(l)
            i += 1

    def ops(self):
        return [x for x in self.items if isinstance(x, list) and x[0] == 'op']

    def enums(self):
        return [x for x in self.items if isinstance(x, list) and x[0] == 'enum']

    def mutate(self, r):
        for _ in range(r.choice([0, 1, 2, 5, 20])):
            k = r.randrange(8)
            ops = self.ops()
            e = r.choice(self.enums())
            used = {o[2] for o in ops}
            names = {o[1] for o in ops} | {m[0] for x in self.enums() for m in x[1]}
            if k == 0 and len(ops) > 1:
                self.items.remove(r.choice(ops))
            elif k in (1, 2):
                n = 'OP_' + '_'.join(r.choice(WORDS) for _ in range(r.randint(1, 4)))
                if not self.clash(n, names) and len(ops) < 250:
                    free = [v for v in range(256) if v not in used]
                    at = r.choice([i for i, x in enumerate(self.items) if x in ops])
                    self.items.insert(at, ['op', n, r.choice(free)])
            elif k == 3:
                o = r.choice(ops)
                o[2] = r.choice([v for v in range(256) if v not in used] + [o[2]])
            elif k == 4:
                a, b = r.choice(ops), r.choice(ops)
                a[2], b[2] = b[2], a[2]
            elif k == 5 and len(e[1]) > 1:
                e[1].remove(r.choice(e[1]))
            elif k == 6:
                p = os.path.commonprefix([m[0] for m in e[1] if m[0].startswith('CND_')])
                p = next((q for q in ('CND_ERR_', 'CND_MODE_', 'CND_TRANS_') if p.startswith(q)), None)
                n = p and p + '_'.join(r.choice(WORDS) for _ in range(r.randint(1, 3)))
                if n and not self.clash(n, names):
                    e[1].insert(r.randint(0, len(e[1])), [n, r.choice([max(m[1] for m in e[1]) + 1, r.randint(100, 1000000), -r.randint(1, 100)])])
            elif k == 7:
                m = r.choice(e[1])
                m[1] = r.choice([m[1] + 1000, r.randint(-5, 300), r.randint(0, 2 ** 31 - 1)])

    @staticmethod
    def clash(n, names):
        return n in names or binding_name(n)[1].lower() in {binding_name(x)[1].lower() for x in names}

    def render(self, r, plain=False):
        out = []
        ch = lambda p: not plain and r.random() < p
        sp = lambda: ' ' if plain else r.choice([' ', ' ', '  ', '\t', ' ' * 12, '\t\t'])
        note = lambda: r.choice([' // a = 5, b', '\t// CND_ERR_OLD = 77,', ' // #define OP_OLD 0x99', ' /* see below */', ' //', '   ']) if ch(0.15) else ''
        for x in self.items:
            if isinstance(x, list) and ch(0.05):
                out.append(r.choice(['', '// #define OP_GONE 0x12', '    // CND_ERR_GONE = 3,', '// OP_X 0x33', '/* CND_ERR_OLDER = 4, */']))
            if not isinstance(x, list):
                out.append(x)
            elif x[0] == 'op':
                v = r.choice(['0x%02X', '0x%02x', '0x%X', '%d', '0x%04x', '0X%02X'][:1 if plain else 6]) % x[2]
                out.append('#define' + sp() + x[1] + sp() + v + note())
            else:
                out.append('typedef' + sp() + 'enum' + sp() + '{' + note())
                last = -1
                for i, (n, v) in enumerate(x[1]):
                    eq = r.choice([' = ', '=', ' =', '= ', '\t= ', '  =  ']) if not plain else ' = '
                    num = '%d' % v if plain or v < 0 or r.random() < 0.7 else r.choice(['0x%X', '0x%x', '0x%04X']) % v
                    s = n if v == last + 1 and ch(0.5) else n + eq + num
                    last = v
                    end = ',' if i < len(x[1]) - 1 or ch(0.4) else ''
                    out.append((r.choice(['    ', '  ', '\t', '']) if not plain else '    ') + s + end + note())
                    if ch(0.1):
                        out.append('')
                out.append('}' + sp() + x[2] + ';')
        return (r.choice(['\n', '\n', '\n', '\r\n']) if not plain else '\n').join(out)

    def names(self):
        return [o[1] for o in self.ops()] + [m[0] for e in self.enums() for m in e[1]]


class C30(Check):
    pid = 'C30'
    technique = 'differential monitor: output of the generator (under ASan/UBSan and plain) for the shipped header and generated variants of it, parsed per target, against values the C compiler gives the constants'
    note = 'Headers keep the style of the shipped one: one constant per line, literal values.'
    rule = 'headers with constants added, removed, renumbered, swapped, moved and respelled, times targets; distinct (header, target) count'
    assumptions = ['names are the words of the constant in Pascal case with a prefix for the kind, as in the checked-in Go file']
    variants = ['gen', 'gen-fast']
    quick, thorough = 1200, 40000
    need = ('go outputs', 'python outputs', 'ts outputs', 'constants compared', 'shipped header', 'implicit values', 'checked-in Go file', 'unreadable header or unknown target')

    def start(self, w):
        self.exes = [build.build('gen'), build.build('gen-fast')]
        self.dir = tempfile.mkdtemp(prefix='vgen')
        self.text = open(REPO + '/include/concordia.h').read()

    def stop(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def generate(self, exe, path, target):
        args = [exe, path] + ([target] if target else [])
        try:
            p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=build.ENV, timeout=60)
        except subprocess.TimeoutExpired:
            raise Timeout('gen_bindings')
        if p.returncode < 0 or p.returncode == 99 or b'runtime error' in p.stderr or b'Sanitizer' in p.stderr:
            raise Crash(' '.join(args), p.stderr.decode(errors='replace') or 'signal %d' % -p.returncode, p.returncode)
        if p.returncode:
            raise Violation('status', 'gen_bindings ends with status %d: %s' % (p.returncode, p.stderr.decode(errors='replace')[:300]), header=open(path).read())
        return p.stdout.decode()

    def compare(self, text, out, target, values):
        got = {}
        try:
            rows = PARSE[target](out)
        except (ValueError, SyntaxError, TypeError, AttributeError) as e:
            raise Violation('syntax', 'the %s output is not well formed: %s' % (target, e), header=text, output=out)
        for kind, name, v in rows:
            if (kind, name) in got or target == 'go' and name in [n for _, n in got]:
                raise Violation('twice', '%s defines %s twice' % (target, name), header=text, output=out)
            got[kind, name] = v
        for c, v in values.items():
            kn = binding_name(c)
            if kn[0] == '' and target != 'go':
                continue
            if kn not in got:
                raise Violation('missing', '%s: %s (%s) is not defined' % (target, kn[1], c), header=text, output=out)
            if got[kn] != v:
                raise Violation('value', '%s: %s is %d, the C compiler says %s is %d' % (target, kn[1], got[kn], c, v), header=text, output=out)
            del got[kn]
            self.st.count('constants compared')
        if got:
            raise Violation('extra', '%s defines %s, which the header does not' % (target, sorted(got)[0][1]), header=text, output=out)
        self.st.count(target + ' outputs')
        self.st.judged((text, target))

    def misused(self, r):
        path = REPO + '/include/concordia.h'
        for exe in self.exes:
            for args in ([], [self.dir + '/nothere.h'], [self.dir + '/nothere.h', r.choice(TARGETS)], [path, r.choice(['Go', 'c', 'rust', 'pythn', 'g', 'gogo', 'TS', '--go'])]):
                p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=build.ENV, timeout=60)
                if p.returncode < 0 or p.returncode == 99 or b'Sanitizer' in p.stderr or b'runtime error' in p.stderr:
                    raise Crash(' '.join(args), p.stderr.decode(errors='replace') or 'signal %d' % -p.returncode, p.returncode)
                if not p.returncode or p.stdout.strip():
                    raise Violation('misuse', 'gen_bindings %s ends with status %d and %d bytes of output' % (' '.join(args), p.returncode, len(p.stdout)))
                self.st.count('unreadable header or unknown target')

    def case(self, r, i):
        if i == 0:
            return self.shipped()
        if i < 30:
            self.misused(r)
        h = Header(self.text)
        h.mutate(r)
        text = h.render(r)
        self.st.count('implicit values', len(re.findall(r'^\s*CND_\w+,?\s*(?://.*)?$', text, re.M)))
        path = self.dir + '/in.h'
        with open(path, 'w', newline='') as f:
            f.write(text)
        values = c_values(text, h.names(), self.dir)
        exe = self.exes[i % 4 != 0]
        for t in TARGETS:
            out = self.generate(exe, path, t)
            self.compare(text, out, t, values)
        if i % 5 == 0 and self.generate(exe, path, None) != self.generate(exe, path, 'go'):
            raise Violation('default', 'the default target is not Go', header=text)
        self.st.sample(header=text[:600])

    def shipped(self):
        path = REPO + '/include/concordia.h'
        names = c_names(path)
        if len(names) < 50:
            raise HarnessError('only %d constants found in the header' % len(names))
        values = c_values(self.text, names, self.dir)
        for exe in self.exes:
            for t in TARGETS:
                self.compare(self.text, self.generate(exe, path, t), t, values)
        self.st.count('shipped header')
        with open(REPO + '/go/consts.go') as f:
            kept = f.read()
        self.compare(self.text, kept, 'go', values)
        if kept != self.generate(self.exes[1], path, 'go'):
            raise Violation('checked-in', 'go/consts.go is not what the generator writes', output=kept)
        self.st.count('checked-in Go file')
