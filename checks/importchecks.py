"""C23: imports."""
import os, shutil
import schema as S
from core import Violation
from drv import Driver
from layout import Layout
from runner import Check
from schema import Style, Renderer
from textchecks import some_schema

DIRS = ['', 'lib', 'lib/deep', 'common', 'a b', 'é', 'v1.2', 'back\\slash', 'lib/deep/er', "o'dd", 'x{}', '%d']
FILES = ['types', 'm', 'a', 'common', 'types.v2', 'with space', 'ü', 'semi;colon', 'b\\ack', '@x', '//'.strip('/') or 'q', "it's"]


class Tree:
    """A random splitting of a list of items (each a token list) over files."""

    def __init__(self, r, root, items):
        self.r, self.root = r, root
        self.files = {}             # relative path -> items: ('def', tokens) | ('imp', path)
        self.order = []             # files in the order they are first imported
        self.links = []
        self.stats = dict(files=0, repeats=0, cycles=0, links=0, depth=0)
        self.main = self.new_file()
        self.fill(self.main, items, 0, [self.main])

    def new_file(self):
        while True:
            d, n = self.r.choice(DIRS), self.r.choice(FILES) + self.r.choice(['.cnd', '.cnd', '', '.txt'])
            p = os.path.join(d, n)
            if self.order and self.r.random() < 0.15:       # nearly the name of another file
                q = self.r.choice(self.order)
                d, n = os.path.split(q)
                p = os.path.join(d, self.r.choice([n.swapcase(), n.upper(), n.capitalize(), n + 'x', n + ' ', n[:-1] or 'y', n[:-1] + '_', '_' + n, n[::-1], n.replace('.', '_')]))
            if p not in self.files and n not in ('', '.') and os.path.join(d, n) not in DIRS and p not in {os.path.dirname(q) for q in DIRS}:
                self.files[p] = []
                self.order.append(p)
                self.stats['files'] += 1
                return p

    def fill(self, path, items, depth, above):
        r, out, k = self.r, self.files[path], 0
        self.stats['depth'] = max(self.stats['depth'], depth)
        while k < len(items) or r.random() < 0.3:
            x = r.random()
            if x < 0.25 and depth < 8 and len(self.files) < 14:
                j = r.randint(k, len(items))
                f = self.new_file()
                out.append(('imp', f))
                self.fill(f, items[k:j], depth + 1, above + [f])
                k = j
            elif x < 0.4 and len(self.order) > 1:
                f = r.choice(self.order)
                out.append(('imp', f))
                self.stats['cycles' if f in above else 'repeats'] += 1
            elif k < len(items):
                out.append(('def', items[k]))
                k += 1
            elif x > 0.8:
                break

    def spell(self, here, path):
        """One of the ways to write the path of a file as seen from another."""
        r = self.r
        base = os.path.dirname(here)
        x = r.random()
        if x < 0.08:
            return os.path.join(self.root, path)
        target = path
        if x < 0.2:            # a link next to the file
            link = path + '.lnk%d' % r.randrange(3)
            if link not in self.files:
                if link not in self.links:
                    self.links.append(link)
                    self.link(os.path.basename(path), link)
                target = link
        elif x < 0.3:          # a linked directory
            d = os.path.dirname(path)
            if d:
                link = 'ld%d' % DIRS.index(d)
                if link not in self.links:
                    self.links.append(link)
                    self.link(d, link)
                target = os.path.join(link, os.path.basename(path))
        p = os.path.relpath(target, base or '.')
        parts = p.split('/')
        out = []
        for q in parts:
            if r.random() < 0.15:
                out.append('.')
            if r.random() < 0.1 and base and not out:
                out += ['..', os.path.basename(base)]
            out.append(q)
        p = '/'.join(out)
        if r.random() < 0.1:
            p = p.replace('/', '//', 1)
        return p

    def link(self, target, name):
        p = os.path.join(self.root, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        os.symlink(target, p)
        self.stats['links'] += 1

    def write(self):
        r = self.r
        for path in self.files:
            os.makedirs(os.path.dirname(os.path.join(self.root, path)), exist_ok=True)
        for path, items in self.files.items():
            t = []
            for kind, x in items:
                if kind == 'imp':
                    t += ['@', 'import', '(', '"' + self.spell(path, x) + '"', ')'] + ([';', '\n'] if r.random() < 0.3 else [])
                else:
                    t += x
            with open(os.path.join(self.root, path), 'wb') as f:
                f.write((Layout(r, one_line=r.random() < 0.3).write(t) if r.random() < 0.5 else S.join([x for x in t if x != '\n'])).encode())

    def show(self):
        out = ''
        for path in self.files:
            with open(os.path.join(self.root, path), encoding='utf-8', newline='') as f:
                out += '=== %s\n%s\n' % (path, f.read())
        return out


def items_of(s):
    out = []
    for t in s.types:
        q = Renderer()
        q.typedef(t)
        out.append(q.t)
    q = Renderer()
    if s.version is not None:
        q.dec('version', s.version)
        out.append(q.t)
        q = Renderer()
    if s.endian:
        q.dec({'le': 'little_endian', 'be': 'big_endian'}[s.endian])
        out.append(q.t)
        q = Renderer()
    q.packet(s)
    out.append(q.t)
    return out


class C23(Check):
    pid = 'C23'
    technique = 'metamorphic monitor: random import graphs on disk against the single-file schema, image by image, under ASan/UBSan; injected missing files, directories, cycles and faults'
    note = 'Sampled graphs; symbolic links to files lie in the directory of their target.'
    rule = 'random schemas split over up to 14 files in nested directories with repeated, diamond and cyclic imports and varied path spellings; distinct file sets count'
    assumptions = ['an import of a file already being read adds nothing']
    variants = ['driver']
    quick, thorough = 5000, 100000
    need = ('trees compared', 'files', 'imports repeated', 'imports in a cycle', 'links', 'missing files', 'directories imported', 'cycles leaving a type undefined',
            'duplicate definitions over files', 'long chains', 'faults in imported files')

    def start(self, w):
        self.d = Driver('driver')

    def stop(self):
        self.d.close()

    def case(self, r, i):
        st = self.st
        root = os.path.realpath(os.path.join(self.d.dir, 'tree'))
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        try:
            if i % 40 == 7:
                self.chain(r, root)
                return
            s = some_schema(r, structs=5, enums=3)
            items = items_of(s)
            rc, diag, want = self.d.compile(S.join([x for it in items for x in it if x != '\n']))
            if rc:
                raise Violation('compile-refused', 'a valid schema was refused: ' + diag.decode(errors='replace')[:400], schema=S.render(s))
            if not s.types or r.random() < 0.3:     # something the other files can hold
                items.insert(0, ['struct', 'Spare', '{', 'uint8', 'spare', ';', '}', '\n'])
            t = Tree(r, root, items)
            t.write()
            main = os.path.join(root, t.main)
            rc, diag, il = self.compile(r, root, t.main)
            if rc:
                raise Violation('refused', 'the split schema was refused: ' + diag.decode(errors='replace')[:600], files=t.show(), main=t.main)
            if il != want:
                raise Violation('differs', 'the split schema compiles to another image', files=t.show(), main=t.main, want=want.hex(), got=il.hex())
            st.count('trees compared')
            st.count('files', t.stats['files'])
            st.count('imports repeated', t.stats['repeats'])
            st.count('imports in a cycle', t.stats['cycles'])
            st.count('links', t.stats['links'])
            st.n['deepest import'] = max(st.n['deepest import'], t.stats['depth'])
            shown = t.show()
            st.judged(shown)
            st.sample(main=t.main, files=shown[:1500])
            if len(t.order) > 1:
                self.faults(r, root, t)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def compile(self, r, root, path):
        p = os.path.join(root, path)
        return self.d.compile_file(r.choice([p, os.path.relpath(p, self.d.dir), os.path.join(root, '.', path)]), r.randint(0, 1))

    def reject(self, r, root, t, what):
        rc, diag, il = self.compile(r, root, t.main)
        if rc == 0 or il is not None:
            raise Violation('accepted ' + what, '%s: accepted' % what, files=self.shown, main=t.main, fault=self.fault)
        if not diag:
            raise Violation('silent ' + what, '%s: no diagnostic' % what, files=self.shown, main=t.main, fault=self.fault)
        self.st.count(what)
        self.st.judged((self.shown, self.fault))

    def faults(self, r, root, t):
        self.shown = t.show()
        f = r.choice(t.order[1:])
        p = os.path.join(root, f)
        self.fault = f
        save = open(p, 'rb').read()
        x = r.randrange(5)
        if x == 0:
            os.unlink(p)
            self.reject(r, root, t, 'missing files')
        elif x == 1:
            os.unlink(p)
            os.mkdir(p)
            self.reject(r, root, t, 'directories imported')
        elif x == 2:
            # a definition that only a file above provides, wanted in one below
            with open(p, 'wb') as fh:
                fh.write(b'@import("' + os.path.relpath(os.path.join(root, t.main), os.path.dirname(p)).encode() + b'") struct Cyc { LaterType x; }\n' + save)
            m = os.path.join(root, t.main)
            with open(m, 'ab') as fh:
                fh.write(b'\nstruct LaterType { uint8 z; }\n')
            self.reject(r, root, t, 'cycles leaving a type undefined')
        elif x == 3:
            # the same name defined in two files
            g = r.choice([q for q in t.order if q != f])
            with open(p, 'ab') as fh:
                fh.write(b'\n struct Twice { uint8 z; }\n')
            with open(os.path.join(root, g), 'ab') as fh:
                fh.write(b'\nstruct Twice { uint8 z; }\n')
            self.reject(r, root, t, 'duplicate definitions over files')
        else:
            with open(p, 'ab') as fh:
                fh.write(r.choice([b'\n}', b'\nstruct', b'\nstruct Bad { nosuchtype x; }', b'\n$', b'\nenum Bad { A = 1, A = 2 }', b'\n@import("")', b'\n@import()',
                                   b'\n@import(x)', b'\n@import("', b'\n@import("' + b'a/' * 3000 + b'")']))
            self.reject(r, root, t, 'faults in imported files')

    def chain(self, r, root):
        """Long chains and rings of files."""
        n = r.choice([20, 200, 255, 256, 257, 400])
        ring = r.random() < 0.3
        for k in range(n):
            with open('%s/f%d' % (root, k), 'w') as f:
                f.write('@import("f%d") struct S%d { %s x; }\n' % ((k + 1) % n if ring or k < n - 1 else k, k, 'uint8' if k == n - 1 or k < n - 200 else 'S%d' % (k + 1)))
        with open(root + '/main', 'w') as f:
            f.write('@import("f0") packet P { S%d a; }\n' % max(0, n - 60))
        rc, diag, il = self.d.compile_file(root + '/main')
        if rc == 0 and not il or rc and (il is not None or not diag):
            raise Violation('chain', 'a chain of %d files: neither accepted nor refused properly' % n)
        if rc and n <= 200:
            raise Violation('chain refused', 'a chain of %d files was refused: %s' % (n, diag.decode(errors='replace')[:400]))
        self.st.count('long chains')
        self.st.judged((n, ring))
