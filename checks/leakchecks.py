"""C33: repeated use does not accumulate memory."""
import os, shutil
import gen, gobuild, schema as S
from clichecks import mutate_image
from core import Case, Skip, Violation
from drv import Driver, hexs
from gobindchecks import GoDriver
from importchecks import DIRS, Tree, items_of
from layout import Layout
from lspchecks import C28, Session, frame
from rulechecks import FIELD, TOP, HELP, Spots, tok
from runner import Check
from textchecks import WIDE, WORDS, deep, some_schema, soup, tokens


class Kept(Session):
    """A session written to a file, to be run several times in one process."""

    def run(self, tail=b''):
        self.check.sessions.append((b''.join(self.sent) + tail, [b[:2000].decode('utf-8', 'replace') for b in self.log[-40:]]))


class Sessions(C28):
    session_class = Kept

    def start(self, w):
        super().start(w)
        self.sessions = []


class C33(Check):
    pid = 'C33'
    technique = 'allocation monitor: the same work repeated in one process under ASan, live bytes and open files compared (compiler, formatter, language server); C heap, Go heap objects and goroutines over repeated runs of the Go package'
    note = 'Sampled work; a leak must repeat with the work to be seen.'
    rule = 'valid, damaged, rule-breaking, importing and deep texts compiled and formatted, language server sessions, Go runs (failing, refused, cut, one-shot, damaged images); distinct pieces of work count'
    assumptions = ['what stays allocated must not grow from one time to the next; memory kept once is not claimed']
    variants = ['driver', 'leak', 'cli', 'cli-fast']
    quick, thorough = 3000, 200000
    need = ('compiles accepted', 'compiles refused', 'imports compiled', 'imports refused', 'rules broken', 'deep texts', 'formatted', 'sessions', 'hostile sessions', 'go windows', 'go jobs', 'go images refused')

    def before(self):
        gobuild.build('asan')

    def start(self, w):
        self.l = Driver('leak', timeout=120)
        self.lsp = Sessions(self.tier, self.seed)
        self.lsp.w = w
        self.lsp.start(w)
        self.d = self.lsp.d
        self.go = GoDriver('asan')
        self.src, self.il, self.rec = (os.path.join(self.l.dir, n) for n in ('s.cnd', 's.il', 'session'))

    def stop(self):
        self.l.close()
        self.go.close()
        self.lsp.stop()

    def case(self, r, i):
        k = i % 12
        if k in (3, 7, 11):
            self.session(r, i)
        elif k in (2, 6):
            self.golang(r)
        elif k in (1, 5):
            self.tree(r)
        else:
            self.text(r)

    # -- one measurement
    def grows(self, cmd, rest, what, **info):
        """Runs the work; what is left must not grow with every repetition."""
        a = self.l.ask('%s 1 %s' % (cmd, rest)).split()
        self.st.judged((what, info.get('text') or info.get('messages') or rest))
        if int(a[2]) <= 0 and int(a[3]) <= 0:
            return int(a[1])
        b = self.l.ask('%s 2 %s' % (cmd, rest)).split()
        c = self.l.ask('%s 5 %s' % (cmd, rest)).split()
        for n, unit in ((2, 'bytes'), (3, 'open files')):
            g = [int(x[n]) for x in (a, b, c)]
            if g[0] > 0 and g[1] >= 2 and g[2] >= 5:
                raise Violation('%s: %s' % (what, unit), '%s: %d %s are left after one more time, %d after two, %d after five' % (what, g[0], unit, g[1], g[2]), **info)
        return int(a[1])

    def compile(self, r, path, shown):
        il = self.il if r.random() < 0.93 else os.path.join(self.l.dir, r.choice(['gone/s.il', '.']))
        rc = self.grows('C', '%d %s %s' % (r.randint(0, 1), path, il), 'compiling', text=shown[:20000])
        if il != self.il:
            self.st.count('outputs that cannot be written')
        self.st.count('compiles refused' if rc else 'compiles accepted')
        return rc

    def format(self, text):
        b = text.encode('utf-8', 'surrogateescape') if isinstance(text, str) else text
        ok = self.grows('F', hexs(b), 'formatting', text=text[:20000] if isinstance(text, str) else text.hex())
        self.st.count('formatted' if ok else 'format refused')

    # -- work
    def text(self, r):
        st = self.st
        s = some_schema(r, structs=3, enums=2, huge=0.002)
        x = r.random()
        if x < 0.15:
            t = Layout(r).write(tokens(s))
        elif x < 0.4:
            t = Layout(r).write(soup(r, tokens(s)))
        elif x < 0.75:
            t = self.broken(r, s)
            st.count('rules broken')
        elif x < 0.8:
            t = deep(r)
            st.count('deep texts')
        elif x < 0.92:
            t = S.render(s)
            k = r.randrange(len(t))
            t = t[:k] + r.choice(['', '"', '/*', '}', '{', ';', '\r', '@', '@expr(', '@poly(1.0, ', '@crc(16)', '@import("', '(', ')', 'struct S {', 'enum E {', 'é', '\x01']) + t[k + r.choice([0, 1, 9]):]
        else:
            t = ''.join(r.choice(WORDS) + r.choice(['', ' ', '\n']) for _ in range(r.choice([3, 30, 300])))
        t = t.replace('\0', ' ')
        with open(self.src, 'w', newline='', encoding='utf-8', errors='surrogateescape') as f:
            f.write(t)
        self.compile(r, self.src, t)
        self.format(t)

    def broken(self, r, s):
        """A schema with one language rule broken."""
        q = Spots()
        q.schema(s)
        t = list(q.t)
        if r.random() < 0.7 and q.spots:
            bad = tok(r.choice(FIELD)(r)[1])
            k = r.choice(q.spots)
        else:
            bad = tok(r.choice(TOP)(r)[1])
            k = r.choice(q.tops)
        t[k:k] = bad
        return Layout(r).write(tok(HELP) + t)

    def tree(self, r):
        root = os.path.join(os.path.realpath(self.l.dir), 'tree')
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        try:
            s = some_schema(r, structs=5, enums=3)
            t = Tree(r, root, items_of(s))
            t.write()
            main = os.path.join(root, t.main)
            if ' ' not in main:
                self.compile(r, main, t.show())
                self.st.count('imports compiled')
                if len(t.order) > 1:
                    p = os.path.join(root, r.choice(t.order[1:]))
                    x = r.randrange(4)
                    if x == 0:
                        os.unlink(p)
                    elif x == 1:
                        os.unlink(p)
                        os.mkdir(p)
                    else:
                        with open(p, 'ab') as f:
                            f.write(r.choice([b'\n}', b'\nstruct', b'\nstruct Bad { nosuchtype x; }', b'\nenum Bad { A = 1, A = 2 }', b'\n@import("")', b'\n@import("gone")', b'\n@import("', b'\n"',
                                              b'\npacket Q { uint8 a; } packet R { uint8 a; }', b'\nstruct Good { uint8 a; } /// note\nstruct Good { uint8 b; }']))
                    if self.compile(r, main, t.main + ' ' + p + ' ' + (t.show() if x > 1 else '')):
                        self.st.count('imports refused')
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def session(self, r, i):
        c = self.lsp
        c.sessions = []
        shutil.rmtree(c.root, ignore_errors=True)
        os.makedirs(c.root)
        try:
            if i % 24 == 3:
                c.hostile(r)
            else:
                c.session(r, False)
            for data, log in c.sessions:
                with open(self.rec, 'wb') as f:
                    f.write(data)
                self.grows('S', self.rec, 'language server', messages=log)
                self.st.count('hostile sessions' if i % 24 == 3 else 'sessions')
        finally:
            shutil.rmtree(c.root, ignore_errors=True)

    def golang(self, r):
        st = self.st
        s = gen.Gen(r, gen.profile(**dict(r.choice(WIDE), huge=0))).schema()
        c = Case(self.d, s, S.render(s), slot=0)
        ask = self.go.ask
        ask('C')
        if ask('L 0 ' + hexs(c.il))[1] != '0':
            raise Violation('load', 'Go does not load a valid image', schema=c.text)
        jobs = []
        for _ in range(r.choice([1, 2, 3])):
            v = gen.Values(r, invalid=r.choice([0, 0, 0.1]), budget=120)
            try:
                m = c.enc_model(v)
            except Skip:
                continue
            cap = m.length if r.random() < 0.8 or not m.length else r.randrange(m.length)
            raw, fail = r.randint(0, 1), r.choice([0, 0, 1, r.randrange(1, 12)])
            jobs.append('E 0 %d 0 %d %d %s' % (cap, raw, fail, ' '.join(m.tape)))
            a = ask('Q ' + jobs[-1])
            data = bytes.fromhex(a[2]) if a[1] == '0' and a[2] != '-' else bytes(r.randrange(256) for _ in range(r.choice([0, 1, 9, 60])))
            if r.random() < 0.3:
                data = data[:r.randrange(len(data) + 1)]
            jobs.append('D 0 %s %d %d' % (hexs(data), raw, r.choice([0, 0, 1, r.randrange(1, 12)])))
            ask('Q ' + jobs[-1])
        images = [c.il]
        for _ in range(3):
            im, how = mutate_image(r, c.il)
            if len(im) >= 16 and im[:5] == b'CNDIL':
                images.append(im)
                st.count('go images refused', self.d.load(9, im).rc != 0)
        n = 25
        w = list(map(int, ask('M %d %s' % (n, ' '.join(map(hexs, images))))[1:]))
        for k, what in ((0, 'bytes of the C heap'), (1, 'Go objects'), (2, 'goroutines')):
            g = w[k::3]
            if min(g) >= n:
                raise Violation('go: ' + what, '%d repetitions leave %r %s' % (n, g, what), schema=c.text[:6000], jobs=[j[:2000] for j in jobs], images=[im.hex()[:2000] for im in images])
        st.count('go windows', len(w) // 3)
        st.count('go jobs', len(jobs))
        st.judged((c.text, tuple(jobs)))
