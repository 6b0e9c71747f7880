"""C26: the command line tool on files of any kind."""
import os, struct
import fuzz, gen, il as IL, schema as S
from build import HarnessError
from cli import Cli
from core import Case, Violation, Skip, rcname, OK
from drv import Driver, Timeout, hexs
from ilchecks import WIDE
from jsonchecks import Small, text_of, tree, no_json, parse, Ambiguous, computed_types
from runner import Check
from textchecks import soup, tokens, deep, judge_compile

COMMANDS = ('compile', 'fmt', 'inspect', 'encode', 'decode')
JSONS = ['', ' ', '{', '}', '[]', '{}', 'null', 'true', '0', '"x"', '{"a":', '{"a" 1}', '[1,2', '{"a":1,}', "{'a':1}", '\ufeff{}', '{"a":\x01}', '{"":{}}',
         '[' * 1200, '{"a":' * 1200 + '1' + '}' * 1200, '"' + 'x' * 70000 + '"', '{"a":1e999}', '{"a":-1e999}', '{"a":"\\ud800"}', '{"a":"\\u0000"}', 'nul', '\x00']


def mutate_image(r, im):
    """A damaged image, and what was done to it."""
    b = bytearray(im)
    k = r.randrange(9)
    if k == 0:
        for _ in range(r.choice([1, 1, 3, 10])):
            b[r.randrange(len(b))] = r.choice([0, 1, 255, 127, 128, r.randrange(256)])
        return bytes(b), 'bytes'
    if k == 1:
        return bytes(b[:r.randrange(len(b))]), 'cut'
    if k == 2:
        return bytes(b + bytes(r.randrange(256) for _ in range(r.choice([1, 3, 40])))), 'longer'
    if k == 3:
        at, f = r.choice([(0, '<I'), (4, '<H'), (6, '<H'), (8, '<I'), (12, '<I')])
        old = struct.unpack_from(f, b, at)[0]
        new = r.choice([0, 1, old + 1, old - 1, len(b), len(b) + 1, len(b) - 1, 16, 2 ** 31, 2 ** 32 - 1, 65535])
        struct.pack_into(f, b, at, new & (65535 if f == '<H' else 2 ** 32 - 1))
        return bytes(b), 'header'
    if k == 4:
        so, bo = struct.unpack_from('<II', b, 8)
        if bo > so:
            for _ in range(r.choice([1, 3])):
                b[r.randrange(so, bo)] = r.choice([0, ord('.'), ord('a'), 255, 10, ord('%')])
        return bytes(b), 'names'
    # whole instructions
    n, so, bo, names, bc = IL.header(im)
    ins = [x for x in IL.walk(bc)]
    if not ins:
        return bytes(b), 'bytes'
    parts = [bytearray(bc[x.ip:x.ip + x.size]) for x in ins]
    for _ in range(r.choice([1, 1, 2, 6])):
        j = r.randrange(len(ins))
        q = r.randrange(7)
        own = parts[j] == bc[ins[j].ip:ins[j].ip + ins[j].size]
        if q == 0 and own and ins[j].fields:
            kind, v, at = r.choice(ins[j].fields)
            at -= ins[j].ip
            if kind == 'k':
                struct.pack_into('<H', parts[j], at, r.choice([r.randrange(n + 1), r.randrange(n + 1), 65535]))
            else:
                parts[j][at] = r.choice([0, 1, 2, 5, 255, r.randrange(256)])
        elif q == 1:
            parts[j] = bytearray(IL.rand_insn(r, n))
        elif q == 2:
            parts[j] = bytearray(r.choice(parts))
        elif q == 3 and len(parts[j]) == 3:
            parts[j][0] = r.choice([0x10, 0x11, 0x13, 0x14, 0x18, 0x19, 0x1a, 0x31, 0x32, 0x33, 0x35, 0x36, 0x37, 0x3a, 0x03, 0x60, 0x78])
        else:
            # a whole computation, of a key used nearby; or anything
            near = [f[1] for x in ins[max(0, j - 3):j + 3] for f in x.fields if f[0] == 'k'] or [0]
            key = r.choice(near)
            p = IL.rand_insn(r, n) if q == 4 else IL.pack('PUSH_IMM', 5) + IL.pack('STORE_CTX', key) if q == 5 else \
                r.choice([IL.pack('ENTER_STRUCT', key), IL.pack('EXIT_STRUCT'), IL.pack('ARR_END'), IL.pack('ARR_FIXED', key, r.choice([0, 1, 3])), IL.pack('IO_U8', key)])
            parts.insert(j, bytearray(p))
            ins.insert(j, ins[j])
    at = ins[-1].ip + ins[-1].size
    return im[:bo] + b''.join(bytes(p) for p in parts) + bc[at:], 'instructions'


class C26(Check):
    pid = 'C26'
    technique = 'ASan/UBSan over the CLI commands on damaged and unusual files, libFuzzer on encode, decode and inspect in one process; monitors on status, message and output file against the verdicts of the VM, the loader and the verifier'
    note = 'Sampled inputs; a damaged program that asks for an endless run is cut off and not judged.'
    rule = 'damaged images, JSON texts, packets and schemas; missing, empty, unreadable and unwritable files; argument lists; distinct (command, inputs) count'
    assumptions = ['reading and writing go through ordinary files, directories, links and /dev/full', 'a program whose own jumps and counts ask for an endless run may run that long']
    variants = ['driver', 'cli', 'cli-fast', 'fuzz-cli']
    quick, thorough = 2000, 60000
    need = ('damaged images refused', 'damaged images accepted', 'cut JSON refused', 'short packets refused', 'odd JSON', 'odd packets', 'unreadable input', 'unwritable output',
            'argument lists', 'rejected schemas', 'accepted schemas', 'output left alone', 'in place', 'fuzz executions')

    def start(self, w):
        self.d = Driver('driver', timeout=120)
        self.clis = [Cli('cli'), Cli('cli-fast')]

    def stop(self):
        self.d.close()
        for c in self.clis:
            c.close()

    def case(self, r, i):
        self.cli = self.clis[1 if i % 3 == 0 else 0]
        self.cli.clean()
        k = i % 10
        if k < 4:
            self.damaged(r)
        elif k < 7:
            self.inputs(r)
        elif k == 7:
            self.files(r)
        elif k == 8:
            self.sources(r)
        else:
            self.arguments(r)

    # -- the monitor of every run
    def command(self, args, out=None, before=None, slow=False):
        """Runs; a failing command must say so and leave its output alone.  None if it ran too long."""
        cli = self.cli
        try:
            o = cli.run(*args, timeout=8 if slow else 120)
        except Timeout:
            if not slow:
                raise
            self.st.count('over the time slice (not judged)')
            return None
        info = dict(command=list(args), output=(o.out + o.err).decode(errors='replace')[:1000], status=o.rc)
        for n in ('p.il', 'r.json', 'd.bin', 'in.cnd'):
            if n in args:
                info[n] = (cli.get(n) or b'')[:20000].hex() if os.path.isfile(cli.path(n)) else 'not a file'
        self.info = info
        if not 0 <= o.rc < 100:
            raise Violation('status', 'ended with status %d' % o.rc, **info)
        if o.rc and not (o.out + o.err).strip():
            raise Violation('silent', 'failed without a message', **info)
        if o.rc and out and cli.get(out) != before:
            raise Violation('output', 'failed but wrote its output file', **info)
        if o.rc and out:
            self.st.count('output left alone')
        if o.rc == 0 and out and not os.path.exists(cli.path(out)):
            raise Violation('no output', 'ended with status 0 without an output file', **info)
        self.st.judged(tuple(info.items()))
        self.st.count('%s ended %s' % (args[0] if args else 'nothing', 'well' if o.rc == 0 else 'with a failure'))
        return o

    def must_fail(self, o, why):
        if o is not None and o.rc == 0:
            raise Violation('status 0', '%s: %s, but the status is 0' % (self.info['command'][0], why), **self.info)

    def must_work(self, o, why):
        if o is not None and o.rc:
            raise Violation('refused', '%s: %s, but it fails' % (self.info['command'][0], why), **self.info)

    def old(self, r, name):
        """What the output file holds before."""
        if r.random() < 0.5:
            self.cli.put(name, b'before')
            return b'before'
        if os.path.lexists(self.cli.path(name)):
            os.unlink(self.cli.path(name))
        return None

    def material(self, r):
        """A schema with an image, a record as JSON and its packet."""
        s = gen.Gen(r, gen.profile(**dict(r.choice(WIDE), huge=0))).schema()
        c = Case(self.d, s, S.render(s))
        body = s.body if isinstance(s.body, list) else s.body.body
        js, data = '{}', b''
        try:
            m = c.enc_model(Small(r, overflow=0.0))
            res = self.d.encode(0, m.length if m.rc == OK else 300, m.tape)
            data = res.data
            t = tree([e for e in res.events if not e.startswith('78:')], c.names, s, computed_types(body, '', {}))
            js = text_of(t, r) if not no_json(t) else '{}'
        except (Skip, Ambiguous, IndexError):
            pass
        return s, c, js, data

    # -- damaged images
    def damaged(self, r):
        s, c, js, data = self.material(r)
        cli, st = self.cli, self.st
        cli.put('r.json', js.encode('latin-1'))
        cli.put('d.bin', r.choice([data, data, bytes(r.choice([0, 1, 2, 255, r.randrange(256)]) for _ in range(r.choice([0, 8, 100, 3000])))]))
        for _ in range(3):
            im, how = mutate_image(r, c.il)
            cli.put('p.il', im)
            ld = self.d.load(1, im)
            ok = ld.rc == 0 and ld.verify == 0
            st.count('damaged: ' + how)
            st.count('damaged images accepted' if ok else 'damaged images refused')
            for cmd in r.sample(['encode', 'decode', 'inspect'], 2):
                if cmd == 'inspect':
                    o = self.command(['inspect', 'p.il'])
                    if ld.rc:
                        self.must_fail(o, 'the image does not load')
                    elif ok:
                        self.must_work(o, 'the image loads and verifies')
                elif cmd == 'encode':
                    b = self.old(r, 'o.bin')
                    o = self.command(['encode', 'p.il', 'r.json', 'o.bin'], 'o.bin', b, True)
                    if not ok:
                        self.must_fail(o, 'the image does not load or verify')
                else:
                    b = self.old(r, 'o.json')
                    o = self.command(['decode', 'p.il', 'd.bin', 'o.json'] + r.choice([[], ['--hex']]), 'o.json', b, True)
                    if not ok:
                        self.must_fail(o, 'the image does not load or verify')
                    elif o is not None and o.rc == 0:
                        self.valid_json('o.json')

    def valid_json(self, name):
        try:
            parse_any(self.cli.get(name))
        except (ValueError, RecursionError) as e:
            raise Violation('json', 'decode wrote what is not JSON: %s' % e, json=self.cli.get(name).decode('latin-1')[:3000], **self.info)

    # -- good image, odd inputs
    def inputs(self, r):
        s, c, js, data = self.material(r)
        cli, st = self.cli, self.st
        cli.put('p.il', c.il)
        for _ in range(3):
            k = r.randrange(5)
            if k == 0:                                   # an object cut short
                t = js.rstrip().encode('latin-1')
                t = t[:r.randrange(len(t))]
                cli.put('r.json', t)
                b = self.old(r, 'o.bin')
                self.must_fail(self.command(['encode', 'p.il', 'r.json', 'o.bin'], 'o.bin', b), 'the JSON text is cut short')
                st.count('cut JSON refused')
            elif k == 1:
                t = r.choice(JSONS).encode() if r.random() < 0.4 else self.odd(r, js.encode('latin-1'))
                cli.put('r.json', t)
                b = self.old(r, 'o.bin')
                self.command(['encode', 'p.il', 'r.json', 'o.bin'], 'o.bin', b)
                st.count('odd JSON')
            elif k == 2 and data and not s.eof:          # the VM's verdict
                t = data[:r.randrange(len(data))]
                res = self.d.decode(0, t)
                cli.put('d.bin', t)
                b = self.old(r, 'o.json')
                o = self.command(['decode', 'p.il', 'd.bin', 'o.json'], 'o.json', b)
                if res.rc != OK:
                    self.must_fail(o, 'the VM ends with ' + rcname(res.rc))
                    st.count('short packets refused')
            else:
                t = self.odd(r, data) if r.random() < 0.5 else bytes(r.choice([0, 1, 2, 255, r.randrange(256)]) for _ in range(r.choice([0, 1, 8, 100, 5000])))
                res = self.d.decode(0, t)
                cli.put('d.bin', t)
                b = self.old(r, 'o.json')
                o = self.command(['decode', 'p.il', 'd.bin', 'o.json'] + r.choice([[], ['--hex']]), 'o.json', b, res.flags & 8)
                if res.rc != OK and not res.flags & 8:
                    self.must_fail(o, 'the VM ends with ' + rcname(res.rc))
                elif o is not None and o.rc == 0:
                    self.valid_json('o.json')
                st.count('odd packets')

    @staticmethod
    def odd(r, b):
        b = bytearray(b)
        for _ in range(r.choice([1, 1, 2, 5])):
            k, at = r.randrange(5), r.randrange(len(b) + 1)
            if k == 0:
                del b[at:at + r.choice([1, 1, 5, 40])]
            elif k == 1:
                b[at:at] = r.choice([b'"', b'{', b'}', b'[', b']', b',', b':', b'null', b'-', b'1e400', b'99999999999999999999', b'\\u0000', b'\\', b'\x00', b'\xff', b'""', b'{}', b'[]', b'0.5'])
            elif k == 2:
                b[at:at] = b[at:at + r.choice([1, 5, 50])] * r.choice([1, 2, 50])
            elif at < len(b):
                b[at] = r.randrange(256)
        return bytes(b)

    # -- files that cannot be read or written
    def files(self, r):
        s, c, js, data = self.material(r)
        cli, st = self.cli, self.st
        text = c.text
        cli.put('p.il', c.il)
        cli.put('in.cnd', text)
        res = self.d.decode(0, data)
        cli.put('d.bin', data)
        cli.put('r.json', js.encode('latin-1'))
        os.mkdir(cli.path('dir'))
        cli.put('empty', b'')
        os.symlink('nowhere', cli.path('broken'))
        os.symlink('/dev/full', cli.path('full'))
        bad = r.choice(['missing', 'dir', 'missing/x', 'p.il/x', 'broken', '', 'x' * 5000])
        cmd = r.choice(COMMANDS)
        good = dict(compile=['in.cnd', 'o'], fmt=['in.cnd', 'o'], inspect=['p.il'], encode=['p.il', 'r.json', 'o'], decode=['p.il', 'd.bin', 'o'])[cmd]
        works = self.command([cmd] + good)
        if cmd in ('compile', 'fmt', 'inspect'):
            self.must_work(works, 'the input is valid')
        if cmd == 'decode' and res.rc == OK:
            self.must_work(works, 'the VM decodes it')
        n_in = 2 if cmd in ('encode', 'decode') else 1
        b = self.old(r, 'o') if cmd != 'inspect' else None
        for j in range(n_in):
            a = list(good)
            a[j] = bad
            self.must_fail(self.command([cmd] + a, 'o' if cmd != 'inspect' else None, b), 'input %r cannot be read' % bad[:20])
            st.count('unreadable input')
            a[j] = r.choice(['empty', '/dev/null'])
            o = self.command([cmd] + a, 'o' if cmd != 'inspect' else None, b)
            if not (cmd == 'decode' and j == 1 or cmd == 'fmt'):
                self.must_fail(o, 'input %d is empty' % j)
            elif cmd == 'decode':
                e = self.d.decode(0, b'')
                if e.rc != OK:
                    self.must_fail(o, 'the VM ends with ' + rcname(e.rc))
            if o.rc == 0:
                b = cli.get('o')
        if cmd != 'inspect':
            a = list(good)
            a[-1] = r.choice(['dir', 'missing/x', 'p.il/x', '', 'full', 'full', 'x' * 5000])
            size = None
            if works.rc == 0:
                # an empty result fits anywhere
                self.command([cmd] + good)
                size = len(cli.get('o'))
            o = self.command([cmd] + a)
            if size or a[-1] != 'full':
                self.must_fail(o, 'the output cannot be written')
            st.count('unwritable output')
        if cmd == 'fmt' or r.random() < 0.3:
            want = self.d.format(text)
            cli.put('same.cnd', text)
            self.must_work(self.command(['fmt', 'same.cnd', 'same.cnd']), 'the input is valid')
            if cli.get('same.cnd') != want:
                raise Violation('in place', 'formatting in place gives another text than formatting', schema=text, got=cli.get('same.cnd').decode('latin-1'))
            st.count('in place')

    # -- schema sources
    def sources(self, r):
        cli, st = self.cli, self.st
        for _ in range(3):
            s = gen.Gen(r, gen.profile(**dict(r.choice(WIDE), huge=0))).schema()
            k = r.randrange(4)
            text = S.render(s).encode() if k == 0 else ' '.join(soup(r, tokens(s))).encode('utf-8', 'replace') if k == 1 else self.odd(r, S.render(s).encode()) if k == 2 else b''
            if k == 3:
                text = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 20, 300])))
            cli.put('in.cnd', text)
            il = judge_compile(self.d, text, st)
            b = self.old(r, 'o.il')
            o = self.command(['compile', 'in.cnd', 'o.il'] + r.choice([[], [], ['--json'], ['--what']]), 'o.il', b)
            if il is None:
                self.must_fail(o, 'the schema is rejected')
                st.count('rejected schemas')
            else:
                self.must_work(o, 'the schema compiles')
                if cli.get('o.il') != il:
                    raise Violation('image', 'the CLI writes another image than the library', **self.info)
                st.count('accepted schemas')
                o = self.command(['inspect', 'o.il'])
                self.must_work(o, 'the image is valid')
            want = self.d.format(text.split(b'\0')[0])
            b = self.old(r, 'o.cnd')
            o = self.command(['fmt', 'in.cnd', 'o.cnd'], 'o.cnd', b)
            if want is not None and (o.rc or cli.get('o.cnd') != want):
                raise Violation('fmt', 'fmt writes another text than the library', **self.info)
            o = self.command(['fmt', 'in.cnd'])
            if want is not None and (o.rc or o.out != want):
                raise Violation('fmt', 'fmt prints another text than the library', **self.info)

    # -- argument lists
    def arguments(self, r):
        cli, st = self.cli, self.st
        for n in ('a', 'b', 'c', 'd'):
            cli.put(n, r.choice([b'', b'packet P { uint8 x; }', b'{"x": 1}', b'CNDIL\x01\0\0\x10\0\0\0\x10\0\0\0']))
        cmd = r.choice(COMMANDS)
        least = dict(compile=2, fmt=1, inspect=1, encode=3, decode=3)[cmd]
        names = ['a', 'b', 'c', 'd']
        before = {n: cli.get(n) for n in names}
        n = r.randrange(least)
        self.must_fail(self.command([cmd] + names[:n]), 'it has only %d arguments' % n)
        if {x: cli.get(x) for x in names} != before or len(os.listdir(cli.dir)) != 4:
            raise Violation('arguments', 'files changed by a command that lacks arguments', **self.info)
        w = r.choice(['', 'x', 'Compile', 'encode2', '-', '--', '-x', 'enc', '%s%n', 'x' * 10000, 'decodE', 'help2'])
        self.must_fail(self.command([w] + names[:r.randrange(4)]), 'there is no such command')
        if r.random() < 0.3:
            self.must_fail(self.command([]), 'there is no command')
        self.command([r.choice(COMMANDS)] + [r.choice(names + ['--hex', '--json', '-v', '', '%s%s%n']) for _ in range(r.randrange(7))])
        if len(os.listdir(cli.dir)) != 4:
            cli.clean()
        x = r.choice(['help', '--help', '-h', 'version', '--version', '-v'])
        self.must_work(self.command([x]), 'it only prints')
        st.count('argument lists')

    # -- one process, guided by coverage
    def finish(self):
        r = self.rng(-1)
        self.start(0)
        seeds = []
        while len(seeds) < 160:
            s, c, js, data = self.material(r)
            if len(c.il) > 1500 or len(js) > 1500 or len(data) > 1500:
                continue
            im = c.il if r.random() < 0.7 else mutate_image(r, c.il)[0]
            k = r.choice([0, 1, 1, 1, 2, 2, 3])
            seeds.append(bytes([k]) + struct.pack('<H', len(im)) + im + (js.encode('latin-1') if k == 1 else data))
        self.stop()
        fuzz.run(self.st, 'fuzz-cli', seeds, 12000 if self.tier == 'quick' else 1500000, self.seed, 3000, wall=100 if self.tier == 'quick' else 3000)


def parse_any(data):
    """JSON, members of one name allowed (a damaged image may repeat names)."""
    import json
    return json.loads(data.decode('latin-1'), strict=True)
