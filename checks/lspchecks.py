"""C28: the language server."""
import copy, json, os, re, select, shutil, subprocess, time, urllib.parse
import build, fuzz, schema as S
from build import HarnessError
from cli import limits, MARKS
from core import Violation
from drv import Driver, Crash, Timeout
from importchecks import DIRS, FILES, items_of
from layout import Layout
from runner import Check
from textchecks import soup, tokens, deep, some_schema, WORDS

REQUESTS = ['initialize', 'textDocument/definition', 'textDocument/hover', 'textDocument/completion', 'textDocument/formatting', 'textDocument/documentSymbol']
TEXTREQ = REQUESTS[1:]
NOTES = ['textDocument/didOpen', 'textDocument/didChange', 'textDocument/didSave', 'textDocument/didClose']
ODD = [None, True, 0, -1, 3.5, 1e300, '', 'x', 'file:///', [], {}, [[]], [None], {'uri': None}, {'uri': 5}, {'uri': ''}, {'uri': []}, {'line': 'x'}, {'text': 5}]
ODD_URIS = ['', 'file://', 'file:///', 'file:///%', 'file:///%4', 'file:///%zz', 'file:///a%00b', 'http://x/y', 'untitled:Untitled-1', '/', '.', '..', 'x' * 5000, 'file:///' + 'd/' * 3000,
            'file:///%2e%2e/%2E', 'file:///C:/x.cnd', 'file:///c%3A/x', '\u0001', 'file:///é漢😀', '%s%n', 'file:////dev/null', 'file:///nowhere/at/all.cnd']
PARSE, INVALID, METHOD, PARAMS = -32700, -32600, -32601, -32602
BODIES = [b'', b'{', b'}', b'[', b'nul', b'{"id":1,}', b'{"id":1 "method":"shutdown"}', b'\xff\xfe', b'"abc', b'{"method":"\\ud800"}', b'\x00', b'{"a":"\x01"' , b'[' * 1500,
          b'{"id":1,"method":"shutdown","params":' + b'[' * 1200 + b']' * 1200 + b'}', b"{'id':1}", b'\xef\xbb\xbf', b'Content-Length: 5', b'-', b'{"id":01x}']
LONE = [b'{}', b'[]', b'5', b'"x"', b'null', b'true', b'[{"id":1,"method":"shutdown"}]', b'{"jsonrpc":"2.0"}', b'{"method":5}', b'{"method":null}', b'{"params":{}}', b'{"Method":"shutdown"}']


EXPR_NAMES = ['sin', 'cos', 'tan', 'sqrt', 'log', 'abs', 'pow', 'int', 'float']


def frame(r, body):
    n = len(body)
    x = r.random()
    if x < 0.8:
        return b'Content-Length: %d\r\n\r\n' % n + body
    head = r.choice([b'Content-Length: %d\r\n', b'content-length: %d\r\n', b'Content-Length:%d\r\n', b'CONTENT-LENGTH:  %d\r\n', b'Content-Length: %d \r\n']) % n
    more = r.choice([b'', b'Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n', b'X-Long: ' + b'y' * r.choice([10, 1100, 3000]) + b'\r\n'])
    return r.choice([head + more, more + head]) + b'\r\n' + body


def frames(data):
    """Splits the server's output strictly."""
    out, at = [], 0
    while at < len(data):
        if not data.startswith(b'Content-Length: ', at):
            raise Violation('framing', 'not a message: %r' % data[at:at + 60])
        e = data.find(b'\r\n\r\n', at)
        num = data[at + 16:e]
        if e < 0 or not num.isdigit():
            raise Violation('framing', 'bad header: %r' % data[at:at + 60])
        n = int(num)
        body = data[e + 4:e + 4 + n]
        if len(body) != n:
            raise Violation('framing', 'a body is cut: %d of %d bytes' % (len(body), n))
        try:
            m = json.loads(body.decode('utf-8', 'surrogateescape'), strict=True)
        except ValueError as x:
            raise Violation('framing', 'a body is not JSON (%s): %r' % (x, body[:300]))
        out.append(m)
        at = e + 4 + n
    return out


def ucol(text, at):
    """(line, character) of a place, characters in UTF-16 units."""
    b = text.rfind('\n', 0, at) + 1
    return text.count('\n', 0, at), sum(2 if ord(c) > 0xFFFF else 1 for c in text[b:at])


def to_uri(r, path):
    b = os.fsencode(path)
    k = r.randrange(3)
    if k == 0:
        q = urllib.parse.quote(b, safe="/-._~")
    elif k == 1:
        q = ''.join(chr(c) if chr(c).isalnum() and c < 128 or c == 47 else ('%%%02x' % c) for c in b)
    else:       # only what must be, and the rest as it is
        q = path.replace('%', '%25').replace(' ', '%20')
    return 'file://' + q


def of_uri(uri):
    if not uri.startswith('file://'):
        raise Violation('location', 'the location is no file: %r' % uri)
    return os.fsdecode(urllib.parse.unquote_to_bytes(uri[7:]))


class Doc:
    def __init__(self, text, path):
        self.text, self.path, self.verdict = text, path, None
        self.inside, self.open = [], []
        self.places, self.symbols, self.members = [], None, []    # (line, char, expected), declared types, (line, char, names)


class Session:
    """Messages to one server, and what must come back."""

    def __init__(self, check, r, live=False):
        self.check, self.r, self.live = check, r, live
        self.sent, self.log = [], []
        self.expect = {}                 # id -> (judge, what)
        self.notes = []                  # in order: (uri, judge)
        self.errors = []                 # codes of the errors without an id, in order
        self.used = set()
        self.next = 0
        self.over = False

    def id(self):
        self.next += 1
        r = self.r
        x = r.random()
        i = self.next if x < 0.6 else 'r%d' % self.next if x < 0.85 else r.choice([str(self.next), -self.next, 2 ** 31 - 1 - self.next, 'é😀"\\ %d' % self.next, 'i' * 300 + str(self.next)])
        if i in self.used:
            return self.id()
        self.used.add(i)
        return i

    def body(self, obj):
        r = self.r
        if isinstance(obj, bytes):
            return obj
        items = list(obj.items())
        if r.random() < 0.3:
            r.shuffle(items)
        o = dict(items)
        if r.random() < 0.2:
            o['extra'] = r.choice([None, {}, [1, 2], 'x'])
        b = json.dumps(o, ensure_ascii=False, indent=r.choice([None, None, None, 1]))
        if r.random() < 0.5 and not any('\udc80' <= c <= '\udcff' for c in b):
            b = json.dumps(o)
        return b.encode('utf-8', 'surrogateescape')      # bytes that are no UTF-8 stay as they are

    def send(self, obj):
        b = self.body(obj)
        self.sent.append(frame(self.r, b))
        self.log.append(b)
        self.check.st.count('messages sent')

    def request(self, method, params=None, judge=None):
        i = self.id()
        m = {'jsonrpc': '2.0', 'id': i, 'method': method}
        if params is not None:
            m['params'] = params
        self.expect[i] = (judge, method)
        self.send(m)

    def notify(self, method, params=None):
        m = {'jsonrpc': '2.0', 'method': method}
        if params is not None:
            m['params'] = params
        self.send(m)

    # -- running
    def run(self, tail=b''):
        c = self.check
        data = b''.join(self.sent) + tail
        self.info = dict(messages=[b.decode('utf-8', 'replace')[:3000] for b in self.log][-60:], tail=tail[:200].decode('latin-1'))
        if self.live:
            self.run_live(tail)
            return
        try:
            p = subprocess.run([c.exe, 'lsp'], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=build.ENV, cwd=c.root, timeout=90, preexec_fn=limits(95, 0, 512 << 20))
        except subprocess.TimeoutExpired:
            raise Timeout('lsp ' + repr(data[-2000:]))
        self.ended(p.returncode, p.stdout, p.stderr)

    def ended(self, rc, out, err):
        err = b'\n'.join(l for l in err.split(b'\n') if b'failed to allocate' not in l)     # a header may ask for anything
        if rc < 0 or rc == 99 or any(m in err for m in MARKS):
            raise Crash('lsp\n' + '\n'.join(self.info['messages'])[-15000:], err.decode(errors='replace') or 'signal %d' % -rc, rc)
        if rc != 0:
            raise Violation('status', 'ended with status %d' % rc, **self.info)
        self.judge(out)

    def run_live(self, tail):
        """One message at a time: an answer must not wait for the next message."""
        c = self.check
        with open(os.path.join(c.dir, 'err'), 'w+b') as errf:
            p = subprocess.Popen([c.exe, 'lsp'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=errf, env=build.ENV, cwd=c.root)
            got = b''
            try:
                seen = 0
                for f, b in zip(self.sent, self.log):
                    try:
                        m = json.loads(b)
                    except ValueError:
                        m = {}
                    try:
                        p.stdin.write(f)
                        p.stdin.flush()
                    except BrokenPipeError:
                        break
                    if not isinstance(m, dict) or 'id' not in m or m['id'] not in self.expect:
                        continue
                    end = time.time() + 60
                    while self.missing(got, m['id']):
                        left = end - time.time()
                        if left <= 0 or not select.select([p.stdout], [], [], left)[0]:
                            raise Timeout('lsp, no answer to ' + repr(b[:300]))
                        x = os.read(p.stdout.fileno(), 65536)
                        if not x:
                            break
                        got += x
                    c.st.count('answers awaited')
                    if p.poll() is not None:
                        break
                try:
                    p.stdin.write(tail)
                    p.stdin.close()
                except BrokenPipeError:
                    pass
                while True:
                    if not select.select([p.stdout], [], [], 60)[0]:
                        raise Timeout('lsp does not end')
                    x = os.read(p.stdout.fileno(), 65536)
                    if not x:
                        break
                    got += x
                rc = p.wait(30)
            except subprocess.TimeoutExpired:
                raise Timeout('lsp does not end')
            finally:
                if p.poll() is None:
                    p.kill()
                    p.wait()
                p.stdout.close()
                try:
                    p.stdin.close()
                except OSError:
                    pass
            errf.seek(0)
            err = errf.read()
        self.ended(rc, got, err)

    @staticmethod
    def missing(got, i):
        """Whether no complete message in `got` answers i."""
        at = 0
        while True:
            e = got.find(b'\r\n\r\n', at)
            if e < 0:
                return True
            try:
                n = int(got[at + 16:e])
            except ValueError:
                return False            # judged later
            if len(got) < e + 4 + n:
                return True
            try:
                m = json.loads(got[e + 4:e + 4 + n])
                if isinstance(m, dict) and m.get('id') == i and type(m.get('id')) is type(i):
                    return False
            except ValueError:
                return False
            at = e + 4 + n

    # -- judging
    def judge(self, out):
        st = self.check.st
        try:
            left, notes, errors = dict(self.expect), list(self.notes), list(self.errors)
            for m in frames(out):
                if not isinstance(m, dict) or m.get('jsonrpc') != '2.0':
                    raise Violation('protocol', 'not a JSON-RPC 2.0 message: %.300r' % m)
                if 'method' in m:
                    self.note(m, notes)
                    continue
                if ('result' in m) == ('error' in m) or 'id' not in m:
                    raise Violation('protocol', 'an answer must have an id and either a result or an error: %.300r' % m)
                if 'error' in m:
                    e = m['error']
                    if not isinstance(e, dict) or type(e.get('code')) is not int or not isinstance(e.get('message'), str):
                        raise Violation('protocol', 'a malformed error: %.300r' % m)
                i = m['id']
                if i is None:
                    if 'error' not in m or not errors:
                        raise Violation('unasked', 'an answer without an id nothing asked for: %.300r' % m)
                    code = errors.pop(0)
                    if m['error']['code'] != code:
                        raise Violation('code', 'error %d, expected %d' % (m['error']['code'], code))
                    st.count('errors without an id')
                    continue
                if isinstance(i, bool) or not isinstance(i, (int, str)) or i not in left:
                    raise Violation('unasked', 'an answer to %.100r, which is not open' % (i,))
                judge, what = left.pop(i)
                st.count('answers: ' + (what if what in REQUESTS else 'other'))
                if judge:
                    judge(m)
            if left:
                i = list(left)[0]
                raise Violation('unanswered', '%d requests without an answer, first %.100r (%s)' % (len(left), i, left[i][1]))
            if errors:
                raise Violation('unanswered', 'no error for a malformed message')
            if notes:
                raise Violation('no diagnostics', 'no diagnostics for %s' % notes[0][0][:200])
        except Violation as v:
            v.detail.update(self.info)
            raise

    def note(self, m, notes):
        if m['method'] != 'textDocument/publishDiagnostics' or 'id' in m:
            raise Violation('unasked', 'an unexpected notification: %.300r' % m)
        p = m.get('params')
        if not isinstance(p, dict) or not isinstance(p.get('uri'), str) or not isinstance(p.get('diagnostics'), list):
            raise Violation('protocol', 'malformed diagnostics: %.300r' % m)
        if not notes or notes[0][0] != p['uri']:
            raise Violation('unasked', 'diagnostics for %.200s, expected for %.200s' % (p['uri'], notes[0][0] if notes else 'nothing'))
        judge = notes.pop(0)[1]
        for d in p['diagnostics']:
            if not isinstance(d, dict) or not isinstance(d.get('message'), str):
                raise Violation('protocol', 'a malformed diagnostic: %.300r' % d)
            self.range(d.get('range'))
        self.check.st.count('diagnostics lists')
        judge(p['diagnostics'])

    @staticmethod
    def range(g):
        try:
            v = [g[k][c] for k in ('start', 'end') for c in ('line', 'character')]
        except (KeyError, TypeError):
            raise Violation('protocol', 'a malformed range: %.300r' % (g,))
        if any(type(x) is not int or x < 0 for x in v) or tuple(v[:2]) > tuple(v[2:]):
            raise Violation('range', 'an impossible range: %r' % (v,))
        return v


class C28(Check):
    pid = 'C28'
    technique = 'protocol monitor over recorded JSON-RPC sessions with the ASan/UBSan server: exactly one answer per request, strict framing, diagnostics against the compiler, definitions and symbols against the generator\'s own positions; libFuzzer on the message loop'
    note = 'Sampled sessions; ids are strings or 32-bit integers.'
    rule = 'sessions of opened, changed, closed and saved documents (valid, damaged, importing, deep), requests at known positions, malformed messages and odd parameters; distinct sessions count'
    assumptions = ['imports are read from disk, documents from the editor', 'a request is a message with an id and the name of a request method']
    variants = ['driver', 'cli', 'cli-fast', 'fuzz-lsp']
    session_class = Session
    quick, thorough = 1600, 60000
    need = ('messages sent', 'answers: initialize', 'answers: textDocument/definition', 'answers: textDocument/hover', 'answers: textDocument/completion', 'answers: textDocument/formatting',
            'answers: textDocument/documentSymbol', 'definitions found', 'definitions in imported files', 'no definition', 'symbols', 'members offered', 'types offered', 'formatted', 'empty diagnostics', 'diagnostics compared',
            'errors without an id', 'unknown methods', 'unread documents', 'text over disk', 'answers awaited', 'documentation shown', 'members shown', 'fields offered', 'functions offered', 'hostile sessions', 'anomalous frames', 'fuzz executions')

    def start(self, w):
        self.d = Driver('driver', timeout=120)
        self.exes = [build.build('cli'), build.build('cli-fast')]
        self.dir = self.d.dir
        self.root = os.path.join(os.path.realpath(self.dir), 'tree')

    def stop(self):
        self.d.close()

    def case(self, r, i):
        self.exe = self.exes[1 if i % 3 == 0 else 0]
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        try:
            if i % 5 == 4:
                self.hostile(r)
            else:
                self.session(r, live=i % 8 == 1)
        finally:
            shutil.rmtree(self.root, ignore_errors=True)

    # -- documents
    def place(self, r):
        d, n = r.choice(DIRS), r.choice(FILES) + r.choice(['.cnd', '.cnd', '', '.txt'])
        if r.random() < 0.2:            # any letters at all, with any bytes in their encoding
            n = ''.join(chr(r.choice([r.choice([x for x in range(0x21, 0x7f) if chr(x) not in './"']), r.randrange(0xa1, 0x800), r.randrange(0x800, 0xd800), r.randrange(0x1f300, 0x1f700)])) for _ in range(r.randint(1, 6)))
        if os.path.join(d, n) in DIRS or os.path.join(d, n) in {os.path.dirname(q) for q in DIRS}:
            n += '.cnd'
        p = os.path.join(self.root, d, n)
        while os.path.exists(p) or p in self.paths:
            p += 'x'
        self.paths.add(p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def valid(self, r):
        """A valid document, perhaps with imported files, and where its types are declared."""
        s = some_schema(r, structs=r.choice([2, 5, 8]), enums=r.choice([1, 3, 6]), huge=0, **({} if r.random() < 0.4 else dict(w=dict(enum=6, struct=6, array=2, switch=2, bits=1, string=1))))
        items = items_of(s)
        names = {t.name: t for t in s.types}
        eol, docs = r.choice(['\n', '\n', '\r\n']), {}
        for it in items:                # what the author wrote above a type
            if ('struct' in it or 'enum' in it) and r.random() < 0.4:
                n = it[it.index('struct' if 'struct' in it else 'enum') + 1]
                if n in names:
                    docs[n] = [r.choice(['', ' ', '  ']) + '%s of %s no. %d' % (r.choice(['Note', 'The é漢', '`x` **b**', '"q" \\ /']), n, r.getrandbits(40)) for _ in range(r.choice([1, 1, 2, 5]))]
                    it[:0] = ['\n'] + ['///' + q + eol for q in docs[n]]
        decl = {}                       # name -> (path or None, line)
        files = []
        rest = items
        while len(rest) > 1 and len(files) < 3 and r.random() < 0.45:
            k = r.randrange(1, len(rest))
            files.append(rest[:k])
            rest = rest[k:]
        paths = []
        for part in files:
            p = self.place(r)
            t = []
            for q in paths if r.random() < 0.5 else paths[-1:]:
                t += ['@', 'import', '(', '"' + os.path.relpath(q, os.path.dirname(p)) + '"', ')']
            for it in part:
                t += it
            lay = Layout(r)
            text = lay.write(t)
            with open(p, 'w', newline='', encoding='utf-8') as f:
                f.write(text)
            self.declared(t, lay, names, decl, p)
            paths.append(p)
        path = self.place(r)
        t = []
        for q in paths[-1:] + [q for q in paths[:-1] if r.random() < 0.5]:
            t += ['@', 'import', '(', '"' + os.path.relpath(q, os.path.dirname(path)) + '"', ')'] + ([';'] if r.random() < 0.3 else [])
        for it in rest:
            t += it
        lay = Layout(r)
        if r.random() < 0.3:
            lay.bits = lay.bits + ['😀', '𝄞', 'ß']
        d = Doc(lay.write(t), path)
        self.declared(t, lay, names, decl, None)
        d.docs, d.types = docs, names
        d.symbols = {(n, lines) for n, (p, lines) in decl.items() if p is None}
        d.kinds = {n: t.kind for n, t in names.items()}
        d.kindsm = {n: [m[0] for m in t.members] for n, t in names.items() if t.kind == 'enum'}
        prev, par, seq = None, 0, [j for j, x in enumerate(t) if x != '\n']
        for j in seq:               # outside of parentheses, not behind a dot
            if not par and prev != '.':
                d.open.append(ucol(d.text, lay.starts[j]))
            par += (t[j] == '(') - (t[j] == ')')
            prev = t[j]
        prev, depth, within, seq = None, 0, None, [j for j, x in enumerate(t) if x != '\n']
        for a, b, c in zip(seq, seq[1:], seq[2:]):       # where an expression or a count begins in a struct
            if t[a] == 'struct' and t[c] == '{' and t[b] in names:
                within, depth = t[b], 0
            depth += (t[a] == '{') - (t[a] == '}')
            if t[a] == '}' and depth == 0:
                within = None
            if within and t[a] == '@' and t[b] in ('expr', 'count', 'len') and t[c] == '(':
                d.inside.append(ucol(d.text, lay.starts[c] + 1) + ([f.name for f in names[within].body if isinstance(f, S.Field) and not isinstance(f.type, S.Struct) and f.type != 'string' and f.arr is None and f.crc is None],
                                                                  EXPR_NAMES if t[b] == 'expr' else []))
        for j, x in enumerate(t):
            if x == '\n':
                continue
            a = lay.starts[j]
            if x in names:
                for at in {a, a + len(x) - 1, a + len(x)}:
                    d.places.append(ucol(d.text, at) + (x, decl[x]))
                if j + 1 < len(t) and t[j + 1] == '.' and names[x].kind == 'enum':
                    d.members.append(ucol(d.text, lay.starts[j + 1] + 1) + ([m[0] for m in names[x].members],))
            elif prev == '@' or x[0].isdigit() or x[0] == '"' or x in ('struct', 'packet', 'enum', 'switch', 'case', 'uint8', 'int32', 'prefix'):
                d.places.append(ucol(d.text, a + max(1, len(x) // 2)) + (x, None)) if len(x) > 1 else None
            prev = x
        return d

    @staticmethod
    def declared(t, lay, names, decl, path):
        for j, x in enumerate(t):
            if x in ('struct', 'enum'):
                n = j + 1
                while n < len(t) and t[n] == '\n':
                    n += 1
                if t[n] in names and t[n] not in decl:
                    decl[t[n]] = (path, (lay.lines[j] - 1, lay.lines[n] - 1))

    def document(self, r):
        x = r.random()
        if x < 0.65:
            d = self.valid(r)
            enums = [n for n in d.kinds if d.kinds[n] == 'enum']
            if enums and r.random() < 0.3:      # someone is typing
                n = r.choice(enums)
                d.text += '\n' + r.choice(['struct Typing { @expr(x == %s.', 'packet Typing { uint8 x; switch (x) { case %s.', 'packet T { uint8 x; if (x == %s .', 'packet T { @const(%s. ']) % n
                d.members, d.symbols = [ucol(d.text, len(d.text)) + (d.kindsm[n],)] * 3, None
            return d
        p = self.place(r)
        s = some_schema(r, structs=3, enums=2, huge=0)
        if x < 0.83:
            return Doc(Layout(r).write(soup(r, tokens(s))).replace('\0', ' '), p)
        if x < 0.86:
            return Doc(deep(r).replace('\0', ' '), p)
        if x < 0.92:
            t = S.render(s)
            k = r.randrange(len(t))
            return Doc(t[:k] + r.choice(['', ' ', '"', '/*', '\n}\n', '\r', '\t', '@', '😀', 'é', '\x7f', '\x01']) + t[k + r.choice([0, 1, 9]):], p)
        return Doc(r.choice(['', '\n', ' ', '//', '/*', '"', '@', 'packet', 'packet P {', 'packet P { }', 'struct S { uint8 a; }', '\r\n' * 40, 'x' * 5000, '{' * 3000,
                             '@import("nowhere.cnd")\npacket P { uint8 a; }', '@import(".")\npacket P { uint8 a; }', 'enum E { A, A }', '@version(999) packet P { uint8 x; }']), p)

    def verdict(self, d):
        """What the compiler says of this text at this place."""
        if d.verdict is None:
            keep = open(d.path, 'rb').read() if os.path.exists(d.path) else None
            with open(d.path, 'w', newline='', encoding='utf-8', errors='surrogateescape') as f:
                f.write(d.text)
            rc, diag, il = self.d.compile_file(d.path, 1)
            if keep is None:
                os.unlink(d.path)
            else:
                with open(d.path, 'wb') as f:
                    f.write(keep)
            if rc and il is not None or not rc and il is None:
                raise Violation('compile', 'neither accepted nor rejected', schema=d.text)
            d.verdict, d.rc = self.parse(rc, diag), rc
        return d.verdict

    @staticmethod
    def parse(rc, diag):
        out = []
        if rc:
            try:
                j = json.loads(diag.decode('utf-8', 'surrogateescape'))
            except ValueError:
                j = [json.loads(l) for l in diag.decode('utf-8', 'surrogateescape').splitlines() if l.startswith('{')]
            for m in j if isinstance(j, list) else j.get('errors', [j]):
                out.append((m['line'], m['message']))
        return out

    def diag_judge(self, d):
        want, rc, st = self.verdict(d), d.rc, self.st

        def judge(got):
            if (rc == 0) != (not got):
                raise Violation('diagnostics', 'the compiler %s this text, but there are %d diagnostics' % ('rejects' if rc else 'accepts', len(got)),
                                text=d.text[:20000], got=got[:5], compiler=want[:5])
            g = [(x['range']['start']['line'] + 1, x['message']) for x in got]
            if sorted(g) != sorted(want):
                raise Violation('diagnostics differ', 'the diagnostics are not those of the compiler', text=d.text[:20000], got=g[:10], compiler=want[:10])
            st.count('diagnostics compared' if rc else 'empty diagnostics')
        return judge

    # -- judges of answers
    def result(self, m, what):
        if 'result' not in m:
            raise Violation('refused', '%s was answered with an error: %.300r' % (what, m))
        return m['result']

    def def_judge(self, d, uri, want, name):
        st = self.st

        def judge(m):
            g = self.result(m, 'definition')
            if want is None:
                if g is not None:
                    raise Violation('definition', '%r is no use of a type but has a definition: %.300r' % (name, g), text=d.text[:20000])
                st.count('no definition')
                return
            path, lines = want
            g = g[0] if isinstance(g, list) and len(g) == 1 else g
            if not isinstance(g, dict) or not isinstance(g.get('uri'), str):
                raise Violation('definition', 'no definition of %s: %.300r' % (name, g), text=d.text[:20000], want=want)
            v = Session.range(g.get('range'))
            if not lines[0] <= v[0] <= lines[1]:
                raise Violation('definition line', '%s is declared on line %d, the answer is %d' % (name, lines[1], v[0]), text=d.text[:20000], want=want)
            if path is None and g['uri'] != uri and os.path.realpath(of_uri(g['uri'])) != os.path.realpath(d.path) or path is not None and of_uri(g['uri']) != os.path.realpath(path):
                raise Violation('definition file', '%s is declared in %s, the answer is %s' % (name, path or uri, g['uri']), text=d.text[:20000])
            st.count('definitions found' if path is None else 'definitions in imported files')
        return judge

    def hover_judge(self, d, want, name):
        st = self.st

        def judge(m):
            g = self.result(m, 'hover')
            if want is None:
                return
            v = g.get('contents') if isinstance(g, dict) else None
            v = v.get('value') if isinstance(v, dict) else v
            if not isinstance(v, str) or name not in v:
                raise Violation('hover', 'nothing about %s: %.300r' % (name, g), text=d.text[:20000])
            path, lines = want
            said = v.replace(path or d.path, '')
            if path is not None and path not in v or not any(lines[0] < int(x) <= lines[1] + 1 for x in re.findall(r'\d{1,9}', said)):
                raise Violation('hover place', '%s is declared in %s on line %d: %.500r' % (name, path or 'this text', lines[1] + 1, v), text=d.text[:20000])
            if '\r' in v:
                raise Violation('hover returns', 'what is shown for %s contains a carriage return: %.500r' % (name, v), text=d.text[:20000])
            for n, q in d.docs.items():
                for l in q:
                    if (l.strip() in v) != (n == name):
                        raise Violation('hover documentation', 'the text on %s %s: %.1000r' % (n, 'is missing' if n == name else 'is shown for ' + name, v), text=d.text[:20000])
                    st.count('documentation shown', n == name)
            t = d.types[name]
            if t.kind != 'enum':
                return
            ok = {t.type, t.type.replace('uint', 'u').replace('int', 'i')}
            if not ok & set(re.findall(r'\w+', v)):
                raise Violation('hover type', 'the type of %s is %s: %.300r' % (name, t.type, v), text=d.text[:20000])
            shown = [re.findall(r'[-\w]+', l) for l in v.split('\n')]
            for q in t.members:
                if not any(q[0] in l and str(q[1]) in l for l in shown):
                    raise Violation('hover members', '%s.%s = %d is not shown: %.1000r' % (name, q[0], q[1], v), text=d.text[:20000])
            st.count('members shown', len(t.members))
        return judge

    def sym_judge(self, d, uri):
        st = self.st

        def judge(m):
            g = self.result(m, 'documentSymbol')
            left = {n: l for n, l in d.symbols}
            for x in g:
                n = x['name']
                if n not in left:
                    raise Violation('symbols', 'symbol %r is not declared here, or twice' % n, text=d.text[:20000])
                lines = left.pop(n)
                v = Session.range((x.get('location') or x).get('range'))
                if not lines[0] <= v[0] <= lines[1]:
                    raise Violation('symbol line', '%s is declared on line %d, the answer is %d' % (n, lines[1], v[0]), text=d.text[:20000])
                if x.get('kind') != (10 if d.kinds[n] == 'enum' else 23):
                    raise Violation('symbol kind', '%s: kind %r' % (n, x.get('kind')), text=d.text[:20000])
                if 'location' in x and x['location'].get('uri') != uri:
                    raise Violation('symbol uri', '%s: %r' % (n, x['location'].get('uri')))
                st.count('symbols')
            if left:
                raise Violation('symbols', 'missing: %s' % ', '.join(left), text=d.text[:20000], got=g)
        return judge

    def fmt_judge(self, text):
        want = self.d.format(text.encode('utf-8', 'surrogateescape'))
        want = text if want is None else want.decode('utf-8', 'surrogateescape')
        st = self.st

        def judge(m):
            g = self.result(m, 'formatting')
            if want == text and g in ([], None):
                return
            if not isinstance(g, list) or len(g) != 1 or g[0].get('newText') != want:
                raise Violation('formatting', 'not the formatter\'s text', text=text[:20000], got=g, want=want[:20000])
            v = Session.range(g[0]['range'])
            if v[:2] != [0, 0] or v[2] < text.count('\n') or v[2] == text.count('\n') and v[3] < ucol(text, len(text))[1]:
                raise Violation('formatting', 'the edit does not cover the text: %r' % (v,), text=text[:20000])
            st.count('formatted')
        return judge

    def member_judge(self, d, names):
        st = self.st

        def judge(m):
            g = self.result(m, 'completion')
            items = g.get('items') if isinstance(g, dict) else g
            got = [x.get('label') for x in items]
            if sorted(got) != sorted(names):
                raise Violation('members', 'completion offers %r, the members are %r' % (got[:30], names[:30]), text=d.text[:20000])
            st.count('members offered')
        return judge

    def fields_judge(self, d, fields, calls):
        st = self.st

        def judge(m):
            g = self.result(m, 'completion')
            got = {x.get('label') for x in (g.get('items') if isinstance(g, dict) else g)}
            if not got.issuperset(fields) or not got.issuperset(calls):
                raise Violation('fields offered', 'not offered: %r' % sorted(set(fields + calls) - got)[:30], text=d.text[:20000], got=sorted(got)[:60])
            st.count('fields offered', len(fields))
            st.count('functions offered', len(calls))
        return judge

    def types_judge(self, d):
        def judge(m):
            g = self.result(m, 'completion')
            items = g.get('items') if isinstance(g, dict) else g
            if not isinstance(items, list) or any(not isinstance(x.get('label'), str) for x in items):
                raise Violation('completion', 'malformed: %.300r' % g)
            if d is not None:
                miss = [n for n in d.kinds if n not in [x['label'] for x in items]]
                if miss:
                    raise Violation('completion', 'the types %s are not offered' % miss, text=d.text[:20000])
        return judge

    def null_judge(self, m):
        if 'result' in m and m['result'] not in (None, []):
            raise Violation('unread', 'an answer about a document that cannot be read: %.300r' % m)
        self.st.count('unread documents')

    def code(self, want, count=None):
        def judge(m):
            if 'error' not in m or m['error']['code'] != want:
                raise Violation('code', 'expected error %d: %.300r' % (want, m))
            if count:
                self.st.count(count)
        return judge

    # -- sessions
    def session(self, r, live):
        st = self.st
        self.paths = set()
        se = self.session_class(self, r, live)
        docs = []                      # [uri, path, open Doc or None, disk Doc or None]
        for _ in range(r.choice([1, 1, 2, 4])):
            d = self.document(r)
            docs.append([to_uri(r, d.path), d.path, None, None, [d]])
        se.request('initialize', r.choice([{}, {'processId': None, 'rootUri': None, 'capabilities': {}}]), self.init_judge)
        if r.random() < 0.7:
            se.notify('initialized', {})
        disk = []
        for e in docs:                 # what is on disk stays as it is during the session
            if r.random() < 0.4:
                e[3] = Doc(e[4][0].text, e[1]) if r.random() < 0.5 else self.variant(r, e[1])
                if e[3].text == e[4][0].text:
                    e[3] = e[4][0]
                disk.append((e[1], e[3]))
            more = [self.variant(r, e[1]) for _ in range(r.choice([0, 1, 3]))]
            e[4] += more
            for d in e[4]:
                self.verdict(d)
        for e in docs:
            if e[3] is not None:
                self.verdict(e[3])
        for p, d in disk:
            with open(p, 'w', newline='', encoding='utf-8', errors='surrogateescape') as f:
                f.write(d.text)
        for _ in range(r.choice([8, 25, 50])):
            self.step(r, se, r.choice(docs))
        tail = b''
        if r.random() < 0.6:
            se.request('shutdown', r.choice([None, {}, []]))
        x = r.random()
        if x < 0.6:
            se.notify('exit')
            if r.random() < 0.3:       # nothing is answered any more
                tail = frame(r, b'{"jsonrpc":"2.0","id":"late","method":"shutdown"}')
        se.run(tail)
        st.judged(tuple(se.log))
        st.sample(messages=[b[:300].decode('utf-8', 'replace') for b in se.log[:8]])
        st.count('sessions')

    def variant(self, r, path):
        """Another text for the same place."""
        d = self.document(r)
        if d.path != path and d.places:
            # relative imports no longer fit: take a text that has none
            if '@' in d.text and 'import' in d.text:
                d = Doc(Layout(r).write(soup(r, tokens(some_schema(r, structs=2, huge=0)))).replace('\0', ' '), path)
        d.path = path
        d.verdict = None
        return d

    def init_judge(self, m):
        g = self.result(m, 'initialize')
        if not isinstance(g, dict) or not isinstance(g.get('capabilities'), dict):
            raise Violation('initialize', 'no capabilities: %.300r' % m)

    def step(self, r, se, e):
        st = self.st
        uri, path, now, disk, texts = e
        x = r.random()
        td = {'uri': uri}
        if x < 0.3 or now is None and x < 0.4:
            d = r.choice(texts)
            if now is None or r.random() < 0.2:
                se.notify('textDocument/didOpen', {'textDocument': {'uri': uri, 'languageId': 'concordia', 'version': 1, 'text': d.text}})
            else:
                ch = [{'text': r.choice(texts).text} for _ in range(r.choice([0, 0, 0, 1, 3]))] + [{'text': d.text}]
                se.notify('textDocument/didChange', {'textDocument': {'uri': uri, 'version': 2}, 'contentChanges': ch})
            e[2] = d
            se.notes.append((uri, self.diag_judge(d)))
            return
        if x < 0.4:
            se.notify('textDocument/didSave', {'textDocument': td})
            if disk is not None:
                # of the saved text or of the edited one; it need not be told again
                a = self.diag_judge(disk)
                b = self.diag_judge(now) if now is not None and now.text != disk.text else None

                def either(got):
                    try:
                        a(got)
                    except Violation:
                        if not b:
                            raise
                        b(got)
                se.notes.append((uri, either))
            return
        if x < 0.45:
            se.notify('textDocument/didClose', {'textDocument': td})
            e[2] = None
            return
        if x < 0.5:
            k = r.randrange(8)
            if k == 0:
                se.send(r.choice(BODIES))
                se.errors.append(PARSE)
            elif k == 1:
                se.send(r.choice(LONE))
                se.errors.append(INVALID)
            elif k == 2:
                se.request(r.choice(['', 'x', 'Initialize', 'textDocument/', 'textDocument/references', 'textDocument/definition ', '$/x', 'workspace/symbol', 'x' * 5000, 'é']), {}, self.code(METHOD, 'unknown methods'))
            elif k == 3:
                se.notify(r.choice(['', '$/cancelRequest', 'initialized', 'x', 'textDocument/willSave', 'workspace/didChangeConfiguration']), r.choice(ODD))
            elif k == 4:
                se.send({'jsonrpc': '2.0', 'id': r.choice([1, 'x']), r.choice(['result', 'error']): r.choice([None, {}, 5])} if r.random() < 0.7 else {'jsonrpc': '2.0', 'id': 'never', 'result': None})
            elif k == 5:
                i = se.id()
                se.expect[i] = (self.code(INVALID), 'invalid')
                se.send({'jsonrpc': '2.0', 'id': i, **r.choice([{}, {'method': 5}, {'method': None}, {'params': {}}, {'method': ['shutdown']}])})
            elif k == 6:
                m = r.choice(TEXTREQ)
                se.request(m, r.choice([None, {}, {'textDocument': {}}, {'textDocument': None}, {'textDocument': {'uri': 5}}, {'position': {'line': 0, 'character': 0}}]), self.code(PARAMS))
            else:
                se.notify(r.choice(TEXTREQ), {'textDocument': td, 'position': {'line': 0, 'character': 0}})
            return
        d = now or disk
        if now is not None and disk is not None and now.text != disk.text:
            st.count('text over disk')
        k = r.randrange(8)
        if k in (0, 1, 2, 7) and d is not None and d.places:
            known = [q for q in d.places if q[3] is not None]
            l, c, name, want = r.choice(known if known and r.random() < 0.5 else d.places)
            ps = {'textDocument': td, 'position': {'line': l, 'character': c}}
            if k < 2:
                se.request('textDocument/definition', ps, self.def_judge(d, uri, want, name))
            else:
                se.request('textDocument/hover', ps, self.hover_judge(d, want, name))
            return
        if k == 3:
            se.request('textDocument/documentSymbol', {'textDocument': td}, self.null_judge if d is None else self.sym_judge(d, uri) if d.symbols is not None else self.list_judge)
            return
        if k == 4:
            se.request('textDocument/formatting', {'textDocument': td, 'options': {'tabSize': 4, 'insertSpaces': True}}, self.null_judge if d is None else self.fmt_judge(d.text))
            return
        if k in (5, 6) and d is not None and d.inside and r.random() < 0.5:
            l, c, fields, calls = r.choice(d.inside)
            se.request('textDocument/completion', {'textDocument': td, 'position': {'line': l, 'character': c}}, self.fields_judge(d, fields, calls))
            return
        if k == 5 and d is not None and d.members:
            l, c, names = r.choice(d.members)
            se.request('textDocument/completion', {'textDocument': td, 'position': {'line': l, 'character': c}}, self.member_judge(d, names))
            return
        # any position
        text = d.text if d is not None else ''
        l, c = ucol(text, r.randrange(len(text) + 1))
        if r.random() < 0.3:
            l, c = r.choice([0, -1, 1, 10 ** 6, 2 ** 31 - 1, -2 ** 31, l, 2 ** 40]), r.choice([0, -1, 10 ** 6, 2 ** 31 - 1, c])
        if r.random() < 0.1 and d is not None and d.symbols is not None:
            se.request('textDocument/completion', {'textDocument': td, 'position': {'line': 0, 'character': 0}}, self.types_judge(d))
            return
        if r.random() < 0.25 and d is not None and d.open and d.symbols is not None:
            l, c = r.choice(d.open)
            st.count('types offered')
            se.request('textDocument/completion', {'textDocument': td, 'position': {'line': l, 'character': c}}, self.types_judge(d))
            return
        m = r.choice(['textDocument/definition', 'textDocument/hover', 'textDocument/completion'])
        se.request(m, {'textDocument': td, 'position': {'line': l, 'character': c}},
                   self.null_judge if d is None else self.types_judge(None) if m.endswith('completion') else self.any_judge)

    def any_judge(self, m):
        self.result(m, 'a request about a document that is open')

    def list_judge(self, m):
        g = self.result(m, 'documentSymbol')
        if not isinstance(g, list):
            raise Violation('symbols', 'not a list: %.300r' % m)

    # -- anything at all
    def hostile(self, r):
        st = self.st
        self.paths = set()
        se = self.session_class(self, r, r.random() < 0.1)
        uris = [to_uri(r, self.place(r)) for _ in range(2)] + [r.choice(ODD_URIS)]
        for _ in range(r.choice([3, 10, 40])):
            uri = r.choice(uris + ODD_URIS)
            t = r.choice([self.text(r), self.text(r), '', '\x00', '"', '\u0000packet', '\udcff\udc80', 'packet P { uint8 \udce9; }'])
            ps = {'textDocument': {'uri': uri, 'text': t}, 'contentChanges': r.choice([[{'text': t}], [], [{}], [{'text': t}, {'text': 5}], {'a': {'text': t}}, 'x', [t], None]),
                  'position': {'line': r.choice([0, 1, 2, -1, 1e300, 0.5, 2 ** 31, -2 ** 31]), 'character': r.choice([0, 1, 5, 40, -1, 1e300, -1e300, 2 ** 32])}}
            for _ in range(r.choice([0, 0, 1, 2])):
                self.spoil(r, ps)
            if r.random() < 0.05:
                ps = copy.deepcopy(r.choice(ODD))
            if r.random() < 0.45:
                m = r.choice(NOTES[:2] * 3 + NOTES + ['initialized'])
                se.notify(m, ps)
            else:
                m = r.choice(REQUESTS)
                se.request(m, ps)
        self.lax(se)
        tail = b''
        if r.random() < 0.4:
            b = b'{"jsonrpc":"2.0","method":"initialized"}'
            tail = r.choice([b'Content-Length: 50\r\n\r\n' + b, b'Content-Length: 50\r\n', b'Content-Length: -1\r\n\r\n' + b, b'Content-Length: 99999999999999999999999\r\n\r\n' + b,
                             b'Content-Length: 5000000000\r\n\r\n' + b, b'Content-Length: x\r\n\r\n', b'\r\n\r\n', b'\n\n\n', b + b, b'Content-Length\r\n\r\n', b'\x00' * 3000, b'x' * 100000,
                             b'Content-Length: 18446744073709551615\r\n\r\n', b'Content-Length: 0\r\n\r\n', bytes(r.randrange(256) for _ in range(300))])
            se.errors = None
            st.count('anomalous frames')
        se.run(tail)
        st.judged(tuple(se.log) + (tail,))
        st.count('hostile sessions')

    def text(self, r):
        s = some_schema(r, structs=2, huge=0)
        x = r.randrange(4)
        return S.render(s) if x == 0 else deep(r) if x == 1 else ' '.join(soup(r, tokens(s))) if x == 2 else ''.join(r.choice(WORDS) + r.choice(['', ' ', '\n']) for _ in range(r.choice([3, 30, 300])))

    def spoil(self, r, o):
        k = r.choice(list(o))
        if isinstance(o[k], dict) and o[k] and r.random() < 0.7:
            self.spoil(r, o[k])
        elif r.random() < 0.3:
            del o[k]
        else:
            o[k] = copy.deepcopy(r.choice(ODD))

    def lax(self, se):
        """Any diagnostics may come, and after a bad frame errors may; requests are answered once all the same."""
        se.note = lambda m, notes: None
        judge = se.judge

        def run(out):
            if se.errors is None:
                out2 = []
                for m in frames(out):
                    if isinstance(m, dict) and 'id' in m and m['id'] is None and 'error' in m:
                        continue
                    out2.append(m)
                se.errors = []
                out = b''.join(b'Content-Length: %d\r\n\r\n' % len(b) + b for b in (json.dumps(m).encode() for m in out2))
            judge(out)
        se.judge = run

    # -- one process, guided by coverage
    def finish(self):
        r = self.rng(-1)
        self.start(0)
        self.paths = set()
        seeds = []
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        while len(seeds) < 160:
            se = self.session_class(self, r)
            u = 'file:///t/a.cnd'
            se.request('initialize', {})
            t = self.text(r) if r.random() < 0.5 else S.render(some_schema(r, structs=2, enums=2, huge=0))
            se.notify('textDocument/didOpen', {'textDocument': {'uri': u, 'text': t}})
            for m in r.sample(TEXTREQ, 3):
                l, c = ucol(t, r.randrange(len(t) + 1))
                se.request(m, {'textDocument': {'uri': u}, 'position': {'line': l, 'character': c}})
            se.notify(r.choice(NOTES), {'textDocument': {'uri': u, 'text': 'x'}, 'contentChanges': [{'text': 'packet P { uint8 x; }'}]})
            b = b'\n'.join(x.replace(b'\n', b' ') for x in se.log)
            if len(b) < 3500:
                seeds.append(b)
        shutil.rmtree(self.root, ignore_errors=True)
        self.stop()
        fuzz.run(self.st, 'fuzz-lsp', seeds, 6000 if self.tier == 'quick' else 600000, self.seed, 4000, wall=60 if self.tier == 'quick' else 3000)
