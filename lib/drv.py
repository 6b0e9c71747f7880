"""Client of the batch driver (harness/driver.c)."""
import os, subprocess, select, tempfile, resource
from collections import namedtuple
import build

Result = namedtuple('Result', 'rc cursor bits flags data ncb nraw events')
Loaded = namedtuple('Loaded', 'rc verify nstr bclen names')
FLAG = {1: 'program image changed', 2: 'asked for more values than the schema has', 4: 'input buffer changed while decoding',
        8: 'timed out', 16: 'impossible callback', 32: 'cursor past the end of the buffer', 64: 'wrote past the reported end',
        128: 'a key name does not look up', 256: 'undocumented error code'}


class Crash(Exception):
    """The driver died: a sanitizer report or a signal."""

    def __init__(self, cmd, text, code):
        super().__init__(text[-3000:])
        self.cmd, self.text, self.code = cmd, text, code


class Timeout(Exception):
    pass


def hexs(b):
    return bytes(b).hex() or '-'


class Driver:
    def __init__(self, variant='driver', timeout=60):
        self.variant, self.timeout = variant, timeout
        self.exe = build.build(variant)
        self.dir = tempfile.mkdtemp(prefix='vdrv')
        self.p = None
        self.calls = 0
        self.start()

    def start(self):
        self.err = open(os.path.join(self.dir, 'stderr'), 'w+b')
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=build.ENV, cwd=self.dir)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None
            self.err.close()
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)

    def restart(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.err.close()
        self.start()

    def ask(self, line):
        self.calls += 1
        self.last = line
        data = (line + '\n').encode()
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except BrokenPipeError:
            return self.died(line)
        r, _, _ = select.select([self.p.stdout], [], [], self.timeout)
        if not r:
            self.restart()
            raise Timeout(line[:200])
        ans = self.p.stdout.readline()
        if not ans.endswith(b'\n'):
            return self.died(line)
        return ans.decode().rstrip('\n')

    def died(self, line):
        try:
            code = self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.p.kill()
            code = self.p.wait()
        self.err.seek(0)
        text = self.err.read().decode(errors='replace')
        self.err.close()
        self.start()
        if code == 3 or (code == -9 and not text):
            raise build.HarnessError('driver ended with %s: %s' % (code, text[-500:]))
        raise Crash(line, text or 'exit status %s' % code, code)

    # commands
    def compile_file(self, path, json=0, il=None):
        il = il or os.path.join(self.dir, 'out.il')
        a = self.ask('C %d %s %s' % (json, hexs(os.fsencode(path)), il)).split(' ')
        if a[0] != 'c':
            raise build.HarnessError('bad answer ' + ' '.join(a)[:100])
        diag = b'' if a[2] == '-' else bytes.fromhex(a[2])
        out = None if a[3] == '-' else b'' if a[3] == 'empty' else bytes.fromhex(a[3])
        return int(a[1]), diag, out

    def compile(self, text, json=0, name='in.cnd'):
        path = os.path.join(self.dir, name)
        with open(path, 'wb') as f:
            f.write(text if isinstance(text, bytes) else text.encode())
        return self.compile_file(path, json)

    def format(self, text):
        a = self.ask('F ' + hexs(text if isinstance(text, bytes) else text.encode()))
        assert a[:2] == 'f '
        return None if a[2] == '?' else bytes.fromhex(a[3:])

    def load(self, slot, image, raw=False):
        a = self.ask('%s %d %s' % ('B' if raw else 'L', slot, hexs(image))).split(' ')
        return Loaded(int(a[1]), int(a[2]), int(a[3]), int(a[4]),
                      [None if n == '?' else b'' if n == '-' else bytes.fromhex(n) for n in a[5:]])

    def key_id(self, slot, name):
        return int(self.ask('K %d %s' % (slot, hexs(name))).split(' ')[1])

    def key_name(self, slot, key):
        a = self.ask('N %d %d' % (slot, key)).split(' ')[1]
        return None if a == '?' else b'' if a == '-' else bytes.fromhex(a)

    def missing(self, slot):
        return int(self.ask('Z %d' % slot).split(' ')[1])

    def _result(self, a):
        a = a.split(' ')
        if a[0] != 'r':
            raise build.HarnessError('bad answer ' + ' '.join(a)[:100])
        data = b'' if a[5] == '-' else bytes.fromhex(a[5])
        return Result(int(a[1]), int(a[2]), int(a[3]), int(a[4]), data, int(a[6]), int(a[7]), a[8:])

    def encode(self, slot, cap, tape, fill=0, raw=0, fail=0, ctxfill=0):
        return self._result(self.ask('E %d %d %d %d %d %d %s' % (slot, cap, fill, raw, fail, ctxfill, ' '.join(tape))))

    def decode(self, slot, data, raw=0, fail=0, ctxfill=0):
        return self._result(self.ask('D %d %s %d %d %d' % (slot, hexs(data), raw, fail, ctxfill)))

    def hostile(self, slot, mode, data, seed, maxcb):
        a = self.ask('H %d %d %s %d %d' % (slot, mode, hexs(data), seed, maxcb)).split(' ')
        return dict(rc=int(a[1]), cursor=int(a[2]), bits=int(a[3]), flags=int(a[4]), ncb=int(a[5]))

    def mutated(self, slot, n, seed, maxcb, data):
        a = [int(x) for x in self.ask('M %d %d %d %d %s' % (slot, n, seed, maxcb, hexs(data))).split(' ')[1:]]
        return dict(rcs=a[:9], loaded=a[9], verified=a[10], timeouts=a[11], callbacks=a[12], badrun=a[13], badflags=a[14])


def parse_event(e):
    op, key, val = e.split(':', 2)
    return op, int(key), val
