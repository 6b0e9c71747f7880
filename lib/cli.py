"""Runs the command line tool in a scratch directory."""
import os, resource, shutil, signal, subprocess, tempfile
from collections import namedtuple
import build
from drv import Crash, Timeout

Out = namedtuple('Out', 'rc out err')
MARKS = (b'Sanitizer', b'runtime error:', b'MONITOR:')


def limits(cpu, mem, fsize):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


class Cli:
    def __init__(self, variant='cli', timeout=60, mem=0):
        self.exe = build.build(variant)
        self.timeout, self.mem = timeout, mem
        self.dir = tempfile.mkdtemp(prefix='vcli')

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def clean(self):
        for n in os.listdir(self.dir):
            p = os.path.join(self.dir, n)
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)

    def path(self, name):
        return os.path.join(self.dir, name)

    def put(self, name, data):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data.encode() if isinstance(data, str) else data)
        return p

    def get(self, name):
        try:
            with open(self.path(name), 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def run(self, *args, stdin=b'', cwd=None, timeout=None):
        t = timeout or self.timeout
        try:
            p = subprocess.run([self.exe] + list(args), input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=build.ENV,
                               cwd=cwd or self.dir, timeout=t, preexec_fn=limits(t + 5, self.mem, 512 << 20))
        except subprocess.TimeoutExpired:
            raise Timeout('cnd ' + ' '.join(map(str, args)))
        if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
            raise Timeout('cnd ' + ' '.join(map(str, args)))
        if p.returncode < 0 or p.returncode == 99 or any(m in p.stderr for m in MARKS):
            raise Crash('cnd ' + ' '.join(map(str, args)), p.stderr.decode(errors='replace') or 'signal %d' % -p.returncode, p.returncode)
        return Out(p.returncode, p.stdout, p.stderr)
