"""Builds the Go driver (harness/godrv) against /repo's Go package, instrumented."""
import fcntl, glob, hashlib, os, shutil, subprocess
from build import BUILD, HARNESS, REPO, HarnessError

FLAGS = {'race': ['-race'], 'asan': ['-asan'], 'plain': []}
ENV = dict(GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local', GOFLAGS='-mod=readonly', CGO_ENABLED='1', GOWORK='off', GOTELEMETRY='off')


def files():
    out = []
    for p in ('go/*', 'src/vm/*', 'include/*.h', 'go.mod'):
        out += [f for f in sorted(glob.glob(os.path.join(REPO, p))) if os.path.isfile(f)]
    return out + sorted(glob.glob(HARNESS + '/godrv/*')) + [os.path.abspath(__file__)]


def build(kind):
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for f in files():
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    tag = h.hexdigest()[:16]
    final = os.path.join(BUILD, 'go-%s-%s' % (kind, tag))
    exe = os.path.join(final, 'godrv')
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, 'go-%s.lock' % kind), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(BUILD, 'go-%s-' % kind + '?' * 16)):
            shutil.rmtree(old, ignore_errors=True)
        tmp = final + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        shutil.copy(HARNESS + '/godrv/main.go', tmp)
        with open(HARNESS + '/godrv/go.mod.txt') as f, open(tmp + '/go.mod', 'w') as g:
            g.write(f.read().replace('REPO', REPO))
        env = dict(os.environ, **ENV)
        cache = os.path.join(BUILD, 'gocache')
        # the C sources are included from outside the package: the cache must see them change
        env.update(GOCACHE=cache, GOPATH=os.path.join(BUILD, 'gopath'), GOMODCACHE=os.path.join(BUILD, 'gopath/mod'), HOME=BUILD,
                   CGO_CFLAGS='-g -O1 -w -DVP_SRC_HASH=0x' + tag, CGO_LDFLAGS='-g -lm', CC='gcc' if kind == 'race' else 'clang')
        p = subprocess.run(['go', 'build'] + FLAGS[kind] + ['-o', 'godrv', '.'], cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise HarnessError('go build failed: ' + p.stdout.decode(errors='replace')[-3000:])
        os.rename(tmp, final)
        return exe
