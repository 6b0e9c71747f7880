"""Runs one check: spreads its cases over worker processes, collects what the monitors
observed, re-runs cases that timed out, routes violations through the known findings and
writes the evidence file.  Exit status: 0 held, 1 violated, 2 the check itself failed."""
import collections, glob, hashlib, json, multiprocessing, os, pickle, queue, random, signal, sys, time, traceback
import build
from build import VERIF, HarnessError
from core import Violation, Skip
from drv import Crash, Timeout

WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
WALL = {'quick': 600, 'thorough': 3 * 3600}


class Stats:
    def __init__(self):
        self.n = collections.Counter()       # named counters of what was observed
        self.evaluations = 0                 # executions or inputs the oracle judged
        self.distinct = set()                # signatures of the non-trivial ones
        self.samples = []

    def count(self, name, k=1):
        self.n[name] += k

    def judged(self, signature=None, k=1):
        """One execution was judged; `signature` (any text) if it was non-trivial."""
        self.evaluations += k
        if signature is not None and len(self.distinct) < 2000000:
            self.distinct.add(hashlib.blake2b(repr(signature).encode(), digest_size=8).digest())

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(kw)

    def merge(self, o):
        self.n.update(o.n)
        self.evaluations += o.evaluations
        self.distinct |= o.distinct
        self.samples += o.samples[:max(0, 6 - len(self.samples))]


class Check:
    pid = None
    level = 'exploration'
    technique = ''
    note = ''
    rule = ''
    assumptions = []
    variants = ['driver']
    quick, thorough = 100, 1000
    need = ()               # counters that must not be zero (else nothing was observed)
    workers = None

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.st = Stats()

    @property
    def cases(self):
        return self.quick if self.tier == 'quick' else self.thorough

    def start(self, w):
        """In the worker, before its first case."""

    def stop(self):
        """In the worker, after its last case."""

    def case(self, rng, i):
        raise NotImplementedError

    def before(self):
        """In the parent, after the builds, before the workers."""

    def finish(self):
        """In the parent, after the workers (may raise Violation)."""

    def rng(self, i):
        return random.Random('%d:%s:%s' % (self.seed, self.pid, i))


def crash_key(text):
    for line in text.splitlines():
        if 'SUMMARY:' in line or 'runtime error:' in line:
            line = line.split('SUMMARY:')[-1].strip()
            words = [w for w in line.split() if '/' not in w and not w.startswith('0x')]
            return 'crash:' + ' '.join(words)[:80]
    return 'crash:' + text.strip().splitlines()[-1][:60] if text.strip() else 'crash'


def guarded(check, i):
    """Runs case i; returns None or (key, message, detail)."""
    try:
        try:
            check.case(check.rng(i), i)
        except Timeout:
            check.st.count('timeouts re-run')
            check.stop()
            check.start(check.w)
            check.case(check.rng(i), i)
    except Skip:
        check.st.count('skipped (model limits)')
    except Violation as v:
        return v.key, v.msg, v.detail
    except Crash as c:
        return crash_key(c.text), 'the code under test crashed or a sanitizer reported', dict(command=c.cmd[:20000], report=c.text[-4000:])
    except Timeout as t:
        return 'hang', 'no answer within the time limit, twice', dict(command=str(t)[:2000])
    except (HarnessError, OSError, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        return 'unexpected:' + type(e).__name__, 'an answer the oracle cannot make sense of: %s' % e, dict(trace=traceback.format_exc()[-3000:])
    return None


def worker(check, w, n, stop, out, deadline):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    found = []
    try:
        check.w = w
        check.start(w)
        done = 0
        for i in range(w, check.cases, n):
            if stop.is_set():
                break
            if time.time() > deadline:
                check.st.count('cases not run (wall limit)', (check.cases - i + n - 1) // n)
                break
            r = guarded(check, i)
            done += 1
            if r:
                found.append((i,) + r)
                if len(found) >= 3 or r[0] == 'hang':
                    stop.set()
                    break
        check.st.count('cases', done)
        check.stop()
        out.put(pickle.dumps(('ok', w, check.st, found)))
    except BaseException:
        out.put(pickle.dumps(('error', w, traceback.format_exc(), found)))


def known_findings():
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding:'):
                d = dict(p.split('=', 1) for p in line[8:].split(' ', 3)[:3] if '=' in p)
                out.append((d.get('property'), d.get('key'), line[8:].split(' ', 3)[-1].strip()))
    return out


def main(cls, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    t0 = time.time()
    try:
        if replay:
            d = json.load(open(replay))
            seed, tier = d['seed'], d['tier']
            check = cls(tier, seed)
            for v in check.variants:
                build.build(v)
            check.w = 0
            check.before()
            check.start(0)
            r = guarded(check, d['case'])
            check.stop()
            if not r and d['case'] == -1:
                check.finish()
            print('replay:', r)
            return 1 if r else 0
        return run(cls(tier, seed), t0)
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s the check itself failed' % cls.pid)
        return 2


def run(check, t0):
    for v in check.variants:
        build.build(v)
    t1 = time.time()
    check.before()
    n = min(check.workers or WORKERS, max(1, check.cases))
    stop, out = multiprocessing.Event(), multiprocessing.Queue()
    deadline = t0 + WALL[check.tier]
    ps = [multiprocessing.Process(target=worker, args=(check, w, n, stop, out, deadline)) for w in range(n)]
    for p in ps:
        p.start()
    found, errors, left = [], [], set(range(n))
    while left:
        try:
            kind, w, x, f = pickle.loads(out.get(timeout=5))
        except queue.Empty:
            dead = [w for w in left if not ps[w].is_alive()]
            if dead:
                try:
                    kind, w, x, f = pickle.loads(out.get(timeout=2))
                except queue.Empty:
                    for w in dead:
                        errors.append('worker %d died' % w)
                        left.discard(w)
                    stop.set()
                    continue
            else:
                continue
        left.discard(w)
        found += f
        if kind == 'ok':
            check.st.merge(x)
        else:
            errors.append(x)
            stop.set()
    for p in ps:
        p.join(10)
    if not found and not errors:
        try:
            check.finish()
        except Violation as v:
            found.append((-1, v.key, v.msg, v.detail))
        except Crash as c:
            found.append((-1, crash_key(c.text), 'crash', dict(command=c.cmd[:5000], report=c.text[-4000:])))
    known = known_findings()
    bad, seen = [], set()
    for f in sorted(found, key=lambda f: f[0]):
        hit = [k for k in known if k[0] == check.pid and k[1] == f[1]]
        if hit:
            seen.add(hit[0])
        else:
            bad.append(f)
    rdir = os.path.join(VERIF, 'build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for j, (i, key, msg, detail) in enumerate(bad[:5]):
        path = os.path.join(rdir, '%s-%d.json' % (check.pid, j))
        with open(path, 'w') as fh:
            json.dump(dict(property=check.pid, seed=check.seed, tier=check.tier, case=i, key=key, message=msg, detail=detail,
                           how='python3 /verif/check.py %s --replay %s' % (check.pid, path)), fh, indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (check.pid, path))
        print('%s case %d: %s: %s' % (check.pid, i, key, msg))
    missing = [k for k in check.need if not check.st.n.get(k)] if not bad and not errors else []
    st = check.st
    cov = dict(evaluations=st.evaluations, distinct_nontrivial=len(st.distinct), rule=check.rule, samples=st.samples[:6],
               observed=dict(sorted(st.n.items())), workers=n, build_s=round(t1 - t0, 1))
    ev = dict(property=check.pid, tier=check.tier, seed=check.seed, level=check.level, coverage=cov,
              assumptions=list(check.assumptions), wall_s=round(time.time() - t0, 2), violations=len(bad))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', check.pid + '.json')
    with open(path + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    os.rename(path + '.tmp', path)
    for k in known:
        if k[0] == check.pid:
            print('KNOWN-FINDING: property=%s %s' % (check.pid, k[2]))
    for l in lines:
        print(l)
    print('%s %s: %d evaluations, %d distinct, %.1f s' % (check.pid, check.tier, st.evaluations, len(st.distinct), time.time() - t0))
    if bad:
        return 1
    if errors or missing:
        for e in errors:
            print(e)
        if missing:
            print('observed nothing for: ' + ', '.join(missing))
        print('ERROR property=%s the check itself failed' % check.pid)
        return 2
    return 0
