"""Runs a libFuzzer target for a fixed number of executions from generated seeds."""
import glob, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build
from build import HarnessError
from core import Violation


def one(exe, seeds, runs, seed, maxlen, extra, wall):
    d = tempfile.mkdtemp(prefix='vfuzz')
    try:
        os.makedirs(d + '/corpus')
        for i, s in enumerate(seeds):
            with open('%s/corpus/%05d' % (d, i), 'wb') as f:
                f.write(s)
        env = dict(build.ENV)
        env['ASAN_OPTIONS'] += ':quarantine_size_mb=32'
        p = subprocess.run([exe, 'corpus', '-runs=%d' % runs, '-seed=%d' % seed, '-max_len=%d' % maxlen, '-print_final_stats=1',
                            '-max_total_time=%d' % wall, '-timeout=60', '-rss_limit_mb=3000', '-verbosity=1', '-artifact_prefix=' + d + '/art-'] + extra,
                           cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=wall + 300)
        err = p.stderr.decode(errors='replace')
        execs = sum(map(int, re.findall(r'stat::number_of_executed_units:\s*(\d+)', err)))
        cov = [int(x) for x in re.findall(r'cov: (\d+)', err)]
        ft = [int(x) for x in re.findall(r'ft: (\d+)', err)]
        for art in sorted(glob.glob(d + '/art-*')):
            data = open(art, 'rb').read()
            kind = os.path.basename(art)[4:].split('-')[0]
            if kind in ('crash', 'leak'):
                m = re.search(r'MONITOR: (.*)', err) or re.search(r'SUMMARY: (.*)', err) or re.search(r'runtime error: (.*)', err)
                return execs, cov, ft, ('fuzz:' + re.sub(r'\S*/\S*|0x\w+|\d+', '', m.group(1))[:60].strip() if m else 'fuzz:crash', data, err[-4000:])
            if kind in ('timeout', 'oom'):
                q = subprocess.run([exe, '-timeout=200', '-rss_limit_mb=6000', art], cwd=d, env=env, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, timeout=400)
                if q.returncode:
                    return execs, cov, ft, ('fuzz:' + kind, data, err[-3000:])
        if p.returncode and not glob.glob(d + '/art-*'):
            raise HarnessError('fuzz target ended with %s: %s' % (p.returncode, err[-1500:]))
        return execs, cov, ft, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(st, variant, seeds, runs, seed, maxlen=600, extra=(), procs=8, wall=240):
    """`runs` executions in each of `procs` processes; raises Violation on a report."""
    exe = build.build(variant)
    with ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(lambda i: one(exe, seeds[i::2] if i % 2 else seeds, runs, seed * 100 + i + 1, maxlen, list(extra), wall), range(procs)))
    for execs, cov, ft, bad in rs:
        st.count('fuzz executions', execs)
        st.evaluations += execs
        st.n['fuzz edges covered (best)'] = max(st.n['fuzz edges covered (best)'], max(cov or [0]))
        st.n['fuzz features (best)'] = max(st.n['fuzz features (best)'], max(ft or [0]))
    for execs, cov, ft, bad in rs:
        if bad:
            raise Violation(bad[0], 'the fuzz target reported', input=bad[1].hex(), text=bad[1].decode(errors='replace')[:2000], report=bad[2])
