"""Builds the instrumented variants of /repo's current working tree.

Every variant lives in /verif/build/<variant>-<hash>, where the hash covers the
sources of the repository and of the harness, so a changed tree is rebuilt and an
unchanged one is not.  Nothing is ever written into /repo.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')


class HarnessError(Exception):
    pass


def sources(*dirs):
    out = []
    for d in dirs:
        out += sorted(glob.glob(os.path.join(REPO, 'src', d, '*.c')))
    return out


VM, COMPILER, CLI = ('vm',), ('compiler',), ('cli',)
DEFS = ['-D_GNU_SOURCE', '-D_DEFAULT_SOURCE', '-DCND_VERSION="test"', '-DCND_GIT_HASH="none"']
INC = ['-I', REPO + '/include', '-I', '/usr/include/cjson', '-I', REPO + '/src/vm', '-I', REPO + '/src/compiler', '-I', HARNESS]
ASAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all',
        '-fno-omit-frame-pointer', '-O1', '-g']

WRAPPED = ('malloc calloc realloc aligned_alloc posix_memalign reallocarray strdup strndup mmap munmap sbrk read write close fopen fclose fread fwrite fputs fputc putc puts putchar fflush vprintf vfprintf vsnprintf getenv time clock clock_gettime gettimeofday system free perror printf fprintf open')

# name -> (compiler, flags, repository dirs, harness sources, link flags)
VARIANTS = {
    'driver': ('clang', ASAN, ['vm', 'compiler'], ['driver.c', 'host.c'], []),
    'driver-fast': ('clang', ['-O2', '-g'], ['vm', 'compiler'], ['driver.c', 'host.c'], []),
    'cli': ('clang', ASAN, ['vm', 'compiler', 'cli'], [], ['-lcjson']),
    'cli-fast': ('gcc', ['-O1', '-g'], ['vm', 'compiler', 'cli'], [], ['-lcjson']),
    'tsan': ('clang', ['-fsanitize=thread', '-O1', '-g'], ['vm'], ['threads.c', 'host.c'], ['-lpthread']),
    'msan': ('clang', ['-fsanitize=memory', '-fno-sanitize-recover=all', '-fsanitize-memory-track-origins',
                       '-O1', '-g'], ['vm'], ['driver.c', 'host.c', 'nocompiler.c'], []),
    'msan-compile': ('clang', ['-fsanitize=memory', '-fno-sanitize-recover=all', '-fsanitize-memory-track-origins',
                               '-O1', '-g'], ['vm', 'compiler'], ['driver.c', 'host.c'], []),
    'quiet': ('gcc', ['-O1', '-g', '-fno-builtin', '-U_FORTIFY_SOURCE'], ['vm'], ['quiet.c', 'host.c'],
              ['-Wl,' + ','.join('--wrap=' + n for n in WRAPPED.split())]),
    'fuzz-vm': ('clang', ['-fsanitize=fuzzer,address,undefined,float-cast-overflow', '-fno-sanitize-recover=all',
                          '-O1', '-g'], ['vm'], ['fuzz_vm.c', 'host.c'], []),
    'fuzz-compile': ('clang', ['-fsanitize=fuzzer,address,undefined,float-cast-overflow', '-fno-sanitize-recover=all',
                               '-O1', '-g'], ['vm', 'compiler'], ['fuzz_compile.c'], []),
    'fuzz-fmt': ('clang', ['-fsanitize=fuzzer,address,undefined,float-cast-overflow', '-fno-sanitize-recover=all',
                           '-O1', '-g'], ['vm', 'compiler'], ['fuzz_fmt.c'], []),
    'fuzz-cli': ('clang', ['-fsanitize=fuzzer,address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-Dmain=cnd_main',
                           '-O1', '-g'], ['vm', 'compiler', 'cli'], ['fuzz_cli.c'], ['-lcjson', '-Wl,--wrap=cnd_execute']),
    'fuzz-lsp': ('clang', ['-fsanitize=fuzzer,address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-Dmain=cnd_main',
                           '-O1', '-g'], ['vm', 'compiler', 'cli'], ['fuzz_lsp.c'], ['-lcjson']),
    'leak': ('clang', ASAN + ['-Dmain=cnd_main'], ['vm', 'compiler', 'cli'], ['leak.c'], ['-lcjson']),
    # What another platform's compiler may make of the same sources: unsigned characters, other optimisations
    'driver-other': ('gcc', ['-O3', '-g', '-funsigned-char', '-fno-omit-frame-pointer'], ['vm', 'compiler'], ['driver.c', 'host.c'], []),
    # A 32-bit process with no C library but harness/i386/libc32.c, which guards every heap block with pages without access
    'driver32': ('clang', ['-m32', '-msse2', '-mfpmath=sse', '-funsigned-char', '-O1', '-g', '-fno-omit-frame-pointer', '-fno-stack-protector', '-fno-pic', '-U_FORTIFY_SOURCE',
                           '-I', HARNESS + '/i386', '-isystem', '/usr/include/x86_64-linux-gnu', '-fsanitize=undefined,float-cast-overflow',
                           '-fno-sanitize=alignment,function,vptr', '-fsanitize-trap=all'], ['vm'],
                 ['driver.c', 'host.c', 'nocompiler.c', 'i386/libc32.c'], ['-m32', '-nostdlib', '-static']),
    'gen': ('clang', ASAN, [], [], []),
    'gen-fast': ('gcc', ['-O1'], [], [], []),
}


def _hash(variant):
    h = hashlib.sha256()
    cc, flags, dirs, harness, link = VARIANTS[variant]
    h.update(repr(VARIANTS[variant]).encode())
    files = sources(*dirs)
    for d in dirs:
        files += sorted(glob.glob(os.path.join(REPO, 'src', d, '*.h')))
    files += sorted(glob.glob(os.path.join(REPO, 'include', '*.h')))
    if variant.startswith('gen'):
        files.append(os.path.join(REPO, 'src/tools/gen_bindings.c'))
    files += [os.path.join(HARNESS, f) for f in harness] + sorted(glob.glob(os.path.join(HARNESS, '*.h')))
    files.append(os.path.abspath(__file__))
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:16]


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise HarnessError('build failed: %s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-4000:]))
    return p.stdout


def build(variant):
    """Returns the path of the variant's executable, building it if needed."""
    os.makedirs(BUILD, exist_ok=True)
    name = '%s-%s' % (variant, _hash(variant))
    final = os.path.join(BUILD, name)
    exe = os.path.join(final, variant)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, variant + '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(BUILD, variant + '-' + '?' * 16)):
            shutil.rmtree(old, ignore_errors=True)
        tmp = final + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        cc, flags, dirs, harness, link = VARIANTS[variant]
        files = sources(*dirs) + [os.path.join(HARNESS, f) for f in harness]
        if variant.startswith('gen'):
            files = [os.path.join(REPO, 'src/tools/gen_bindings.c')]

        def one(f):
            o = os.path.join(tmp, os.path.basename(os.path.dirname(f)) + '_' + os.path.basename(f) + '.o')
            std = ['-std=c11'] if not f.startswith(HARNESS) else ['-std=gnu11']
            cflags = [x.replace('fuzzer,', 'fuzzer-no-link,') for x in flags]
            if f.endswith('libc32.c'):
                cflags = [x for x in cflags if 'sanitize' not in x] + ['-ffreestanding', '-fno-builtin']
            _run([cc] + cflags + std + DEFS + INC + ['-w', '-c', f, '-o', o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, files))
        if '-nostdlib' in link:
            lib = _run([cc, '-m32', '--rtlib=compiler-rt', '-print-libgcc-file-name']).decode().strip()
            _run([cc] + link + objs + ['-o', os.path.join(tmp, variant), lib])
        else:
            _run([cc] + flags + objs + ['-o', os.path.join(tmp, variant)] + link + ['-lm'])
        for o in objs:
            os.unlink(o)
        os.rename(tmp, final)
        return exe


ENV = dict(os.environ)
ENV.update({
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99',
    'MSAN_OPTIONS': 'exitcode=99',
    'TSAN_OPTIONS': 'exitcode=99:halt_on_error=1',
    'LC_ALL': 'C',
})


if __name__ == '__main__':
    names = sys.argv[1:] or [v for v, d in VARIANTS.items()
                             if all(os.path.exists(os.path.join(HARNESS, f)) for f in d[3])]
    for n in names:
        print(build(n))
