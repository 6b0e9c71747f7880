// Loads, verifies and runs jobs on a painted stack while every allocation, I/O and clock
// function is intercepted, and again in a child that may make no system call at all.
//   I hex                       image -> i
//   J img E cap ans... / D hex  job   -> j
//   Q                           run all -> q <job>:<stack bytes>:<rc> ... | bad <job> <function>
//   S                           run all without system calls -> s ok jobs | s sig n | s unavailable
#include "host.h"
#include <errno.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

static volatile int armed;
static const char* volatile caught;
static void note(const char* n) { if (armed && !caught) caught = n; }

#define W(ret, name, args, call) ret __real_##name args; ret __wrap_##name args { note(#name); return __real_##name call; }
W(void*, malloc, (size_t n), (n))
W(void*, calloc, (size_t n, size_t m), (n, m))
W(void*, realloc, (void* p, size_t n), (p, n))
void __real_free(void* p); void __wrap_free(void* p) { note("free"); __real_free(p); }
W(void*, aligned_alloc, (size_t n, size_t m), (n, m))
W(int, posix_memalign, (void** p, size_t n, size_t m), (p, n, m))
W(void*, reallocarray, (void* p, size_t n, size_t m), (p, n, m))
W(char*, strdup, (const char* s), (s))
W(char*, strndup, (const char* s, size_t n), (s, n))
W(void*, mmap, (void* a, size_t n, int p, int f, int d, off_t o), (a, n, p, f, d, o))
W(int, munmap, (void* a, size_t n), (a, n))
W(void*, sbrk, (intptr_t n), (n))
W(ssize_t, read, (int f, void* b, size_t n), (f, b, n))
W(ssize_t, write, (int f, const void* b, size_t n), (f, b, n))
W(int, close, (int f), (f))
W(FILE*, fopen, (const char* a, const char* b), (a, b))
W(int, fclose, (FILE* f), (f))
W(size_t, fread, (void* p, size_t a, size_t b, FILE* f), (p, a, b, f))
W(size_t, fwrite, (const void* p, size_t a, size_t b, FILE* f), (p, a, b, f))
W(int, fputs, (const char* s, FILE* f), (s, f))
W(int, fputc, (int c, FILE* f), (c, f))
W(int, putc, (int c, FILE* f), (c, f))
W(int, puts, (const char* s), (s))
W(int, putchar, (int c), (c))
W(int, fflush, (FILE* f), (f))
W(int, vprintf, (const char* f, va_list a), (f, a))
W(int, vfprintf, (FILE* o, const char* f, va_list a), (o, f, a))
W(int, vsnprintf, (char* b, size_t n, const char* f, va_list a), (b, n, f, a))
void __real_perror(const char* s); void __wrap_perror(const char* s) { note("perror"); __real_perror(s); }
W(char*, getenv, (const char* s), (s))
W(time_t, time, (time_t* t), (t))
W(clock_t, clock, (void), ())
W(int, clock_gettime, (clockid_t c, struct timespec* t), (c, t))
W(int, gettimeofday, (struct timeval* t, void* z), (t, z))
W(int, system, (const char* s), (s))
int __wrap_printf(const char* f, ...) { note("printf"); va_list a; va_start(a, f); int r = __real_vprintf(f, a); va_end(a); return r; }
int __wrap_fprintf(FILE* o, const char* f, ...) { note("fprintf"); va_list a; va_start(a, f); int r = __real_vfprintf(o, f, a); va_end(a); return r; }
int __real_open(const char* p, int fl, ...);
int __wrap_open(const char* p, int fl, ...) { note("open"); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return __real_open(p, fl, m); }

typedef struct { uint8_t* at; size_t len; } image;
typedef struct { int img; int enc; size_t len; uint8_t* in; uint8_t* buf; host_answer* ans; size_t nans; } job;
static image images[256]; static int nimages;
static job jobs[4096]; static int njobs;
static host H;
static cnd_vm_ctx ctx;
static cnd_error_t rc;

static int hv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static uint8_t* unhex(const char* s, size_t* n) {
    size_t l = strlen(s);
    if (l == 1 && *s == '-') l = 0;
    *n = l / 2;
    uint8_t* p = malloc(*n + 1);
    for (size_t i = 0; i < *n; i++) p[i] = (uint8_t)(hv(s[2 * i]) << 4 | hv(s[2 * i + 1]));
    return p;
}
static char* tok(char** p) {
    char* s = *p;
    while (*s == ' ') s++;
    if (!*s) return NULL;
    char* e = s;
    while (*e && *e != ' ') e++;
    if (*e) *e++ = 0;
    *p = e;
    return s;
}

static void run(job* b) {
    cnd_program prog;
    image* m = &images[b->img];
    rc = cnd_program_load_il(&prog, m->at, m->len);
    if (rc) return;
    rc = cnd_verify_program(&prog);
    if (rc) { rc = 99; return; }
    cnd_get_key_id(&prog, "no such name");
    cnd_get_key_name(&prog, (uint16_t)(prog.string_count - 1));
    if (b->enc) memset(b->buf, 0, b->len); else memcpy(b->buf, b->in, b->len);
    H.ans = b->ans; H.nans = b->nans;
    host_begin(&H, &prog);
    cnd_init(&ctx, b->enc ? CND_MODE_ENCODE : CND_MODE_DECODE, &prog, b->buf, b->len, host_cb, &H);
    rc = cnd_execute(&ctx);
    cnd_error_string(rc);
}

#define STACK (512 << 10)
static uint8_t* stk;
static ucontext_t uc_main, uc_job;
static job* current;
static void enter(void) { armed = 1; run(current); armed = 0; }

static size_t painted(job* b) {
    memset(stk, 0xC5, STACK);
    getcontext(&uc_job);
    uc_job.uc_stack.ss_sp = stk; uc_job.uc_stack.ss_size = STACK; uc_job.uc_link = &uc_main;
    makecontext(&uc_job, enter, 0);
    current = b;
    swapcontext(&uc_main, &uc_job);
    size_t i = 0;
    while (i < STACK && stk[i] == 0xC5) i++;
    return STACK - i;
}

static void seal(void) {
    struct sock_filter f[] = {
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_exit_group, 0, 1),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_KILL_PROCESS),
    };
    struct sock_fprog p = { sizeof f / sizeof *f, f };
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) _exit(77);
}

int main(void) {
    char* line = NULL; size_t cap = 0; ssize_t n;
    host_init(&H);
    H.silent = 1; H.accept_raw = 1;
    uint8_t* map = mmap(NULL, STACK + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(map, 65536, PROT_NONE);
    stk = map + 65536;
    while ((n = getline(&line, &cap, stdin)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        char* p = line; char* cmd = tok(&p);
        if (!cmd) continue;
        if (*cmd == 'I') {
            image* m = &images[nimages++];
            m->at = unhex(tok(&p), &m->len);
            printf("i\n");
        } else if (*cmd == 'J') {
            job* b = &jobs[njobs++];
            memset(b, 0, sizeof *b);
            b->img = atoi(tok(&p));
            b->enc = *tok(&p) == 'E';
            if (b->enc) b->len = strtoul(tok(&p), NULL, 10); else b->in = unhex(tok(&p), &b->len);
            b->buf = malloc(b->len + 1);
            char* t; size_t ca = 0;
            while (b->enc && (t = tok(&p))) {
                if (b->nans == ca) b->ans = realloc(b->ans, (ca = ca ? ca * 2 : 16) * sizeof *b->ans);
                if (*t == 's') { size_t l; uint8_t* s = unhex(t + 1, &l); s[l] = 0; b->ans[b->nans].s = (char*)s; b->ans[b->nans++].u = l; }
                else { b->ans[b->nans].s = NULL; b->ans[b->nans++].u = strtoull(t, NULL, 16); }
            }
            printf("j\n");
        } else if (*cmd == 'Q') {
            int bad = -1;
            painted(&jobs[0]); // resolve symbols first
            caught = NULL;
            printf("q");
            for (int i = 0; i < njobs; i++) {
                size_t d = painted(&jobs[i]);
                if (caught) { bad = i; break; }
                printf(" %d:%zu:%d", i, d, rc);
            }
            if (bad >= 0) printf(" bad %d %s", bad, caught);
            printf("\n");
        } else if (*cmd == 'S') {
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                seal();
                for (int i = 0; i < njobs; i++) run(&jobs[i]);
                syscall(SYS_exit_group, 0);
            }
            int st; waitpid(pid, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) printf("s ok %d\n", njobs);
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) printf("s unavailable\n");
            else printf("s sig %d\n", WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st));
        }
        fflush(stdout);
    }
    return 0;
}
