// libFuzzer target: the file commands of the CLI on any IL, JSON and binary files.
#define _GNU_SOURCE
#include "concordia.h"
#include "cJSON.h"
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

int cmd_inspect(int argc, char** argv);
int cmd_encode(int argc, char** argv);
int cmd_decode(int argc, char** argv);
cnd_error_t __real_cnd_execute(cnd_vm_ctx* ctx);

static void die(const char* why) { fprintf(stderr, "MONITOR: %s\n", why); abort(); }

// A program may ask for an endless run: callbacks are limited, and so is the time between them.
static sigjmp_buf jmp;
static volatile sig_atomic_t in_vm, late;
static cnd_io_cb real_cb;
static int calls, cut;
static void on_timer(int s) { (void)s; late = 1; if (in_vm) { in_vm = 0; siglongjmp(jmp, 1); } }

static cnd_error_t budget_cb(cnd_vm_ctx* ctx, uint16_t key, uint8_t type, void* ptr) {
    in_vm = 0;
    if (late || ++calls > 3000) { cut = 1; return CND_ERR_CALLBACK; }
    ctx->io_callback = real_cb;
    cnd_error_t e = real_cb(ctx, key, type, ptr);
    ctx->io_callback = budget_cb;
    in_vm = 1;
    return e;
}

cnd_error_t __wrap_cnd_execute(cnd_vm_ctx* ctx) {
    struct itimerval t = { {0, 0}, {0, 50000} }, z = { {0, 0}, {0, 0} };
    if (cut) return CND_ERR_CALLBACK;
    late = 0;
    real_cb = ctx->io_callback;
    ctx->io_callback = budget_cb;
    if (sigsetjmp(jmp, 1)) { cut = 1; ctx->io_callback = real_cb; return CND_ERR_CALLBACK; }
    setitimer(ITIMER_VIRTUAL, &t, NULL);
    in_vm = 1;
    cnd_error_t e = __real_cnd_execute(ctx);
    in_vm = 0;
    setitimer(ITIMER_VIRTUAL, &z, NULL);
    ctx->io_callback = real_cb;
    return e;
}

static int fds[3], outfd;
static char paths[3][32];
static const char before[] = "what was there";

static void put(int fd, const void* p, size_t n) {
    if (ftruncate(fd, 0) || pwrite(fd, p, n, 0) != (ssize_t)n) _exit(3);
}
static size_t len(int fd) { return (size_t)lseek(fd, 0, SEEK_END); }

// byte 0: the command; bytes 1-2: length of the IL; the rest: IL, then the other input
int LLVMFuzzerTestOneInput(const uint8_t* in, size_t n) {
    if (!outfd) {
        for (int i = 0; i < 3; i++) {
            fds[i] = memfd_create("f", 0);
            sprintf(paths[i], "/proc/self/fd/%d", fds[i]);
        }
        outfd = memfd_create("out", 0);
        fflush(stdout);
        dup2(outfd, 1);
        signal(SIGVTALRM, on_timer);
    }
    if (n < 3) return 0;
    int cmd = in[0] & 3;
    size_t il = in[1] | in[2] << 8;
    in += 3; n -= 3;
    if (il > n) il = n;
    put(fds[0], in, il);
    put(fds[1], in + il, n - il);
    put(fds[2], before, sizeof before);
    if (ftruncate(1, 0)) _exit(3);
    lseek(1, 0, SEEK_SET);
    calls = cut = 0;
    char* av[] = { "cnd", "x", paths[0], paths[1], paths[2], "--hex", NULL };
    int rc = cmd == 0 ? cmd_inspect(3, av) : cmd == 1 ? cmd_encode(5, av) : cmd_decode(cmd == 2 ? 5 : 6, av);
    fflush(stdout);
    if (cut) return 0;
    char got[sizeof before] = {0};
    size_t end = len(fds[2]);
    int kept = end == sizeof before && pread(fds[2], got, sizeof got, 0) == sizeof got && !memcmp(got, before, sizeof got);
    if (rc) {
        if (!kept) die("a failing command wrote its output file");
        if (cmd != 1 && len(1) == 0) die("a failing command said nothing");
    } else if (cmd >= 2) {
        char* s = malloc(end + 1);
        if (pread(fds[2], s, end, 0) != (ssize_t)end) _exit(3);
        s[end] = 0;
        cJSON* j = cJSON_Parse(s);
        if (!j) die("decode wrote what is not JSON");
        cJSON_Delete(j);
        free(s);
    } else if (cmd == 0 && !kept) die("inspect wrote a file");
    return 0;
}
