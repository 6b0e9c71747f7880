// libFuzzer target: any image or bytecode, any data, a host answering at random.
#include "host.h"
#include <setjmp.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <stdio.h>

static host H;
static sigjmp_buf jmp;
static void on_timer(int s) { (void)s; siglongjmp(jmp, 1); }

static int timed(cnd_vm_ctx* ctx, int mode, uint8_t* data, size_t len, int fill, cnd_error_t* rc) {
    struct itimerval t = { {0, 0}, {0, 100000} }, z = { {0, 0}, {0, 0} };
    if (sigsetjmp(jmp, 1)) return 1;
    setitimer(ITIMER_VIRTUAL, &t, NULL);
    *rc = host_run(&H, ctx, mode, data, len, fill);
    setitimer(ITIMER_VIRTUAL, &z, NULL);
    return 0;
}
static void die(const char* why) { fprintf(stderr, "MONITOR: %s\n", why); abort(); }

// byte 0: 1 encode, 2 whole image, 4 context fill, 8 bulk; byte 1: data length; byte 2: seed
int LLVMFuzzerTestOneInput(const uint8_t* in, size_t n) {
    static int ready;
    if (!ready) { host_init(&H); signal(SIGVTALRM, on_timer); ready = 1; }
    if (n < 3) return 0;
    int fl = in[0]; size_t dl = in[1]; uint64_t seed = in[2];
    in += 3; n -= 3;
    if (dl > n) dl = n;
    uint8_t* data = malloc(dl); memcpy(data, in, dl);
    uint8_t* before = malloc(dl + 1); memcpy(before, in, dl);
    in += dl; n -= dl;
    uint8_t* img = malloc(n); memcpy(img, in, n);
    uint8_t* copy = malloc(n + 1); memcpy(copy, in, n);
    cnd_program prog;
    memset(&prog, 0xA5, sizeof prog);
    cnd_error_t rc = CND_ERR_OK;
    if (fl & 2) rc = cnd_program_load_il(&prog, img, n); else cnd_program_load(&prog, img, n);
    if (rc == CND_ERR_OK) {
        cnd_verify_program(&prog);
        for (int i = 0; i < 3; i++) {
            const char* nm = cnd_get_key_name(&prog, (uint16_t)(seed * 7 + i * 13));
            if (nm && cnd_get_key_id(&prog, nm) >= prog.string_count) die("a key name does not look up");
        }
        H.random = 1; H.silent = 1; H.fail_at = 0; H.nans = 0; H.seed = seed; H.max_cb = 300; H.accept_raw = fl >> 3 & 1;
        host_begin(&H, &prog);
        cnd_vm_ctx* ctx = malloc(sizeof *ctx);
        int mode = fl & 1 ? CND_MODE_ENCODE : CND_MODE_DECODE;
        if (!timed(ctx, mode, data, dl, fl & 4 ? 255 : 0, &rc)) {
            if ((unsigned)rc > 8) die("undocumented error code");
            if (ctx->cursor > dl) die("cursor past the end of the buffer");
            if (H.bad & 1) die("impossible callback");
            if (mode == CND_MODE_DECODE && memcmp(data, before, dl) && !memchr(img, OP_CONST_WRITE, n)) die("input buffer changed");
        }
        if (memcmp(img, copy, n)) die("program image changed");
        free(ctx);
    }
    free(data); free(before); free(img); free(copy);
    return 0;
}
