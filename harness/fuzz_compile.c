// libFuzzer target: any text through the compiler; what it accepts must load and verify.
#include "concordia.h"
#include "compiler.h"
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static void die(const char* why) { fprintf(stderr, "MONITOR: %s\n", why); abort(); }
static char src[64], il[64];
static int cap = -1;

int LLVMFuzzerTestOneInput(const uint8_t* in, size_t n) {
    if (cap < 0) {
        snprintf(src, sizeof src, "fz%d.cnd", (int)getpid());
        snprintf(il, sizeof il, "fz%d.il", (int)getpid());
        FILE* t = tmpfile();
        if (!t) _exit(3);
        cap = dup(fileno(t));
    }
    FILE* f = fopen(src, "wb");
    if (!f) _exit(3);
    fwrite(in, 1, n, f);
    fclose(f);
    unlink(il);
    fflush(stdout);
    int saved = dup(1);
    if (ftruncate(cap, 0)) {}
    lseek(cap, 0, SEEK_SET);
    dup2(cap, 1);
    int rc = cnd_compile_file(src, il, 1, 0);
    fflush(stdout);
    dup2(saved, 1); close(saved);
    off_t said = lseek(cap, 0, SEEK_END);
    f = fopen(il, "rb");
    if (rc != 0) {
        if (f) die("output file for a rejected schema");
        if (said == 0) die("rejected without a diagnostic");
        return 0;
    }
    if (!f) die("accepted but no output file");
    uint8_t* b = malloc(1 << 22);
    size_t len = fread(b, 1, 1 << 22, f);
    fclose(f);
    uint8_t* img = malloc(len); memcpy(img, b, len); free(b);
    cnd_program p;
    if (cnd_program_load_il(&p, img, len) != CND_ERR_OK) die("the image does not load");
    if (cnd_verify_program(&p) != CND_ERR_OK) die("the image does not verify");
    free(img);
    return 0;
}
