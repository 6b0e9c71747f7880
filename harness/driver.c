// Batch driver: reads one command per line on stdin, answers one line each on the
// original stdout.  What the code under test prints goes to a capture file.
//   C json src il            compile            -> c rc diaghex ilhex|-
//   F srchex                 format             -> f hex|-
//   L slot hex               load an IL image   -> l rc verify nstr bclen name...
//   B slot hex               raw bytecode       -> l rc verify 0 bclen
//   K slot namehex           key by name        -> k id
//   N slot key               name by key        -> n hex|-
//   E slot cap fill raw fail ctxfill ans...     -> r rc cursor bits flags data events...
//   D slot hex raw fail ctxfill                 -> r ...
//   H slot mode hex seed maxcb                  -> h rc cursor bits flags ncb
//   M slot n seed maxcb hex                     -> m rc0..rc8 loaded verified timeouts callbacks badrun badflags
//     n runs of random mutations of the image in the slot, hostile host
// flags: 1 image changed, 2 tape too short, 4 input changed, 8 timed out, 16 impossible event,
//        32 cursor past the end, 64 bytes past the reported end of an encode touched
#include "host.h"
#include "compiler.h"
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>

typedef struct { uint8_t* image; uint8_t* copy; size_t len; cnd_program prog; int ok; } slot_t;
static slot_t slots[64];
static host H;
static FILE* out;
static sigjmp_buf jmp;
static void on_timer(int s) { (void)s; siglongjmp(jmp, 1); }

static int hv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static uint8_t* unhex(const char* s, size_t* n) { // exact-size heap copy
    size_t l = strlen(s);
    if (l == 1 && *s == '-') l = 0;
    *n = l / 2;
    uint8_t* p = malloc(*n);
    for (size_t i = 0; i < *n; i++) p[i] = (uint8_t)(hv(s[2 * i]) << 4 | hv(s[2 * i + 1]));
    return p;
}
static void hex(const uint8_t* p, size_t n) {
    static const char X[] = "0123456789abcdef";
    if (!n) fputc('-', out);
    for (size_t i = 0; i < n; i++) { fputc(X[p[i] >> 4], out); fputc(X[p[i] & 15], out); }
}
static uint8_t* slurp(const char* path, size_t* n) {
    FILE* f = fopen(path, "rb");
    if (!f) return NULL;
    size_t cap = 4096, len = 0, r;
    uint8_t* b = malloc(cap);
    while ((r = fread(b + len, 1, cap - len, f)) > 0) { len += r; if (len == cap) b = realloc(b, cap *= 2); }
    fclose(f);
    *n = len;
    return b;
}

static int timed(host* h, cnd_vm_ctx* ctx, cnd_mode_t mode, uint8_t* data, size_t len, int fill, int ms, cnd_error_t* rc) {
    struct itimerval t = { {0, 0}, {ms / 1000, (ms % 1000) * 1000} }, z = { {0, 0}, {0, 0} };
    if (sigsetjmp(jmp, 1)) { *rc = CND_ERR_OK; return 1; }
    setitimer(ITIMER_VIRTUAL, &t, NULL);
    *rc = host_run(h, ctx, mode, data, len, fill);
    setitimer(ITIMER_VIRTUAL, &z, NULL);
    return 0;
}

static int image_flag(slot_t* s) { return memcmp(s->image, s->copy, s->len) ? 1 : 0; }

static void load(slot_t* s, const char* hexs, int il) {
    free(s->image); free(s->copy);
    memset(s, 0, sizeof *s);
    s->image = unhex(hexs, &s->len);
    s->copy = malloc(s->len + 1);
    memcpy(s->copy, s->image, s->len);
    cnd_error_t rc = CND_ERR_OK, v = CND_ERR_OK;
    memset(&s->prog, 0xA5, sizeof s->prog);
    if (il) rc = cnd_program_load_il(&s->prog, s->image, s->len);
    else cnd_program_load(&s->prog, s->image, s->len);
    s->ok = rc == CND_ERR_OK;
    if (!s->ok) { fprintf(out, "l %d -1 0 0", rc); return; }
    v = cnd_verify_program(&s->prog);
    fprintf(out, "l %d %d %u %zu", rc, v, s->prog.string_count, s->prog.bytecode_len);
    if (il) for (unsigned i = 0; i < s->prog.string_count; i++) {
        const char* n = cnd_get_key_name(&s->prog, (uint16_t)i);
        fputc(' ', out);
        if (!n) fputc('?', out); else hex((const uint8_t*)n, strlen(n));
    }
}

// --- Mutated programs ---

static const uint64_t ODD[] = { 0, 1, 2, 3, 7, 8, 9, 16, 63, 64, 65, 127, 128, 255, 256, 65535, 65536, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu,
                                0xFFFFFFF0u, 0x7FFFFFFFFFFFFFFFULL, 0x8000000000000000ULL, ~0ULL, ~0ULL - 4 };
static uint64_t R;
static uint64_t rnd(uint64_t n) { return host_rand(&R) % n; }

static size_t mutate(uint8_t* p, size_t n, size_t cap, size_t lo) {
    if (n <= lo) return n;
    for (uint64_t k = 1 + rnd(5); k--;) {
        size_t at = lo + rnd(n - lo), w;
        switch (rnd(12)) {
            case 0: p[at] ^= (uint8_t)(1u << rnd(8)); break;
            case 1: p[at] = (uint8_t)rnd(256); break;
            case 2: case 3: p[at] = (uint8_t)(rnd(0xA6)); break; // opcodes live here
            case 4: p[at] = (uint8_t)(p[at] + (rnd(2) ? 1 : -1)); break;
            case 5: case 6: // odd integers
                w = (size_t)1 << rnd(4);
                { uint64_t v = ODD[rnd(sizeof ODD / sizeof *ODD)]; if (at + w <= n) memcpy(p + at, &v, w); }
                break;
            case 7: // delete
                w = 1 + rnd(8);
                if (at + w < n) { memmove(p + at, p + at + w, n - at - w); n -= w; }
                break;
            case 8: // insert random bytes
                w = 1 + rnd(12);
                if (n + w <= cap) { memmove(p + at + w, p + at, n - at); for (size_t i = 0; i < w; i++) p[at + i] = (uint8_t)rnd(rnd(2) ? 0xA6 : 4); n += w; }
                break;
            case 9: case 10: { // copy a piece over or into another place
                size_t from = lo + rnd(n - lo);
                w = 1 + rnd(24);
                if (from + w > n) w = n - from;
                uint8_t t[24]; memcpy(t, p + from, w);
                if (rnd(2) && n + w <= cap) { memmove(p + at + w, p + at, n - at); n += w; }
                else if (at + w > n) w = n - at;
                memcpy(p + at, t, w);
                break;
            }
            default: if (rnd(4) == 0) n = at; break; // cut
        }
        if (n <= lo) return n;
    }
    return n;
}

static char* nexttok(char** p) {
    char* s = *p;
    while (*s == ' ') s++;
    if (!*s) return NULL;
    char* e = s;
    while (*e && *e != ' ') e++;
    if (*e) *e++ = 0;
    *p = e;
    return s;
}

int main(void) {
    char* line = NULL; size_t cap = 0; ssize_t n;
    int fd = dup(1);
    out = fdopen(fd, "w");
    static char obuf[1 << 16];
    setvbuf(out, obuf, _IOFBF, sizeof obuf);
    FILE* tf = tmpfile();
    if (!tf) { fprintf(stderr, "HARNESS no tmpfile\n"); return 3; }
    int capfd = dup(fileno(tf));
    dup2(capfd, 1);
    host_init(&H);
    signal(SIGVTALRM, on_timer);
    while ((n = getline(&line, &cap, stdin)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        char* p = line;
        char* cmd = nexttok(&p);
        if (!cmd) continue;
        if (*cmd == 'C') {
            int json = atoi(nexttok(&p));
            size_t pl;
            char* hs = nexttok(&p);
            uint8_t* ps = unhex(hs, &pl);
            char* src = malloc(pl + 1); memcpy(src, ps, pl); src[pl] = 0; free(ps);
            char* il = nexttok(&p);
            fflush(stdout); if (ftruncate(capfd, 0)) {} lseek(capfd, 0, SEEK_SET);
            unlink(il);
            int rc = cnd_compile_file(src, il, json & 1, json >> 1); // 2: verbose
            fflush(stdout);
            off_t dl = lseek(capfd, 0, SEEK_END);
            uint8_t* d = malloc((size_t)dl + 1);
            ssize_t got = pread(capfd, d, (size_t)dl, 0);
            fprintf(out, "c %d ", rc);
            hex(d, got > 0 ? (size_t)got : 0); fputc(' ', out);
            free(d);
            size_t il_n; uint8_t* b = slurp(il, &il_n);
            if (b) { if (il_n) hex(b, il_n); else fputs("empty", out); free(b); } else fputs("-", out);
            free(src);
        } else if (*cmd == 'F') {
            size_t l; char* h = nexttok(&p);
            uint8_t* s = unhex(h ? h : "-", &l);
            char* z = malloc(l + 1); memcpy(z, s, l); z[l] = 0;
            char* f = cnd_format_source(z);
            fputs("f ", out);
            if (f) { fputc('=', out); hex((uint8_t*)f, strlen(f)); free(f); } else fputc('?', out);
            free(s); free(z);
        } else if (*cmd == 'L' || *cmd == 'B') {
            int i = atoi(nexttok(&p));
            char* h = nexttok(&p);
            load(&slots[i], h ? h : "-", *cmd == 'L');
        } else if (*cmd == 'K') {
            int i = atoi(nexttok(&p)); size_t l; char* h = nexttok(&p);
            uint8_t* s = unhex(h ? h : "-", &l);
            char* z = malloc(l + 1); memcpy(z, s, l); z[l] = 0;
            fprintf(out, "k %u", cnd_get_key_id(&slots[i].prog, z));
            free(s); free(z);
        } else if (*cmd == 'N') {
            int i = atoi(nexttok(&p)); const char* nm = cnd_get_key_name(&slots[i].prog, (uint16_t)atoi(nexttok(&p)));
            fputs("n ", out);
            if (!nm) fputc('?', out); else hex((const uint8_t*)nm, strlen(nm));
        } else if (*cmd == 'Z') { // missing arguments, programs without strings, error texts
            slot_t* s = &slots[atoi(nexttok(&p))];
            int bad = 0;
            cnd_program none, bare, q = s->prog;
            memset(&none, 0, sizeof none);
            uint8_t noop = OP_NOOP, data[4] = {1, 2, 3, 4};
            cnd_program_load(NULL, &noop, 1);
            cnd_program_load(&bare, &noop, 1);
            if (bare.bytecode != &noop || bare.bytecode_len != 1 || bare.string_count) bad = 1;
            if (cnd_program_load_il(NULL, s->image, s->len) == CND_ERR_OK) bad = 2;
            if (cnd_program_load_il(&q, NULL, s->len) == CND_ERR_OK) bad = 3;
            if (cnd_get_key_name(NULL, 0) || cnd_get_key_name(&bare, 0) || cnd_get_key_name(&none, 0)) bad = 4;
            if (cnd_get_key_id(NULL, "a") != 0xFFFF || cnd_get_key_id(&s->prog, NULL) != 0xFFFF) bad = 5;
            if (cnd_get_key_id(&bare, "a") != 0xFFFF || cnd_get_key_id(&none, "a") != 0xFFFF || cnd_get_key_id(&bare, "") != 0xFFFF) bad = 6;
            if (cnd_verify_program(NULL) == CND_ERR_OK || cnd_verify_program(&none) == CND_ERR_OK) bad = 7;
            if (cnd_verify_program(&bare) != CND_ERR_OK) bad = 8;
            cnd_init(NULL, CND_MODE_DECODE, &bare, data, 4, host_cb, &H);
            if (cnd_execute(NULL) == CND_ERR_OK) bad = 9;
            H.random = 0; H.nans = 0; H.fail_at = 0; host_begin(&H, &bare);
            for (int m = 0; m < 2; m++) for (int k = 0; k < 4; k++) {
                cnd_vm_ctx* ctx = malloc(sizeof *ctx); memset(ctx, m ? 0xFF : 0, sizeof *ctx);
                cnd_init(ctx, (cnd_mode_t)m, k == 0 ? NULL : k == 1 ? &none : &bare, k == 2 ? NULL : data, 4, host_cb, &H);
                cnd_error_t rc = cnd_execute(ctx);
                if ((rc == CND_ERR_OK) != (k == 3) || (unsigned)rc > 8) bad = 10 + k;
                if (k == 3 && (ctx->cursor || ctx->bit_offset)) bad = 14;
                free(ctx);
            }
            for (int a = -3; a < 300; a++) {
                const char* m = cnd_error_string((cnd_error_t)a);
                if (!m || !*m) { bad = 15; break; }
                for (int b = 0; b < 9 && b < a; b++) if (!strcmp(m, cnd_error_string((cnd_error_t)b))) bad = 16;
            }
            if (H.ncb || memcmp(data, "\1\2\3\4", 4)) bad = 17;
            fprintf(out, "z %d", bad);
        } else if (*cmd == 'E' || *cmd == 'D') {
            slot_t* s = &slots[atoi(nexttok(&p))];
            int enc = *cmd == 'E', fill = 0, flags = 0;
            size_t len; uint8_t* data; uint8_t* before = NULL;
            if (enc) {
                len = (size_t)strtoull(nexttok(&p), NULL, 10); fill = atoi(nexttok(&p));
                data = malloc(len); memset(data, fill, len);
            } else data = unhex(nexttok(&p), &len);
            before = malloc(len + 1); memcpy(before, data, len);
            H.accept_raw = atoi(nexttok(&p)); H.fail_at = atol(nexttok(&p));
            int ctxfill = atoi(nexttok(&p));
            host_answer* ans = NULL; size_t na = 0, ca = 0; char* t;
            while (enc && (t = nexttok(&p))) {
                if (na == ca) ans = realloc(ans, (ca = ca ? ca * 2 : 64) * sizeof *ans);
                if (t[0] == 's' && t[1] == '!') { ans[na].s = NULL; ans[na++].u = HOST_REFUSE; }
                else if (*t == 's') { size_t l; uint8_t* b = unhex(t + 1, &l); char* z = malloc(l + 1); memcpy(z, b, l); z[l] = 0; free(b);
                    ans[na].s = z; ans[na++].u = l; }
                else { ans[na].s = NULL; ans[na++].u = strtoull(t, NULL, 16); }
            }
            H.random = 0; H.ans = ans; H.nans = na;
            host_begin(&H, &s->prog);
            cnd_vm_ctx* ctx = malloc(sizeof *ctx);
            cnd_error_t rc;
            if (timed(&H, ctx, enc ? CND_MODE_ENCODE : CND_MODE_DECODE, data, len, ctxfill, 20000, &rc)) flags |= 8;
            flags |= image_flag(s);
            if (H.underrun) flags |= 2;
            if (!enc && memcmp(before, data, len)) flags |= 4;
            if (H.bad) flags |= 16;
            if (ctx->cursor > len) flags |= 32;
            if (enc && rc == CND_ERR_OK) {
                size_t used = ctx->cursor + (ctx->bit_offset > 0);
                for (size_t i = used; i < len; i++) if (data[i] != (uint8_t)fill) { flags |= 64; break; }
            }
            fprintf(out, "r %d %zu %u %d ", rc, ctx->cursor, ctx->bit_offset, flags);
            if (enc) { size_t used = ctx->cursor + (ctx->bit_offset > 0); hex(data, used < len ? used : len); } else fputc('-', out);
            fprintf(out, " %ld %ld%s", H.ncb, H.nraw, H.log);
            for (size_t i = 0; i < na; i++) free((void*)ans[i].s);
            free(ans); free(ctx); free(data); free(before);
        } else if (*cmd == 'H') {
            slot_t* s = &slots[atoi(nexttok(&p))];
            int mode = atoi(nexttok(&p)), flags = 0; size_t len;
            uint8_t* data = unhex(nexttok(&p), &len);
            uint8_t* before = malloc(len + 1); memcpy(before, data, len);
            H.random = 1; H.silent = 1; H.fail_at = 0; H.nans = 0;
            H.seed = strtoull(nexttok(&p), NULL, 10); H.max_cb = atol(nexttok(&p));
            host_begin(&H, &s->prog);
            cnd_vm_ctx* ctx = malloc(sizeof *ctx);
            cnd_error_t rc;
            if (timed(&H, ctx, mode, data, len, (int)(H.seed & 1 ? 0xFF : 0), 100, &rc)) flags |= 8;
            flags |= image_flag(s);
            if (mode && memcmp(before, data, len) && !memchr(s->image, OP_CONST_WRITE, s->len)) flags |= 4;
            if (H.bad & 1) flags |= 16;
            if (!(flags & 8) && ctx->cursor > len) flags |= 32;
            fprintf(out, "h %d %zu %u %d %ld", rc, ctx->cursor, ctx->bit_offset, flags, H.ncb);
            H.silent = 0; H.random = 0;
            free(ctx); free(data); free(before);
        } else if (*cmd == 'M') {
            slot_t* s = &slots[atoi(nexttok(&p))];
            long runs = atol(nexttok(&p)), rcs[9] = {0}, loaded = 0, verified = 0, timeouts = 0, cbs = 0, badrun = -1; int badflags = 0;
            R = strtoull(nexttok(&p), NULL, 10);
            long maxcb = atol(nexttok(&p));
            size_t dn; uint8_t* data0 = unhex(nexttok(&p), &dn);
            size_t icap = s->len + 256; uint8_t* work = malloc(icap);
            size_t bc0 = s->prog.bytecode ? (size_t)(s->prog.bytecode - s->image) : 0;
            for (long run = 0; run < runs && badrun < 0 && timeouts < 200; run++) {
                int flags = 0;
                memcpy(work, s->image, s->len);
                int raw = rnd(8) == 0; // bytecode alone
                size_t n1 = mutate(work, s->len, icap, rnd(8) == 0 ? 0 : bc0);
                size_t off = raw && n1 > bc0 ? bc0 : 0;
                slot_t m = {0};
                m.len = n1 - off;
                m.image = malloc(m.len); memcpy(m.image, work + off, m.len);
                m.copy = malloc(m.len + 1); memcpy(m.copy, m.image, m.len);
                cnd_error_t rc = CND_ERR_OK;
                memset(&m.prog, 0xA5, sizeof m.prog);
                if (off) cnd_program_load(&m.prog, m.image, m.len); else rc = cnd_program_load_il(&m.prog, m.image, m.len);
                if (rc == CND_ERR_OK) {
                    loaded++;
                    if (cnd_verify_program(&m.prog) == CND_ERR_OK) verified++;
                    for (int j = 0; j < 3; j++) {
                        const char* nm = cnd_get_key_name(&m.prog, (uint16_t)rnd(j ? 65536 : m.prog.string_count + 2u));
                        if (nm) { if (cnd_get_key_id(&m.prog, nm) >= m.prog.string_count) flags |= 128; }
                    }
                    int mode = (int)rnd(2);
                    size_t len = rnd(4) == 0 ? rnd(dn + 1) : rnd(4) == 0 ? rnd(300) : dn;
                    uint8_t* data = malloc(len); uint8_t* before = malloc(len + 1);
                    for (size_t i = 0; i < len; i++) data[i] = i < dn ? data0[i] : (uint8_t)rnd(256);
                    if (rnd(2)) for (uint64_t k = rnd(4); k-- && len;) data[rnd(len)] = (uint8_t)(rnd(2) ? rnd(256) : ODD[rnd(14)]);
                    memcpy(before, data, len);
                    H.random = 1; H.silent = 1; H.fail_at = 0; H.nans = 0; H.seed = R; H.max_cb = maxcb; H.accept_raw = (int)rnd(2);
                    host_begin(&H, &m.prog);
                    cnd_vm_ctx* ctx = malloc(sizeof *ctx);
                    if (timed(&H, ctx, mode, data, len, (int)rnd(2) ? 0xFF : 0, 60, &rc)) timeouts++;
                    else {
                        if ((unsigned)rc > 8) flags |= 256; else rcs[rc]++;
                        if (ctx->cursor > len) flags |= 32;
                        if (mode && memcmp(before, data, len) && !memchr(m.image, OP_CONST_WRITE, m.len)) flags |= 4;
                        if (H.bad & 1) flags |= 16;
                    }
                    cbs += H.ncb;
                    flags |= image_flag(&m);
                    R = H.seed;
                    free(ctx); free(data); free(before);
                }
                free(m.image); free(m.copy);
                if (flags) { badrun = run; badflags = flags; }
            }
            fputs("m", out);
            for (int j = 0; j < 9; j++) fprintf(out, " %ld", rcs[j]);
            fprintf(out, " %ld %ld %ld %ld %ld %d", loaded, verified, timeouts, cbs, badrun, badflags);
            H.silent = 0; H.random = 0;
            free(work); free(data0);
        } else {
            fprintf(out, "?");
        }
        fputc('\n', out);
        fflush(out);
    }
    return 0;
}
