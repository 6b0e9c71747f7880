// Memory monitor: how many bytes stay allocated, and how many files open, after a piece of
// work that is repeated: it is done once before the first measurement.
//	C n json path il   compile                        -> c rc bytes files
//	F n hex            format                         -> f ok bytes files
//	S n file           run a language server session  -> s status bytes files
#define _GNU_SOURCE
#undef main
#include "compiler.h"
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>

size_t __sanitizer_get_current_allocated_bytes(void);
int cmd_lsp(int argc, char** argv);

static FILE* out;
static int capfd;

static long now(void) { return (long)__sanitizer_get_current_allocated_bytes(); }

static int files(void) {
    int n = 0;
    for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) != -1;
    return n;
}

static void quiet(void) {
    fflush(stdout);
    if (ftruncate(capfd, 0)) {}
    lseek(capfd, 0, SEEK_SET);
}

static char* next(char** p) {
    char* s = *p;
    while (*s == ' ') s++;
    char* e = s;
    while (*e && *e != ' ') e++;
    if (*e) *e++ = 0;
    *p = e;
    return s;
}

static int session(const char* path) {
    FILE* keep = stdin;
    stdin = fopen(path, "rb");
    if (!stdin) _exit(3);
    int rc = cmd_lsp(0, NULL);
    fclose(stdin);
    stdin = keep;
    return rc;
}

int main(void) {
    char* line = NULL; size_t cap = 0; ssize_t n;
    out = fdopen(dup(1), "w");
    static char obuf[1 << 12], sbuf[1 << 12];
    setvbuf(out, obuf, _IOFBF, sizeof obuf);
    FILE* tf = tmpfile();
    if (!tf) return 3;
    capfd = dup(fileno(tf));
    dup2(capfd, 1);
    setvbuf(stdout, sbuf, _IOFBF, sizeof sbuf);
    while ((n = getline(&line, &cap, stdin)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        char* p = line;
        char* cmd = next(&p);
        int rounds = strchr("CFS", *cmd) && *cmd ? atoi(next(&p)) : 0, rc = 0, json = *cmd == 'C' ? atoi(next(&p)) : 0;
        if (rounds) {
            char *a = next(&p), *b = next(&p), *z = NULL;
            if (*cmd == 'F') {
                size_t l = strlen(a) / 2;
                z = malloc(l + 1);
                for (size_t i = 0; i < l; i++) { unsigned v; sscanf(a + 2 * i, "%2x", &v); z[i] = (char)v; }
                z[l] = 0;
            }
            long m = 0;
            int fd = 0;
            for (int k = 0; k <= rounds; k++) {
                if (k == 1) { m = now(); fd = files(); }
                if (*cmd == 'C') rc = cnd_compile_file(a, b, json, 0);
                else if (*cmd == 'S') rc = session(a);
                else {
                    char* f = cnd_format_source(z);
                    rc = f != NULL;
                    free(f);
                }
                quiet();
            }
            fprintf(out, "%c %d %ld %d", *cmd | 32, rc, now() - m, files() - fd);
            free(z);
        } else fputs("?", out);
        fputc('\n', out);
        fflush(out);
    }
    return 0;
}
