// libFuzzer target: the message loop of the language server.  The input holds message
// bodies, one per line; the harness frames them and checks the answers one by one.
#define _GNU_SOURCE
#include "cJSON.h"
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

int cmd_lsp(int argc, char** argv);

static void die(const char* why) { fprintf(stderr, "MONITOR: %s\n", why); abort(); }

static char* out;
static size_t out_len, at;

// The next message of the server that answers something
static cJSON* answer(void) {
    for (;;) {
        if (at == out_len) return NULL;
        static const char head[] = "Content-Length: ";
        if (out_len - at < sizeof head || memcmp(out + at, head, sizeof head - 1)) die("framing: no header");
        char* e;
        size_t n = strtoul(out + at + sizeof head - 1, &e, 10);
        if (memcmp(e, "\r\n\r\n", 4)) die("framing: header end");
        e += 4;
        if (n > out_len - (size_t)(e - out)) die("framing: body cut");
        cJSON* m = cJSON_ParseWithLength(e, n);
        at = (size_t)(e - out) + n;
        if (!m) die("a body is not JSON");
        cJSON* v = cJSON_GetObjectItemCaseSensitive(m, "jsonrpc");
        if (!cJSON_IsString(v) || strcmp(v->valuestring, "2.0")) die("not JSON-RPC 2.0");
        cJSON* method = cJSON_GetObjectItemCaseSensitive(m, "method");
        if (!method) return m;
        if (!cJSON_IsString(method) || strcmp(method->valuestring, "textDocument/publishDiagnostics")) die("unexpected notification");
        cJSON_Delete(m);
    }
}

// An id as it looks after a round trip through text; "null" stands for none
static char* spelled(const cJSON* id) {
    char* a = id ? cJSON_PrintUnformatted(id) : NULL;
    cJSON* v = a ? cJSON_Parse(a) : NULL;
    char* b = v ? cJSON_PrintUnformatted(v) : NULL;
    free(a);
    cJSON_Delete(v);
    return b ? b : strdup("null");
}

typedef struct { char* id; int maybe; } Due;
static Due* dues;
static size_t n_dues, c_dues;

static void expect(const cJSON* id, int maybe) {
    if (n_dues == c_dues) dues = realloc(dues, (c_dues = c_dues ? c_dues * 2 : 64) * sizeof *dues);
    dues[n_dues++] = (Due){spelled(id), maybe};
}

// Every due answer came, in order, and nothing else: an answer that may be left out
// (a notification by name sent with an id) can stand anywhere in its turn.
static void settle(void) {
    char** got = NULL;
    size_t n = 0, c = 0;
    for (cJSON* m; (m = answer()); cJSON_Delete(m)) {
        cJSON* id = cJSON_GetObjectItemCaseSensitive(m, "id");
        int r = cJSON_GetObjectItemCaseSensitive(m, "result") != NULL, e = cJSON_GetObjectItemCaseSensitive(m, "error") != NULL;
        if (!id || r == e) die("an answer needs an id and a result or an error");
        if (n == c) got = realloc(got, (c = c ? c * 2 : 64) * sizeof *got);
        got[n++] = spelled(id);
    }
    char* can = calloc(n + 2, 1); // can[j]: the dues so far can account for the first j answers
    can[0] = 1;
    for (size_t i = 0; i < n_dues; i++) {
        int any = 0;
        for (size_t j = n + 1; j-- > 0;) {
            can[j] = (char)((can[j] && dues[i].maybe) || (j && can[j - 1] && !strcmp(got[j - 1], dues[i].id)));
            any |= can[j];
        }
        if (!any) die("a request without its answer");
    }
    if (!can[n]) die("an answer nobody asked for");
    for (size_t j = 0; j < n; j++) free(got[j]);
    for (size_t i = 0; i < n_dues; i++) free(dues[i].id);
    n_dues = 0;
    free(got);
    free(can);
}

int LLVMFuzzerTestOneInput(const uint8_t* in, size_t n) {
    static int outfd = 0;
    if (!outfd) {
        outfd = memfd_create("out", 0);
        fflush(stdout);
        dup2(outfd, 1);
    }
    size_t cap = n * 40 + 200, len = 0;
    char* s = malloc(cap);
    const char* p = (const char*)in;
    const char* end = p + n;
    for (const char* q = p; q < end;) {
        const char* nl = memchr(q, '\n', (size_t)(end - q));
        size_t k = (size_t)((nl ? nl : end) - q);
        len += (size_t)sprintf(s + len, "Content-Length: %zu\r\n\r\n", k);
        memcpy(s + len, q, k);
        len += k;
        q += k + 1;
    }
    static const char bye[] = "Content-Length: 17\r\n\r\n{\"method\":\"exit\"}";
    memcpy(s + len, bye, sizeof bye - 1);
    len += sizeof bye - 1;
    if (ftruncate(1, 0)) _exit(3);
    lseek(1, 0, SEEK_SET);
    FILE* keep = stdin;
    stdin = fmemopen(s, len, "rb");
    int rc = cmd_lsp(0, NULL);
    fclose(stdin);
    stdin = keep;
    fflush(stdout);
    free(s);
    if (rc) die("status");
    out_len = (size_t)lseek(1, 0, SEEK_END);
    out = malloc(out_len + 1);
    if (pread(1, out, out_len, 0) != (ssize_t)out_len) _exit(3);
    out[out_len] = 0;
    at = 0;
    int over = 0;
    for (const char* q = p; q < end && !over;) {
        const char* nl = memchr(q, '\n', (size_t)(end - q));
        size_t k = (size_t)((nl ? nl : end) - q);
        char* b = malloc(k + 1);
        memcpy(b, q, k);
        b[k] = 0;
        cJSON* m = cJSON_Parse(b);
        if (!m) expect(NULL, 0);
        else {
            cJSON* id = cJSON_GetObjectItemCaseSensitive(m, "id");
            cJSON* method = cJSON_GetObjectItemCaseSensitive(m, "method");
            if (cJSON_IsString(method)) {
                const char* v = method->valuestring;
                if (!strcmp(v, "exit")) over = 1;
                else if (id) expect(id, !strncmp(v, "textDocument/did", 16));
            } else if (!cJSON_IsObject(m) || (!cJSON_HasObjectItem(m, "result") && !cJSON_HasObjectItem(m, "error"))) expect(id, 0);
            cJSON_Delete(m);
        }
        free(b);
        q += k + 1;
    }
    settle();
    free(out);
    return 0;
}
