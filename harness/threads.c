// Many executions of shared programs at once: on threads, and nested inside each other's
// callbacks.  Every result is compared with the one of the same job run alone.
//   I hex                       image -> i
//   J img E cap ans... / D hex  job   -> j rc
//   T threads iterations seed   -> t executions switches | bad job what
//   N iterations seed           -> n executions deepest | bad job what
#include "host.h"
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

typedef struct { cnd_program prog; size_t len; uint8_t* at; uint8_t* copy; } image;
typedef struct { cnd_error_t rc; size_t cursor; unsigned bits; char* log; uint8_t* data; } result;
typedef struct { int img; int enc; size_t len; uint8_t* in; host_answer* ans; size_t nans; result alone; } job;
static image images[256]; static int nimages;
static job jobs[4096]; static int njobs;

typedef struct runner { host h[5]; cnd_vm_ctx ctx[5]; uint64_t seed; int depth, deepest, nested; long runs; int badjob; const char* why; long iters; long yields; } runner;

static int hv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static uint8_t* unhex(const char* s, size_t* n) {
    size_t l = strlen(s);
    if (l == 1 && *s == '-') l = 0;
    *n = l / 2;
    uint8_t* p = malloc(*n + 1);
    for (size_t i = 0; i < *n; i++) p[i] = (uint8_t)(hv(s[2 * i]) << 4 | hv(s[2 * i + 1]));
    return p;
}

static void hook(host* h);

static const char* run_job(runner* r, int j, int lvl, result* keep) {
    job* b = &jobs[j];
    host* h = &r->h[lvl];
    cnd_vm_ctx* c = &r->ctx[lvl];
    uint8_t* data = malloc(b->len + 1);
    if (b->enc) memset(data, 0, b->len); else memcpy(data, b->in, b->len);
    h->random = 0; h->silent = 0; h->fail_at = 0; h->accept_raw = 1;
    h->ans = b->ans; h->nans = b->nans; h->hook = keep ? NULL : hook; h->owner = r;
    host_begin(h, &images[b->img].prog);
    uint64_t x = host_rand(&r->seed);
    // a context as the previous run left it, or filled with something
    cnd_error_t rc = host_run(h, c, b->enc ? CND_MODE_ENCODE : CND_MODE_DECODE, data, b->len, x % 3 == 0 ? -1 : x % 3 == 1 ? 0xFF : 0);
    r->runs++;
    const char* why = NULL;
    if (keep) {
        keep->rc = rc; keep->cursor = c->cursor; keep->bits = c->bit_offset; keep->log = strdup(h->log); keep->data = data;
        return NULL;
    }
    result* a = &b->alone;
    if (rc != a->rc) why = "result code";
    else if (strcmp(h->log, a->log)) why = "events";
    else if (c->cursor != a->cursor || c->bit_offset != a->bits) why = "cursor";
    else if (memcmp(data, a->data, b->len)) why = "bytes";
    free(data);
    return why;
}

static void hook(host* h) {
    runner* r = h->owner;
    uint64_t x = host_rand(&r->seed);
    if (!r->nested) {
        if (x % 8 == 0) { r->yields++; sched_yield(); }
        if (x % 64 == 1) { const cnd_program* p = h->prog; const char* n = cnd_get_key_name(p, (uint16_t)(x >> 8) % (p->string_count + 1)); if (n) cnd_get_key_id(p, n); }
        return;
    }
    int lvl = (int)(h - r->h);
    if (lvl < 4 && x % 6 == 0) {
        int j = (int)((x >> 16) % (uint64_t)njobs);
        if (lvl + 1 > r->deepest) r->deepest = lvl + 1;
        const char* w = run_job(r, j, lvl + 1, NULL);
        if (w && !r->why) { r->why = w; r->badjob = j; }
    }
}

static pthread_barrier_t bar;
static atomic_int stop;
static void* thread(void* a) {
    runner* r = a;
    pthread_barrier_wait(&bar);
    for (long i = 0; i < r->iters && !atomic_load_explicit(&stop, memory_order_relaxed); i++) {
        // half of the time everybody works on the same few jobs
        int j = (int)(host_rand(&r->seed) % (uint64_t)(i % 2 && njobs > 2 ? 2 : njobs));
        const char* w = run_job(r, j, 0, NULL);
        if (w) { r->why = w; r->badjob = j; atomic_store(&stop, 1); break; }
    }
    return NULL;
}

static char* tok(char** p) {
    char* s = *p;
    while (*s == ' ') s++;
    if (!*s) return NULL;
    char* e = s;
    while (*e && *e != ' ') e++;
    if (*e) *e++ = 0;
    *p = e;
    return s;
}

static runner* new_runner(int levels, uint64_t seed) {
    runner* r = calloc(1, sizeof *r);
    for (int i = 0; i < levels; i++) host_init(&r->h[i]);
    r->seed = seed; r->badjob = -1;
    return r;
}

static int images_ok(void) {
    for (int i = 0; i < nimages; i++) if (memcmp(images[i].at, images[i].copy, images[i].len)) return 0;
    return 1;
}

int main(void) {
    char* line = NULL; size_t cap = 0; ssize_t n;
    runner* one = new_runner(5, 1);
    while ((n = getline(&line, &cap, stdin)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        char* p = line; char* cmd = tok(&p);
        if (!cmd) continue;
        if (*cmd == 'I') {
            image* m = &images[nimages++];
            uint8_t* b = unhex(tok(&p), &m->len);
            size_t pg = 4096, sz = (m->len + pg - 1) / pg * pg;
            uint8_t* map = mmap(NULL, sz + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            m->at = map + sz - m->len;
            memcpy(m->at, b, m->len);
            mprotect(map, sz, PROT_READ); // a write or a read past the end is a fault
            mprotect(map + sz, pg, PROT_NONE);
            m->copy = b;
            printf("i %d\n", cnd_program_load_il(&m->prog, m->at, m->len));
        } else if (*cmd == 'J') {
            job* b = &jobs[njobs];
            memset(b, 0, sizeof *b);
            b->img = atoi(tok(&p));
            b->enc = *tok(&p) == 'E';
            if (b->enc) b->len = strtoul(tok(&p), NULL, 10); else b->in = unhex(tok(&p), &b->len);
            char* t; size_t ca = 0;
            while (b->enc && (t = tok(&p))) {
                if (b->nans == ca) b->ans = realloc(b->ans, (ca = ca ? ca * 2 : 16) * sizeof *b->ans);
                if (*t == 's') { size_t l; uint8_t* s = unhex(t + 1, &l); s[l] = 0; b->ans[b->nans].s = (char*)s; b->ans[b->nans++].u = l; }
                else { b->ans[b->nans].s = NULL; b->ans[b->nans++].u = strtoull(t, NULL, 16); }
            }
            run_job(one, njobs, 0, &b->alone);
            njobs++;
            printf("j %d\n", b->alone.rc);
        } else if (*cmd == 'T') {
            int nt = atoi(tok(&p)); long it = atol(tok(&p)); uint64_t seed = strtoull(tok(&p), NULL, 10);
            pthread_t th[64]; runner* rs[64];
            atomic_store(&stop, 0);
            pthread_barrier_init(&bar, NULL, (unsigned)nt);
            for (int i = 0; i < nt; i++) { rs[i] = new_runner(1, seed * 977 + (uint64_t)i); rs[i]->iters = it; }
            for (int i = 0; i < nt; i++) if (pthread_create(&th[i], NULL, thread, rs[i])) { printf("error thread\n"); return 3; }
            long runs = 0, y = 0; int bad = -1; const char* why = NULL;
            for (int i = 0; i < nt; i++) {
                pthread_join(th[i], NULL);
                runs += rs[i]->runs; y += rs[i]->yields;
                if (rs[i]->why) { bad = rs[i]->badjob; why = rs[i]->why; }
                host_free(&rs[i]->h[0]); free(rs[i]);
            }
            if (!why && !images_ok()) { bad = 0; why = "program image"; }
            if (why) printf("bad %d %s\n", bad, why); else printf("t %ld %ld\n", runs, y);
        } else if (*cmd == 'N') {
            long it = atol(tok(&p)); one->seed = strtoull(tok(&p), NULL, 10);
            one->nested = 1; one->why = NULL; one->runs = 0; one->deepest = 0;
            for (long i = 0; i < it && !one->why; i++) {
                int j = (int)(i % njobs);
                const char* w = run_job(one, j, 0, NULL);
                if (w && !one->why) { one->why = w; one->badjob = j; }
            }
            if (!one->why && !images_ok()) { one->badjob = 0; one->why = "program image"; }
            if (one->why) printf("bad %d %s\n", one->badjob, one->why); else printf("n %ld %d\n", one->runs, one->deepest);
        }
        fflush(stdout);
    }
    return 0;
}
