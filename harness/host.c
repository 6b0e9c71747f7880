#include "host.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#endif
#endif

uint64_t host_rand(uint64_t* s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

void host_init(host* h) {
    memset(h, 0, sizeof(*h));
    h->store = calloc(65536, sizeof(uint64_t));
    h->log_cap = 1 << 22;
    h->log = malloc(h->log_cap);
    h->log[0] = 0;
    h->scratch = malloc(70001);
}

void host_free(host* h) { free(h->store); free(h->log); free(h->scratch); }

void host_begin(host* h, const cnd_program* prog) {
    h->prog = prog;
    h->apos = 0;
    h->underrun = 0;
    h->log_len = 0;
    h->log[0] = 0;
    h->ncb = h->nquery = h->nraw = 0;
    h->last_count = 0;
    h->bad = 0;
    h->counted = 0;
    h->bulk_ok = !(prog->bytecode_len && memchr(prog->bytecode, OP_RAW_BYTES, prog->bytecode_len));
    if (h->random || !prog->string_count) memset(h->store, 0, 65536 * sizeof(uint64_t));
    else memset(h->store, 0, ((size_t)prog->string_count + 1) * sizeof(uint64_t));
}

static const char HEX[] = "0123456789abcdef";

static void put(host* h, const char* s) {
    size_t n = strlen(s);
    if (h->log_len + n + 1 > h->log_cap) { h->bad |= 2; return; }
    memcpy(h->log + h->log_len, s, n + 1);
    h->log_len += n;
}

static void put_u64(host* h, uint64_t v) {
    char b[24]; int i = 23; b[i] = 0;
    do { b[--i] = (char)('0' + v % 10); v /= 10; } while (v);
    put(h, b + i);
}

static void put_i64(host* h, int64_t v) {
    if (v < 0) { put(h, "-"); put_u64(h, 0 - (uint64_t)v); } else put_u64(h, (uint64_t)v);
}

static void put_hex(host* h, const uint8_t* p, size_t n) {
    if (h->log_len + 2 * n + 1 > h->log_cap) { h->bad |= 2; return; }
    char* o = h->log + h->log_len;
    for (size_t i = 0; i < n; i++) { *o++ = HEX[p[i] >> 4]; *o++ = HEX[p[i] & 15]; }
    *o = 0;
    h->log_len += 2 * n;
}

static void head(host* h, uint8_t op, uint16_t key) {
    char b[3] = { HEX[op >> 4], HEX[op & 15], 0 };
    put(h, " "); put(h, b); put(h, ":"); put_u64(h, key); put(h, ":");
}

static uint64_t random_value(host* h) {
    uint64_t r = host_rand(&h->seed);
    switch (r % 8) {
        case 0: return 0;
        case 1: case 2: case 3: return (r >> 8) % 4;
        case 4: return (r >> 8) % 300;
        case 5: return (uint64_t)-1 - ((r >> 8) % 3);
        case 6: { static const uint64_t e[] = { 0x8000000000000000ULL, 0x7FFFFFFFFFFFFFFFULL, 0x7FF8000000000000ULL,
                    0x7FF0000000000000ULL, 0xFFF0000000000000ULL, 0x3FF0000000000000ULL, 0x43E0000000000000ULL, 0x80000000ULL };
                  return e[(r >> 8) % 8]; }
        default: return host_rand(&h->seed);
    }
}

static host_answer next_answer(host* h) {
    static const host_answer none = { 0, NULL };
    if (h->apos >= h->nans) { h->underrun = 1; return none; }
    return h->ans[h->apos++];
}

static void store_f64(host* h, uint16_t key, double d) { uint64_t u; memcpy(&u, &d, 8); h->store[key] = u; }

cnd_error_t host_cb(cnd_vm_ctx* ctx, uint16_t key, uint8_t op, void* ptr) {
    host* h = (host*)ctx->user_ptr;
    int enc = ctx->mode == CND_MODE_ENCODE;
    h->ncb++;
    if (h->hook) h->hook(h);
    int counted = h->counted;
    h->counted = op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32 || op == OP_ARR_DYNAMIC;
    if (h->fail_at && h->ncb == h->fail_at) return CND_ERR_CALLBACK;
    if (h->random) {
        if (h->ncb > h->max_cb) return CND_ERR_CALLBACK;
        if (host_rand(&h->seed) % 200 == 0) return CND_ERR_CALLBACK;
    }
    switch (op) {
        case OP_CTX_QUERY: case OP_LOAD_CTX:
            h->nquery++;
            if (!ptr) { h->bad |= 1; return CND_ERR_OK; }
            *(uint64_t*)ptr = (h->random && host_rand(&h->seed) % 2) ? random_value(h) : h->store[key];
            if (h->random && host_rand(&h->seed) % 8 == 0) {
                // An index that, times the size of a table entry, wraps around to before the program
                uint64_t r = host_rand(&h->seed);
                *(uint64_t*)ptr = (0 - (uint64_t)ctx->ip - (r >> 20 & 1 ? r % 8 : r % 64)) / (r >> 8 & 3 ? 4 : r >> 10 & 1 ? 12 : 8) + (r >> 16 & 1 ? 0 : (r >> 24) % 3);
            }
            return CND_ERR_OK;
        case OP_STORE_CTX:
            h->store[key] = *(uint64_t*)ptr;
            if (!h->silent) { head(h, op, key); put_u64(h, *(uint64_t*)ptr); }
            return CND_ERR_OK;
        case OP_ENTER_STRUCT: case OP_EXIT_STRUCT: case OP_ARR_END:
            if (!h->silent) head(h, op, key);
            return CND_ERR_OK;
        case OP_RAW_BYTES: {
            if (h->random) {
                // The whole block is the host's to read and write
                const uint8_t* b = ctx->data_buffer;
                if ((uint8_t*)ptr < b || (uint8_t*)ptr > b + ctx->data_len) h->bad |= 1;
                else if (counted && h->bulk_ok) {
                    if (h->last_count > (size_t)(b + ctx->data_len - (uint8_t*)ptr)) h->bad |= 1;
                    else if (enc) memset(ptr, 0x5A, h->last_count);
                    else for (uint32_t i = 0; i < h->last_count; i++) h->sink += ((uint8_t*)ptr)[i];
                }
                return host_rand(&h->seed) % 2 ? CND_ERR_OK : CND_ERR_CALLBACK;
            }
            if (!h->accept_raw) return CND_ERR_CALLBACK;
            uint8_t* p = (uint8_t*)ptr;
            h->nraw++;
            for (uint32_t i = 0; i < h->last_count; i++) {
                if (enc) p[i] = (uint8_t)next_answer(h).u;
                if (!h->silent) { put(h, " r8:"); put_u64(h, key); put(h, ":"); put_u64(h, p[i]); }
                h->store[key] = p[i];
            }
            if (!h->silent) head(h, OP_ARR_END, 0);
            return CND_ERR_OK;
        }
        case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: {
            if (!ptr) { h->bad |= 1; return CND_ERR_OK; }
            if (enc) {
                if (h->random) {
                    uint64_t r = host_rand(&h->seed);
                    size_t n = r % 4 == 0 ? 0 : r % 4 == 1 ? (r >> 8) % 8 : r % 4 == 2 ? (r >> 8) % 300 : ((r >> 8) % 16 ? 3 : 70000);
                    if (r % 16 == 15) { *(const char**)ptr = NULL; return CND_ERR_OK; }
                    memset(h->scratch, 'x', n); h->scratch[n] = 0;
                    *(const char**)ptr = h->scratch;
                } else {
                    host_answer a = next_answer(h);
                    if (!a.s && a.u == HOST_REFUSE) return CND_ERR_CALLBACK;
                    *(const char**)ptr = a.s;
                    if (!h->silent) { head(h, op, key); put(h, "s"); put_hex(h, (const uint8_t*)(a.s ? a.s : ""), a.s ? a.u : 0); }
                }
                return CND_ERR_OK;
            }
            const uint8_t* p = (const uint8_t*)ptr;
            const uint8_t* base = ctx->data_buffer;
            size_t n = 0;
            size_t pre = op == OP_STR_NULL ? 0 : op == OP_STR_PRE_U8 ? 1 : op == OP_STR_PRE_U16 ? 2 : 4;
            if (p < base + pre || p > base + ctx->data_len) { h->bad |= 1; return CND_ERR_OK; }
            size_t room = (size_t)(base + ctx->data_len - p);
            if (pre == 0) {
                const uint8_t* z = memchr(p, 0, room);
                if (!z) { h->bad |= 1; return CND_ERR_OK; }
                n = (size_t)(z - p);
            } else {
                for (size_t i = 0; i < pre; i++) {
                    n = (n << 8) | (ctx->endianness == CND_BE ? p[(ptrdiff_t)i - (ptrdiff_t)pre] : p[-1 - (ptrdiff_t)i]);
                }
                if (n > room) { h->bad |= 1; return CND_ERR_OK; }
            }
            if (!h->silent) { head(h, op, key); put(h, "s"); put_hex(h, p, n); }
            return CND_ERR_OK;
        }
        default: break;
    }
    if (!ptr) { h->bad |= 1; return CND_ERR_OK; }

    uint64_t a = 0;
    if (enc && (h->random || (op != OP_ARR_FIXED && op != OP_ARR_DYNAMIC))) {
        a = h->random ? random_value(h) : next_answer(h).u;
        if (h->random && op >= OP_ARR_FIXED && op <= OP_ARR_PRE_U32 && host_rand(&h->seed) % 8) a %= 5;
    }
#define SCALAR(ctype, fmt, wide) { ctype v; if (enc) { v = (ctype)a; memcpy(ptr, &v, sizeof v); } else memcpy(&v, ptr, sizeof v); \
        if (!h->silent) { head(h, op, key); fmt(h, v); } wide; break; }
    switch (op) {
        case OP_IO_U8: case OP_IO_BOOL: case OP_IO_BIT_BOOL: SCALAR(uint8_t, put_u64, h->store[key] = v)
        case OP_IO_U16: SCALAR(uint16_t, put_u64, h->store[key] = v)
        case OP_IO_U32: SCALAR(uint32_t, put_u64, h->store[key] = v)
        case OP_IO_U64: case OP_IO_BIT_U: SCALAR(uint64_t, put_u64, h->store[key] = v)
        case OP_IO_I8: SCALAR(int8_t, put_i64, h->store[key] = (uint64_t)(int64_t)v)
        case OP_IO_I16: SCALAR(int16_t, put_i64, h->store[key] = (uint64_t)(int64_t)v)
        case OP_IO_I32: SCALAR(int32_t, put_i64, h->store[key] = (uint64_t)(int64_t)v)
        case OP_IO_I64: case OP_IO_BIT_I: SCALAR(int64_t, put_i64, h->store[key] = (uint64_t)v)
        case OP_IO_F32: SCALAR(uint32_t, put_u64, { float f; memcpy(&f, &v, 4); store_f64(h, key, f); })
        case OP_IO_F64: SCALAR(uint64_t, put_u64, h->store[key] = v)
        case OP_ARR_PRE_U8: SCALAR(uint8_t, put_u64, h->last_count = v)
        case OP_ARR_PRE_U16: SCALAR(uint16_t, put_u64, h->last_count = v)
        case OP_ARR_PRE_U32: SCALAR(uint32_t, put_u64, h->last_count = v)
        case OP_ARR_FIXED: case OP_ARR_DYNAMIC: {
            // The count is the schema's or another field's; the host only learns it
            uint32_t v; memcpy(&v, ptr, 4);
            if (!h->silent) { head(h, op, key); put_u64(h, v); }
            h->last_count = v;
            break;
        }
        default:
            if (!h->silent) { head(h, op, key); put(h, "?"); }
            break;
    }
    return CND_ERR_OK;
}

cnd_error_t host_run(host* h, cnd_vm_ctx* ctx, cnd_mode_t mode, uint8_t* data, size_t len, int ctx_fill) {
    if (ctx_fill >= 0) memset(ctx, ctx_fill, sizeof(*ctx)); // cnd_init has to set whatever matters
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
    __msan_poison(ctx, sizeof(*ctx));
#endif
#endif
    cnd_init(ctx, mode, h->prog, data, len, host_cb, h);
    return cnd_execute(ctx);
}
