// A native host for the VM: answers the callbacks of one run and records what it saw.
#ifndef HOST_H
#define HOST_H
#include "concordia.h"
#include <stddef.h>
#include <stdint.h>

typedef struct {
    uint64_t u;       // number, or length of the string
    const char* s;    // string answers only
} host_answer;
#define HOST_REFUSE ((uint64_t)-1) // as the length of a string answer: the host refuses the field

typedef struct host {
    const cnd_program* prog;
    // How to behave
    int accept_raw;          // take byte arrays in bulk (OP_RAW_BYTES)
    long fail_at;            // refuse the n-th callback (1-based), 0: never
    int random;              // hostile mode: answers from `seed` instead of the tape
    uint64_t seed;
    long max_cb;             // hostile mode: refuse everything after this many
    int silent;              // do not record
    // Tape of answers for the fields asked for while encoding
    const host_answer* ans;
    size_t nans, apos;
    int underrun;
    // What the host knows of every field, by key
    uint64_t* store;         // 65536 entries, zeroed by host_begin for the program's keys
    // Record of the events
    char* log;
    size_t log_len, log_cap;
    long ncb, nquery, nraw;
    uint32_t last_count;
    int bulk_ok;             // no explicit RAW_BYTES in the program: a bulk offer follows its count
    int counted;             // the previous callback told a count
    volatile uint8_t sink;
    int bad;                 // an event that cannot be right (string outside the buffer...)
    char* scratch;           // hostile mode: string storage
    void (*hook)(struct host*); // called first in every callback
    void* owner;
} host;

void host_init(host* h);             // allocates store, log and scratch
void host_free(host* h);
void host_begin(host* h, const cnd_program* prog);
cnd_error_t host_cb(cnd_vm_ctx* ctx, uint16_t key, uint8_t op, void* ptr);
cnd_error_t host_run(host* h, cnd_vm_ctx* ctx, cnd_mode_t mode, uint8_t* data, size_t len, int ctx_fill);
uint64_t host_rand(uint64_t* s);
#endif
