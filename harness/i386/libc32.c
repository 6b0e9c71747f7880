// The few C library functions the batch driver and the VM need, for a 32-bit x86
// Linux process without a C library (none is installed).  Every heap block has pages
// without access on both sides; alternate blocks stand against the page after or
// before, and the slack on the other side is checked when the block is freed.
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

static int sys(int n, long a, long b, long c, long d, long e, long f) {
    int r;
    struct { long n, f; } x = { n, f };
    __asm__ volatile("pushl %%ebp; pushl %%ebx; movl 4(%%eax), %%ebp; movl (%%eax), %%eax; movl %2, %%ebx; int $0x80; popl %%ebx; popl %%ebp"
                     : "=a"(r) : "0"(&x), "r"(a), "c"(b), "d"(c), "S"(d), "D"(e) : "memory");
    return r;
}
#define SYS3(n, a, b, c) sys(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)

void _exit(int c) { for (;;) SYS3(252, c, 0, 0); }
void exit(int c) { _exit(c); }
void abort(void) { _exit(97); }
static void die(const char* m) { SYS3(4, 2, m, strlen(m)); _exit(98); }

// --- Memory and strings ---
void* memcpy(void* d, const void* s, size_t n) { void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void* memset(void* d, int c, size_t n) { void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
void* memmove(void* d, const void* s, size_t n) {
    if ((uintptr_t)d <= (uintptr_t)s || (uintptr_t)d - (uintptr_t)s >= n) return memcpy(d, s, n);
    volatile unsigned char* p = d; const unsigned char* q = s;
    while (n--) p[n] = q[n];
    return d;
}
int memcmp(const void* a, const void* b, size_t n) {
    const volatile unsigned char *p = a, *q = b;
    for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
    return 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* memchr(const void* s, int c, size_t n) {
    const volatile unsigned char* p = s;
    for (; n; n--, p++) if (*p == (unsigned char)c) return (void*)p;
    return NULL;
}
size_t strlen(const char* s) { const volatile char* p = s; while (*p) p++; return (size_t)(p - s); }
size_t strnlen(const char* s, size_t m) { const char* z = memchr(s, 0, m); return z ? (size_t)(z - s) : m; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return NULL; } }
char* strcpy(char* d, const char* s) { memcpy(d, s, strlen(s) + 1); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t l = strnlen(s, n); memcpy(d, s, l); memset(d + l, 0, n - l); return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }

// --- Heap ---
#define PAGE 4096u
#define SLACK 64u
typedef struct { uint32_t base, size; } block;
static block blocks[1u << 20]; // by page number of the pointer handed out
static uint32_t spare[16][256], nspare[16];
static unsigned turn;

void* malloc(size_t n) {
    if (n > 1u << 30) { errno = ENOMEM; return NULL; }
    uint32_t k = (n + PAGE - 1) / PAGE, base;
    if (k < 16 && nspare[k]) base = spare[k][--nspare[k]];
    else {
        int m = sys(192, 0, (k + 2) * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if ((unsigned)m > -4096u) { errno = ENOMEM; return NULL; }
        base = (uint32_t)m;
        if (k && SYS3(125, base + PAGE, k * PAGE, PROT_READ | PROT_WRITE)) die("mprotect\n");
    }
    uint32_t lo = base + PAGE, hi = lo + k * PAGE, slack = hi - lo - n, s = slack < SLACK ? slack : SLACK;
    int right = turn++ & 1;
    uint8_t* p = (uint8_t*)(right ? hi - n : lo);
    memset(right ? p - s : p + n, 0xC5, s);
    memset(p, 0xBE, n < 8192 ? n : 0);
    blocks[(uint32_t)p >> 12] = (block){ base, n };
    return p;
}
static void check(uint8_t* p, block b) {
    uint32_t k = (b.size + PAGE - 1) / PAGE, slack = k * PAGE - b.size, s = slack < SLACK ? slack : SLACK;
    uint8_t* q = (uint32_t)p == b.base + PAGE && slack ? p + b.size : p - s;
    for (uint32_t i = 0; i < s; i++) if (q[i] != 0xC5) die("written past a heap block\n");
}
void free(void* v) {
    if (!v) return;
    block b = blocks[(uint32_t)v >> 12];
    if (!b.base) die("free of no block\n");
    blocks[(uint32_t)v >> 12].base = 0;
    check(v, b);
    uint32_t k = (b.size + PAGE - 1) / PAGE;
    if (k < 16 && nspare[k] < 256) spare[k][nspare[k]++] = b.base;
    else SYS3(91, b.base, (k + 2) * PAGE, 0);
}
void* calloc(size_t a, size_t b) {
    if (b && a > (1u << 30) / b) return NULL;
    void* p = malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
void* realloc(void* v, size_t n) {
    void* p = malloc(n);
    if (p && v) { size_t o = blocks[(uint32_t)v >> 12].size; memcpy(p, v, o < n ? o : n); free(v); }
    return p;
}

// --- Files: descriptor and buffer ---
typedef struct { int fd; size_t n; char b[65536]; } file;
static file f_in = { 0 }, f_out = { 1 }, f_err = { 2 }, f_more[4];
static int more;
FILE *stdin = (FILE*)&f_in, *stdout = (FILE*)&f_out, *stderr = (FILE*)&f_err;
static int err_no;
int* __errno_location(void) { return &err_no; }

ssize_t write(int fd, const void* p, size_t n) { return SYS3(4, fd, p, n); }
int fflush(FILE* v) {
    file* f = (file*)v;
    if (!f) return 0;
    for (size_t at = 0; at < f->n;) {
        int w = write(f->fd, f->b + at, f->n - at);
        if (w == -EINTR) continue;
        if (w <= 0) _exit(3);
        at += (size_t)w;
    }
    f->n = 0;
    return 0;
}
int fputc(int c, FILE* v) { file* f = (file*)v; f->b[f->n++] = (char)c; if (f->n == sizeof f->b || f == &f_err) fflush(v); return c; }
int putc(int c, FILE* v) { return fputc(c, v); }
int putchar(int c) { return fputc(c, stdout); }
int fputs(const char* s, FILE* v) { while (*s) fputc(*s++, v); return 0; }
int puts(const char* s) { fputs(s, stdout); return fputc('\n', stdout); }
size_t fwrite(const void* p, size_t a, size_t b, FILE* v) { for (size_t i = 0; i < a * b; i++) fputc(((const char*)p)[i], v); return b; }
int vfprintf(FILE* v, const char* f, va_list ap) {
    for (; *f; f++) {
        if (*f != '%') { fputc(*f, v); continue; }
        f++;
        while (*f == '0' || *f == '2' || *f == '.') f++; // widths are not honoured
        int l = 0;
        while (*f == 'l' || *f == 'z') { if (*f == 'l') l++; f++; }
        if (*f == 's') { fputs(va_arg(ap, const char*), v); continue; }
        if (*f == 'c') { fputc(va_arg(ap, int), v); continue; }
        if (*f == '%') { fputc('%', v); continue; }
        uint64_t u = l > 1 ? va_arg(ap, uint64_t) : *f == 'd' ? (uint64_t)(int64_t)va_arg(ap, int) : va_arg(ap, unsigned);
        if (*f == 'd' && (int64_t)u < 0) { fputc('-', v); u = 0 - u; }
        char t[24]; int i = 24; unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : 10;
        do { t[--i] = "0123456789abcdef"[u % base]; u /= base; } while (u);
        while (i < 24) fputc(t[i++], v);
    }
    return 0;
}
int fprintf(FILE* v, const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(v, f, ap); va_end(ap); return r; }
int printf(const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
int dup(int a) { return SYS3(41, a, 0, 0); }
int dup2(int a, int b) { return SYS3(63, a, b, 0); }
FILE* fdopen(int fd, const char* m) { file* f = &f_more[more++]; f->fd = fd; return (FILE*)f; }
FILE* tmpfile(void) { return fdopen(SYS3(5, "/dev/null", 1, 0), "w"); } // what the VM prints is of no interest
int fileno(FILE* v) { return ((file*)v)->fd; }
int setvbuf(FILE* v, char* b, int m, size_t n) { return 0; }
FILE* fopen(const char* a, const char* b) { return NULL; }
int fclose(FILE* v) { return fflush(v); }
size_t fread(void* p, size_t a, size_t b, FILE* v) { return 0; }
int ftruncate(int fd, off_t n) { return 0; }
off_t lseek(int fd, off_t a, int b) { return 0; }
ssize_t pread(int fd, void* p, size_t n, off_t o) { return 0; }
int unlink(const char* p) { return -1; }

ssize_t __getdelim(char** line, size_t* cap, int delim, FILE* v) { // stdin only
    static char in[65536];
    static size_t at, have;
    size_t n = 0;
    for (;;) {
        if (at == have) {
            int r = SYS3(3, 0, in, sizeof in);
            if (r == -EINTR) continue;
            if (r <= 0) break;
            at = 0; have = (size_t)r;
        }
        if (n + 2 > *cap) *line = realloc(*line, *cap = *cap ? *cap * 2 : 1u << 16);
        char c = in[at++];
        (*line)[n++] = c;
        if (c == delim) break;
    }
    if (!n) return -1;
    (*line)[n] = 0;
    return (ssize_t)n;
}

// --- Numbers ---
unsigned long long strtoull(const char* s, char** e, int base) {
    unsigned long long v = 0;
    for (;; s++) {
        int d = *s >= '0' && *s <= '9' ? *s - '0' : *s >= 'a' && *s <= 'f' ? *s - 'a' + 10 : 99;
        if (d >= base) break;
        v = v * (unsigned)base + (unsigned)d;
    }
    if (e) *e = (char*)s;
    return v;
}
long strtol(const char* s, char** e, int base) { return *s == '-' ? -(long)strtoull(s + 1, e, base) : (long)strtoull(s, e, base); }
int atoi(const char* s) { return (int)strtol(s, NULL, 10); }
long atol(const char* s) { return strtol(s, NULL, 10); }

// --- Mathematics: exact where IEEE asks for it, x87 elsewhere (results are not judged) ---
double sqrt(double x) { double r; __asm__("sqrtsd %1, %0" : "=x"(r) : "x"(x)); return r; }
double fabs(double x) { return __builtin_fabs(x); }
double trunc(double x) { return fabs(x) < 4503599627370496.0 ? __builtin_copysign((double)(int64_t)x, x) : x; }
double floor(double x) { double t = trunc(x); return t > x ? t - 1 : t; }
double ceil(double x) { double t = trunc(x); return t < x ? __builtin_copysign(t + 1, x) : t; }
double round(double x) { double t = trunc(x); return fabs(x - t) >= 0.5 ? t + __builtin_copysign(1.0, x) : t; }
double sin(double x) { __asm__("fldl %0; fsin; fstpl %0" : "+m"(x)); return x; }
double cos(double x) { __asm__("fldl %0; fcos; fstpl %0" : "+m"(x)); return x; }
double tan(double x) { __asm__("fldl %0; fptan; fstp %%st(0); fstpl %0" : "+m"(x)); return x; }
double log(double x) { __asm__("fldln2; fldl %0; fyl2x; fstpl %0" : "+m"(x)); return x; }
double pow(double x, double y) {
    if (y == 0 || x == 1) return 1;
    double t = y * log(fabs(x)) * 1.4426950408889634, n = round(t), f = t - n;
    if (!(fabs(t) < 2000)) return t < 0 ? 0 : t;
    __asm__("fldl %1; fldl %0; f2xm1; fld1; faddp; fscale; fstp %%st(1); fstpl %0" : "+m"(f) : "m"(n));
    return f;
}

// Not needed by the VM as it is: a changed one may ask for them
double exp(double x) { return pow(2.718281828459045, x); }
double exp2(double x) { return pow(2, x); }
double log2(double x) { return log(x) / 0.6931471805599453; }
double log10(double x) { return log(x) / 2.302585092994046; }
double fmod(double x, double y) { __asm__("fldl %1; fldl %0; 1: fprem; fnstsw %%ax; testb $4, %%ah; jnz 1b; fstp %%st(1); fstpl %0" : "+m"(x) : "m"(y) : "ax"); return x; }
double rint(double x) { __asm__("fldl %0; frndint; fstpl %0" : "+m"(x)); return x; }
double nearbyint(double x) { return rint(x); }
long lround(double x) { return (long)round(x); }
long long llround(double x) { return (long long)round(x); }
long lrint(double x) { return (long)rint(x); }
long long llrint(double x) { return (long long)rint(x); }
double fmin(double a, double b) { return a != a ? b : b < a ? b : a; }
double fmax(double a, double b) { return a != a ? b : b > a ? b : a; }
double ldexp(double x, int n) { for (; n > 0; n--) x *= 2; for (; n < 0; n++) x /= 2; return x; }
float fabsf(float x) { return __builtin_fabsf(x); }
float sqrtf(float x) { return (float)sqrt(x); }
float roundf(float x) { return (float)round(x); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
char* strrchr(const char* s, int c) { const char* r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* s, const char* t) { size_t n = strlen(t); for (;; s++) { if (!strncmp(s, t, n)) return (char*)s; if (!*s) return NULL; } }
void* memrchr(const void* s, int c, size_t n) { const unsigned char* p = s; while (n--) if (p[n] == (unsigned char)c) return (void*)(p + n); return NULL; }
void* mempcpy(void* d, const void* s, size_t n) { return (char*)memcpy(d, s, n) + n; }
void* rawmemchr(const void* s, int c) { return memchr(s, c, 0x7FFFFFFF); }
void __assert_fail(const char* a, const char* f, unsigned l, const char* g) { fprintf(stderr, "assertion %s\n", a); abort(); }
void __assert(const char* a, const char* f, int l) { fprintf(stderr, "assertion %s\n", a); abort(); }
int vsnprintf(char* d, size_t n, const char* f, va_list ap) { if (n) *d = 0; return 0; } // messages are of no interest
int snprintf(char* d, size_t n, const char* f, ...) { if (n) *d = 0; return 0; }

// --- Signals and jumps ---
__attribute__((naked)) int __sigsetjmp(struct __jmp_buf_tag* b, int m) {
    __asm__("movl 4(%esp), %eax; movl %ebx, (%eax); movl %esi, 4(%eax); movl %edi, 8(%eax); movl %ebp, 12(%eax);"
            "leal 4(%esp), %ecx; movl %ecx, 16(%eax); movl (%esp), %ecx; movl %ecx, 20(%eax); xorl %eax, %eax; ret");
}
__attribute__((naked)) void siglongjmp(struct __jmp_buf_tag* b, int v) {
    __asm__("movl 4(%esp), %edx; movl 8(%esp), %eax; movl (%edx), %ebx; movl 4(%edx), %esi; movl 8(%edx), %edi; movl 12(%edx), %ebp;"
            "movl 16(%edx), %esp; jmp *20(%edx)");
}
struct ksigaction { void* h; unsigned long flags; void* restorer; uint64_t mask; };
__sighandler_t signal(int s, __sighandler_t h) {
    struct ksigaction a = { h, SA_NODEFER, NULL, 0 };
    sys(174, s, (long)&a, 0, 8, 0, 0);
    return NULL;
}
int setitimer(__itimer_which_t w, const struct itimerval* a, struct itimerval* b) { return SYS3(104, w, a, b); }
static void fatal(int s, siginfo_t* i, void* u) {
    const greg_t* g = ((ucontext_t*)u)->uc_mcontext.gregs;
    fprintf(stderr, s == SIGILL ? "32-bit run: undefined behaviour trapped" : "32-bit run: signal %d at address %x", s, (unsigned)i->si_addr);
    fprintf(stderr, ", instruction %x", (unsigned)g[14]);
    uint32_t* bp = (uint32_t*)g[6];
    for (int k = 0; k < 4 && (uint32_t)bp > (uint32_t)&s && (uint32_t)bp < (uint32_t)&s + 0x100000; k++, bp = (uint32_t*)bp[0]) fprintf(stderr, " < %x", bp[1]);
    fprintf(stderr, "\n");
    _exit(99);
}
int main(void);
static uint8_t alt[65536];
__attribute__((used)) static void begin(void) {
    stack_t st = { alt, 0, sizeof alt };
    SYS3(186, &st, 0, 0);
    static const int S[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP };
    for (int i = 0; i < 5; i++) {
        struct ksigaction a = { fatal, SA_SIGINFO | SA_ONSTACK, NULL, 0 };
        sys(174, S[i], (long)&a, 0, 8, 0, 0);
    }
    int r = main();
    fflush(stdout);
    _exit(r);
}
__attribute__((naked)) void _start(void) { __asm__("xorl %ebp, %ebp; andl $-16, %esp; call begin; hlt"); }
