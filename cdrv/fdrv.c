/*
 * Freestanding replay driver, linked by the compiler under test into an ordinary
 * executable: main of the B program calls xrun(), which replays every embedded
 * model run and prints a line per mismatch and the number of runs.
 */
#include <stdarg.h>
#include <stdint.h>

typedef long word;
#define MAXT 96
extern word (*vtab[])(void);
extern const unsigned char runs_data[];
extern char bdata_lo[], bdata_hi[], bbss_lo[], _end[];
static char save[256 << 20];

static void *env[5];
static volatile int endcode;
static word trace[MAXT];
static volatile int ntrace;
static const unsigned char *choice;
static int nchoice, pos;
static const int64_t *dom;
enum { RET, CUT };

#ifdef __x86_64__
#define KEEP() __builtin_setjmp(env)
#define BACK() __builtin_longjmp(env, 1)
#define WRITE 1
static word sys3(word n, word a, word b, word c)
{
    word r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
    return r;
}
#else /* inside emu */
#define KEEP() sys3(0x7000, 0, 0, 0)
#define BACK() sys3(0x7001, 0, 0, 0)
#define WRITE 64
#ifdef __riscv
__attribute__((always_inline)) static inline word sys3(word n, word a, word b, word c)
{
    register word a0 __asm__("a0") = a, a1 __asm__("a1") = b, a2 __asm__("a2") = c, a7 __asm__("a7") = n;
    __asm__ volatile("ecall" : "+r"(a0) : "r"(a1), "r"(a2), "r"(a7) : "memory");
    return a0;
}
#else
__attribute__((always_inline)) static inline word sys3(word n, word a, word b, word c)
{
    register word x0 __asm__("x0") = a, x1 __asm__("x1") = b, x2 __asm__("x2") = c, x8 __asm__("x8") = n;
    __asm__ volatile("svc #0" : "+r"(x0) : "r"(x1), "r"(x2), "r"(x8) : "memory");
    return x0;
}
#endif
#endif
static char obuf[8192];
static int olen;
static void oflush(void) { int i = 0; while (i < olen) { word n = sys3(WRITE, 1, (word)(obuf + i), olen - i); if (n <= 0) break; i += n; } olen = 0; }
static void oc(char c) { if (olen == sizeof obuf) oflush(); obuf[olen++] = c; }
static void os(const char *s) { while (*s) oc(*s++); }
static void on(word v)
{
    char b[24]; int i = 24; uint64_t u = v < 0 ? -(uint64_t)v : v;
    do b[--i] = '0' + u % 10; while (u /= 10);
    if (v < 0) b[--i] = '-';
    while (i < 24) oc(b[i++]);
}
/* no memcpy, memset: programs must not need them */
static void copy(void *d, const void *s, unsigned long n) { volatile char *a = d; const char *b = s; while (n--) *a++ = *b++; }

static void cut(void) { BACK(); }
static void event(word v) { if (ntrace >= MAXT) cut(); trace[ntrace++] = v; }
static word choose(void) { if (pos >= nchoice) cut(); return dom[choice[pos++]]; }
word bc(void) __asm__("b.c");
word bc(void) { return choose(); }
word bo(word i) __asm__("b.o");
word bo(word i) { event(i); return choose(); }
word bt(word v) __asm__("b.t");
word bt(word v) { event(v); return v; }
word bn(word n, ...) __asm__("b.n");
word bn(word n, ...)
{
    va_list ap;
    word v = n, i;
    event(n);
    va_start(ap, n);
    for (i = 0; i < n; i++)
        event(v = va_arg(ap, word));
    va_end(ap);
    return v;
}
word bb(word p, word i) __asm__("b.b");
word bb(word p, word i) { return ((unsigned char *)p)[i]; }
word bh(word p, word n) __asm__("b.h");
word bh(word p, word n)
{
    uint64_t h = 14695981039346656037UL;
    word i;
    for (i = 0; i < n; i++)
        h = (h ^ ((unsigned char *)p)[i]) * 1099511628211UL;
    event(h);
    return h;
}
word bx3(word a, word b, word c) __asm__("b.xsub3");
word bx3(word a, word b, word c) { return a * 100 + b * 10 + c; }

static uint64_t h;
static void mix(uint64_t v) { h ^= v; h *= 1099511628211UL; h ^= h >> 29; }

__attribute__((noinline)) static word one(word prog)
{
    if (KEEP()) {
        endcode = CUT;
        return 0;
    }
    word r = vtab[prog]();
    endcode = RET;
    return r;
}

word xrun(void) __asm__("b.xrun");
word xrun(void)
{
    const unsigned char *m = runs_data;
    uint64_t nrun = *(uint64_t *)m, ndom = *(uint64_t *)(m + 8);
    const int64_t *doms = (const int64_t *)(m + 16);
    const uint64_t *index = (const uint64_t *)(m + 16 + 8 * ndom);
    uint64_t nd = bdata_hi - bdata_lo, nz = _end - bbss_lo, r;
    int bad = 0;
    uint32_t last = -1;
    if (nd + nz > sizeof save) {
        os("TOO LARGE\n");
        oflush();
        return 99;
    }
    copy(save, bdata_lo, nd);
    copy(save + nd, bbss_lo, nz);
    for (r = 0; r < nrun; r++) {
        const unsigned char *p = m + index[r];
        uint32_t prog = *(uint32_t *)p;
        dom = doms + *(uint32_t *)(p + 4);
        nchoice = *(uint16_t *)(p + 8);
        uint64_t want = *(uint64_t *)(p + 16);
        choice = p + 24;
        ntrace = 0;
        pos = 0;
        if (prog == last) {
            copy(bdata_lo, save, nd);
            copy(bbss_lo, save + nd, nz);
        }
        last = prog;
        word ret = one(prog);
        h = 1469598103934665603UL;
        for (int i = 0; i < ntrace; i++)
            mix(trace[i]);
        if (endcode == RET) {
            mix(0x1234);
            mix(ret);
        } else
            mix(0x4321);
        if (h != want) {
            os("BAD "); on(r); oc(' '); on(prog); oc(' '); on(endcode); oc(' '); on(ret);
            for (int i = 0; i < ntrace; i++) { oc(' '); on(trace[i]); }
            oc('\n');
            oflush();
            if (++bad >= 8)
                break;
        }
    }
    os("DONE "); on(nrun); oc('\n');
    oflush();
    return bad ? 99 : 7;
}
