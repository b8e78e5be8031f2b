/*
 * Replays model runs against functions compiled from B.
 * usage: drv RUNS LO HI
 * RUNS: u32 nprog, u32 ndom, then ndom x i64, then per run:
 *   u32 prog, u32 dom offset, u16 nchoices, u16 pad, u32 pad, u64 hash, choices padded to 8
 * preceded by an index: u64 offset per run.
 * Prints a line per mismatch and "DONE n" at the end.
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

typedef long word;
#define MAXT 96
extern word (*vtab[])(void);
/* the data of the programs, which goes back to its initial value between runs */
extern char bdata_lo[], bdata_hi[], bbss_lo[], _end[];

static sigjmp_buf env;
static word trace[MAXT];
static volatile int ntrace;
static const unsigned char *choice;
static int nchoice, pos;
static const int64_t *dom;
static char *base;
static volatile unsigned long runno, lasttick;
static volatile int ticks;

enum { RET, CUT, CRASH, HANG };

static void event(word v)
{
    if (ntrace >= MAXT)
        siglongjmp(env, 1 + CUT);
    trace[ntrace++] = v;
}
static word choose(void)
{
    if (pos >= nchoice)
        siglongjmp(env, 1 + CUT);
    return dom[choice[pos++]];
}
word bc(void) __asm__("b.c");
word bc(void) { return choose(); }
word bo(word i) __asm__("b.o");
word bo(word i) { event(i); return choose(); }
word bt(word v) __asm__("b.t");
word bt(word v) { event(v); return v; }
word bn(word n, ...) __asm__("b.n");
word bn(word n, ...)
{
    va_list ap;
    word v = n, i;
    event(n);
    va_start(ap, n);
    for (i = 0; i < n; i++)
        event(v = va_arg(ap, word));
    va_end(ap);
    return v;
}
__attribute__((noinline)) word bd(void) __asm__("b.d");
__attribute__((noinline)) word bd(void)
{
    char *p = __builtin_frame_address(0);
    if (!base)
        base = p;
    /* a call in tail position leaves the frame first: small differences do not count */
    return labs(base - p) <= 128 ? 0 : base - p;
}
word bb(word p, word i) __asm__("b.b");
word bb(word p, word i) { return ((unsigned char *)p)[i]; }
word bh(word p, word n) __asm__("b.h");
word bh(word p, word n)
{
    uint64_t h = 14695981039346656037UL;
    word i;
    for (i = 0; i < n; i++)
        h = (h ^ ((unsigned char *)p)[i]) * 1099511628211UL;
    event(h);
    return h;
}
/* external cells and functions for linking tests */
word bx3(word a, word b, word c) __asm__("b.xsub3");
word bx3(word a, word b, word c) { return a * 100 + b * 10 + c; }

word bzz(word a) __asm__("b.zz");
word bzz(word a) { return a + 7; }

static void onsig(int s) { siglongjmp(env, 1 + CRASH); }
static void ontick(int s)
{
    if (runno == lasttick) {
        if (++ticks >= 3)
            siglongjmp(env, 1 + HANG);
    } else {
        lasttick = runno;
        ticks = 0;
    }
}
static uint64_t h;
static void mix(uint64_t v)
{
    h ^= v;
    h *= 1099511628211UL;
    h ^= h >> 29;
}

int main(int argc, char **argv)
{
    struct stat st;
    int fd = open(argv[1], O_RDONLY);
    if (fd < 0 || fstat(fd, &st))
        return 9;
    const unsigned char *m = mmap(0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
    if (m == MAP_FAILED)
        return 9;
    uint64_t nrun = *(uint64_t *)m, ndom = *(uint64_t *)(m + 8);
    const int64_t *doms = (const int64_t *)(m + 16);
    const uint64_t *index = (const uint64_t *)(m + 16 + 8 * ndom);
    uint64_t lo = strtoull(argv[2], 0, 0), hi = strtoull(argv[3], 0, 0);
    if (hi > nrun)
        hi = nrun;
    struct rlimit rl = { 64 << 20, 64 << 20 };
    setrlimit(RLIMIT_STACK, &rl);
    stack_t ss = { .ss_sp = malloc(1 << 16), .ss_size = 1 << 16 };
    sigaltstack(&ss, 0);
    struct sigaction sa = { .sa_handler = onsig, .sa_flags = SA_ONSTACK | SA_NODEFER };
    int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT };
    for (int i = 0; i < 6; i++)
        sigaction(sigs[i], &sa, 0);
    sa.sa_handler = ontick;
    sigaction(SIGVTALRM, &sa, 0);
    struct itimerval it = { { 0, 500000 }, { 0, 500000 } };
    setitimer(ITIMER_VIRTUAL, &it, 0);
    setvbuf(stdout, 0, _IOFBF, 1 << 16);
    int bad = 0;
    volatile uint64_t r;
    uint64_t nd = bdata_hi - bdata_lo, nz = _end - bbss_lo;
    char *save = malloc(nd + nz + 1);
    memcpy(save, bdata_lo, nd);
    memcpy(save + nd, bbss_lo, nz);
    volatile uint32_t last = -1;
    for (r = lo; r < hi; r++) {
        const unsigned char *p = m + index[r];
        uint32_t prog = *(uint32_t *)p;
        dom = doms + *(uint32_t *)(p + 4);
        nchoice = *(uint16_t *)(p + 8);
        uint64_t want = *(uint64_t *)(p + 16);
        choice = p + 24;
        ntrace = 0;
        pos = 0;
        base = 0;
        runno = r + 1;
        if (prog == last) {
            memcpy(bdata_lo, save, nd);
            memcpy(bbss_lo, save + nd, nz);
        }
        last = prog;
        word ret = 0;
        int end = sigsetjmp(env, 0);
        if (end == 0) {
            ret = vtab[prog]();
            end = RET;
        } else
            end--;
        h = 1469598103934665603UL;
        for (int i = 0; i < ntrace; i++)
            mix(trace[i]);
        if (end == RET) {
            mix(0x1234);
            mix(ret);
        } else
            mix(end == CUT ? 0x4321 : 0x5555 + end);
        if (h != want) {
            printf("BAD %lu %u %d %ld", (unsigned long)r, prog, end, ret);
            for (int i = 0; i < ntrace; i++)
                printf(" %ld", trace[i]);
            printf("\n");
            fflush(stdout);
            if (++bad >= 16)
                break;
        }
    }
    printf("DONE %lu\n", (unsigned long)(r - lo));
    return 0;
}
