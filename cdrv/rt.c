/*
 * Drives the runtime library through every call sequence of a bounded space and
 * compares bytes, results and memory with a reference written here.
 * usage: rt MODE INDEX COUNT DEPTH   (this process does the traces whose number is INDEX mod COUNT)
 * Reports on descriptor 9: "BAD key text", "STAT name n", "SAMPLE text", "DONE states transitions traces".
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

typedef intptr_t word;
typedef unsigned char uchar;
extern word fout __asm__("b.fout");
word bchar(word s, ...) __asm__("b.char");
void blchar(word s, ...) __asm__("b.lchar");
word bread(void) __asm__("b.read");
word bnread(word f, ...) __asm__("b.nread");
void bwriteb(word c, ...) __asm__("b.writeb");
void bwrite(word c, ...) __asm__("b.write");
word bnwrite(word f, ...) __asm__("b.nwrite");
void bprintd(word n, ...) __asm__("b.printd");
void bprinto(word n, ...) __asm__("b.printo");
void bprintf(word f, ...) __asm__("b.printf");
void bflush(void) __asm__("b.flush");

#define CAP (1 << 20)
static uchar *got[2];
static uchar ref[2][CAP];
static size_t rl[2];
static int rep;
static long idx, cnt, depth, number;
static unsigned long states, transitions, traces, bads;
static volatile unsigned long progress;
static sigjmp_buf env;
static char what[4096]; /* the trace under way */

static void say(const char *f, ...)
{
    char b[8192];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(b, sizeof b - 1, f, ap);
    va_end(ap);
    if (n > (int)sizeof b - 2)
        n = sizeof b - 2;
    for (int i = 0; i < n; i++)
        if (b[i] == '\n')
            b[i] = ' ';
    b[n++] = '\n';
    if (write(rep, b, n) < 0)
        _exit(99);
}

static char *hex(const uchar *p, size_t n)
{
    static char b[4][1200];
    static int k;
    char *s = b[k++ & 3], *q = s;
    for (size_t i = 0; i < n && i < 96; i++) {
        if (p[i] > 32 && p[i] < 127 && p[i] != '\\')
            *q++ = p[i];
        else
            q += sprintf(q, "\\%02x", p[i]);
    }
    sprintf(q, n > 96 ? "... (%zu bytes)" : " (%zu bytes)", n);
    return s;
}

static void bad(const char *key, const char *f, ...)
{
    char b[6000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    say("BAD %s %s: %s", key, what, b);
    if (++bads >= 6) {
        say("DONE %lu %lu %lu", states, transitions, traces);
        _exit(1);
    }
}

static void onsig(int s)
{
    sigset_t e;
    sigemptyset(&e);
    sigprocmask(SIG_SETMASK, &e, 0);
    siglongjmp(env, s);
}
static unsigned long seen;
static int stuck;
static void tick(int s)
{
    if (progress == seen) {
        if (++stuck >= 5) {
            say("BAD hang %s: no progress", what);
            say("DONE %lu %lu %lu", states, transitions, traces);
            _exit(1);
        }
    } else {
        seen = progress;
        stuck = 0;
    }
}

/* --- output side --- */
static void begin(void)
{
    rl[0] = rl[1] = 0;
    lseek(1, 0, SEEK_SET);
    lseek(2, 0, SEEK_SET);
    fout = 0;
    progress++;
}
static void rput(int s, uchar c)
{
    ref[s][rl[s]++] = c;
}
static void check(const char *key)
{
    bflush();
    for (int s = 0; s < 2; s++) {
        size_t n = lseek(s + 1, 0, SEEK_CUR);
        if (n != rl[s] || memcmp(got[s], ref[s], n))
            bad(key, "%s received %s instead of %s", s ? "standard error" : "standard output", hex(got[s], n), hex(ref[s], rl[s]));
    }
    traces++;
}
static int mine(void)
{
    return number++ % cnt == idx;
}
static void rwrite(int s, word v)
{
    int on = 0;
    for (int i = 7; i >= 0; i--) {
        uchar c = (uintptr_t)v >> (8 * i);
        if (c || i == 0)
            on = 1;
        if (on)
            rput(s, c);
    }
}
static void rnum(int s, uintptr_t v, unsigned base)
{
    if (v >= base)
        rnum(s, v / base, base);
    rput(s, '0' + v % base);
}
static void rprintd(int s, word v)
{
    if (v < 0) {
        rput(s, '-');
        rnum(s, -(uintptr_t)v, 10);
    } else
        rnum(s, v, 10);
}
static void rprinto(int s, word v) { rnum(s, v, 8); }
static void rstr(int s, const uchar *p)
{
    while (*p)
        rput(s, *p++);
}
static void rprintf(int s, const uchar *f, const word *a)
{
    for (; *f; f++) {
        if (*f != '%') {
            rput(s, *f);
            continue;
        }
        switch (f[1]) {
        case 'd': rprintd(s, *a++); f++; break;
        case 'o':
            if (*a < 0) {
                rput(s, '-');
                rnum(s, -(uintptr_t)*a++, 8);
            } else
                rnum(s, *a++, 8);
            f++;
            break;
        case 'c': rwrite(s, *a++); f++; break;
        case 's': rstr(s, (uchar *)*a++); f++; break;
        case '%': rput(s, '%'); f++; break;
        default: rput(s, '%');
        }
    }
}

static word dom[4096];
static int ndom;
static void addv(word v)
{
    for (int i = 0; i < ndom; i++)
        if (dom[i] == v)
            return;
    dom[ndom++] = v;
}
static void boundary(void)
{
    uintptr_t p = 1;
    for (int k = 0; k < 64; k++)
        for (int d = -2; d <= 2; d++) {
            addv((1UL << k) + d);
            addv(-(1UL << k) + d);
        }
    for (int k = 0; k < 20; k++, p *= 10)
        for (int m = 1; m < 10; m++)
            for (int d = -1; d <= 1; d++) {
                addv(p * m + d);
                addv(-(p * m) + d);
            }
    for (int b = 1; b < 256; b++) { /* the same byte everywhere, and in one place */
        addv(b * 0x0101010101010101UL);
        if (b % 17 == 0 || b > 250)
            for (int i = 0; i < 8; i++)
                addv((uintptr_t)b << (8 * i));
    }
}

#define ONE(key, call, refcall)                                      \
    do {                                                             \
        if (mine()) {                                                \
            begin();                                                 \
            snprintf(what, sizeof what, key " of %ld (%#lx)", v, v); \
            int sg = sigsetjmp(env, 0);                              \
            if (sg)                                                  \
                bad(key, "signal %d", sg);                           \
            else {                                                   \
                call;                                                \
                refcall;                                             \
                transitions++;                                       \
                states += 2;                                         \
                check(key);                                          \
            }                                                        \
        }                                                            \
    } while (0)

static void numbers(void)
{
    word v;
    static word vals[8000000];
    long n = 0, range = depth > 1 ? 3000000 : 300000;
    for (v = -range; v <= range; v++)
        vals[n++] = v;
    boundary();
    for (int i = 0; i < ndom; i++)
        vals[n++] = dom[i];
    /* every pattern of digits 0, 1, 9 in decimal and 0, 1, 7 in octal */
    for (int base = 8; base <= 10; base += 2)
        for (int len = 1; len <= (depth > 1 ? 13 : 11); len++) {
            long tot = 1;
            for (int i = 0; i < len; i++)
                tot *= 3;
            for (long m = 0; m < tot; m++) {
                uintptr_t x = 0;
                long q = m;
                for (int i = 0; i < len; i++, q /= 3)
                    x = x * base + (q % 3 == 2 ? base - 1 : q % 3);
                if (n < 7999990) {
                    vals[n++] = x;
                    vals[n++] = -x;
                }
            }
        }
    for (long i = 0; i < n; i++) {
        v = vals[i];
        ONE("printd", bprintd(v), rprintd(0, v));
        ONE("printo", bprinto(v), rprinto(0, v));
        if (i % 16 == 0 || i >= 2 * range) {
            ONE("printf %d", bprintf((word) "%d", v), rprintf(0, (uchar *)"%d", &v));
            ONE("printf %o", bprintf((word) "%o", v), rprintf(0, (uchar *)"%o", &v));
            ONE("printd to stderr", (fout = 1, bprintd(v)), rprintd(1, v));
            ONE("printo to stderr", (fout = 1, bprinto(v)), rprinto(1, v));
        }
    }
    say("STAT numbers %ld", n);
}

static void characters(void)
{
    word v;
    /* every value of one and two bytes; of three in the thorough run */
    long top = depth > 1 ? 1L << 24 : 1L << 16;
    for (v = 0; v < top; v++) {
        ONE("write", bwrite(v), rwrite(0, v));
        if (v < 1 << 16 && v % 7 == 0)
            ONE("printf %c", bprintf((word) "%c", v), rprintf(0, (uchar *)"%c", &v));
    }
    /* every word over a few bytes */
    static const uchar bs[] = { 0, 'a', 0xff, 1, 0x80, 0x7f };
    int nb = depth > 1 ? 6 : 4;
    long tot = 1;
    for (int i = 0; i < 8; i++)
        tot *= nb;
    for (long m = 0; m < tot; m++) {
        long q = m;
        uintptr_t x = 0;
        for (int i = 0; i < 8; i++, q /= nb)
            x = x << 8 | bs[q % nb];
        v = x;
        ONE("write", bwrite(v), rwrite(0, v));
        if (m % 5 == 0)
            ONE("write to stderr", (fout = 1, bwrite(v)), rwrite(1, v));
    }
    /* each length with every byte in every place */
    for (int len = 1; len <= 8; len++)
        for (int pos = 0; pos < len; pos++)
            for (int b = 0; b < 256; b++) {
                uintptr_t x = 0;
                for (int i = 0; i < len; i++)
                    x = x << 8 | (i == pos ? b : 'A' + i);
                v = x;
                ONE("write", bwrite(v), rwrite(0, v));
                ONE("printf %c", bprintf((word) "%c", v), rprintf(0, (uchar *)"%c", &v));
            }
    /* single bytes */
    for (int b = 0; b < 256; b++)
        for (int hi = 0; hi < 4; hi++) {
            v = b | (word[]){ 0, 0x4100, -256, 1L << 62 }[hi];
            ONE("writeb", bwriteb(v), rput(0, b));
            ONE("writeb to stderr", (fout = 1, bwriteb(v)), rput(1, b));
        }
    say("STAT characters %ld", top + tot);
}

static void blocks(void)
{
    static uchar buf[70000];
    word v = 0;
    for (size_t i = 0; i < sizeof buf; i++)
        buf[i] = i * 7 + i / 256;
    static const int counts[] = { 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1000, 4095, 4096, 4097, 8192, 65535, 65536, 65537 };
    for (int k = 0; k < (int)(sizeof counts / sizeof *counts); k++)
        for (int off = 0; off < 10; off++)
            for (int fd = 1; fd <= 2; fd++)
                for (int fo = 0; fo < 2; fo++) {
                    if (!mine())
                        continue;
                    begin();
                    snprintf(what, sizeof what, "nwrite(%d, buffer + %d, %d)", fd, off, counts[k]);
                    fout = fo;
                    if (sigsetjmp(env, 0)) {
                        bad("nwrite", "crash");
                        continue;
                    }
                    v = bnwrite(fd, buf + off, (word)counts[k]);
                    for (int i = 0; i < counts[k]; i++)
                        rput(fd - 1, buf[off + i]);
                    if (v != counts[k])
                        bad("nwrite", "returned %ld", v);
                    transitions++;
                    states += 2;
                    check("nwrite");
                }
    /* every block of up to 4 bytes over a few values */
    static const uchar bs[] = { 0, 'a', 0xff, '\n', 0x80 };
    for (int len = 0; len <= 5; len++) {
        int tot = 1;
        for (int i = 0; i < len; i++)
            tot *= 5;
        for (int m = 0; m < tot; m++) {
            uchar b[8];
            int q = m;
            for (int i = 0; i < len; i++, q /= 5)
                b[i] = bs[q % 5];
            if (!mine())
                continue;
            begin();
            snprintf(what, sizeof what, "nwrite(1, %s)", hex(b, len));
            if (sigsetjmp(env, 0)) {
                bad("nwrite", "crash");
                continue;
            }
            v = bnwrite(1, b, (word)len);
            for (int i = 0; i < len; i++)
                rput(0, b[i]);
            if (v != len)
                bad("nwrite", "returned %ld", v);
            transitions++;
            states += 2;
            check("nwrite");
        }
    }
    /* errors: a negative number, nothing written */
    static const struct { word fd; uchar *p; word n; const char *t; } errs[] = {
        { -1, buf, 5, "nwrite(-1)" }, { 777, buf, 5, "nwrite(777)" }, { 1, (uchar *)8, 5, "nwrite from address 8" }, { 11, buf, 5, "nwrite to a file open for reading" },
        { -777, buf, 1, "nwrite(-777)" }, { 2, (uchar *)-8, 100, "nwrite from the top of memory" } };
    for (int k = 0; k < (int)(sizeof errs / sizeof *errs); k++) {
        if (!mine())
            continue;
        begin();
        snprintf(what, sizeof what, "%s", errs[k].t);
        if (sigsetjmp(env, 0)) {
            bad("nwrite error", "crash");
            continue;
        }
        v = bnwrite(errs[k].fd, errs[k].p, errs[k].n);
        if (v >= 0)
            bad("nwrite error", "returned %ld", v);
        transitions++;
        states += 2;
        check("nwrite error");
    }
}

static word args[64];
static void callf(const uchar *f, const word *a)
{
    bprintf((word)f, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19],
        a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29], a[30], a[31], a[32], a[33], a[34], a[35], a[36], a[37], a[38], a[39]);
}
static void format(const char *key, const uchar *f, int nd)
{
    if (!mine())
        return;
    begin();
    int n = snprintf(what, sizeof what, "printf(\"%s\"", hex(f, strlen((char *)f)));
    for (int i = 0; i < nd && n < 3000; i++)
        n += snprintf(what + n, sizeof what - n, ", %ld", args[i]);
    strcat(what, ")");
    int sg = sigsetjmp(env, 0);
    if (sg) {
        bad(key, "signal %d", sg);
        return;
    }
    if (number / cnt & 1) {
        fout = 1;
        callf(f, args);
        rprintf(1, f, args);
    } else {
        callf(f, args);
        rprintf(0, f, args);
    }
    transitions += strlen((char *)f) + 1;
    states += strlen((char *)f) + 2;
    check(key);
}

static void formats(void)
{
    static const char alpha[] = "%doc" "s" "x\xff" "-";
    const int na = depth > 1 ? 8 : 7;
    static const word nums[] = { 0, -1, 'a', 'abcd', LONG_MIN, LONG_MAX, 1234567890, -8 };
    static const char *strs[] = { "", "b", "%d", "\x80\xff", "x%", "long string of text" };
    /* every format over the alphabet, the arguments turning over small domains */
    for (int len = 0; len <= (depth + 5); len++) {
        long tot = 1;
        for (int i = 0; i < len; i++)
            tot *= na;
        for (long m = 0; m < tot; m++) {
            uchar f[16];
            long q = m;
            for (int i = 0; i < len; i++, q /= na)
                f[i] = alpha[q % na];
            f[len] = 0;
            int k = 0;
            char cv[16];
            for (int i = 0; i < len; i++)
                if (f[i] == '%') {
                    if (strchr("docs", f[i + 1]) && f[i + 1])
                        cv[k++] = f[i + 1];
                    if (f[i + 1] == '%' || (f[i + 1] && strchr("docs", f[i + 1])))
                        i++;
                }
            /* all combinations of arguments for up to two conversions, rotations beyond */
            int rot = k == 0 ? 1 : k == 1 ? 8 : k == 2 ? (len <= 5 ? 64 : 8) : 2;
            for (int r = 0; r < rot; r++) {
                for (int i = 0; i < 40; i++)
                    args[i] = 0x5a5a5a5a5a;
                for (int i = 0; i < k; i++) {
                    int c = k == 2 && rot == 64 ? (i ? r / 8 : r % 8) : (r + i * 3 + m) % 8;
                    args[i] = cv[i] == 's' ? (word)strs[c % 6] : nums[c];
                }
                format("printf", f, k);
            }
        }
    }
    /* every pair of bytes, alone and after a percent sign */
    for (int i = 0; i < 40; i++)
        args[i] = (word) "str";
    for (int a = 1; a < 256; a++)
        for (int b = 0; b < 256; b++) {
            uchar f[4] = { a, b, 0 }, g[5] = { '%', a, b, 0 }, h[6] = { 'p', '%', a, '%', b, 0 };
            format("printf bytes", f, 0);
            format("printf bytes", g, 1);
            format("printf bytes", h, 2);
        }
    /* every string of up to two bytes as an argument */
    for (int a = 0; a < 256; a++)
        for (int b = 0; b < (a ? 256 : 1); b++) {
            static uchar s[3];
            s[0] = a;
            s[1] = b;
            args[0] = (word)s;
            args[1] = 7;
            format("printf string", (uchar *)"<%s>%d", 2);
        }
    /* long strings and formats */
    static uchar big[20004];
    for (int n = 0; n < 20000; n = n < 70 ? n + 1 : n < 5000 ? n * 2 - 61 : n * 2 + 1) {
        for (int i = 0; i < n; i++)
            big[i] = 'A' + i % 57 + (i % 3 == 0 ? 128 : 0);
        big[n] = 0;
        args[0] = (word)big;
        format("printf long string", (uchar *)"[%s]", 1);
        for (int i = 0; i < n; i++)
            if (big[i] == '%')
                big[i] = '#';
        format("printf long format", big, 0);
    }
    /* up to 40 conversions of each kind and mixed */
    for (int kind = 0; kind < 5; kind++)
        for (int n = 1; n <= 40; n++) {
            uchar f[200], *p = f;
            for (int i = 0; i < n; i++) {
                char c = kind < 4 ? "docs"[kind] : "docs"[(i * 3 + n) % 4];
                *p++ = '%';
                *p++ = c;
                if (i % 3)
                    *p++ = ' ';
                args[i] = c == 's' ? (word)strs[1 + i % 5] : (i + 1) * (i % 2 ? -1000003L : 77777777777L) % (c == 'c' ? 250 : LONG_MAX);
            }
            *p = 0;
            format("printf many", f, n);
        }
    /* every number of the boundary, in the middle of a text and next to another */
    boundary();
    for (int i = 0; i < ndom; i++) {
        args[0] = args[2] = dom[i];
        args[1] = dom[(i * 7 + 1) % ndom];
        args[3] = (word) "end";
        format("printf value", (uchar *)"a%d,%o;%dz%s", 4);
        format("printf value", (uchar *)"%o%d%c%s", 4);
    }
}

/* sequences of calls on both streams */
static const struct { const char *name; } sops[] = { { "fout=0" }, { "fout=1" }, { "printf" }, { "printd" }, { "printo" }, { "write" }, { "writeb" }, { "nwrite(1)" }, { "nwrite(2)" }, { "flush" }, { "printf %c%%%o" }, { "write 0" } };
#define NS 12
static void streams(void)
{
    int len = depth;
    long tot = 1;
    for (int i = 0; i < len; i++)
        tot *= NS;
    for (long m = 0; m < tot; m++) {
        if (!mine())
            continue;
        begin();
        int n = 0, s = 0;
        long q = m;
        what[0] = 0;
        for (int i = 0; i < len; i++, q /= NS)
            n += snprintf(what + n, sizeof what - n, "%s; ", sops[q % NS].name);
        int sg = sigsetjmp(env, 0);
        if (sg) {
            bad("streams", "signal %d", sg);
            continue;
        }
        q = m;
        static const uchar t[] = "A%dB%s";
        for (int i = 0; i < len; i++, q /= NS) {
            word a[2] = { i - 2, (word) "st\xe9r" };
            switch (q % NS) {
            case 0: fout = s = 0; break;
            case 1: fout = s = 1; break;
            case 2: bprintf((word)t, a[0], a[1]); rprintf(s, t, a); break;
            case 3: bprintd(i * 10 - 15); rprintd(s, i * 10 - 15); break;
            case 4: bprinto(i * 9); rprinto(s, i * 9); break;
            case 5: bwrite('wr' + i); rwrite(s, 'wr' + i); break;
            case 6: bwriteb(200 + i); rput(s, 200 + i); break;
            case 7: bnwrite(1, "NW\0" + i % 2, (word)2); rput(0, "NW\0"[i % 2]); rput(0, "NW\0"[i % 2 + 1]); break;
            case 8: bnwrite(2, "ERR", (word)3); rput(1, 'E'); rput(1, 'R'); rput(1, 'R'); break;
            case 9: bflush(); break;
            case 10: a[0] = 'p', a[1] = 8 * i; bprintf((word) "%c%%%o", a[0], a[1]); rprintf(s, (uchar *)"%c%%%o", a); break;
            case 11: bwrite(0); rput(s, 0); break;
            }
            transitions++;
        }
        states += len + 1;
        if (fout != s)
            bad("streams", "the stream selector became %ld", fout);
        check("streams");
    }
}

/* --- input side --- */
static int pfd[2];
static void fresh(void)
{
    if (pfd[1] >= 0)
        close(pfd[1]);
    int p[2];
    close(0);
    if (pipe2(p, O_CLOEXEC) || dup2(p[0], 20) < 0 || dup2(p[1], 21) < 0)
        _exit(98);
    close(p[0]);
    close(p[1]);
    dup2(20, 0);
    close(20);
    pfd[0] = 0;
    pfd[1] = 21;
    progress++;
}
static void feed(const uchar *p, int n)
{
    if (n && write(pfd[1], p, n) != n)
        _exit(97);
}
static void endinput(void)
{
    close(pfd[1]);
    pfd[1] = -1;
}
static word rread(uchar c) { return c < 128 ? c : 0; }

static void readall(const uchar *s, int n)
{
    fresh();
    feed(s, n);
    endinput();
    for (int i = 0; i < n; i++) {
        word v = bread();
        transitions++;
        if (v != rread(s[i]))
            bad("read", "character %d of %s read as %ld", i, hex(s, n), v);
    }
    for (int i = 0; i < 4; i++) {
        word v = bread();
        transitions++;
        if (v != 4)
            bad("read end", "read number %d after the end of %s returned %ld", i, hex(s, n), v);
    }
    traces++;
    states += n + 5;
}

static void reading(void)
{
    uchar s[16];
    strcpy(what, "read");
    /* every stream of one and two bytes */
    for (int a = 0; a < 256; a++) {
        s[0] = a;
        if (mine())
            readall(s, 1);
        for (int b = 0; b < 256; b++) {
            s[1] = b;
            if (mine())
                readall(s, 2);
        }
    }
    if (mine())
        readall(s, 0);
    /* every stream over a few bytes */
    static const uchar bs[] = { 0, 4, 'a', 128, 255, '\n', 127 };
    for (int len = 3; len <= (depth > 1 ? 7 : 6); len++) {
        long tot = 1;
        for (int i = 0; i < len; i++)
            tot *= 7;
        for (long m = 0; m < tot; m++) {
            long q = m;
            for (int i = 0; i < len; i++, q /= 7)
                s[i] = bs[q % 7];
            if (mine())
                readall(s, len);
        }
    }
    /* errors: end mark, every time */
    for (int k = 0; k < 4; k++) {
        if (!mine())
            continue;
        fresh();
        if (k == 0)
            close(0);
        if (k == 1)
            dup2(12, 0); /* a directory */
        if (k == 2)
            dup2(pfd[1], 0); /* open for writing */
        if (k == 3)
            fcntl(0, F_SETFL, O_NONBLOCK); /* nothing there yet */
        for (int i = 0; i < 3; i++) {
            word v = bread();
            transitions++;
            if (v != 4)
                bad("read error", "case %d: returned %ld", k, v);
        }
        states += 4;
        traces++;
    }
}

/* the model: bytes waiting in the pipe, and whether the input has ended */
#define NI 11
static const char *iops[NI] = { "arrive 1", "arrive 3", "arrive 5", "end", "read", "nread 0", "nread 1", "nread 2", "nread 4", "nread 9", "nread 40" };
static void inputs(void)
{
    int len = depth;
    long tot = 1;
    for (int i = 0; i < len; i++)
        tot *= NI;
    static uchar area[160];
    for (long m = 0; m < tot; m++) {
        if (!mine())
            continue;
        /* not all operations are possible everywhere: input does not arrive after the end */
        long q = m;
        int ended = 0, ok = 1;
        for (int i = 0; i < len && ok; i++, q /= NI) {
            int o = q % NI;
            if (o < 4 && ended)
                ok = 0;
            if (o == 3)
                ended = 1;
        }
        if (!ok)
            continue;
        fresh();
        fcntl(0, F_SETFL, O_NONBLOCK); /* an empty pipe is an error and not a wait */
        uchar queue[64];
        int qn = 0, seq = (m % 5) * 50;
        ended = 0;
        int n = 0;
        q = m;
        what[0] = 0;
        for (int i = 0; i < len; i++, q /= NI)
            n += snprintf(what + n, sizeof what - n, "%s; ", iops[q % NI]);
        q = m;
        int sg = sigsetjmp(env, 0);
        if (sg) {
            bad("inputs", "signal %d", sg);
            continue;
        }
        for (int i = 0; i < len; i++, q /= NI) {
            int o = q % NI;
            transitions++;
            if (o < 3) {
                int k = o == 0 ? 1 : o == 1 ? 3 : 5;
                uchar b[8];
                for (int j = 0; j < k; j++)
                    b[j] = queue[qn++] = seq++ * 11;
                feed(b, k);
            } else if (o == 3) {
                endinput();
                ended = 1;
            } else if (o == 4) {
                word v = bread(), w = qn ? rread(queue[0]) : 4;
                if (v != w)
                    bad("inputs", "step %d: read returned %ld instead of %ld", i, v, w);
                if (qn)
                    memmove(queue, queue + 1, --qn);
            } else {
                int k = (int[]){ 0, 1, 2, 4, 9, 40 }[o - 5], off = 40 + (i * 3 + m) % 8;
                memset(area, 0xAA, sizeof area);
                word v = bnread(0, area + off, (word)k);
                int w = k < qn ? k : qn;
                if (qn == 0 && !ended && k) {
                    if (v >= 0)
                        bad("inputs", "step %d: nread(%d) without input returned %ld", i, k, v);
                } else if (v != w)
                    bad("inputs", "step %d: nread(%d) returned %ld instead of %d", i, k, v, w);
                for (int j = 0; j < (int)sizeof area; j++) {
                    uchar e = j >= off && j < off + w ? queue[j - off] : 0xAA;
                    if (area[j] != e) {
                        bad("inputs", "step %d: after nread(%d) byte %d of the buffer is %#x instead of %#x", i, k, j - off, area[j], e);
                        break;
                    }
                }
                memmove(queue, queue + w, qn - w);
                qn -= w;
            }
        }
        states += len + 1;
        traces++;
    }
}

static void nreads(void)
{
    /* large counts, from files at every offset, and errors */
    static uchar data[70000], buf[70200];
    for (size_t i = 0; i < sizeof data; i++)
        data[i] = i * 13 + i / 256;
    int fd = memfd_create("in", 0);
    if (write(fd, data, sizeof data) != sizeof data)
        _exit(96);
    static const int counts[] = { 0, 1, 2, 7, 8, 9, 63, 64, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 70000 };
    for (int k = 0; k < 18; k++)
        for (int pos = 0; pos < 40; pos++)
            for (int std = 0; std < 2; std++) {
                if (!mine())
                    continue;
                progress++;
                int at = pos < 20 ? pos : (int)sizeof data - 20 + (pos - 20);
                int f = std ? 0 : fd;
                if (std)
                    dup2(fd, 0);
                lseek(fd, at, SEEK_SET);
                memset(buf, 0x55, sizeof buf);
                snprintf(what, sizeof what, "nread(%d, buffer, %d) at offset %d of a file", f, counts[k], at);
                if (sigsetjmp(env, 0)) {
                    bad("nread", "crash");
                    continue;
                }
                word v = bnread(f, buf + 100, (word)counts[k]);
                int w = (int)sizeof data - at;
                if (w > counts[k])
                    w = counts[k];
                transitions++;
                states += 2;
                traces++;
                if (v != w)
                    bad("nread", "returned %ld instead of %d", v, w);
                else if (memcmp(buf + 100, data + at, w))
                    bad("nread", "delivered other bytes");
                for (int i = 0; i < 100; i++)
                    if (buf[i] != 0x55 || buf[100 + w + i] != 0x55) {
                        bad("nread", "changed memory outside the buffer");
                        break;
                    }
            }
    static const struct { word fd; uchar *p; word n; const char *t; } errs[] = {
        { -1, buf, 5, "nread(-1)" }, { 777, buf, 5, "nread(777)" }, { 12, buf, 5, "nread of a directory" }, { 1000000, buf, 5, "nread(1000000)" }, { 11, (uchar *)8, 5, "nread to address 8" }, { 10, buf, 5, "nread from a file open for writing" } };
    for (int k = 0; k < 6; k++) {
        if (!mine())
            continue;
        memset(buf, 0x55, sizeof buf);
        snprintf(what, sizeof what, "%s", errs[k].t);
        if (sigsetjmp(env, 0)) {
            bad("nread error", "crash");
            continue;
        }
        word v = bnread(errs[k].fd, errs[k].p, errs[k].n);
        if (v >= 0)
            bad("nread error", "returned %ld", v);
        for (int i = 0; i < 100; i++)
            if (buf[i] != 0x55) {
                bad("nread error", "the buffer changed");
                break;
            }
        transitions++;
        states += 2;
        traces++;
    }
    close(fd);
}

static void bytes(void)
{
    static uchar s[400], m[400];
    strcpy(what, "char");
    /* every value at every position, with every neighbour pattern */
    for (int pos = 0; pos < 48; pos++)
        for (int v = 0; v < 256; v++)
            for (int bg = 0; bg < 5; bg++) {
                if (!mine())
                    continue;
                progress++;
                uchar fill = (uchar[]){ 0, 0xff, 'a', 0x80, 0x7f }[bg];
                memset(s, fill, sizeof s);
                memcpy(m, s, sizeof s);
                uchar *p = s + 100 + bg;
                snprintf(what, sizeof what, "lchar(s, %d, %d) over bytes %d", pos, v, fill);
                if (sigsetjmp(env, 0)) {
                    bad("lchar", "crash");
                    continue;
                }
                blchar((word)p, (word)pos, (word)v);
                m[100 + bg + pos] = v;
                if (memcmp(s, m, sizeof s)) {
                    int i = 0;
                    while (s[i] == m[i])
                        i++;
                    bad("lchar", "byte %d is %d instead of %d", i - 100 - bg, s[i], m[i]);
                }
                for (int i = pos > 1 ? pos - 2 : 0; i < pos + 3; i++) {
                    word g = bchar((word)p, (word)i);
                    transitions++;
                    if (g != m[100 + bg + i])
                        bad("char", "char(s, %d) is %ld instead of %d", i, g, m[100 + bg + i]);
                }
                transitions++;
                states += 2;
                traces++;
            }
    /* histories over four positions */
    static const uchar vs[] = { 0, 1, 127, 128, 255, 'x' };
    int len = depth > 1 ? 5 : 4;
    long tot = 1;
    for (int i = 0; i < len; i++)
        tot *= 24;
    for (long k = 0; k < tot; k++) {
        if (!mine())
            continue;
        progress++;
        memset(s, 0x33, sizeof s);
        memcpy(m, s, sizeof s);
        long q = k;
        int n = 0;
        what[0] = 0;
        if (sigsetjmp(env, 0)) {
            bad("history", "crash");
            continue;
        }
        for (int i = 0; i < len; i++, q /= 24) {
            int pos = q % 4, v = vs[q % 24 / 4];
            n += snprintf(what + n, sizeof what - n, "lchar(s, %d, %d); ", pos, v);
            blchar((word)(s + 64), (word)pos, (word)v);
            m[64 + pos] = v;
            transitions++;
        }
        if (memcmp(s, m, sizeof s))
            bad("history", "the bytes are %s instead of %s", hex(s + 60, 12), hex(m + 60, 12));
        for (int i = 0; i < 4; i++) {
            word g = bchar((word)(s + 64), (word)i);
            transitions++;
            if (g != m[64 + i])
                bad("history", "char(s, %d) is %ld", i, g);
        }
        states += len + 1;
        traces++;
    }
    /* far positions */
    uchar *far = mmap(0, 1L << 33, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (far != MAP_FAILED) {
        static const word at[] = { 0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x1fffffff0 };
        for (int i = 0; i < 14; i++)
            for (int v = 0; v < 256; v += 5) {
                if (!mine())
                    continue;
                progress++;
                snprintf(what, sizeof what, "lchar(s, %ld, %d)", at[i], v);
                if (sigsetjmp(env, 0)) {
                    bad("far", "crash");
                    continue;
                }
                blchar((word)far, at[i], (word)v);
                if (far[at[i]] != v)
                    bad("far", "the byte is %d", far[at[i]]);
                far[at[i]] = 255 - v;
                word g = bchar((word)far, at[i]);
                if (g != 255 - v)
                    bad("far", "char(s, %ld) is %ld instead of %d", at[i], g, 255 - v);
                transitions += 2;
                states += 3;
                traces++;
            }
        munmap(far, 1L << 33);
    }
}

static const struct { const char *name; void (*f)(void); } modes[] = { { "numbers", numbers }, { "characters", characters }, { "blocks", blocks }, { "formats", formats }, { "streams", streams },
    { "reading", reading }, { "inputs", inputs }, { "nreads", nreads }, { "bytes", bytes } };

int main(int ac, char **av)
{
    idx = atol(av[2]);
    cnt = atol(av[3]);
    depth = atol(av[4]);
    rep = fcntl(1, F_DUPFD_CLOEXEC, 200);
    pfd[1] = -1;
    /* descriptors with known meaning: 10 write only, 11 read only, 12 a directory */
    for (int s = 0; s < 2; s++) {
        int f = memfd_create("out", 0);
        if (f < 0 || ftruncate(f, CAP))
            return 95;
        got[s] = mmap(0, CAP, PROT_READ, MAP_SHARED, f, 0);
        if (got[s] == MAP_FAILED)
            return 94;
        dup2(f, s + 1);
        close(f);
    }
    int f = open("/dev/null", O_WRONLY);
    dup2(f, 10);
    close(f);
    f = open("/dev/zero", O_RDONLY);
    dup2(f, 11);
    close(f);
    f = open(".", O_RDONLY | O_DIRECTORY);
    dup2(f, 12);
    close(f);
    static char stk[65536];
    stack_t ss = { .ss_sp = stk, .ss_size = sizeof stk };
    sigaltstack(&ss, 0);
    struct sigaction sa = { .sa_handler = onsig, .sa_flags = SA_ONSTACK | SA_NODEFER };
    int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPIPE, SIGTRAP, SIGSYS };
    for (int i = 0; i < 8; i++)
        sigaction(sigs[i], &sa, 0);
    struct sigaction ta = { .sa_handler = tick, .sa_flags = SA_RESTART };
    sigaction(SIGALRM, &ta, 0);
    struct itimerval it = { { 4, 0 }, { 4, 0 } };
    setitimer(ITIMER_REAL, &it, 0);
    for (unsigned i = 0; i < sizeof modes / sizeof *modes; i++)
        if (!strcmp(av[1], modes[i].name)) {
            modes[i].f();
            say("DONE %lu %lu %lu", states, transitions, traces);
            return 0;
        }
    return 93;
}
