/*
 * Runs a static Linux executable for 64-bit RISC-V or 64-bit ARM by interpreting
 * its instructions: the integer instructions compilers emit, plus the loads and
 * stores of vector registers that variadic functions of ARM contain.
 * usage: emu PROGRAM STEPS NOTES
 * Exit status: that of the program; after a fault, an unknown instruction or STEPS
 * instructions without an end, 125. The file NOTES tells which ("EXIT", "FAULT ...",
 * "UNKNOWN ...", "STEPS").
 * System calls: read, write, exit, exit_group; 0x7000 keeps the registers and
 * returns 0, 0x7001 goes back there, returning 1.
 */
#define _GNU_SOURCE
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

typedef uint64_t u64;
typedef int64_t s64;
typedef uint32_t u32;
typedef int32_t s32;
typedef unsigned __int128 u128;
typedef __int128 s128;

#define MEM (1ull << 30)
#define STACK (64ull << 20)
static uint8_t *mem;
static u64 lo = ~0ull, hi; /* the program's segments */
static u64 textlo = ~0ull, texthi;
static u64 pc, steps, limit;
static int note;

static void stop(const char *what, u64 v)
{
    dprintf(note, "%s pc=%llx value=%llx steps=%llu\n", what, (unsigned long long)pc, (unsigned long long)v, (unsigned long long)steps);
    _exit(125);
}
static int valid(u64 a, u64 n)
{
    return (a >= lo && n <= hi - lo && a <= hi - n) || (a >= MEM - STACK && n <= STACK && a <= MEM - n);
}
static void *at(u64 a, u64 n, int w)
{
    if (!valid(a, n))
        stop(w ? "FAULT store" : "FAULT load", a);
    if (w && a + n > textlo && a < texthi)
        stop("FAULT store to code", a);
    return mem + a;
}
static u64 ld(u64 a, int n)
{
    u64 v = 0;
    memcpy(&v, at(a, n, 0), n);
    return v;
}
static void st(u64 a, u64 v, int n) { memcpy(at(a, n, 1), &v, n); }
static u64 sx(u64 v, int b) { return (u64)((s64)(v << (64 - b)) >> (64 - b)); }

static s64 call(u64 nr, u64 a, u64 b, u64 c)
{
    ssize_t r;
    switch (nr) {
    case 63:
        if (!valid(b, c > MEM ? MEM : c))
            return -EFAULT;
        r = read(a, mem + b, c);
        return r < 0 ? -errno : r;
    case 64:
        if (!valid(b, c > MEM ? MEM : c))
            return -EFAULT;
        r = write(a, mem + b, c);
        return r < 0 ? -errno : r;
    case 93:
    case 94:
        dprintf(note, "EXIT %llu\n", (unsigned long long)steps);
        _exit(a & 255);
    }
    return -ENOSYS;
}

/* --- RISC-V --- */
static u64 x[32], sx_[32], spc;
static u64 mulhu(u64 a, u64 b) { return (u128)a * b >> 64; }
static void riscv(void)
{
    for (;; steps++) {
        if (steps >= limit)
            stop("STEPS", 0);
        if (pc & 3 || pc < textlo || pc >= texthi)
            stop("FAULT jump", pc);
        u32 i;
        memcpy(&i, mem + pc, 4);
        int op = i & 127, rd = i >> 7 & 31, f3 = i >> 12 & 7, f7 = i >> 25;
        u64 a = x[i >> 15 & 31], b = x[i >> 20 & 31], r = 0;
        s64 ii = (s32)i >> 20;
        u64 next = pc + 4;
        int wr = 1;
        switch (op) {
        case 0x37: r = (s64)(s32)(i & 0xfffff000); break;
        case 0x17: r = pc + (s64)(s32)(i & 0xfffff000); break;
        case 0x6f: {
            u64 o = sx((u64)(i >> 31) << 20 | (i >> 12 & 255) << 12 | (i >> 20 & 1) << 11 | (i >> 21 & 1023) << 1, 21);
            r = next;
            next = pc + o;
            break;
        }
        case 0x67:
            r = next;
            next = (a + ii) & ~1ull;
            break;
        case 0x63: {
            u64 o = sx((u64)(i >> 31) << 12 | (i >> 7 & 1) << 11 | (i >> 25 & 63) << 5 | (i >> 8 & 15) << 1, 13);
            int t;
            switch (f3) {
            case 0: t = a == b; break;
            case 1: t = a != b; break;
            case 4: t = (s64)a < (s64)b; break;
            case 5: t = (s64)a >= (s64)b; break;
            case 6: t = a < b; break;
            case 7: t = a >= b; break;
            default: stop("UNKNOWN", i);
            }
            if (t)
                next = pc + o;
            wr = 0;
            break;
        }
        case 0x03:
            switch (f3) {
            case 0: r = sx(ld(a + ii, 1), 8); break;
            case 1: r = sx(ld(a + ii, 2), 16); break;
            case 2: r = sx(ld(a + ii, 4), 32); break;
            case 3: r = ld(a + ii, 8); break;
            case 4: r = ld(a + ii, 1); break;
            case 5: r = ld(a + ii, 2); break;
            case 6: r = ld(a + ii, 4); break;
            default: stop("UNKNOWN", i);
            }
            break;
        case 0x23:
            if (f3 > 3)
                stop("UNKNOWN", i);
            st(a + (((s64)(s32)i >> 25 << 5) | (i >> 7 & 31)), b, 1 << f3);
            wr = 0;
            break;
        case 0x13:
            switch (f3) {
            case 0: r = a + ii; break;
            case 1:
                if (i >> 26)
                    stop("UNKNOWN", i);
                r = a << (i >> 20 & 63);
                break;
            case 2: r = (s64)a < ii; break;
            case 3: r = a < (u64)ii; break;
            case 4: r = a ^ ii; break;
            case 5:
                if (i >> 26 == 0)
                    r = a >> (i >> 20 & 63);
                else if (i >> 26 == 16)
                    r = (s64)a >> (i >> 20 & 63);
                else
                    stop("UNKNOWN", i);
                break;
            case 6: r = a | ii; break;
            case 7: r = a & ii; break;
            }
            break;
        case 0x1b:
            switch (f3) {
            case 0: r = (s32)(a + ii); break;
            case 1:
                if (f7)
                    stop("UNKNOWN", i);
                r = (s32)((u32)a << (i >> 20 & 31));
                break;
            case 5:
                if (f7 == 0)
                    r = (s32)((u32)a >> (i >> 20 & 31));
                else if (f7 == 32)
                    r = (s32)a >> (i >> 20 & 31);
                else
                    stop("UNKNOWN", i);
                break;
            default: stop("UNKNOWN", i);
            }
            break;
        case 0x33:
            switch (f7 << 3 | f3) {
            case 0: r = a + b; break;
            case 1: r = a << (b & 63); break;
            case 2: r = (s64)a < (s64)b; break;
            case 3: r = a < b; break;
            case 4: r = a ^ b; break;
            case 5: r = a >> (b & 63); break;
            case 6: r = a | b; break;
            case 7: r = a & b; break;
            case 32 << 3: r = a - b; break;
            case 32 << 3 | 5: r = (s64)a >> (b & 63); break;
            case 8: r = a * b; break;
            case 9: r = (s128)(s64)a * (s64)b >> 64; break;
            case 10: r = mulhu(a, b) - ((s64)a < 0 ? b : 0); break;
            case 11: r = mulhu(a, b); break;
            case 12: r = !b ? ~0ull : (s64)b == -1 ? -a : (u64)((s64)a / (s64)b); break;
            case 13: r = !b ? ~0ull : a / b; break;
            case 14: r = !b ? a : (s64)b == -1 ? 0 : (u64)((s64)a % (s64)b); break;
            case 15: r = !b ? a : a % b; break;
            default: stop("UNKNOWN", i);
            }
            break;
        case 0x3b: {
            u32 p = a, q = b;
            switch (f7 << 3 | f3) {
            case 0: r = (s32)(p + q); break;
            case 1: r = (s32)(p << (q & 31)); break;
            case 5: r = (s32)(p >> (q & 31)); break;
            case 32 << 3: r = (s32)(p - q); break;
            case 32 << 3 | 5: r = (s32)p >> (q & 31); break;
            case 8: r = (s32)(p * q); break;
            case 12: r = !q ? ~0ull : q == ~0u ? (s64)(s32)-p : (s64)((s32)p / (s32)q); break;
            case 13: r = !q ? ~0ull : (s64)(s32)(p / q); break;
            case 14: r = !q ? (s64)(s32)p : q == ~0u ? 0 : (s64)((s32)p % (s32)q); break;
            case 15: r = !q ? (s64)(s32)p : (s64)(s32)(p % q); break;
            default: stop("UNKNOWN", i);
            }
            break;
        }
        case 0x0f: wr = 0; break; /* fence */
        case 0x73:
            if (i != 0x73)
                stop("UNKNOWN", i);
            wr = 0;
            if (x[17] == 0x7000) {
                memcpy(sx_, x, sizeof x);
                spc = next;
                x[10] = 0;
            } else if (x[17] == 0x7001) {
                memcpy(x, sx_, sizeof x);
                next = spc;
                x[10] = 1;
            } else
                x[10] = call(x[17], x[10], x[11], x[12]);
            break;
        default: stop("UNKNOWN", i);
        }
        if (wr && rd)
            x[rd] = r;
        pc = next;
    }
}

/* --- ARM --- */
static u64 sp, ssp;
static u128 vr[32];
static int N, Z, C, V;
static u64 G(int r) { return r == 31 ? 0 : x[r]; }
static u64 S(int r) { return r == 31 ? sp : x[r]; }
static void W(int r, u64 v, int sf)
{
    if (r != 31)
        x[r] = sf ? v : (u32)v;
}
static void WS(int r, u64 v, int sf)
{
    if (r == 31)
        sp = sf ? v : (u32)v;
    else
        W(r, v, sf);
}
static u64 addc(u64 a, u64 b, int c, int sf, int set)
{
    u64 r;
    if (sf) {
        u128 u = (u128)a + b + c;
        s128 s = (s128)(s64)a + (s64)b + c;
        r = u;
        if (set)
            C = u >> 64 != 0, V = s != (s64)r, N = r >> 63, Z = !r;
    } else {
        u64 u = (u64)(u32)a + (u32)b + c;
        s64 s = (s64)(s32)a + (s32)b + c;
        r = (u32)u;
        if (set)
            C = u >> 32 != 0, V = s != (s32)r, N = r >> 31, Z = !r;
    }
    return r;
}
static void nz(u64 r, int sf)
{
    N = sf ? r >> 63 : r >> 31 & 1;
    Z = sf ? !r : !(u32)r;
    C = V = 0;
}
static int cond(int c)
{
    int t;
    switch (c >> 1) {
    case 0: t = Z; break;
    case 1: t = C; break;
    case 2: t = N; break;
    case 3: t = V; break;
    case 4: t = C && !Z; break;
    case 5: t = N == V; break;
    case 6: t = N == V && !Z; break;
    default: return 1;
    }
    return c & 1 ? !t : t;
}
static u64 shift(u64 v, int type, int n, int sf)
{
    if (sf) {
        n &= 63;
        switch (type) {
        case 0: return v << n;
        case 1: return v >> n;
        case 2: return (s64)v >> n;
        default: return n ? v >> n | v << (64 - n) : v;
        }
    }
    u32 w = v;
    n &= 31;
    switch (type) {
    case 0: return w << n;
    case 1: return w >> n;
    case 2: return (u32)((s32)w >> n);
    default: return n ? w >> n | w << (32 - n) : w;
    }
}
static u64 extend(u64 v, int opt, int n)
{
    static const int bits[] = { 8, 16, 32, 64 };
    int b = bits[opt & 3];
    u64 m = b == 64 ? ~0ull : (1ull << b) - 1;
    v &= m;
    if (opt & 4)
        v = sx(v, b);
    return v << n;
}
/* the masks of the immediate and bit-field instructions */
static int masks(int n, int imms, int immr, int sf, int logical, u64 *wm, u64 *tm)
{
    int len = 31 - __builtin_clz((u32)(n << 6 | (~imms & 63)) | 1);
    if (!(n << 6 | (~imms & 63)) || len < 1)
        return 0;
    int e = 1 << len, lv = e - 1;
    if (e > (sf ? 64 : 32) || (logical && (imms & lv) == lv))
        return 0;
    int s = imms & lv, r = immr & lv, d = (s - r) & lv;
    u64 em = e == 64 ? ~0ull : (1ull << e) - 1;
    u64 we = s == 63 ? ~0ull : (1ull << (s + 1)) - 1, te = d == 63 ? ~0ull : (1ull << (d + 1)) - 1;
    we = (r ? (we >> r | we << (e - r)) : we) & em;
    for (; e < 64; e *= 2)
        we |= we << e, te |= te << e;
    *wm = we;
    *tm = te;
    return 1;
}
static void align(int rn)
{
    if (rn == 31 && sp & 15)
        stop("FAULT stack alignment", sp);
}
/* one load or store of a general or vector register */
static void mov(int vec, int size, int opc, int rt, u64 a, u32 i)
{
    if (vec) {
        int n = opc & 2 ? 16 : 1 << size;
        if (opc & 2 && size)
            stop("UNKNOWN", i);
        if (opc & 1) {
            vr[rt] = 0;
            memcpy(&vr[rt], at(a, n, 0), n);
        } else
            memcpy(at(a, n, 1), &vr[rt], n);
        return;
    }
    int n = 1 << size;
    switch (opc) {
    case 0: st(a, G(rt), n); break;
    case 1: W(rt, ld(a, n), 1); break;
    case 2:
        if (size == 3)
            break; /* prefetch */
        W(rt, sx(ld(a, n), 8 * n), 1);
        break;
    case 3:
        if (size > 1)
            stop("UNKNOWN", i);
        W(rt, sx(ld(a, n), 8 * n), 0);
    }
}
static void arm(void)
{
    u64 sv[32], ss = 0;
    for (;; steps++) {
        if (steps >= limit)
            stop("STEPS", 0);
        if (pc & 3 || pc < textlo || pc >= texthi)
            stop("FAULT jump", pc);
        u32 i;
        memcpy(&i, mem + pc, 4);
        u64 next = pc + 4;
        int sf = i >> 31, rd = i & 31, rn = i >> 5 & 31, rm = i >> 16 & 31, ra = i >> 10 & 31;
        if ((i >> 26 & 7) == 4) { /* immediates */
            switch (i >> 23 & 7) {
            case 0:
            case 1: {
                u64 o = sx((u64)(i >> 5 & 0x7ffff) << 2 | (i >> 29 & 3), 21);
                W(rd, sf ? (pc & ~4095ull) + (o << 12) : pc + o, 1);
                break;
            }
            case 2: {
                u64 m = (i >> 10 & 4095) << (i >> 22 & 1 ? 12 : 0);
                int sub = i >> 30 & 1, set = i >> 29 & 1;
                u64 r = sub ? addc(S(rn), ~m, 1, sf, set) : addc(S(rn), m, 0, sf, set);
                set ? W(rd, r, sf) : WS(rd, r, sf);
                break;
            }
            case 4: {
                u64 wm, tm, r;
                if (!masks(i >> 22 & 1, ra | (i >> 15 & 1) << 5, i >> 16 & 63, sf, 1, &wm, &tm))
                    stop("UNKNOWN", i);
                switch (i >> 29 & 3) {
                case 0: WS(rd, G(rn) & wm, sf); break;
                case 1: WS(rd, G(rn) | wm, sf); break;
                case 2: WS(rd, G(rn) ^ wm, sf); break;
                case 3:
                    r = G(rn) & wm;
                    if (!sf)
                        r = (u32)r;
                    nz(r, sf);
                    W(rd, r, sf);
                }
                break;
            }
            case 5: {
                u64 m = i >> 5 & 0xffff;
                int h = (i >> 21 & 3) * 16;
                if (!sf && h > 16)
                    stop("UNKNOWN", i);
                switch (i >> 29 & 3) {
                case 0: W(rd, ~(m << h), sf); break;
                case 2: W(rd, m << h, sf); break;
                case 3: W(rd, (G(rd) & ~(0xffffull << h)) | m << h, sf); break;
                default: stop("UNKNOWN", i);
                }
                break;
            }
            case 6: {
                int r = i >> 16 & 63, s = i >> 10 & 63;
                u64 wm, tm, src = G(rn), dst, bot, top;
                if ((int)(i >> 22 & 1) != sf || !masks(i >> 22 & 1, s, r, sf, 0, &wm, &tm))
                    stop("UNKNOWN", i);
                if (!sf)
                    src = (u32)src, wm = (u32)wm, tm = (u32)tm;
                u64 rot = shift(src, 3, r, sf);
                switch (i >> 29 & 3) {
                case 0:
                    bot = rot & wm;
                    top = src >> s & 1 ? ~0ull : 0;
                    W(rd, (top & ~tm) | (bot & tm), sf);
                    break;
                case 1:
                    dst = G(rd);
                    bot = (dst & ~wm) | (rot & wm);
                    W(rd, (dst & ~tm) | (bot & tm), sf);
                    break;
                case 2: W(rd, rot & wm & tm, sf); break;
                default: stop("UNKNOWN", i);
                }
                break;
            }
            case 7: {
                int l = i >> 10 & 63;
                if (!sf)
                    W(rd, ((u64)(u32)G(rn) << 32 | (u32)G(rm)) >> (l & 31), 0);
                else
                    W(rd, l ? G(rm) >> l | G(rn) << (64 - l) : G(rm), 1);
                break;
            }
            default: stop("UNKNOWN", i);
            }
        } else if ((i >> 26 & 7) == 5) { /* branches */
            if ((i >> 26 & 31) == 5) {
                if (sf)
                    x[30] = next;
                next = pc + sx((u64)(i & 0x3ffffff) << 2, 28);
            } else if ((i >> 25 & 63) == 0x1a) {
                int t = sf ? !G(rd) : !(u32)G(rd);
                if (t ^ (i >> 24 & 1))
                    next = pc + sx((u64)(i >> 5 & 0x7ffff) << 2, 21);
            } else if ((i >> 25 & 63) == 0x1b) {
                int b = G(rd) >> ((i >> 31) << 5 | (i >> 19 & 31)) & 1;
                if (b == (int)(i >> 24 & 1))
                    next = pc + sx((u64)(i >> 5 & 0x3fff) << 2, 16);
            } else if (i >> 24 == 0x54 && !(i & 16)) {
                if (cond(i & 15))
                    next = pc + sx((u64)(i >> 5 & 0x7ffff) << 2, 21);
            } else if ((i & 0xfffffc1f) == 0xd61f0000)
                next = G(rn);
            else if ((i & 0xfffffc1f) == 0xd63f0000) {
                next = G(rn);
                x[30] = pc + 4;
            } else if ((i & 0xfffffc1f) == 0xd65f0000)
                next = G(rn);
            else if (i == 0xd4000001) {
                if (x[8] == 0x7000) {
                    memcpy(sv, x, sizeof sv);
                    ss = sp;
                    spc = next;
                    x[0] = 0;
                } else if (x[8] == 0x7001) {
                    memcpy(x, sv, sizeof sv);
                    sp = ss;
                    next = spc;
                    x[0] = 1;
                } else
                    x[0] = call(x[8], x[0], x[1], x[2]);
            } else if (i >> 12 != 0xd5032 && i >> 12 != 0xd5033) /* hints, barriers */
                stop(i >> 21 == 0x6a1 ? "FAULT trap" : "UNKNOWN", i);
        } else if ((i >> 25 & 5) == 4) { /* loads and stores */
            int vec = i >> 26 & 1;
            if ((i >> 27 & 7) == 5) { /* pairs */
                int opc = i >> 30, mode = i >> 23 & 3, L = i >> 22 & 1, n = vec ? 4 << opc : opc & 2 ? 8 : 4;
                if (opc == 3 || (!vec && opc == 1 && !L))
                    stop("UNKNOWN", i);
                u64 o = sx(i >> 15 & 127, 7) * n, b = S(rn);
                align(rn);
                u64 a = mode == 1 ? b : b + o;
                for (int k = 0; k < 2; k++) {
                    int r = k ? ra : rd;
                    u64 p = a + k * n;
                    if (vec) {
                        if (L) {
                            vr[r] = 0;
                            memcpy(&vr[r], at(p, n, 0), n);
                        } else
                            memcpy(at(p, n, 1), &vr[r], n);
                    } else if (!L)
                        st(p, G(r), n);
                    else
                        W(r, opc == 1 ? sx(ld(p, 4), 32) : ld(p, n), 1);
                }
                if (mode == 1 || mode == 3)
                    WS(rn, b + o, 1);
            } else if ((i >> 27 & 7) == 3 && !(i >> 24 & 1)) { /* literal */
                u64 a = pc + sx((u64)(i >> 5 & 0x7ffff) << 2, 21);
                int opc = i >> 30;
                if (vec) {
                    vr[rd] = 0;
                    memcpy(&vr[rd], at(a, 4 << opc, 0), 4 << opc);
                } else if (opc == 0)
                    W(rd, ld(a, 4), 1);
                else if (opc == 1)
                    W(rd, ld(a, 8), 1);
                else if (opc == 2)
                    W(rd, sx(ld(a, 4), 32), 1);
            } else if ((i >> 27 & 7) == 7) {
                int size = i >> 30, opc = i >> 22 & 3, lg = vec && opc & 2 ? 4 : size;
                u64 b = S(rn), a;
                align(rn);
                if (i >> 24 & 1) {
                    mov(vec, size, opc, rd, b + ((u64)(i >> 10 & 4095) << lg), i);
                } else if (i >> 21 & 1) {
                    if ((i >> 10 & 3) != 2)
                        stop("UNKNOWN", i);
                    int opt = i >> 13 & 7;
                    a = b + extend(G(rm), opt, i >> 12 & 1 ? lg : 0);
                    mov(vec, size, opc, rd, a, i);
                } else {
                    u64 o = sx(i >> 12 & 511, 9);
                    switch (i >> 10 & 3) {
                    case 0: mov(vec, size, opc, rd, b + o, i); break;
                    case 1:
                        mov(vec, size, opc, rd, b, i);
                        WS(rn, b + o, 1);
                        break;
                    case 3:
                        mov(vec, size, opc, rd, b + o, i);
                        WS(rn, b + o, 1);
                        break;
                    default: stop("UNKNOWN", i);
                    }
                }
            } else
                stop("UNKNOWN", i);
        } else if ((i >> 25 & 7) == 5) { /* registers */
            u64 r, b;
            if ((i >> 24 & 31) == 0x0a) { /* logical */
                b = shift(G(rm), i >> 22 & 3, i >> 10 & 63, sf);
                if (i >> 21 & 1)
                    b = ~b;
                switch (i >> 29 & 3) {
                case 0: r = G(rn) & b; break;
                case 1: r = G(rn) | b; break;
                case 2: r = G(rn) ^ b; break;
                default:
                    r = G(rn) & b;
                    if (!sf)
                        r = (u32)r;
                    nz(r, sf);
                }
                W(rd, r, sf);
            } else if ((i >> 24 & 31) == 0x0b) { /* add, subtract */
                int sub = i >> 30 & 1, set = i >> 29 & 1;
                if (i >> 21 & 1) {
                    if (i >> 22 & 3)
                        stop("UNKNOWN", i);
                    b = extend(G(rm), i >> 13 & 7, i >> 10 & 7);
                    r = addc(S(rn), sub ? ~b : b, sub, sf, set);
                    set ? W(rd, r, sf) : WS(rd, r, sf);
                } else {
                    b = shift(G(rm), i >> 22 & 3, i >> 10 & 63, sf);
                    W(rd, addc(G(rn), sub ? ~b : b, sub, sf, set), sf);
                }
            } else if ((i >> 21 & 255) == 0xd0 && !(i >> 10 & 63)) { /* with carry */
                int sub = i >> 30 & 1;
                b = G(rm);
                W(rd, addc(G(rn), sub ? ~b : b, C, sf, i >> 29 & 1), sf);
            } else if ((i >> 21 & 255) == 0xd2 && (i >> 29 & 1) && !(i & 0x410)) { /* conditional compare */
                b = i >> 11 & 1 ? (u64)rm : G(rm);
                if (cond(i >> 12 & 15)) {
                    if (i >> 30 & 1)
                        addc(G(rn), ~b, 1, sf, 1);
                    else
                        addc(G(rn), b, 0, sf, 1);
                } else
                    N = i >> 3 & 1, Z = i >> 2 & 1, C = i >> 1 & 1, V = i & 1;
            } else if ((i >> 21 & 255) == 0xd4 && !(i >> 29 & 1) && !(i >> 11 & 1)) { /* select */
                if (cond(i >> 12 & 15))
                    r = G(rn);
                else {
                    r = G(rm);
                    if (i >> 30 & 1)
                        r = ~r;
                    if (i >> 10 & 1)
                        r++;
                }
                W(rd, r, sf);
            } else if ((i >> 24 & 31) == 0x1b && !(i >> 29 & 3)) { /* multiply */
                switch ((i >> 21 & 7) << 1 | (i >> 15 & 1)) {
                case 0: W(rd, G(ra) + G(rn) * G(rm), sf); break;
                case 1: W(rd, G(ra) - G(rn) * G(rm), sf); break;
                case 2: W(rd, G(ra) + (s64)(s32)G(rn) * (s64)(s32)G(rm), 1); break;
                case 3: W(rd, G(ra) - (s64)(s32)G(rn) * (s64)(s32)G(rm), 1); break;
                case 4: W(rd, (s128)(s64)G(rn) * (s64)G(rm) >> 64, 1); break;
                case 10: W(rd, G(ra) + (u64)(u32)G(rn) * (u32)G(rm), 1); break;
                case 11: W(rd, G(ra) - (u64)(u32)G(rn) * (u32)G(rm), 1); break;
                case 12: W(rd, mulhu(G(rn), G(rm)), 1); break;
                default: stop("UNKNOWN", i);
                }
            } else if ((i >> 21 & 1023) == 0x0d6) { /* two sources */
                u64 a = G(rn);
                b = G(rm);
                switch (i >> 10 & 63) {
                case 2:
                    if (!sf)
                        a = (u32)a, b = (u32)b;
                    W(rd, b ? a / b : 0, sf);
                    break;
                case 3:
                    if (!sf)
                        a = (s32)a, b = (s32)b;
                    W(rd, !b ? 0 : (s64)b == -1 ? -a : (u64)((s64)a / (s64)b), sf);
                    break;
                case 8:
                case 9:
                case 10:
                case 11: W(rd, shift(a, i >> 10 & 3, b & (sf ? 63 : 31), sf), sf); break;
                default: stop("UNKNOWN", i);
                }
            } else if ((i >> 21 & 1023) == 0x2d6 && !rm) { /* one source */
                u64 a = sf ? G(rn) : (u32)G(rn);
                int n = sf ? 64 : 32;
                r = 0;
                switch (i >> 10 & 63) {
                case 0:
                    for (int k = 0; k < n; k++)
                        r |= (a >> k & 1) << (n - 1 - k);
                    break;
                case 1: r = (a >> 8 & 0x00ff00ff00ff00ffull) | (a & 0x00ff00ff00ff00ffull) << 8; break;
                case 2: r = sf ? (u64)__builtin_bswap32(a) | (u64)__builtin_bswap32(a >> 32) << 32 : __builtin_bswap32(a); break;
                case 3: r = __builtin_bswap64(a); break;
                case 4: r = a ? __builtin_clzll(a) - (64 - n) : n; break;
                case 5: {
                    u64 t = (sf ? (s64)a >> 63 : (s64)(s32)a >> 63);
                    u64 d = (a ^ t) & (sf ? ~0ull : 0xffffffff);
                    r = (d ? __builtin_clzll(d) - (64 - n) : n) - 1;
                    break;
                }
                default: stop("UNKNOWN", i);
                }
                W(rd, r, sf);
            } else
                stop("UNKNOWN", i);
        } else if ((i & 0xbff8fc00) == 0x0f00e400 || (i & 0xfff8fc00) == 0x6f00e400) { /* movi: bytes, or a mask of bytes */
            int m = (i >> 16 & 7) << 5 | (i >> 5 & 31);
            uint8_t o[16] = { 0 };
            if (i >> 29 & 1)
                for (int k = 0; k < 16; k++)
                    o[k] = m >> (k & 7) & 1 ? 255 : 0;
            else
                memset(o, m, i >> 30 & 1 ? 16 : 8);
            memcpy(&vr[rd], o, 16);
        } else
            stop("UNKNOWN", i);
        pc = next;
    }
}

int main(int argc, char **argv)
{
    struct stat sb;
    int fd = open(argv[1], O_RDONLY);
    if (argc < 4 || fd < 0 || fstat(fd, &sb))
        return 126;
    uint8_t *f = mmap(0, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
    close(fd);
    limit = strtoull(argv[2], 0, 10);
    note = fcntl(open(argv[3], O_WRONLY | O_CREAT | O_TRUNC, 0666), F_DUPFD_CLOEXEC, 100);
    mem = mmap(0, MEM + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (f == MAP_FAILED || mem == MAP_FAILED)
        return 126;
    Elf64_Ehdr *e = (void *)f;
    if (memcmp(e->e_ident, ELFMAG, SELFMAG) || e->e_type != ET_EXEC)
        return 126;
    for (int k = 0; k < e->e_phnum; k++) {
        Elf64_Phdr *p = (void *)(f + e->e_phoff + k * e->e_phentsize);
        if (p->p_type != PT_LOAD || !p->p_memsz)
            continue;
        if (p->p_vaddr < 4096 || p->p_vaddr + p->p_memsz > MEM - STACK - (1 << 20))
            return 126;
        memcpy(mem + p->p_vaddr, f + p->p_offset, p->p_filesz);
        if (p->p_vaddr < lo)
            lo = p->p_vaddr;
        if (p->p_vaddr + p->p_memsz > hi)
            hi = p->p_vaddr + p->p_memsz;
        if (p->p_flags & PF_X) {
            textlo = p->p_vaddr;
            texthi = p->p_vaddr + p->p_memsz;
        }
    }
    /* what the kernel guarantees: an aligned stack with the arguments */
    for (int k = 0; k < 32; k++) {
        x[k] = 0xdead0000beef0000ull + k;
        vr[k] = ~(u128)k;
    }
    u64 top = MEM - 512;
    u64 init[] = { 1, top + 128, 0, 0, 0, 0 };
    memcpy(mem + top, init, sizeof init);
    strcpy((char *)mem + top + 128, "prog");
    pc = e->e_entry;
    if (e->e_machine == EM_RISCV) {
        x[0] = 0;
        x[2] = top;
        riscv();
    } else if (e->e_machine == EM_AARCH64) {
        sp = top;
        arm();
    }
    return 126;
}
