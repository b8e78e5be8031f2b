/*
 * Runs an executable once per job and compares exit status and output.
 * usage: xrun EXE JOBS INDEX COUNT
 * A job is a line: status argc envc closed stdin stdout stderr (the last three in
 * hexadecimal, "-" when empty). closed: bit set of standard descriptors to close.
 * Prints "BAD job text" and "DONE n".
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define CAP (1 << 20)
static unsigned char want[2][CAP], in[CAP], got[CAP + 1];
static int unhex(const char *s, unsigned char *o)
{
    int n = 0;
    if (*s == '-')
        return 0;
    for (; s[0] && s[1]; s += 2) {
        unsigned v;
        sscanf(s, "%2x", &v);
        o[n++] = v;
    }
    return n;
}
static volatile pid_t child;
static volatile int late;
static void onalarm(int s)
{
    late = 1;
    if (child > 0)
        kill(child, SIGKILL);
}
static void show(const unsigned char *p, int n)
{
    for (int i = 0; i < n && i < 80; i++)
        if (p[i] > 32 && p[i] < 127)
            putchar(p[i]);
        else
            printf("\\%02x", p[i]);
    printf("(%d bytes)", n);
}

int main(int ac, char **av)
{
    FILE *f = fopen(av[2], "re");
    long idx = atol(av[3]), cnt = atol(av[4]), no = 0, done = 0, bads = 0;
    static char line[6 * CAP];
    int fi = memfd_create("i", MFD_CLOEXEC), fo[2] = { memfd_create("o", MFD_CLOEXEC), memfd_create("e", MFD_CLOEXEC) };
    struct sigaction sa = { .sa_handler = onalarm };
    sigaction(SIGALRM, &sa, 0);
    if (!f)
        return 2;
    while (fgets(line, sizeof line, f)) {
        long k = no++;
        if (k % cnt != idx)
            continue;
        int status, argc, envc, closed;
        char *p = line, *w[7];
        for (int i = 0; i < 7; i++)
            w[i] = strtok(i ? 0 : p, " \n");
        status = atoi(w[0]), argc = atoi(w[1]), envc = atoi(w[2]), closed = atoi(w[3]);
        int ni = unhex(w[4], in), nw[2] = { unhex(w[5], want[0]), unhex(w[6], want[1]) };
        if (ftruncate(fi, 0) || ftruncate(fo[0], 0) || ftruncate(fo[1], 0) || pwrite(fi, in, ni, 0) != ni)
            return 3;
        lseek(fi, 0, SEEK_SET);
        lseek(fo[0], 0, SEEK_SET);
        lseek(fo[1], 0, SEEK_SET);
        char *args[40] = { av[1] }, *envs[40];
        for (int i = 1; i <= argc; i++)
            args[i] = "argument" + i % 8;
        args[argc + 1] = 0;
        for (int i = 0; i < envc; i++)
            envs[i] = "VARIABLE=abcdef" + i % 5;
        envs[envc] = 0;
        fflush(stdout);
        late = 0;
        pid_t c = vfork();
        if (c == 0) {
            dup2(fi, 0);
            int keep = fcntl(2, F_DUPFD_CLOEXEC, 100);
            (void)keep;
            dup2(fo[0], 1);
            dup2(fo[1], 2);
            for (int i = 0; i < 3; i++)
                if (closed >> i & 1)
                    close(i);
            execve(av[1], args, envs);
            _exit(127);
        }
        child = c;
        alarm(20);
        int st;
        while (waitpid(c, &st, 0) < 0 && errno == EINTR)
            ;
        alarm(0);
        child = 0;
        done++;
        int bad = 0;
        if (late || !WIFEXITED(st) || WEXITSTATUS(st) != status)
            bad = 1;
        int n[2];
        for (int s = 0; s < 2; s++) {
            n[s] = pread(fo[s], got, CAP, 0);
            if (!(closed >> (s + 1) & 1) && (n[s] != nw[s] || memcmp(got, want[s], nw[s])))
                bad = 1;
        }
        if (bad) {
            printf("BAD %ld ", k);
            if (late)
                printf("does not end; ");
            else if (WIFEXITED(st))
                printf("exit status %d instead of %d; ", WEXITSTATUS(st), status);
            else
                printf("killed by signal %d; ", WTERMSIG(st));
            for (int s = 0; s < 2; s++) {
                n[s] = pread(fo[s], got, CAP, 0);
                printf("%s ", s ? "stderr" : "stdout");
                show(got, n[s]);
                printf(" instead of ");
                show(want[s], nw[s]);
                printf("; ");
            }
            printf("\n");
            if (++bads >= 4)
                break;
        }
    }
    printf("DONE %ld\n", done);
    return 0;
}
