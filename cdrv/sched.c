/*
 * Controlled scheduler for several commands that run at the same time.
 *
 * Every file operation of every command (and of the programs it starts) on a
 * path below ROOT, and every writing operation elsewhere, is a decision point:
 * the command stops just before it. When each command that is still alive has
 * stopped, the operations are printed, and the answer says which command may
 * carry out its operation, or which command is killed.
 *
 *   sched ROOT AUX N  { CWD OUT ERR NENV env... ARGC argv... } x N
 *
 * output:  p <command> <R|W> <call> <path> [<path>]    an operation about to be done
 *          x <command> <wait status>                   the command has ended
 *          ?                                           question
 * input:   <command>   or   k<command>
 * and at the end: end
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXT 4096
#define MAXC 8

static const int calls[] = {SYS_open, SYS_openat, SYS_creat, SYS_read, SYS_pread64, SYS_readv, SYS_write, SYS_pwrite64, SYS_writev, SYS_ftruncate, SYS_truncate, SYS_unlink, SYS_unlinkat, SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_stat, SYS_lstat, SYS_newfstatat, SYS_statx, SYS_access, SYS_faccessat, SYS_faccessat2, SYS_chmod, SYS_fchmod, SYS_fchmodat, SYS_copy_file_range, SYS_sendfile, SYS_getdents64, SYS_utimensat, SYS_openat2};
#define NCALLS ((int)(sizeof calls / sizeof *calls))

struct task {
    int pid, cmd, fresh; /* cmd -1: not yet known whose it is */
    int stopped;         /* waits for its command to be known */
    int status;
};
static struct task tasks[MAXT];
static int ntasks;
static int ncmd, root[MAXC], alive[MAXC], status_of[MAXC], ended[MAXC], reported[MAXC];
struct pend {
    int pid;
    char text[3 * PATH_MAX];
};
static struct pend queue[MAXC][64];
static int nq[MAXC];
static const char *ROOT, *AUX;

static struct task *find(int pid)
{
    for (int i = 0; i < ntasks; i++)
        if (tasks[i].pid == pid)
            return &tasks[i];
    return 0;
}

static struct task *add(int pid, int cmd)
{
    if (ntasks == MAXT)
        exit(3);
    struct task *t = &tasks[ntasks++];
    memset(t, 0, sizeof *t);
    t->pid = pid;
    t->cmd = cmd;
    t->fresh = 1;
    if (cmd >= 0)
        alive[cmd]++;
    return t;
}

static int str(int pid, unsigned long addr, char *buf)
{
    int n = 0;
    while (n < PATH_MAX - 1) {
        size_t want = 256 - (addr + n) % 256;
        if (n + want > PATH_MAX - 1)
            want = PATH_MAX - 1 - n;
        struct iovec l = {buf + n, want}, r = {(void *)(addr + n), want};
        ssize_t k = process_vm_readv(pid, &l, 1, &r, 1, 0);
        if (k <= 0)
            break;
        char *z = memchr(buf + n, 0, k);
        if (z)
            return 1;
        n += k;
    }
    buf[n] = 0;
    return n > 0;
}

static int fdpath(int pid, int fd, char *buf)
{
    char l[64];
    if (fd == AT_FDCWD)
        snprintf(l, sizeof l, "/proc/%d/cwd", pid);
    else
        snprintf(l, sizeof l, "/proc/%d/fd/%d", pid, fd);
    ssize_t n = readlink(l, buf, PATH_MAX - 1);
    if (n < 0)
        return 0;
    buf[n] = 0;
    char *d = strstr(buf, " (deleted)");
    if (d && !d[10])
        *d = 0;
    return buf[0] == '/';
}

static int atpath(int pid, int fd, unsigned long addr, char *buf)
{
    char rel[PATH_MAX], dir[PATH_MAX];
    if (!str(pid, addr, rel))
        return 0;
    if (rel[0] == '/') {
        strcpy(buf, rel);
        return 1;
    }
    if (!fdpath(pid, fd, dir))
        return 0;
    if (!rel[0])
        strcpy(buf, dir);
    else if (snprintf(buf, PATH_MAX, "%s/%s", dir, rel) >= PATH_MAX)
        return 0;
    return 1;
}

static int below(const char *p, const char *r)
{
    size_t n = strlen(r);
    return !strncmp(p, r, n) && (p[n] == '/' || !p[n]);
}

static int matters(const char *p, int w)
{
    if (below(p, AUX) || strchr(p, '\n') || strchr(p, '\t'))
        return 0;
    if (below(p, ROOT))
        return 1;
    return w && !below(p, "/dev") && !below(p, "/proc") && !below(p, "/sys");
}

/* describe the call a task is about to make; 0 when it does not matter */
static int describe(int pid, char *out)
{
    struct user_regs_struct r;
    char a[PATH_MAX] = "", b[PATH_MAX] = "";
    int w = 0, ok = 0;
    if (ptrace(PTRACE_GETREGS, pid, 0, &r))
        return 0;
    long n = r.orig_rax;
    const char *name = "?";
    switch (n) {
    case SYS_open: name = "open"; w = (r.rsi & (O_ACCMODE | O_CREAT | O_TRUNC)) != 0; ok = atpath(pid, AT_FDCWD, r.rdi, a); break;
    case SYS_creat: name = "creat"; w = 1; ok = atpath(pid, AT_FDCWD, r.rdi, a); break;
    case SYS_openat: name = "open"; w = (r.rdx & (O_ACCMODE | O_CREAT | O_TRUNC)) != 0; ok = atpath(pid, (int)r.rdi, r.rsi, a); break;
    case SYS_openat2: name = "open"; w = 1; ok = atpath(pid, (int)r.rdi, r.rsi, a); break;
    case SYS_read: case SYS_pread64: case SYS_readv: name = "read"; ok = fdpath(pid, (int)r.rdi, a); break;
    case SYS_getdents64: name = "list"; ok = fdpath(pid, (int)r.rdi, a); break;
    case SYS_write: case SYS_pwrite64: case SYS_writev: name = "write"; w = 1; ok = fdpath(pid, (int)r.rdi, a); break;
    case SYS_ftruncate: name = "truncate"; w = 1; ok = fdpath(pid, (int)r.rdi, a); break;
    case SYS_fchmod: name = "chmod"; w = 1; ok = fdpath(pid, (int)r.rdi, a); break;
    case SYS_truncate: name = "truncate"; w = 1; ok = atpath(pid, AT_FDCWD, r.rdi, a); break;
    case SYS_chmod: name = "chmod"; w = 1; ok = atpath(pid, AT_FDCWD, r.rdi, a); break;
    case SYS_fchmodat: name = "chmod"; w = 1; ok = atpath(pid, (int)r.rdi, r.rsi, a); break;
    case SYS_utimensat: name = "utime"; w = 1; ok = r.rsi ? atpath(pid, (int)r.rdi, r.rsi, a) : fdpath(pid, (int)r.rdi, a); break;
    case SYS_unlink: case SYS_rmdir: name = "unlink"; w = 1; ok = atpath(pid, AT_FDCWD, r.rdi, a); break;
    case SYS_unlinkat: name = "unlink"; w = 1; ok = atpath(pid, (int)r.rdi, r.rsi, a); break;
    case SYS_mkdir: name = "mkdir"; w = 1; ok = atpath(pid, AT_FDCWD, r.rdi, a); break;
    case SYS_mkdirat: name = "mkdir"; w = 1; ok = atpath(pid, (int)r.rdi, r.rsi, a); break;
    case SYS_rename: case SYS_link: name = "rename"; w = 1; ok = atpath(pid, AT_FDCWD, r.rdi, a) && atpath(pid, AT_FDCWD, r.rsi, b); break;
    case SYS_renameat: case SYS_renameat2: case SYS_linkat: name = "rename"; w = 1; ok = atpath(pid, (int)r.rdi, r.rsi, a) && atpath(pid, (int)r.rdx, r.r10, b); break;
    case SYS_symlink: name = "symlink"; w = 1; ok = atpath(pid, AT_FDCWD, r.rsi, a); break;
    case SYS_symlinkat: name = "symlink"; w = 1; ok = atpath(pid, (int)r.rsi, r.rdx, a); break;
    case SYS_stat: case SYS_lstat: case SYS_access: name = "stat"; ok = atpath(pid, AT_FDCWD, r.rdi, a); break;
    case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case SYS_faccessat2: name = "stat"; ok = atpath(pid, (int)r.rdi, r.rsi, a); break;
    case SYS_copy_file_range: name = "copy"; w = 1; ok = fdpath(pid, (int)r.rdi, b) && fdpath(pid, (int)r.rdx, a); break;
    case SYS_sendfile: name = "copy"; w = 1; ok = fdpath(pid, (int)r.rdi, a) && fdpath(pid, (int)r.rsi, b); break;
    }
    if (!ok || !(matters(a, w) || (b[0] && matters(b, w))))
        return 0;
    if (b[0])
        sprintf(out, "%c\t%s\t%s\t%s", w ? 'W' : 'R', name, a, b);
    else
        sprintf(out, "%c\t%s\t%s", w ? 'W' : 'R', name, a);
    return 1;
}

static void filter(void)
{
    struct sock_filter f[NCALLS + 4];
    int n = 0;
    f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (int i = 0; i < NCALLS; i++)
        f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, calls[i], NCALLS - i, 0);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
    struct sock_fprog p = {n, f};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) {
        perror("seccomp");
        _exit(126);
    }
}

static void stop_event(struct task *t, int status)
{
    int pid = t->pid, sig = WSTOPSIG(status), ev = status >> 16;
    if (ev == PTRACE_EVENT_SECCOMP) {
        int c = t->cmd;
        if (nq[c] < 64 && describe(pid, queue[c][nq[c]].text)) {
            queue[c][nq[c]++].pid = pid;
            return;
        }
        ptrace(PTRACE_CONT, pid, 0, 0);
    } else if (ev == PTRACE_EVENT_CLONE || ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_VFORK) {
        unsigned long np = 0;
        ptrace(PTRACE_GETEVENTMSG, pid, 0, &np);
        struct task *n = find((int)np);
        if (!n)
            add((int)np, t->cmd);
        else if (n->cmd < 0) {
            n->cmd = t->cmd;
            alive[n->cmd]++;
            if (n->stopped) {
                n->stopped = 0;
                n->fresh = 0;
                ptrace(PTRACE_CONT, n->pid, 0, 0);
            }
        }
        ptrace(PTRACE_CONT, pid, 0, 0);
    } else if (ev)
        ptrace(PTRACE_CONT, pid, 0, 0);
    else if (sig == SIGSTOP && t->fresh) {
        t->fresh = 0;
        ptrace(PTRACE_CONT, pid, 0, 0);
    } else
        ptrace(PTRACE_CONT, pid, 0, sig);
}

static int settled(void)
{
    for (int c = 0; c < ncmd; c++)
        if (!ended[c] && !nq[c])
            return 0;
    return 1;
}

static void on_alarm(int s)
{
    (void)s;
    if (write(1, "hang\n", 5)) {}
    _exit(4); /* PTRACE_O_EXITKILL ends the commands */
}

int main(int argc, char **argv)
{
    int a = 1;
    if (argc < 4)
        return 3;
    ROOT = argv[a++];
    AUX = argv[a++];
    ncmd = atoi(argv[a++]);
    if (ncmd > MAXC)
        return 3;
    signal(SIGALRM, on_alarm);
    for (int c = 0; c < ncmd; c++) {
        char *cwd = argv[a++], *out = argv[a++], *err = argv[a++];
        int ne = atoi(argv[a++]);
        char **env = calloc(ne + 1, sizeof *env);
        for (int i = 0; i < ne; i++)
            env[i] = argv[a++];
        int n = atoi(argv[a++]);
        char **av = calloc(n + 1, sizeof *av);
        for (int i = 0; i < n; i++)
            av[i] = argv[a++];
        int pid = fork();
        if (pid < 0)
            return 3;
        if (!pid) {
            int in = open("/dev/null", O_RDONLY), o = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0644), e = open(err, O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (o < 0 || e < 0 || chdir(cwd))
                _exit(126);
            dup2(in, 0);
            dup2(o, 1);
            dup2(e, 2);
            for (int i = 3; i < 64; i++)
                close(i);
            setpgid(0, 0);
            ptrace(PTRACE_TRACEME, 0, 0, 0);
            raise(SIGSTOP);
            filter();
            execve(av[0], av, env);
            _exit(126);
        }
        int st;
        if (waitpid(pid, &st, 0) != pid || !WIFSTOPPED(st))
            return 3;
        if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL)) {
            perror("ptrace");
            return 3;
        }
        root[c] = pid;
        add(pid, c)->fresh = 0;
        ptrace(PTRACE_CONT, pid, 0, 0);
    }
    setvbuf(stdout, 0, _IOFBF, 1 << 16);
    for (;;) {
        alarm(20);
        while (!settled()) {
            int st, pid = waitpid(-1, &st, __WALL);
            if (pid < 0) {
                if (errno == EINTR)
                    continue;
                for (int c = 0; c < ncmd; c++)
                    ended[c] = 1;
                break;
            }
            struct task *t = find(pid);
            if (WIFSTOPPED(st)) {
                if (!t) { /* stopped before its parent told about it */
                    t = add(pid, -1);
                    t->stopped = 1;
                } else
                    stop_event(t, st);
                continue;
            }
            if (!t)
                continue;
            int c = t->cmd;
            *t = tasks[--ntasks];
            if (c < 0)
                continue;
            for (int i = 0; i < nq[c]; i++)
                if (queue[c][i].pid == pid) {
                    memmove(&queue[c][i], &queue[c][i + 1], (nq[c] - i - 1) * sizeof(struct pend));
                    nq[c]--;
                    i--;
                }
            if (pid == root[c])
                status_of[c] = st;
            if (--alive[c] == 0)
                ended[c] = 1;
        }
        alarm(0);
        int live = 0;
        for (int c = 0; c < ncmd; c++)
            if (ended[c] && !reported[c]) {
                reported[c] = 1;
                printf("x %d %d\n", c, status_of[c]);
            } else if (!ended[c]) {
                live++;
                printf("p %d\t%s\n", c, queue[c][0].text);
            }
        if (!live)
            break;
        printf("?\n");
        fflush(stdout);
        char line[64];
        if (!fgets(line, sizeof line, stdin))
            return 0;
        int c = atoi(line + (line[0] == 'k'));
        if (c < 0 || c >= ncmd || ended[c])
            return 3;
        if (line[0] == 'k') {
            nq[c] = 0;
            for (int i = 0; i < ntasks; i++)
                if (tasks[i].cmd == c)
                    kill(tasks[i].pid, SIGKILL);
        } else {
            int pid = queue[c][0].pid;
            memmove(&queue[c][0], &queue[c][1], (nq[c] - 1) * sizeof(struct pend));
            nq[c]--;
            ptrace(PTRACE_CONT, pid, 0, 0);
        }
    }
    printf("end\n");
    fflush(stdout);
    return 0;
}
