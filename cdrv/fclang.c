/*
 * Stand-in for the tool chain: records its arguments and the contents of its
 * inputs, and writes a recognizable output file.
 * FCLANG_LOG: file the record is appended to; FCLANG_FAIL: number of the call
 * that fails; FCLANG_HOW: "exit" or "signal".
 */
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

int main(int argc, char **argv)
{
    const char *log = getenv("FCLANG_LOG"), *f = getenv("FCLANG_FAIL"), *how = getenv("FCLANG_HOW"), *out = 0;
    static char buf[1 << 16];
    int n = 0, calls = 1, i, fd;
    if ((fd = open(log, O_RDONLY)) >= 0) {
        while ((n = read(fd, buf, sizeof buf)) > 0)
            for (i = 0; i < n; i++)
                calls += buf[i] == '\n';
        close(fd);
    }
    FILE *o = fopen(log, "a");
    if (!o)
        return 3;
    for (i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "-o") && i + 1 < argc) {
            fprintf(o, "-o\t%s\t", out = argv[++i]);
            continue;
        }
        fprintf(o, "%s\t", argv[i]);
        struct stat st;
        if (argv[i][0] != '-' && !stat(argv[i], &st) && S_ISREG(st.st_mode)) {
            uint64_t h = 14695981039346656037UL;
            if ((fd = open(argv[i], O_RDONLY)) < 0)
                return 1;
            else {
                while ((n = read(fd, buf, sizeof buf)) > 0)
                    for (int k = 0; k < n; k++)
                        h = (h ^ (unsigned char)buf[k]) * 1099511628211UL;
                if (n < 0)
                    return 1;
                close(fd);
            }
            fprintf(o, "#%016lx\t", (unsigned long)h);
        }
    }
    fputc('\n', o);
    if (fclose(o))
        return 3;
    if (f && atoi(f) == calls) {
        if (how && !strcmp(how, "signal"))
            raise(SIGKILL);
        fprintf(stderr, "fake clang: failure\n");
        return 1;
    }
    if (!out)
        out = "a.out";
    fd = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0755);
    if (fd < 0)
        return 1;
    n = snprintf(buf, sizeof buf, "FAKE %d\n", calls);
    return write(fd, buf, n) == n && !close(fd) ? 0 : 1;
}
