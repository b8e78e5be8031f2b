/*
 * Stand-in for the tool chain in concurrent runs: its output is a function of
 * its options and of the contents (not the names) of its inputs.
 */
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int main(int argc, char **argv)
{
    if (getenv("SCLANG_FAIL")) {
        fprintf(stderr, "stand-in fails\n");
        return 1;
    }
    static char buf[1 << 16], text[1 << 14];
    const char *out = "a.out";
    int n, len = 0;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "-o") && i + 1 < argc) {
            out = argv[++i];
            continue;
        }
        if (argv[i][0] == '-') {
            len += snprintf(text + len, sizeof text - len, "%s\n", argv[i]);
            continue;
        }
        uint64_t h = 14695981039346656037UL;
        long size = 0;
        int fd = open(argv[i], O_RDONLY);
        if (fd < 0) {
            fprintf(stderr, "cannot open %s\n", argv[i]);
            return 1;
        }
        while ((n = read(fd, buf, sizeof buf)) > 0) {
            size += n;
            for (int k = 0; k < n; k++)
                h = (h ^ (unsigned char)buf[k]) * 1099511628211UL;
        }
        if (n < 0)
            return 1;
        close(fd);
        len += snprintf(text + len, sizeof text - len, "%ld bytes %016lx\n", size, (unsigned long)h);
    }
    int fd = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0755);
    if (fd < 0)
        return 1;
    return write(fd, text, len) == len && !close(fd) ? 0 : 1;
}
