/* LD_PRELOAD: makes the reads of the tool's input follow VERIF_READS ("kind:size,..."; kind 0 everything, 1 at most
   `size` bytes, 2 EINTR, 3 EIO).  Only standard input and regular files opened by a relative name count.  Reads that
   report an error are logged in VERIF_LOG with the file's name. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static char names[64][64] = {"stdin"};
static int k;

static void note(int fd, const char *path, int flags) {
    struct stat s;
    if (fd >= 0 && fd < 64 && path[0] != '/' && fstat(fd, &s) == 0 && S_ISREG(s.st_mode))
        snprintf(names[fd], 64, "%s", path);
    else if (fd >= 0 && fd < 64)
        names[fd][0] = 0;
}

#define OPEN(name)                                                           \
    int name(const char *path, int flags, ...) {                             \
        static int (*f)(const char *, int, ...);                             \
        va_list ap;                                                          \
        va_start(ap, flags);                                                 \
        int mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, int) : 0;      \
        va_end(ap);                                                          \
        if (!f) f = dlsym(RTLD_NEXT, #name);                                 \
        int fd = f(path, flags, mode);                                       \
        note(fd, path, flags);                                               \
        return fd;                                                           \
    }
OPEN(open)
OPEN(open64)

ssize_t read(int fd, void *buf, size_t n) {
    static ssize_t (*f)(int, void *, size_t);
    if (!f) f = dlsym(RTLD_NEXT, "read");
    if (fd < 0 || fd >= 64 || !names[fd][0]) return f(fd, buf, n);
    const char *s = getenv("VERIF_READS");
    int i = k++;
    while (s && i && (s = strchr(s, ','))) { s++; i--; }
    if (!s || !*s) return f(fd, buf, n);
    char *e;
    long kind = strtol(s, &e, 10);
    size_t lim = *e == ':' ? strtoull(e + 1, 0, 10) : 0;
    if (kind == 1) return f(fd, buf, lim < n ? lim : n);
    if (kind == 2) { errno = EINTR; return -1; }
    if (kind == 3) {
        const char *l = getenv("VERIF_LOG");
        FILE *h = l ? fopen(l, "a") : 0;
        if (h) { fprintf(h, "%s\n", names[fd]); fclose(h); }
        errno = EIO;
        return -1;
    }
    return f(fd, buf, n);
}
