// Fault injection for file operations of compiled Clara programs (link flags: -Wl,--wrap=open,--wrap=lseek,--wrap=read).
//
// IOFAULT=name:n:errno lets the n-th call of that function fail with errno. All calls are logged to standard error.
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

int __real_open(const char *path, int flags, ...);
off_t __real_lseek(int fd, off_t off, int mode);
ssize_t __real_read(int fd, void *buf, size_t n);

static int counts[3];
static const char *names[3] = { "open", "lseek", "read" };

static int inject(int k)
{
    counts[k]++;
    const char *f = getenv("IOFAULT");
    if (!f) return 0;
    char name[16];
    int n, e;
    if (sscanf(f, "%15[a-z]:%d:%d", name, &n, &e) != 3) return 0;
    if (strcmp(name, names[k]) || n != counts[k]) return 0;
    fprintf(stderr, "FAULT %s %d %d\n", name, n, e);
    errno = e;
    return 1;
}

int __wrap_open(const char *path, int flags, ...)
{
    if (inject(0)) return -1;
    int r = __real_open(path, flags);
    int e = errno;
    fprintf(stderr, "CALL open flags=%d ret=%d\n", flags, r);
    errno = e;
    return r;
}

off_t __wrap_lseek(int fd, off_t off, int mode)
{
    if (inject(1)) return -1;
    off_t r = __real_lseek(fd, off, mode);
    int e = errno;
    fprintf(stderr, "CALL lseek off=%ld mode=%d ret=%ld\n", (long) off, mode, (long) r);
    errno = e;
    return r;
}

ssize_t __wrap_read(int fd, void *buf, size_t n)
{
    if (inject(2)) return -1;
    ssize_t r = __real_read(fd, buf, n);
    int e = errno;
    fprintf(stderr, "CALL read n=%lu ret=%ld\n", (unsigned long) n, (long) r);
    errno = e;
    return r;
}

// Start of the next operation of the program
void monOp(void) { fprintf(stderr, "OP\n"); }
