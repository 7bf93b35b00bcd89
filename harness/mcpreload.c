/* LD_PRELOAD library of the verification harness.
   MCDIR_PERM=k            readdir() returns each directory's entries, sorted by name, in their k-th permutation (mod n!)
   MCFAULT=path:op:n:kind  n-th op (open, write, close) on files whose name ends with path: kind = errno number, or s<k>: short write of k bytes */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXD 64
#define MAXE 256
static struct { DIR *d; struct dirent *e[MAXE]; int n, pos; } T[MAXD];
static int cmp(const void *a, const void *b) { return strcmp((*(struct dirent **)a)->d_name, (*(struct dirent **)b)->d_name); }
struct dirent *readdir(DIR *d)
{
    static struct dirent *(*real)(DIR *);
    if (!real)
        real = dlsym(RTLD_NEXT, "readdir");
    const char *s = getenv("MCDIR_PERM");
    if (!s)
        return real(d);
    int i, f = -1;
    for (i = 0; i < MAXD; i++)
    {
        if (T[i].d == d)
            break;
        if (!T[i].d && f < 0)
            f = i;
    }
    if (i == MAXD)
    {
        i = f;
        T[i].d = d;
        T[i].n = T[i].pos = 0;
        struct dirent *e;
        while ((e = real(d)) && T[i].n < MAXE)
        {
            T[i].e[T[i].n] = malloc(e->d_reclen);
            memcpy(T[i].e[T[i].n++], e, e->d_reclen);
        }
        qsort(T[i].e, T[i].n, sizeof(void *), cmp);
        unsigned long k = strtoul(s, 0, 10);
        for (int a = 0; a < T[i].n; a++)
        {
            int left = T[i].n - a, b = a + k % left;
            k /= left;
            struct dirent *x = T[i].e[b];
            memmove(&T[i].e[a + 1], &T[i].e[a], (b - a) * sizeof(void *));
            T[i].e[a] = x;
        }
    }
    return T[i].pos < T[i].n ? T[i].e[T[i].pos++] : NULL;
}
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }
int closedir(DIR *d)
{
    static int (*real)(DIR *);
    if (!real)
        real = dlsym(RTLD_NEXT, "closedir");
    for (int i = 0; i < MAXD; i++)
        if (T[i].d == d)
            T[i].d = NULL;
    return real(d);
}

/* faults */
static char fpath[4096], fop[16], fkind[16];
static int fn = -2, count[3];
static void init(void)
{
    if (fn != -2)
        return;
    fn = -1;
    const char *s = getenv("MCFAULT");
    if (s)
        sscanf(s, "%4095[^:]:%15[^:]:%d:%15s", fpath, fop, &fn, fkind);
}
static int is_target_name(const char *p)
{
    size_t a = strlen(p), b = strlen(fpath);
    return b && a >= b && !strcmp(p + a - b, fpath);
}
static int is_target(int fd)
{
    char l[64], p[4096];
    init();
    if (!fpath[0])
        return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, p, sizeof p - 1);
    if (n <= 0)
        return 0;
    p[n] = 0;
    return is_target_name(p);
}
static int hit(int k, const char *op) { return !strcmp(fop, op) && ++count[k] == fn; }
#define REAL(n) static __typeof__(&n) real; if (!real) real = (__typeof__(&n))dlsym(RTLD_NEXT, #n)
static int ofault(const char *p)
{
    init();
    if (is_target_name(p) && hit(0, "open"))
    {
        errno = atoi(fkind);
        return 1;
    }
    return 0;
}
int open(const char *p, int fl, ...)
{
    REAL(open);
    va_list a;
    va_start(a, fl);
    int m = va_arg(a, int);
    va_end(a);
    return ofault(p) ? -1 : real(p, fl, m);
}
int open64(const char *p, int fl, ...)
{
    REAL(open64);
    va_list a;
    va_start(a, fl);
    int m = va_arg(a, int);
    va_end(a);
    return ofault(p) ? -1 : real(p, fl, m);
}
FILE *fopen(const char *p, const char *m)
{
    REAL(fopen);
    return ofault(p) ? NULL : real(p, m);
}
FILE *fopen64(const char *p, const char *m)
{
    REAL(fopen64);
    return ofault(p) ? NULL : real(p, m);
}
ssize_t write(int fd, const void *b, size_t n)
{
    REAL(write);
    if (is_target(fd) && hit(1, "write"))
    {
        if (fkind[0] == 's')
        {
            size_t k = atoi(fkind + 1);
            return real(fd, b, k < n ? k : n);
        }
        errno = atoi(fkind);
        return -1;
    }
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(writev);
    if (is_target(fd) && hit(1, "write"))
    {
        if (fkind[0] == 's')
        {
            size_t k = atoi(fkind + 1), i = 0;
            while (i < c && v[i].iov_len == 0)
                i++;
            if (i == c)
                return 0;
            return write(fd, v[i].iov_base, k < v[i].iov_len ? k : v[i].iov_len);
        }
        errno = atoi(fkind);
        return -1;
    }
    return real(fd, v, c);
}
int close(int fd)
{
    REAL(close);
    if (is_target(fd) && hit(2, "close"))
    {
        real(fd);
        errno = atoi(fkind);
        return -1;
    }
    return real(fd);
}
int fclose(FILE *f)
{
    REAL(fclose);
    if (is_target(fileno(f)) && hit(2, "close"))
    {
        real(f);
        errno = atoi(fkind);
        return EOF;
    }
    return real(f);
}
