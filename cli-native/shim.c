// Preloaded into the real program during replay: numbers its file-system calls the way the model does, makes one of them
// fail, limits the size of transfers, and lists directories in the order of the model.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

struct report { uint32_t calls, faulted; };
static struct report *rep, none;
static long at = -1, err_no, chunk;
static char *order;
static size_t order_len;

__attribute__((constructor)) static void init(void) {
    rep = &none;
    const char *r = getenv("SX_REPORT"), *s;
    if ((s = getenv("SX_AT"))) at = atol(s);
    if ((s = getenv("SX_ERRNO"))) err_no = atol(s);
    if ((s = getenv("SX_CHUNK"))) chunk = atol(s);
    if (r) {
        int fd = open(r, O_RDWR);
        void *p = fd >= 0 ? mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0) : MAP_FAILED;
        if (p != MAP_FAILED) rep = p;
    }
    // zero separated paths
    if ((s = getenv("SX_ORDER"))) {
        FILE *f = fopen(s, "rb");
        if (f) {
            order = malloc(1 << 20);
            order_len = fread(order, 1, 1 << 20, f);
            fclose(f);
        }
    }
    rep->calls = rep->faulted = 0;
}
static int fault(void) {
    uint32_t k = rep->calls++;
    if (at >= 0 && !rep->faulted && k == (uint32_t)at) {
        rep->faulted = 1;
        errno = (int)err_no;
        return 1;
    }
    return 0;
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

int statx(int fd, const char *restrict p, int flags, unsigned mask, struct statx *restrict b) {
    REAL(statx);
    if (!p || !b) return real(fd, p, flags, mask, b);
    if (fault()) return -1;
    return real(fd, p, flags, mask, b);
}
int stat64(const char *restrict p, struct stat64 *restrict b) { REAL(stat64); if (fault()) return -1; return real(p, b); }
int lstat64(const char *restrict p, struct stat64 *restrict b) { REAL(lstat64); if (fault()) return -1; return real(p, b); }
int fstat64(int fd, struct stat64 *b) { REAL(fstat64); if (fault()) return -1; return real(fd, b); }
int access(const char *p, int m) { REAL(access); if (fault()) return -1; return real(p, m); }
int open64(const char *p, int flags, ...) {
    REAL(open64);
    va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a);
    if (!rep) return real(p, flags, m);
    if (fault()) return -1;
    return real(p, flags, m);
}
static long some(size_t n) { return chunk && n > (size_t)chunk ? chunk : (long)n; }
ssize_t read(int fd, void *b, size_t n) { REAL(read); if (fd < 3) return real(fd, b, n); if (fault()) return -1; return real(fd, b, some(n)); }
ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (fd < 3) return real(fd, b, n); if (fault()) return -1; return real(fd, b, some(n)); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); if (fault()) return -1; return real(p, m); }
int unlink(const char *p) { REAL(unlink); if (fault()) return -1; return real(p); }
int rmdir(const char *p) { REAL(rmdir); if (fault()) return -1; return real(p); }
int rename(const char *a, const char *b) { REAL(rename); if (fault()) return -1; return real(a, b); }

#define MAXL 64
static struct list { DIR *d; int n, at; long key[64]; struct dirent64 e[64]; } lists[MAXL];
static int nlists;
static long place(const char *dir, const char *name) {
    char p[8192];
    if (!strcmp(name, ".")) return -2;
    if (!strcmp(name, "..")) return -1;
    size_t n = strlen(dir);
    while (n > 1 && dir[n - 1] == '/') n--;
    if (n >= 2 && dir[0] == '.' && dir[1] == '/') { dir += 2; n -= 2; }
    snprintf(p, sizeof p, "%.*s/%s", (int)n, dir, name);
    long k = 0;
    for (size_t i = 0; i < order_len; i += strlen(order + i) + 1, k++) if (!strcmp(order + i, p)) return k;
    return 1 << 20;
}
DIR *opendir(const char *p) {
    REAL(opendir);
    static struct dirent64 *(*rd)(DIR *);
    if (!rd) rd = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
    if (fault()) return 0;
    DIR *d = real(p);
    if (!d || nlists == MAXL) return d;
    struct list *l = &lists[nlists++];
    l->d = d;
    struct dirent64 *e;
    while (l->n < 64 && (e = rd(d))) {
        long k = place(p, e->d_name);
        int i = l->n++;
        while (i > 0 && l->key[i - 1] > k) { l->key[i] = l->key[i - 1]; l->e[i] = l->e[i - 1]; i--; }
        l->key[i] = k;
        memcpy(&l->e[i], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
    }
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    REAL(readdir64);
    if (fault()) return 0;
    for (int i = nlists - 1; i >= 0; i--) if (lists[i].d == d) return lists[i].at < lists[i].n ? &lists[i].e[lists[i].at++] : 0;
    return real(d);
}
