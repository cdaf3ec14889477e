// Preloaded into wcc: makes the n-th call of one kind fail. MCF=kind:n:mode, MCF_OUT=file to which the number of calls of each kind is written.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/types.h>

extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t);
static char kind[16]; static long at = -1; static int mode, on; static char *outname;
enum { ALLOC, FOPEN, FREAD, FSEEK, FTELL, FCLOSE, MKSTEMP, SYSTEM, CLOSE, NK };
static char *names[] = { "alloc", "fopen", "fread", "fseek", "ftell", "fclose", "mkstemps", "system", "close" };
static long count[NK];

// With MCF=list, the first and the last call of each kind from every call stack are written as well
enum { NS = 1 << 16 };
static struct { unsigned long h; long first, last; int k; } *stacks; static int listing;
static void note(int k) {
    void *a[12];
    on = 0;
    int n = backtrace(a, 12);
    on = 1;
    unsigned long h = k + 1;
    for (int i = 2; i < n; i++) h = (h ^ (unsigned long) a[i]) * 0x9e3779b97f4a7c15UL, h ^= h >> 29;
    for (int i = h % NS;; i = (i + 1) % NS) {
        if (!stacks[i].h) { stacks[i].h = h; stacks[i].first = count[k]; stacks[i].k = k; }
        if (stacks[i].h == h) { stacks[i].last = count[k]; return; }
    }
}

static int hit(int k) {
    if (!on) return 0;
    if (listing) note(k);
    return count[k]++ == at && !strcmp(kind, names[k]);
}
__attribute__((constructor)) static void init(void) {
    char *s = getenv("MCF");
    outname = getenv("MCF_OUT");
    unsetenv("LD_PRELOAD");
    if (s) sscanf(s, "%15[^:]:%ld:%d", kind, &at, &mode);
    if (s && !strcmp(s, "list")) {
        stacks = mmap(0, NS * sizeof(*stacks), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        void *a[4]; backtrace(a, 4);
        listing = 1;
    }
    on = 1;
}
__attribute__((destructor)) static void fini(void) {
    on = 0;
    if (!outname) return;
    int fd = open(outname, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    for (int i = 0; i < NK; i++) dprintf(fd, "%s %ld\n", names[i], count[i]);
    if (listing) for (int i = 0; i < NS; i++) if (stacks[i].h) dprintf(fd, "at %s %ld %ld\n", names[stacks[i].k], stacks[i].first, stacks[i].last);
}
void *malloc(size_t n) { if (hit(ALLOC)) { errno = ENOMEM; return 0; } return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (hit(ALLOC)) { errno = ENOMEM; return 0; } return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (hit(ALLOC)) { errno = ENOMEM; return 0; } return __libc_realloc(p, n); }
#define NEXT(f) ((typeof(&f)) dlsym(RTLD_NEXT, #f))
// With MCF_NAMES, the name of every file that is created is appended to that file
static void created(const char *p) {
    char *n = getenv("MCF_NAMES");
    if (!n || !on) return;
    on = 0;
    int fd = ((int (*)(const char *, int, ...)) dlsym(RTLD_NEXT, "open"))(n, O_WRONLY | O_CREAT | O_APPEND, 0644);
    dprintf(fd, "%s\n", p);
    ((int (*)(int)) dlsym(RTLD_NEXT, "close"))(fd);
    on = 1;
}
int open(const char *p, int f, ...) {
    va_list ap; va_start(ap, f); int mode = va_arg(ap, int); va_end(ap);
    int r = ((int (*)(const char *, int, ...)) dlsym(RTLD_NEXT, "open"))(p, f, mode);
    if (r >= 0 && f & O_CREAT) created(p);
    return r;
}
FILE *fopen(const char *p, const char *m) { if (*m != 'r') created(p); if (hit(FOPEN)) { errno = EMFILE; return 0; } return NEXT(fopen)(p, m); }
size_t fread(void *b, size_t s, size_t n, FILE *f) {
    if (hit(FREAD)) { errno = EIO; return mode == 0 ? 0 : NEXT(fread)(b, s, mode == 1 ? n / 2 : n - 1, f); }
    return NEXT(fread)(b, s, n, f);
}
int fseek(FILE *f, long o, int w) { if (hit(FSEEK)) { errno = ESPIPE; return -1; } return NEXT(fseek)(f, o, w); }
long ftell(FILE *f) { if (hit(FTELL)) { errno = ESPIPE; return -1; } return NEXT(ftell)(f); }
int fclose(FILE *f) { int r = NEXT(fclose)(f); if (hit(FCLOSE)) { errno = EIO; return EOF; } return r; }
int close(int fd) { int r = NEXT(close)(fd); if (hit(CLOSE)) { errno = EIO; return -1; } return r; }
int mkstemps(char *t, int n) { if (hit(MKSTEMP)) { errno = EMFILE; return -1; } int r = NEXT(mkstemps)(t, n); if (r >= 0) created(t); return r; }
int mkstemp(char *t) { if (hit(MKSTEMP)) { errno = EMFILE; return -1; } int r = NEXT(mkstemp)(t); if (r >= 0) created(t); return r; }
int system(const char *c) {
    if (!hit(SYSTEM)) return NEXT(system)(c);
    switch (mode) {
        case 0: errno = EAGAIN; return -1;          // no process
        case 1: return 127 << 8;                    // no shell
        case 2: return 9;                           // killed
        case 3: NEXT(system)(c); return 1 << 8;     // did its work and failed all the same
        case 4: return 255 << 8;
    }
    return 11;
}
