// Stand-in for the system-wide configuration file: calls naming it go to the file in $HV_ETC instead.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static const char *to(const char *p) {
    const char *e = getenv("HV_ETC");
    return e && p && !strcmp(p, "/etc/hongdown/config.toml") ? e : p;
}
#define NEXT(r, n, ...) static r (*f)(__VA_ARGS__); if (!f) f = (r (*)(__VA_ARGS__))dlsym(RTLD_NEXT, n)
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { MODE NEXT(int, "open", const char *, int, ...); return f(to(p), fl, m); }
int open64(const char *p, int fl, ...) { MODE NEXT(int, "open64", const char *, int, ...); return f(to(p), fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE NEXT(int, "openat", int, const char *, int, ...); return f(d, to(p), fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE NEXT(int, "openat64", int, const char *, int, ...); return f(d, to(p), fl, m); }
int stat(const char *p, struct stat *s) { NEXT(int, "stat", const char *, struct stat *); return f(to(p), s); }
int stat64(const char *p, struct stat64 *s) { NEXT(int, "stat64", const char *, struct stat64 *); return f(to(p), s); }
int lstat(const char *p, struct stat *s) { NEXT(int, "lstat", const char *, struct stat *); return f(to(p), s); }
int lstat64(const char *p, struct stat64 *s) { NEXT(int, "lstat64", const char *, struct stat64 *); return f(to(p), s); }
int statx(int d, const char *p, int fl, unsigned m, struct statx *s) { NEXT(int, "statx", int, const char *, int, unsigned, struct statx *); return f(d, to(p), fl, m, s); }
int access(const char *p, int m) { NEXT(int, "access", const char *, int); return f(to(p), m); }
int faccessat(int d, const char *p, int m, int fl) { NEXT(int, "faccessat", int, const char *, int, int); return f(d, to(p), m, fl); }
