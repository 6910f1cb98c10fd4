// libc subset, written for symbolic execution (compiled with -fno-builtin).
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <limits.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
extern void *malloc(size_t); extern void free(void *); extern void *memcpy(void *, const void *, size_t); extern size_t strlen(const char *);
extern int memcmp(const void *, const void *, size_t); extern int strncmp(const char *, const char *, size_t); extern char *strchr(const char *, int);
int mp_fmt_double(char *buf, size_t n, const char *fmt, double v);
static int mp_errno; int *__errno_location(void) { return &mp_errno; }
char __libc_single_threaded = 1;
int isalpha(int c) { return ((unsigned)(c | 32) - 'a') < 26; }
int isdigit(int c) { return (unsigned)(c - '0') < 10; }
int isalnum(int c) { return (((unsigned)(c | 32) - 'a') < 26) | ((unsigned)(c - '0') < 10); }
int isspace(int c) { return (c == ' ') | ((unsigned)(c - 9) < 5); }
int isupper(int c) { return (unsigned)(c - 'A') < 26; }
int islower(int c) { return (unsigned)(c - 'a') < 26; }
int isxdigit(int c) { return ((unsigned)(c - '0') < 10) | (((unsigned)(c | 32) - 'a') < 6); }
int iscntrl(int c) { return ((unsigned)c < 32) | (c == 127); }
int isprint(int c) { return (unsigned)(c - 32) < 95; }
int isgraph(int c) { return (unsigned)(c - 33) < 94; }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
#define UP 256
#define LO 512
#define AL 1024
#define DG 2048
#define XD 4096
#define SP 8192
#define PR 16384
#define GR 32768
#define BL 1
#define CN 2
#define PU 4
#define AN 8
static unsigned short ctab[384]; static const unsigned short *ctabp; static int tlo[384], tup[384]; static const int *tlop, *tupp;
const unsigned short **__ctype_b_loc(void) {
    if (!ctabp) {
        for (int c = 0; c < 128; c++) {
            unsigned v = 0;
            if (isupper(c)) v |= UP; if (islower(c)) v |= LO; if (isalpha(c)) v |= AL; if (isdigit(c)) v |= DG; if (isxdigit(c)) v |= XD; if (isspace(c)) v |= SP;
            if (isprint(c)) v |= PR; if (isgraph(c)) v |= GR; if (isblank(c)) v |= BL; if (iscntrl(c)) v |= CN; if (ispunct(c)) v |= PU; if (isalnum(c)) v |= AN;
            ctab[c + 128] = v;
        }
        ctabp = ctab + 128;
    }
    return &ctabp;
}
const int **__ctype_tolower_loc(void) { if (!tlop) { for (int c = -128; c < 256; c++) tlo[c + 128] = (c >= 'A' && c <= 'Z') ? c + 32 : c; tlop = tlo + 128; } return &tlop; }
const int **__ctype_toupper_loc(void) { if (!tupp) { for (int c = -128; c < 256; c++) tup[c + 128] = (c >= 'a' && c <= 'z') ? c - 32 : c; tupp = tup + 128; } return &tupp; }

char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *r = d; d += strlen(d); while (n-- && *s) *d++ = *s++; *d = 0; return r; }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) break; } return (char *)r; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = s; while (n--) if (p[n] == (unsigned char)c) return (void *)(p + n); return 0; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); if (!l) return (char *)h; for (; *h; h++) if (!strncmp(h, n, l)) return (char *)h; return 0; }
size_t strspn(const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) { const char *p = a; while (*p && *p != s[i]) p++; if (!*p) break; } return i; }
size_t strcspn(const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) { const char *p = a; while (*p && *p != s[i]) p++; if (*p) break; } return i; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strdup(const char *s) { size_t n = strlen(s); char *p = malloc(n + 1); memcpy(p, s, n + 1); return p; }
char *__strdup(const char *s) { return strdup(s); }
char *strndup(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; char *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
void *memmem(const void *h, size_t hn, const void *n, size_t nn) { const char *p = h; for (size_t i = 0; i + nn <= hn; i++) if (!memcmp(p + i, n, nn)) return (void *)(p + i); return 0; }
int strcoll(const char *a, const char *b) { extern int strcmp(const char *, const char *); return strcmp(a, b); }
size_t strxfrm(char *d, const char *s, size_t n) { size_t l = strlen(s); if (n > l) memcpy(d, s, l + 1); else if (n) { memcpy(d, s, n); } return l; }
static unsigned long ustrto(const char *s, char **e, int base, int *neg, int *ovf) {
    const char *p = s; unsigned long r = 0; int any = 0; *neg = 0; *ovf = 0;
    while (isspace((unsigned char)*p)) p++;
    if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    for (;; p++) {
        int c = (unsigned char)*p, d;
        if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = (c | 32) - 'a' + 10; else break;
        if (d >= base) break;
        any = 1;
        if (r > (ULONG_MAX - d) / base) *ovf = 1; else r = r * base + d;
    }
    if (e) *e = (char *)(any ? p : s);
    return r;
}
long strtol(const char *s, char **e, int b) { int n, o; unsigned long r = ustrto(s, e, b, &n, &o); if (!n) { if (o || r > LONG_MAX) { mp_errno = ERANGE; return LONG_MAX; } return (long)r; } if (o || r > (unsigned long)LONG_MAX + 1) { mp_errno = ERANGE; return LONG_MIN; } return (long)(0 - r); }
unsigned long strtoul(const char *s, char **e, int b) { int n, o; unsigned long r = ustrto(s, e, b, &n, &o); if (o) { mp_errno = ERANGE; return ULONG_MAX; } return n ? 0 - r : r; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
long long atoll(const char *s) { return strtol(s, 0, 10); }
// printf family: %s %d %i %u %x %X %o %c %p %% with flags 0,-,width,precision,l,ll,z,h; %g/%f/%e concrete
struct sink { char *b; size_t n, len; };
static void out(struct sink *s, char c) { if (s->len + 1 < s->n) s->b[s->len] = c; s->len++; }
static int fmt(struct sink *s, const char *f, va_list ap) {
    for (; *f; f++) {
        if (*f != '%') { out(s, *f); continue; }
        const char *f0 = f; f++;
        int left = 0, zero = 0, width = 0, prec = -1, lng = 0, plus = 0, alt = 0;
        for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') ; else break; }
        if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
        while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't') { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng = 1; f++; }
        char tmp[80]; int n = 0; const char *p = tmp;
        switch (*f) {
        case '%': out(s, '%'); continue;
        case 'c': tmp[0] = (char)va_arg(ap, int); n = 1; break;
        case 's': { const char *q = va_arg(ap, const char *); if (!q) q = "(null)"; p = q; n = 0; while ((prec < 0 || n < prec) && q[n]) n++; break; }
        case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
            unsigned long v; int neg = 0; unsigned base = 10;
            if (*f == 'p') { v = (unsigned long)va_arg(ap, void *); base = 16; alt = 1; }
            else if (*f == 'd' || *f == 'i') { long x = lng ? va_arg(ap, long) : va_arg(ap, int); neg = x < 0; v = neg ? 0 - (unsigned long)x : x; }
            else { v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); base = *f == 'o' ? 8 : *f == 'u' ? 10 : 16; }
            const char *dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
            int k = 80; do { tmp[--k] = dg[v % base]; v /= base; } while (v);
            while (80 - k < prec && k > 3) tmp[--k] = '0';
            if (zero && !left && prec < 0) while (80 - k < width - (neg | plus) && k > 3) tmp[--k] = '0';
            if (alt && base == 16) { tmp[--k] = 'x'; tmp[--k] = '0'; }
            if (neg) tmp[--k] = '-'; else if (plus) tmp[--k] = '+';
            p = tmp + k; n = 80 - k; break; }
        case 'g': case 'f': case 'e': case 'G': { char ff[24]; int i = 0; for (const char *q = f0; q <= f && i < 22; q++) ff[i++] = *q; ff[i] = 0; n = mp_fmt_double(tmp, 80, ff, va_arg(ap, double)); width = 0; break; }
        default: return -1;
        }
        if (!left) for (int i = n; i < width; i++) out(s, ' ');
        for (int i = 0; i < n; i++) out(s, p[i]);
        if (left) for (int i = n; i < width; i++) out(s, ' ');
    }
    return (int)s->len;
}
int vsnprintf(char *b, size_t n, const char *f, va_list ap) { struct sink s = {b, n, 0}; int r = fmt(&s, f, ap); if (n) b[s.len < n ? s.len : n - 1] = 0; return r; }
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 1 << 20, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }
int printf(const char *f, ...) { return 0; }
int fprintf(void *s, const char *f, ...) { return 0; }
int vfprintf(void *s, const char *f, va_list ap) { return 0; }
int puts(const char *s) { return 0; } int putchar(int c) { return c; } int fputs(const char *s, void *f) { return 0; } int fputc(int c, void *f) { return c; } size_t fwrite(const void *p, size_t a, size_t n, void *f) { return n; } int fflush(void *f) { return 0; }
void *stderr, *stdout, *stdin;
int strerror_r_(int e, char *b, size_t n); char *strerror(int e) { return "error"; }
char *strerror_r(int e, char *b, size_t n) { return "error"; }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    char *b = base; char tmp[256];
    for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--) { memcpy(tmp, b + j * sz, sz); memcpy(b + j * sz, b + (j - 1) * sz, sz); memcpy(b + (j - 1) * sz, tmp, sz); }
}
void *bsearch(const void *k, const void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { for (size_t i = 0; i < n; i++) if (!cmp(k, (const char *)b + i * sz)) return (char *)b + i * sz; return 0; }
char *getenv(const char *n) { return 0; }
int __cxa_atexit(void (*f)(void *), void *a, void *d) { return 0; }
int atexit(void (*f)(void)) { return 0; }
int __cxa_guard_acquire(char *g) { return !*g; } void __cxa_guard_release(char *g) { *g = 1; } void __cxa_guard_abort(char *g) {}
int __gxx_personality_v0(void) { return 0; } void *__dso_handle;
int pthread_once(int *o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
// a settable clock (see mp_time)
long mp_clock_sec = 1700000000, mp_clock_usec;
time_t time(time_t *t) { if (t) *t = mp_clock_sec; return mp_clock_sec; }
int gettimeofday(struct timeval *tv, void *tz) { tv->tv_sec = mp_clock_sec; tv->tv_usec = mp_clock_usec; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { ts->tv_sec = mp_clock_sec; ts->tv_nsec = mp_clock_usec * 1000; return 0; }
int getpid(void) { return 4242; }
// pthread rwlock etc. not modelled
