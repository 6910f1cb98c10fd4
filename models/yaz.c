// Models of the YAZ functions used by the code under test (see also native cross-check).
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
extern int strncasecmp(const char *, const char *, size_t); extern int strcasecmp(const char *, const char *);
int yaz_strncasecmp(const char *a, const char *b, size_t n) { return strncasecmp(a, b, n); }
int yaz_strcasecmp(const char *a, const char *b) { return strcasecmp(a, b); }
// --- URI component coding as in yaz's lib (src/url.c / uri.c): unreserved characters as in encodeURIComponent
static int uri_plain(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '.' || c == '_' || c == '~'; }
void yaz_encode_uri_component(char *dst, const char *src) {
    static const char *hx = "0123456789ABCDEF";
    while (*src) { unsigned char c = *src++; if (uri_plain(c)) *dst++ = c; else { *dst++ = '%'; *dst++ = hx[c >> 4]; *dst++ = hx[c & 15]; } }
    *dst = 0;
}
// --- logging: not part of any property
void yaz_log(int level, const char *fmt, ...) {}
void yaz_log_set_handler(void (*f)(int, const char *, void *), void *i) {}
int yaz_log_module_level(const char *n) { return 0; }
int yaz_xml_include_glob(void *n, const char *p, unsigned m) { return 0; }
void *dlopen(const char *f, int m) { return 0; } void *dlsym(void *h, const char *s) { return 0; } char *dlerror(void) { return "not found"; } int dlclose(void *h) { return 0; }
// timing: a timer that always shows the same duration
void *yaz_timing_create(void) { return malloc(8); }
void yaz_timing_start(void *t) {}
void yaz_timing_stop(void *t) {}
double yaz_timing_get_real(void *t) { return 0.25; }
double yaz_timing_get_user(void *t) { return 0.25; }
double yaz_timing_get_sys(void *t) { return 0; }
void yaz_timing_destroy(void **t) { if (t && *t) { free(*t); *t = 0; } }
void wrbuf_malloc_info(void *w) {}
int nmem_get_status(char *dst, size_t l) { return -1; }
