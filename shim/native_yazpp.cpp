// Native side of the yaz++ stand-in: copies go through the real libyaz codec.
#include <yazpp/gdu.h>
#include <yazpp/z-query.h>
#include <yazpp/record-cache.h>
#include <yaz/proto.h>
#include <yaz/oid_util.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
template<class T> static T *recode(ODR o, const T *x, int (*f)(ODR, T **, int, const char *)) {
    ODR e = odr_createmem(ODR_ENCODE); T *p = (T *)x;
    if (!f(e, &p, 0, 0)) { fprintf(stderr, "MP-REPLAY-DIVERGED encode: %s %s\n", odr_errmsg(odr_geterror(e)), odr_getelement(e)); odr_destroy(e); exit(3); }
    int len; char *b = odr_getbuf(e, &len, 0); char *c = (char *)odr_malloc(o, len + 1); memcpy(c, b, len); odr_destroy(e);
    ODR d = odr_createmem(ODR_DECODE); odr_setbuf(d, c, len, 0); T *r = 0;
    if (!f(d, &r, 0, 0)) { fprintf(stderr, "MP-REPLAY-DIVERGED decode\n"); exit(3); }
    nmem_transfer(odr_getmem(o), odr_getmem(d)); odr_destroy(d); return r;
}
extern "C" Z_GDU *mp_gdu_copy(ODR o, const Z_GDU *g) { return recode<Z_GDU>(o, g, z_GDU); }
extern "C" Z_Query *mp_query_copy(ODR o, const Z_Query *q) { return recode<Z_Query>(o, q, z_Query); }
extern "C" int mp_oid_eq(const Odr_oid *a, const Odr_oid *b) { if (!a || !b) return a == b; return !oid_oidcmp(a, b); }
extern "C" Odr_oid *mp_oid_copy(NMEM m, const Odr_oid *a) { if (!a) return 0; int n = 0; while (a[n] != -1) n++; Odr_oid *p = (Odr_oid *)nmem_malloc(m, (n + 1) * sizeof *p); memcpy(p, a, (n + 1) * sizeof *p); return p; }
extern "C" Z_RecordComposition *mp_comp_copy(NMEM m, const Z_RecordComposition *c) { if (!c) return 0; ODR o = odr_createmem(ODR_DECODE); Z_RecordComposition *r = recode<Z_RecordComposition>(o, c, z_RecordComposition); nmem_transfer(m, odr_getmem(o)); odr_destroy(o); return r; }
extern "C" int mp_comp_eq(const Z_RecordComposition *a, const Z_RecordComposition *b) {
    if (!a || !b) return a == b; if (a->which != b->which) return 0;
    auto nm = [](const Z_RecordComposition *c) -> const char * { if (c->which == Z_RecordComp_simple) return c->u.simple->which == Z_ElementSetNames_generic ? c->u.simple->u.generic : 0; if (c->u.complex->generic && c->u.complex->generic->elementSpec && c->u.complex->generic->elementSpec->which == Z_ElementSpec_elementSetName) return c->u.complex->generic->elementSpec->u.elementSetName; return 0; };
    const char *x = nm(a), *y = nm(b); if (!x || !y) return x == y; return !strcmp(x, y);
}
extern "C" __attribute__((weak)) void yaz_log(int, const char *, ...) {}
