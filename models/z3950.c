// Models of YAZ memory, Z39.50 and HTTP structure functions (libyaz has no source here).
// Engine side only; natively the real libyaz is used, and every cover witness is replayed there.
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <yaz/proto.h>
#include <yaz/zgdu.h>
#include <yaz/otherinfo.h>
#include <yaz/oid_db.h>
#include <yaz/charneg.h>
#include <yaz/wrbuf.h>
#include <yaz/nmem.h>
#include <yaz/match_glob.h>
int mp_oid_eq(const Odr_oid *a, const Odr_oid *b);
// --- memory
struct blk { struct blk *next; };
struct nmem_control_m { struct blk *l; };
NMEM nmem_create(void) { struct nmem_control_m *n = malloc(sizeof *n); n->l = 0; return (NMEM)n; }
void *nmem_malloc(NMEM m, size_t n) { struct nmem_control_m *c = (struct nmem_control_m *)m; struct blk *b = malloc(16); void **p = (void **)b; p[1] = malloc(n ? n : 1); b->next = c->l; c->l = b; return p[1]; }
void nmem_reset(NMEM m) { struct nmem_control_m *c = (struct nmem_control_m *)m; if (!c) return; while (c->l) { struct blk *b = c->l; c->l = b->next; free(((void **)b)[1]); free(b); } }
void nmem_destroy(NMEM m) { if (!m) return; nmem_reset(m); free(m); }
char *nmem_strdup(NMEM m, const char *s) { size_t n = strlen(s); char *p = nmem_malloc(m, n + 1); memcpy(p, s, n + 1); return p; }
char *nmem_strdup_null(NMEM m, const char *s) { return s ? nmem_strdup(m, s) : 0; }
char *nmem_strdupn(NMEM m, const char *s, size_t n) { char *p = nmem_malloc(m, n + 1); memcpy(p, s, n); p[n] = 0; return p; }
nmem_int_t *nmem_intdup(NMEM m, nmem_int_t v) { nmem_int_t *p = nmem_malloc(m, sizeof *p); *p = v; return p; }
nmem_bool_t *nmem_booldup(NMEM m, nmem_bool_t v) { nmem_bool_t *p = nmem_malloc(m, sizeof *p); *p = v; return p; }
void nmem_transfer(NMEM d, NMEM s) { struct nmem_control_m *a = (void *)d, *b = (void *)s; struct blk **p = &a->l; while (*p) p = &(*p)->next; *p = b->l; b->l = 0; }
ODR odr_createmem(int dir) { ODR o = malloc(sizeof *o); memset(o, 0, sizeof *o); o->direction = dir; o->mem = nmem_create(); return o; }
// encode buffer: grows by reallocation, as the library's does
struct Odr_private { char *buf; int len, size; };
void odr_destroy(ODR o) { nmem_destroy(o->mem); if (o->op) { if (o->op->buf) free(o->op->buf); free(o->op); } free(o); }
void odr_reset(ODR o) { nmem_reset(o->mem); if (o->op) o->op->len = 0; }
char *odr_getbuf(ODR o, int *len, int *size) { *len = o->op ? o->op->len : 0; if (size) *size = o->op ? o->op->size : 0; return o->op ? o->op->buf : 0; }
void mp_odr_put(ODR o, const void *p, int n) {
    if (!n) return;
    if (!o->op) { o->op = malloc(sizeof *o->op); memset(o->op, 0, sizeof *o->op); }
    if (o->op->len + n > o->op->size) { int z = o->op->len + n + 16; char *b = malloc(z); if (o->op->len) memcpy(b, o->op->buf, o->op->len); if (o->op->buf) free(o->op->buf); o->op->buf = b; o->op->size = z; }
    memcpy(o->op->buf + o->op->len, p, n); o->op->len += n;
}
#define enc mp_odr_put
static void enc_s(ODR o, int tag, const char *s) { if (!s) return; int n = strlen(s); char h[3] = { tag, n >> 8, n & 255 }; enc(o, h, 3); enc(o, s, n); }
void *odr_malloc(ODR o, size_t n) { return nmem_malloc(o->mem, n); }
char *odr_strdup(ODR o, const char *s) { return nmem_strdup(o->mem, s); }
char *odr_strdup_null(ODR o, const char *s) { return s ? odr_strdup(o, s) : 0; }
char *odr_strdupn(ODR o, const char *s, size_t n) { return nmem_strdupn(o->mem, s, n); }
Odr_int *odr_intdup(ODR o, Odr_int v) { return nmem_intdup(o->mem, v); }
Odr_bool *odr_booldup(ODR o, Odr_bool v) { return nmem_booldup(o->mem, v); }
Odr_oct *odr_create_Odr_oct(ODR o, const char *b, int n) { Odr_oct *p = odr_malloc(o, sizeof *p); p->len = n; p->buf = odr_malloc(o, n); memcpy(p->buf, b, n); return p; }
size_t odr_total(ODR o) { return 0; }
Odr_null *odr_nullval(void) { static int z; return (Odr_null *)&z; }
char *odr_prepend(ODR o, const char *a, const char *b) { if (!b) b = ""; size_t n = strlen(a), m = strlen(b); char *p = odr_malloc(o, n + m + 2); memcpy(p, a, n + 1); if (m) { p[n] = '/'; memcpy(p + n + 1, b, m + 1); } return p; }
void *xmalloc_f(size_t n, const char *f, int l) { return malloc(n ? n : 1); }
void *xrealloc_f(void *o, size_t n, const char *f, int l) { return realloc(o, n); }
void *xcalloc_f(size_t a, size_t b, const char *f, int l) { void *p = malloc(a * b); memset(p, 0, a * b); return p; }
char *xstrdup_f(const char *s, const char *f, int l) { size_t n = strlen(s); char *p = malloc(n + 1); memcpy(p, s, n + 1); return p; }
void xfree_f(void *p, const char *f, int l) { free(p); }
// --- wrbuf
WRBUF wrbuf_alloc(void) { WRBUF b = malloc(sizeof *b); b->buf = 0; b->pos = b->size = 0; return b; }
void wrbuf_destroy(WRBUF b) { if (b) { if (b->buf) free(b->buf); free(b); } }
void wrbuf_rewind(WRBUF b) { b->pos = 0; }
int wrbuf_grow(WRBUF b, size_t m) { size_t n = b->size ? b->size * 2 : 64; if (n < b->pos + m) n = b->pos + m + 64; char *p = malloc(n); if (b->pos) memcpy(p, b->buf, b->pos); if (b->buf) free(b->buf); b->buf = p; b->size = n; return 0; }
void wrbuf_write(WRBUF b, const char *s, size_t n) { if (n == 0) return; if (b->pos + n >= b->size) wrbuf_grow(b, n); memcpy(b->buf + b->pos, s, n); b->pos += n; }
void wrbuf_puts(WRBUF b, const char *s) { wrbuf_write(b, s, strlen(s)); }
void wrbuf_vp_puts(const char *s, void *b) { if (b) wrbuf_puts((WRBUF)b, s); }
const char *wrbuf_cstr(WRBUF b) { if (!b || b->pos == 0) return ""; b->buf[b->pos] = 0; return b->buf; }
const char *wrbuf_cstr_null(WRBUF b) { if (!b || b->pos == 0) return 0; return wrbuf_cstr(b); }
void wrbuf_insert(WRBUF b, size_t pos, const char *s, size_t n) { if (n == 0 || pos > b->pos) return; if (b->pos + n >= b->size) wrbuf_grow(b, n); memmove(b->buf + pos + n, b->buf + pos, b->pos - pos); memcpy(b->buf + pos, s, n); b->pos += n; }
void wrbuf_cut_right(WRBUF b, size_t n) { b->pos = n > b->pos ? 0 : b->pos - n; }
void wrbuf_chop_right(WRBUF b) { while (b->pos && (b->buf[b->pos - 1] == ' ' || b->buf[b->pos - 1] == '\t' || b->buf[b->pos - 1] == '\n' || b->buf[b->pos - 1] == '\r')) b->pos--; }
extern int vsnprintf(char *, size_t, const char *, va_list);
void wrbuf_printf(WRBUF b, const char *f, ...) { char t[4096]; va_list ap; va_start(ap, f); int n = vsnprintf(t, sizeof t, f, ap); va_end(ap); wrbuf_write(b, t, n < (int)sizeof t ? n : sizeof t - 1); }
void yaz_vsnprintf(char *b, size_t n, const char *f, va_list ap) { vsnprintf(b, n, f, ap); }
void wrbuf_xmlputs_n(WRBUF b, const char *s, size_t n) {
    for (size_t i = 0; i < n; i++) { unsigned char c = s[i]; if (c < 32 && c != 9 && c != 10 && c != 13) continue;
        if (c == '<') wrbuf_puts(b, "&lt;"); else if (c == '>') wrbuf_puts(b, "&gt;"); else if (c == '&') wrbuf_puts(b, "&amp;"); else if (c == '"') wrbuf_puts(b, "&quot;"); else if (c == '\'') wrbuf_puts(b, "&apos;"); else wrbuf_write(b, s + i, 1); }
}
void wrbuf_xmlputs(WRBUF b, const char *s) { wrbuf_xmlputs_n(b, s, strlen(s)); }
// --- strings
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
void yaz_decode_uri_component(char *d, const char *s, size_t n) {
    while (n) {
        if (*s == '+') { *d++ = ' '; s++; n--; }
        else if (*s == '%' && n > 2 && hexv(s[1]) >= 0 && hexv(s[2]) >= 0) { *d++ = hexv(s[1]) * 16 + hexv(s[2]); s += 3; n -= 3; }
        else { *d++ = *s++; n--; }
    }
    *d = 0;
}
int yaz_match_glob2(const char *g, const char *t, int ci) {
    extern int tolower(int);
    for (;;) {
        if (*g == 0) return *t == 0;
        if (*g == '*') { do { if (yaz_match_glob2(g + 1, t, ci)) return 1; } while (*t++); return 0; }
        if (!*t) return 0;
        if (*g != '?' && (ci ? tolower(*(unsigned char *)g) != tolower(*(unsigned char *)t) : *g != *t)) return 0;
        g++; t++;
    }
}
int yaz_match_glob(const char *g, const char *t) { return yaz_match_glob2(g, t, 0); }
int cs_get_host_args(const char *s, const char **args) {
    *args = 0;
    if (*s && strncmp(s, "unix:", 5)) { const char *c = strstr(s, "://"); c = c ? c + 3 : s; c = strchr(c, '/'); if (c) *args = c + 1; }
    return 1;
}
// --- oids (the library's numbers; only identity matters)
const Odr_oid yaz_oid_userinfo_proxy[] = {1,2,840,10003,10,1000,81,1,-1};
const Odr_oid yaz_oid_userinfo_client_ip[] = {1,2,840,10003,10,1000,81,3,-1};
const Odr_oid yaz_oid_userinfo_cql[] = {1,2,840,10003,16,2,-1};
const Odr_oid yaz_oid_userinfo_userinfo_1[] = {1,2,840,10003,10,1,-1};
const Odr_oid yaz_oid_recsyn_usmarc[] = {1,2,840,10003,5,10,-1};
const Odr_oid yaz_oid_recsyn_xml[] = {1,2,840,10003,5,109,10,-1};
const Odr_oid yaz_oid_recsyn_opac[] = {1,2,840,10003,5,102,-1};
const Odr_oid yaz_oid_recsyn_sutrs[] = {1,2,840,10003,5,101,-1};
const Odr_oid yaz_oid_recsyn_grs_1[] = {1,2,840,10003,5,105,-1};
const Odr_oid yaz_oid_diagset_bib_1[] = {1,2,840,10003,4,1,-1};
const Odr_oid yaz_oid_diagset_diag_1[] = {1,2,840,10003,4,2,-1};
const Odr_oid yaz_oid_attset_bib_1[] = {1,2,840,10003,3,1,-1};
int oid_oidcmp(const Odr_oid *a, const Odr_oid *b) { while (*a == *b && *a > -1) a++, b++; return *a == *b ? 0 : *a > *b ? 1 : -1; }
static int oidlen(const Odr_oid *a) { int n = 0; while (a[n] != -1) n++; return n; }
Odr_oid *odr_oiddup(ODR o, const Odr_oid *a) { if (!a) return 0; int n = oidlen(a) + 1; Odr_oid *p = odr_malloc(o, n * sizeof *p); memcpy(p, a, n * sizeof *p); return p; }
Odr_oid *mp_oid_copy(NMEM m, const Odr_oid *a) { if (!a) return 0; int n = oidlen(a) + 1; Odr_oid *p = nmem_malloc(m, n * sizeof *p); memcpy(p, a, n * sizeof *p); return p; }
int mp_oid_eq(const Odr_oid *a, const Odr_oid *b) { if (!a || !b) return a == b; return !oid_oidcmp(a, b); }
char *oid_oid_to_dotstring(const Odr_oid *o, char *b) { extern int sprintf(char *, const char *, ...); char *r = b; for (int i = 0; o[i] != -1; i++) b += sprintf(b, i ? ".%d" : "%d", o[i]); return r; }
// --- deep copies
#define NEW(T) ((T *)odr_malloc(o, sizeof(T)))
static void *dup_(ODR o, const void *p, size_t n) { if (!p) return 0; void *r = odr_malloc(o, n); memcpy(r, p, n); return r; }
#define DUP(p) dup_(o, (p), sizeof *(p))
#define STR(p) ((p) ? odr_strdup(o, (p)) : 0)
static Odr_oct *c_oct(ODR o, const Odr_oct *x) { return x ? odr_create_Odr_oct(o, x->buf, x->len) : 0; }
static Odr_null *c_null(ODR o, const Odr_null *x) { static int z; return x ? (Odr_null *)&z : 0; }
static char **c_strs(ODR o, int n, char **x) { if (!x) return 0; char **r = odr_malloc(o, sizeof(char *) * (n ? n : 1)); for (int i = 0; i < n; i++) r[i] = STR(x[i]); return r; }
static Z_External *c_ext(ODR o, const Z_External *x);
static Z_DiagRec *c_diagrec(ODR o, const Z_DiagRec *x);
static Z_OtherInformation *c_oi(ODR o, const Z_OtherInformation *x) {
    if (!x) return 0; Z_OtherInformation *r = NEW(Z_OtherInformation); r->num_elements = x->num_elements; r->list = odr_malloc(o, sizeof(void *) * (x->num_elements ? x->num_elements : 1));
    for (int i = 0; i < x->num_elements; i++) {
        Z_OtherInformationUnit *s = x->list[i], *d = DUP(s); r->list[i] = d;
        if (s->category) { d->category = DUP(s->category); d->category->categoryTypeId = odr_oiddup(o, s->category->categoryTypeId); d->category->categoryValue = DUP(s->category->categoryValue); }
        switch (s->which) { case Z_OtherInfo_characterInfo: d->information.characterInfo = STR(s->information.characterInfo); break; case Z_OtherInfo_binaryInfo: d->information.binaryInfo = c_oct(o, s->information.binaryInfo); break;
        case Z_OtherInfo_externallyDefinedInfo: d->information.externallyDefinedInfo = c_ext(o, s->information.externallyDefinedInfo); break; case Z_OtherInfo_oid: d->information.oid = odr_oiddup(o, s->information.oid); break; }
    }
    return r;
}
// charset proposals: character sets as strings kept in "iso10646" objects (opaque to metaproxy)
static Z_CharSetandLanguageNegotiation *c_neg(ODR o, const Z_CharSetandLanguageNegotiation *x) {
    if (!x) return 0; Z_CharSetandLanguageNegotiation *r = DUP(x); Z_OriginProposal *a = x->u.proposal, *b = DUP(a); r->u.proposal = b; b->proposedCharSets = odr_malloc(o, sizeof(void *) * (a->num_proposedCharSets + 1));
    for (int i = 0; i < a->num_proposedCharSets; i++) { b->proposedCharSets[i] = DUP(a->proposedCharSets[i]); b->proposedCharSets[i]->u.iso10646 = (void *)STR((char *)a->proposedCharSets[i]->u.iso10646); }
    b->recordsInSelectedCharSets = DUP(a->recordsInSelectedCharSets); return r;
}
static Z_External *c_ext(ODR o, const Z_External *x) {
    if (!x) return 0; Z_External *r = DUP(x); r->direct_reference = odr_oiddup(o, x->direct_reference); r->indirect_reference = DUP(x->indirect_reference); r->descriptor = STR(x->descriptor);
    switch (x->which) {
    case Z_External_octet: case Z_External_single: case Z_External_arbitrary: r->u.octet_aligned = c_oct(o, x->u.octet_aligned); break;
    case Z_External_userInfo1: r->u.userInfo1 = (void *)c_oi(o, (void *)x->u.userInfo1); break;
    case Z_External_CQL: r->u.cql = STR(x->u.cql); break;
    case Z_External_charSetandLanguageNegotiation: r->u.charNeg3 = c_neg(o, x->u.charNeg3); break;
    case Z_External_OPAC: { Z_OPACRecord *q = DUP(x->u.opac); q->bibliographicRecord = c_ext(o, x->u.opac->bibliographicRecord); q->num_holdingsData = 0; q->holdingsData = 0; r->u.opac = q; break; }
    case Z_External_sutrs: r->u.sutrs = (void *)c_oct(o, (void *)x->u.sutrs); break;
    case Z_External_diag1: { Z_DiagnosticFormat *s = x->u.diag1, *d = DUP(s); d->elements = odr_malloc(o, sizeof(void *) * (s->num ? s->num : 1)); for (int i = 0; i < s->num; i++) { d->elements[i] = DUP(s->elements[i]); if (s->elements[i]->which == Z_DiagnosticFormat_s_defaultDiagRec) { Z_DiagRec t; t.which = Z_DiagRec_defaultFormat; t.u.defaultFormat = s->elements[i]->u.defaultDiagRec; d->elements[i]->u.defaultDiagRec = c_diagrec(o, &t)->u.defaultFormat; } } r->u.diag1 = d; break; }
    }
    return r;
}
static Z_DefaultDiagFormat *c_dd(ODR o, const Z_DefaultDiagFormat *x) { if (!x) return 0; Z_DefaultDiagFormat *r = DUP(x); r->diagnosticSetId = odr_oiddup(o, x->diagnosticSetId); r->condition = DUP(x->condition); r->u.v2Addinfo = STR(x->u.v2Addinfo); return r; }
static Z_DiagRec *c_diagrec(ODR o, const Z_DiagRec *x) { if (!x) return 0; Z_DiagRec *r = DUP(x); if (x->which == Z_DiagRec_defaultFormat) r->u.defaultFormat = c_dd(o, x->u.defaultFormat); else r->u.externallyDefined = c_ext(o, x->u.externallyDefined); return r; }
static Z_DiagRec **c_diags(ODR o, int n, Z_DiagRec **x) { if (!x) return 0; Z_DiagRec **r = odr_malloc(o, sizeof(void *) * (n ? n : 1)); for (int i = 0; i < n; i++) r[i] = c_diagrec(o, x[i]); return r; }
static Z_NamePlusRecord *c_npr(ODR o, const Z_NamePlusRecord *x) { if (!x) return 0; Z_NamePlusRecord *r = DUP(x); r->databaseName = STR(x->databaseName); if (x->which == Z_NamePlusRecord_databaseRecord) r->u.databaseRecord = c_ext(o, x->u.databaseRecord); else if (x->which == Z_NamePlusRecord_surrogateDiagnostic) r->u.surrogateDiagnostic = c_diagrec(o, x->u.surrogateDiagnostic); return r; }
static Z_Records *c_recs(ODR o, const Z_Records *x) {
    if (!x) return 0; Z_Records *r = DUP(x);
    switch (x->which) {
    case Z_Records_DBOSD: { Z_NamePlusRecordList *s = x->u.databaseOrSurDiagnostics, *d = DUP(s); d->records = odr_malloc(o, sizeof(void *) * (s->num_records ? s->num_records : 1)); for (int i = 0; i < s->num_records; i++) d->records[i] = c_npr(o, s->records[i]); r->u.databaseOrSurDiagnostics = d; break; }
    case Z_Records_NSD: r->u.nonSurrogateDiagnostic = c_dd(o, x->u.nonSurrogateDiagnostic); break;
    case Z_Records_multipleNSD: { Z_DiagRecs *s = x->u.multipleNonSurDiagnostics, *d = DUP(s); d->diagRecs = c_diags(o, s->num_diagRecs, s->diagRecs); r->u.multipleNonSurDiagnostics = d; break; }
    }
    return r;
}
Z_NamePlusRecord *yaz_clone_z_NamePlusRecord(Z_NamePlusRecord *q, NMEM m) { struct odr t; memset(&t, 0, sizeof t); t.mem = m; return c_npr(&t, q); }
static Z_Term *c_term(ODR o, const Z_Term *x) { if (!x) return 0; Z_Term *r = DUP(x); switch (x->which) { case Z_Term_general: r->u.general = c_oct(o, x->u.general); break; case Z_Term_numeric: r->u.numeric = DUP(x->u.numeric); break; case Z_Term_characterString: r->u.characterString = STR(x->u.characterString); break; case Z_Term_null: r->u.null = c_null(o, x->u.null); break; } return r; }
static Z_AttributeList *c_attrs(ODR o, const Z_AttributeList *x) {
    if (!x) return 0; Z_AttributeList *r = DUP(x); r->attributes = odr_malloc(o, sizeof(void *) * (x->num_attributes ? x->num_attributes : 1));
    for (int i = 0; i < x->num_attributes; i++) { Z_AttributeElement *s = x->attributes[i], *d = DUP(s); r->attributes[i] = d; d->attributeSet = odr_oiddup(o, s->attributeSet); d->attributeType = DUP(s->attributeType);
        if (s->which == Z_AttributeValue_numeric) d->value.numeric = DUP(s->value.numeric);
        else { Z_ComplexAttribute *a = s->value.complex, *b = DUP(a); b->list = odr_malloc(o, sizeof(void *) * (a->num_list ? a->num_list : 1)); for (int k = 0; k < a->num_list; k++) { b->list[k] = DUP(a->list[k]); if (a->list[k]->which == Z_StringOrNumeric_string) b->list[k]->u.string = STR(a->list[k]->u.string); else b->list[k]->u.numeric = DUP(a->list[k]->u.numeric); } if (a->semanticAction) { b->semanticAction = odr_malloc(o, sizeof(void *) * (a->num_semanticAction ? a->num_semanticAction : 1)); for (int k = 0; k < a->num_semanticAction; k++) b->semanticAction[k] = DUP(a->semanticAction[k]); } d->value.complex = b; } }
    return r;
}
static Z_AttributesPlusTerm *c_apt(ODR o, const Z_AttributesPlusTerm *x) { if (!x) return 0; Z_AttributesPlusTerm *r = DUP(x); r->attributes = c_attrs(o, x->attributes); r->term = c_term(o, x->term); return r; }
static Z_RPNStructure *c_rpns(ODR o, const Z_RPNStructure *x) {
    if (!x) return 0; Z_RPNStructure *r = DUP(x);
    if (x->which == Z_RPNStructure_simple) { Z_Operand *s = x->u.simple, *d = DUP(s); r->u.simple = d; if (s->which == Z_Operand_APT) d->u.attributesPlusTerm = c_apt(o, s->u.attributesPlusTerm); else if (s->which == Z_Operand_resultSetId) d->u.resultSetId = STR(s->u.resultSetId); else { d->u.resultAttr = DUP(s->u.resultAttr); d->u.resultAttr->resultSet = STR(s->u.resultAttr->resultSet); d->u.resultAttr->attributes = c_attrs(o, s->u.resultAttr->attributes); } }
    else { Z_Complex *s = x->u.complex, *d = DUP(s); r->u.complex = d; d->s1 = c_rpns(o, s->s1); d->s2 = c_rpns(o, s->s2); d->roperator = DUP(s->roperator); }
    return r;
}
Z_Query *mp_query_copy(ODR o, const Z_Query *x) {
    if (!x) return 0; Z_Query *r = DUP(x);
    switch (x->which) { case Z_Query_type_1: case Z_Query_type_101: { Z_RPNQuery *s = x->u.type_1, *d = DUP(s); d->attributeSetId = odr_oiddup(o, s->attributeSetId); d->RPNStructure = c_rpns(o, s->RPNStructure); r->u.type_1 = d; break; }
    case Z_Query_type_2: case Z_Query_type_100: case Z_Query_type_102: r->u.type_2 = c_oct(o, x->u.type_2); break; case Z_Query_type_104: r->u.type_104 = c_ext(o, x->u.type_104); break; }
    return r;
}
static Z_ElementSetNames *c_esn(ODR o, const Z_ElementSetNames *x) { if (!x) return 0; Z_ElementSetNames *r = DUP(x); if (x->which == Z_ElementSetNames_generic) r->u.generic = STR(x->u.generic); else { Z_DatabaseSpecific *d = DUP(x->u.databaseSpecific); d->elements = odr_malloc(o, sizeof(void *) * (d->num ? d->num : 1)); for (int i = 0; i < d->num; i++) { Z_DatabaseSpecificUnit *u = DUP(x->u.databaseSpecific->elements[i]); u->dbName = STR(u->dbName); u->esn = STR(u->esn); d->elements[i] = u; } r->u.databaseSpecific = d; } return r; }
static Z_Specification *c_spec(ODR o, const Z_Specification *x) { if (!x) return 0; Z_Specification *r = DUP(x); if (x->which == Z_Schema_oid) r->schema.oid = odr_oiddup(o, x->schema.oid); else r->schema.uri = STR(x->schema.uri); if (x->elementSpec) { r->elementSpec = DUP(x->elementSpec); if (x->elementSpec->which == Z_ElementSpec_elementSetName) r->elementSpec->u.elementSetName = STR(x->elementSpec->u.elementSetName); } return r; }
static Z_RecordComposition *c_comp(ODR o, const Z_RecordComposition *x) {
    if (!x) return 0; Z_RecordComposition *r = DUP(x);
    if (x->which == Z_RecordComp_simple) r->u.simple = c_esn(o, x->u.simple);
    else { r->u.complex = DUP(x->u.complex); r->u.complex->selectAlternativeSyntax = DUP(x->u.complex->selectAlternativeSyntax); r->u.complex->generic = c_spec(o, x->u.complex->generic); }
    return r;
}
Z_RecordComposition *mp_comp_copy(NMEM m, const Z_RecordComposition *c) { struct odr t; memset(&t, 0, sizeof t); t.mem = m; return c_comp(&t, c); }
static const char *comp_name(const Z_RecordComposition *c) { if (!c) return 0; if (c->which == Z_RecordComp_simple) return c->u.simple->which == Z_ElementSetNames_generic ? c->u.simple->u.generic : 0; if (c->u.complex->generic && c->u.complex->generic->elementSpec && c->u.complex->generic->elementSpec->which == Z_ElementSpec_elementSetName) return c->u.complex->generic->elementSpec->u.elementSetName; return 0; }
int mp_comp_eq(const Z_RecordComposition *a, const Z_RecordComposition *b) { const char *x = comp_name(a), *y = comp_name(b); if (!a || !b) return a == b; if (a->which != b->which) return 0; if (!x || !y) return x == y; return !strcmp(x, y); }
static Z_HTTP_Header *c_hdr(ODR o, const Z_HTTP_Header *h) { Z_HTTP_Header *r = 0, **p = &r; for (; h; h = h->next) { *p = NEW(Z_HTTP_Header); (*p)->name = STR(h->name); (*p)->value = STR(h->value); (*p)->next = 0; p = &(*p)->next; } return r; }
static char *c_buf(ODR o, const char *b, int n) { char *r = odr_malloc(o, n + 1); if (n > 0) memcpy(r, b, n); r[n] = 0; return r; }
static Z_SortKeySpecList *c_sort(ODR o, const Z_SortKeySpecList *x) {
    if (!x) return 0; Z_SortKeySpecList *r = DUP(x); r->specs = odr_malloc(o, sizeof(void *) * (x->num_specs ? x->num_specs : 1));
    for (int i = 0; i < x->num_specs; i++) { Z_SortKeySpec *s = x->specs[i], *d = DUP(s); r->specs[i] = d; d->sortRelation = DUP(s->sortRelation); d->caseSensitivity = DUP(s->caseSensitivity); d->sortElement = DUP(s->sortElement); if (s->sortElement->which == Z_SortElement_generic) { Z_SortKey *a = s->sortElement->u.generic, *b = DUP(a); d->sortElement->u.generic = b; if (a->which == Z_SortKey_sortField) b->u.sortField = STR(a->u.sortField); else if (a->which == Z_SortKey_elementSpec) b->u.elementSpec = c_spec(o, a->u.elementSpec); else { b->u.sortAttributes = DUP(a->u.sortAttributes); b->u.sortAttributes->id = odr_oiddup(o, a->u.sortAttributes->id); b->u.sortAttributes->list = c_attrs(o, a->u.sortAttributes->list); } } }
    return r;
}
#define BEGIN(f, T) { T *s = a->u.f, *d = DUP(s); r->u.f = d; d->referenceId = c_oct(o, s->referenceId);
#define I(x) d->x = DUP(s->x)
#define OI(x) d->x = c_oi(o, s->x)
#define S_(x) d->x = STR(s->x)
#define END break; }
static Z_APDU *c_apdu(ODR o, const Z_APDU *a) {
    if (!a) return 0; Z_APDU *r = DUP(a);
    switch (a->which) {
    case Z_APDU_initRequest: BEGIN(initRequest, Z_InitRequest) I(protocolVersion); I(options); I(preferredMessageSize); I(maximumRecordSize); S_(implementationId); S_(implementationName); S_(implementationVersion); d->userInformationField = c_ext(o, s->userInformationField); OI(otherInfo);
        if (s->idAuthentication) { d->idAuthentication = DUP(s->idAuthentication); if (s->idAuthentication->which == Z_IdAuthentication_open) d->idAuthentication->u.open = STR(s->idAuthentication->u.open); else if (s->idAuthentication->which == Z_IdAuthentication_idPass) { Z_IdPass *p = s->idAuthentication->u.idPass, *q = DUP(p); d->idAuthentication->u.idPass = q; q->groupId = STR(p->groupId); q->userId = STR(p->userId); q->password = STR(p->password); } } END
    case Z_APDU_initResponse: BEGIN(initResponse, Z_InitResponse) I(protocolVersion); I(options); I(preferredMessageSize); I(maximumRecordSize); I(result); S_(implementationId); S_(implementationName); S_(implementationVersion); d->userInformationField = c_ext(o, s->userInformationField); OI(otherInfo); END
    case Z_APDU_searchRequest: BEGIN(searchRequest, Z_SearchRequest) I(smallSetUpperBound); I(largeSetLowerBound); I(mediumSetPresentNumber); I(replaceIndicator); S_(resultSetName); d->databaseNames = c_strs(o, s->num_databaseNames, s->databaseNames); d->smallSetElementSetNames = c_esn(o, s->smallSetElementSetNames); d->mediumSetElementSetNames = c_esn(o, s->mediumSetElementSetNames); d->preferredRecordSyntax = odr_oiddup(o, s->preferredRecordSyntax); d->query = mp_query_copy(o, s->query); OI(additionalSearchInfo); OI(otherInfo); END
    case Z_APDU_searchResponse: BEGIN(searchResponse, Z_SearchResponse) I(resultCount); I(numberOfRecordsReturned); I(nextResultSetPosition); I(searchStatus); I(resultSetStatus); I(presentStatus); d->records = c_recs(o, s->records); OI(additionalSearchInfo); OI(otherInfo); END
    case Z_APDU_presentRequest: BEGIN(presentRequest, Z_PresentRequest) S_(resultSetId); I(resultSetStartPoint); I(numberOfRecordsRequested); d->recordComposition = c_comp(o, s->recordComposition); d->preferredRecordSyntax = odr_oiddup(o, s->preferredRecordSyntax); I(maxSegmentCount); I(maxRecordSize); I(maxSegmentSize); OI(otherInfo);
        if (s->additionalRanges) { d->additionalRanges = odr_malloc(o, sizeof(void *) * (s->num_ranges ? s->num_ranges : 1)); for (int i = 0; i < s->num_ranges; i++) { d->additionalRanges[i] = DUP(s->additionalRanges[i]); d->additionalRanges[i]->startingPosition = DUP(s->additionalRanges[i]->startingPosition); d->additionalRanges[i]->numberOfRecords = DUP(s->additionalRanges[i]->numberOfRecords); } } END
    case Z_APDU_presentResponse: BEGIN(presentResponse, Z_PresentResponse) I(numberOfRecordsReturned); I(nextResultSetPosition); I(presentStatus); d->records = c_recs(o, s->records); OI(otherInfo); END
    case Z_APDU_scanRequest: BEGIN(scanRequest, Z_ScanRequest) d->databaseNames = c_strs(o, s->num_databaseNames, s->databaseNames); d->attributeSet = odr_oiddup(o, s->attributeSet); d->termListAndStartPoint = c_apt(o, s->termListAndStartPoint); I(stepSize); I(numberOfTermsRequested); I(preferredPositionInResponse); OI(otherInfo); END
    case Z_APDU_scanResponse: BEGIN(scanResponse, Z_ScanResponse) I(stepSize); I(scanStatus); I(numberOfEntriesReturned); I(positionOfTerm); d->attributeSet = odr_oiddup(o, s->attributeSet); OI(otherInfo);
        if (s->entries) { Z_ListEntries *p = s->entries, *q = DUP(p); d->entries = q; if (p->entries) { q->entries = odr_malloc(o, sizeof(void *) * (p->num_entries ? p->num_entries : 1)); for (int i = 0; i < p->num_entries; i++) { q->entries[i] = DUP(p->entries[i]); if (p->entries[i]->which == Z_Entry_termInfo) { Z_TermInfo *x = p->entries[i]->u.termInfo, *y = DUP(x); q->entries[i]->u.termInfo = y; y->term = c_term(o, x->term); y->displayTerm = STR(x->displayTerm); y->suggestedAttributes = c_attrs(o, x->suggestedAttributes); y->globalOccurrences = DUP(x->globalOccurrences); y->otherTermInfo = c_oi(o, x->otherTermInfo); } else q->entries[i]->u.surrogateDiagnostic = c_diagrec(o, p->entries[i]->u.surrogateDiagnostic); } } q->nonsurrogateDiagnostics = c_diags(o, p->num_nonsurrogateDiagnostics, p->nonsurrogateDiagnostics); } END
    case Z_APDU_sortRequest: BEGIN(sortRequest, Z_SortRequest) d->inputResultSetNames = c_strs(o, s->num_inputResultSetNames, s->inputResultSetNames); S_(sortedResultSetName); d->sortSequence = c_sort(o, s->sortSequence); OI(otherInfo); END
    case Z_APDU_sortResponse: BEGIN(sortResponse, Z_SortResponse) I(sortStatus); I(resultSetStatus); d->diagnostics = c_diags(o, s->num_diagnostics, s->diagnostics); I(resultCount); OI(otherInfo); END
    case Z_APDU_deleteResultSetRequest: BEGIN(deleteResultSetRequest, Z_DeleteResultSetRequest) I(deleteFunction); d->resultSetList = c_strs(o, s->num_resultSetList, s->resultSetList); OI(otherInfo); END
    case Z_APDU_deleteResultSetResponse: BEGIN(deleteResultSetResponse, Z_DeleteResultSetResponse) I(deleteOperationStatus); I(numberNotDeleted); S_(deleteMessage); OI(otherInfo); END
    case Z_APDU_close: BEGIN(close, Z_Close) I(closeReason); S_(diagnosticInformation); OI(otherInfo); END
    // the rest: outer structure and reference id only
#define SH(f, T) case Z_APDU_##f: BEGIN(f, T) END
    SH(accessControlRequest, Z_AccessControlRequest) SH(accessControlResponse, Z_AccessControlResponse) SH(resourceControlRequest, Z_ResourceControlRequest) SH(resourceControlResponse, Z_ResourceControlResponse)
    SH(triggerResourceControlRequest, Z_TriggerResourceControlRequest) SH(resourceReportRequest, Z_ResourceReportRequest) SH(resourceReportResponse, Z_ResourceReportResponse) SH(segmentRequest, Z_Segment)
    case Z_APDU_extendedServicesRequest: BEGIN(extendedServicesRequest, Z_ExtendedServicesRequest) I(function); d->packageType = odr_oiddup(o, s->packageType); S_(packageName); S_(userId); S_(description); I(waitAction); END
    case Z_APDU_extendedServicesResponse: BEGIN(extendedServicesResponse, Z_ExtendedServicesResponse) I(operationStatus); d->diagnostics = c_diags(o, s->num_diagnostics, s->diagnostics); END
    }
    return r;
}
Z_GDU *mp_gdu_copy(ODR o, const Z_GDU *g) {
    Z_GDU *r = DUP(g);
    if (g->which == Z_GDU_Z3950) r->u.z3950 = c_apdu(o, g->u.z3950);
    else if (g->which == Z_GDU_HTTP_Request) { Z_HTTP_Request *s = g->u.HTTP_Request, *d = DUP(s); r->u.HTTP_Request = d; d->method = STR(s->method); d->version = STR(s->version); d->path = STR(s->path); d->headers = c_hdr(o, s->headers); d->content_buf = c_buf(o, s->content_buf, s->content_len); }
    else { Z_HTTP_Response *s = g->u.HTTP_Response, *d = DUP(s); r->u.HTTP_Response = d; d->version = STR(s->version); d->headers = c_hdr(o, s->headers); d->content_buf = c_buf(o, s->content_buf, s->content_len); }
    return r;
}
// --- encoding (tag, length, contents; only equality of encodings matters)
int z_IdAuthentication(ODR o, Z_IdAuthentication **p, int opt, const char *name) {
    Z_IdAuthentication *t = *p; if (!t) return opt; char w = 'A' + t->which; enc(o, &w, 1);
    if (t->which == Z_IdAuthentication_open) enc_s(o, 1, t->u.open); else if (t->which == Z_IdAuthentication_idPass) { enc_s(o, 2, t->u.idPass->groupId); enc_s(o, 3, t->u.idPass->userId); enc_s(o, 4, t->u.idPass->password); }
    return 1;
}
int z_OtherInformation(ODR o, Z_OtherInformation **p, int opt, const char *name) {
    Z_OtherInformation *t = *p; if (!t) return opt; char w = t->num_elements; enc(o, &w, 1);
    for (int i = 0; i < t->num_elements; i++) { Z_OtherInformationUnit *u = t->list[i]; w = 'a' + u->which; enc(o, &w, 1); if (u->category) { for (const Odr_oid *d = u->category->categoryTypeId; d && *d >= 0; d++) { char c[2] = { *d >> 8, *d }; enc(o, c, 2); } w = *u->category->categoryValue; enc(o, &w, 1); } if (u->which == Z_OtherInfo_characterInfo) enc_s(o, 5, u->information.characterInfo); else if (u->which == Z_OtherInfo_externallyDefinedInfo) { w = u->information.externallyDefinedInfo->which; enc(o, &w, 1); } }
    return 1;
}
int z_RecordComposition(ODR o, Z_RecordComposition **p, int opt, const char *name) {
    Z_RecordComposition *c = *p; if (!c) return opt; char k = (char)c->which; enc(o, &k, 1);
    if (c->which == Z_RecordComp_simple && c->u.simple->which == Z_ElementSetNames_generic) enc(o, c->u.simple->u.generic, strlen(c->u.simple->u.generic) + 1); else abort();
    return 1;
}
Z_OtherInformation *yaz_clone_z_OtherInformation(Z_OtherInformation *q, NMEM m) { struct odr t; memset(&t, 0, sizeof t); t.mem = m; return c_oi(&t, q); }
int yaz_compare_z_OtherInformation(Z_OtherInformation *a, Z_OtherInformation *b) {
    if (!a || !b) return a == b; ODR x = odr_createmem(0), y = odr_createmem(0); z_OtherInformation(x, &a, 1, 0); z_OtherInformation(y, &b, 1, 0); int l, k; char *p = odr_getbuf(x, &l, 0), *q = odr_getbuf(y, &k, 0); int r = l == k && !memcmp(p, q, l); odr_destroy(x); odr_destroy(y); return r;
}
Z_Query *mp_query_copy(ODR o, const Z_Query *x);
Z_Query *yaz_copy_Z_Query(Z_Query *q, ODR o) { return mp_query_copy(o, q); }
// --- APDU construction (defaults as in libyaz)
static Odr_int *in(ODR o, Odr_int v) { return odr_intdup(o, v); }
static Odr_bool *bo(ODR o, Odr_bool v) { return odr_booldup(o, v); }
static Odr_bitmask *bm(ODR o, int top, int b) { Odr_bitmask *m = NEW(Odr_bitmask); memset(m, 0, sizeof *m); m->top = top; m->bits[0] = b; return m; }
Z_APDU *zget_APDU(ODR o, int which) {
    Z_APDU *a = NEW(Z_APDU); a->which = which;
#define MK(f, T) T *p = NEW(T); memset(p, 0, sizeof *p); a->u.f = p
    switch (which) {
    case Z_APDU_initRequest: { MK(initRequest, Z_InitRequest); p->protocolVersion = bm(o, 0, 0xc0); p->options = bm(o, 0, 0xc0); p->preferredMessageSize = in(o, 1048576); p->maximumRecordSize = in(o, 1048576); p->implementationId = odr_strdup(o, "81"); p->implementationName = odr_strdup(o, "YAZ"); p->implementationVersion = odr_strdup(o, "5"); break; }
    case Z_APDU_initResponse: { MK(initResponse, Z_InitResponse); p->protocolVersion = bm(o, -1, 0); p->options = bm(o, -1, 0); p->preferredMessageSize = in(o, 30720); p->maximumRecordSize = in(o, 30720); p->result = bo(o, 1); p->implementationId = odr_strdup(o, "81"); p->implementationName = odr_strdup(o, "YAZ"); p->implementationVersion = odr_strdup(o, "5"); break; }
    case Z_APDU_searchRequest: { MK(searchRequest, Z_SearchRequest); p->smallSetUpperBound = in(o, 0); p->largeSetLowerBound = in(o, 1); p->mediumSetPresentNumber = in(o, 0); p->replaceIndicator = bo(o, 1); p->resultSetName = odr_strdup(o, "default"); break; }
    case Z_APDU_searchResponse: { MK(searchResponse, Z_SearchResponse); p->resultCount = in(o, 0); p->numberOfRecordsReturned = in(o, 0); p->nextResultSetPosition = in(o, 0); p->searchStatus = bo(o, 1); break; }
    case Z_APDU_presentRequest: { MK(presentRequest, Z_PresentRequest); p->resultSetId = odr_strdup(o, "default"); p->resultSetStartPoint = in(o, 1); p->numberOfRecordsRequested = in(o, 10); break; }
    case Z_APDU_presentResponse: { MK(presentResponse, Z_PresentResponse); p->numberOfRecordsReturned = in(o, 0); p->nextResultSetPosition = in(o, 0); p->presentStatus = in(o, 0); break; }
    case Z_APDU_scanRequest: { MK(scanRequest, Z_ScanRequest); p->numberOfTermsRequested = in(o, 20); break; }
    case Z_APDU_scanResponse: { MK(scanResponse, Z_ScanResponse); p->scanStatus = in(o, 0); p->numberOfEntriesReturned = in(o, 0); break; }
    case Z_APDU_sortRequest: { MK(sortRequest, Z_SortRequest); break; }
    case Z_APDU_sortResponse: { MK(sortResponse, Z_SortResponse); p->sortStatus = in(o, 0); p->resultSetStatus = in(o, 1); break; }
    case Z_APDU_deleteResultSetRequest: { MK(deleteResultSetRequest, Z_DeleteResultSetRequest); p->deleteFunction = in(o, 0); break; }
    case Z_APDU_deleteResultSetResponse: { MK(deleteResultSetResponse, Z_DeleteResultSetResponse); p->deleteOperationStatus = in(o, 0); break; }
    case Z_APDU_close: { MK(close, Z_Close); p->closeReason = in(o, 0); break; }
#define SM(f, T) case Z_APDU_##f: { MK(f, T); break; }
    SM(accessControlRequest, Z_AccessControlRequest) SM(accessControlResponse, Z_AccessControlResponse) SM(resourceControlRequest, Z_ResourceControlRequest) SM(resourceControlResponse, Z_ResourceControlResponse)
    SM(triggerResourceControlRequest, Z_TriggerResourceControlRequest) SM(resourceReportRequest, Z_ResourceReportRequest) SM(resourceReportResponse, Z_ResourceReportResponse) SM(segmentRequest, Z_Segment)
    case Z_APDU_extendedServicesRequest: { MK(extendedServicesRequest, Z_ExtendedServicesRequest); p->function = in(o, Z_ExtendedServicesRequest_create); p->waitAction = in(o, Z_ExtendedServicesRequest_wait); break; }
    case Z_APDU_extendedServicesResponse: { MK(extendedServicesResponse, Z_ExtendedServicesResponse); p->operationStatus = in(o, Z_ExtendedServicesResponse_done); break; }
    default: return 0;
    }
    return a;
}
Z_DefaultDiagFormat *zget_DefaultDiagFormat(ODR o, int e, const char *add) { Z_DefaultDiagFormat *d = NEW(Z_DefaultDiagFormat); d->diagnosticSetId = odr_oiddup(o, yaz_oid_diagset_bib_1); d->condition = in(o, e); d->which = Z_DefaultDiagFormat_v2Addinfo; d->u.v2Addinfo = odr_strdup(o, add ? add : ""); return d; }
Z_DiagRec *zget_DiagRec(ODR o, int e, const char *add) { Z_DiagRec *d = NEW(Z_DiagRec); d->which = Z_DiagRec_defaultFormat; d->u.defaultFormat = zget_DefaultDiagFormat(o, e, add); return d; }
Z_DiagRecs *zget_DiagRecs(ODR o, int e, const char *add) { Z_DiagRecs *d = NEW(Z_DiagRecs); d->num_diagRecs = 1; d->diagRecs = odr_malloc(o, sizeof(void *)); d->diagRecs[0] = zget_DiagRec(o, e, add); return d; }
Z_NamePlusRecord *zget_surrogateDiagRec(ODR o, const char *db, int e, const char *add) { Z_NamePlusRecord *r = NEW(Z_NamePlusRecord); r->databaseName = STR(db); r->which = Z_NamePlusRecord_surrogateDiagnostic; r->u.surrogateDiagnostic = zget_DiagRec(o, e, add); return r; }
Z_External *zget_init_diagnostics(ODR o, int e, const char *add) {
    Z_External *x = NEW(Z_External); memset(x, 0, sizeof *x); x->direct_reference = odr_oiddup(o, yaz_oid_userinfo_userinfo_1); x->which = Z_External_userInfo1;
    Z_OtherInformation *u = NEW(Z_OtherInformation); x->u.userInfo1 = (void *)u; u->num_elements = 1; u->list = odr_malloc(o, sizeof(void *));
    Z_OtherInformationUnit *l = NEW(Z_OtherInformationUnit); u->list[0] = l; l->category = 0; l->which = Z_OtherInfo_externallyDefinedInfo;
    Z_External *x2 = NEW(Z_External); memset(x2, 0, sizeof *x2); l->information.externallyDefinedInfo = x2; x2->direct_reference = odr_oiddup(o, yaz_oid_diagset_diag_1); x2->which = Z_External_diag1;
    Z_DiagnosticFormat *d = NEW(Z_DiagnosticFormat); x2->u.diag1 = d; d->num = 1; d->elements = odr_malloc(o, sizeof(void *));
    Z_DiagnosticFormat_s *s = NEW(Z_DiagnosticFormat_s); memset(s, 0, sizeof *s); d->elements[0] = s; s->which = Z_DiagnosticFormat_s_defaultDiagRec; s->u.defaultDiagRec = zget_DefaultDiagFormat(o, e, add);
    return x;
}
Z_DefaultDiagFormat *yaz_decode_init_diag(int no, Z_InitResponse *r) {
    Z_External *x = r->userInformationField; if (!x || x->which != Z_External_userInfo1) return 0; Z_OtherInformation *u = (void *)x->u.userInfo1; if (u->num_elements < 1) return 0;
    Z_OtherInformationUnit *l = u->list[0]; if (l->which != Z_OtherInfo_externallyDefinedInfo || l->information.externallyDefinedInfo->which != Z_External_diag1) return 0;
    Z_DiagnosticFormat *d = l->information.externallyDefinedInfo->u.diag1; if (no >= d->num || d->elements[no]->which != Z_DiagnosticFormat_s_defaultDiagRec) return 0; return d->elements[no]->u.defaultDiagRec;
}
void yaz_init_opt_decode(Z_Options *opt, void (*f)(const char *name, void *h), void *h) { }
// --- other information
Z_OtherInformationUnit *yaz_oi_update(Z_OtherInformation **op, ODR o, const Odr_oid *oid, int cat, int del) {
    if (!op) return 0;
    if (*op) { Z_OtherInformation *x = *op; for (int i = 0; i < x->num_elements; i++) { Z_OtherInformationUnit *u = x->list[i];
        if (!oid && !u->category) return u;
        int hit = oid && (u->category && cat == *u->category->categoryValue && u->category->categoryTypeId && !oid_oidcmp(u->category->categoryTypeId, oid));
        if (hit) { if (del) { x->num_elements--; for (; i < x->num_elements; i++) x->list[i] = x->list[i + 1]; if (!x->num_elements) *op = 0; } return u; } } }
    if (!o) return 0;
    Z_OtherInformation *n = NEW(Z_OtherInformation); int k = *op ? (*op)->num_elements : 0; n->num_elements = k + 1; n->list = odr_malloc(o, sizeof(void *) * (k + 1)); for (int i = 0; i < k; i++) n->list[i] = (*op)->list[i];
    Z_OtherInformationUnit *u = NEW(Z_OtherInformationUnit); n->list[k] = u; *op = n; u->category = 0; if (oid) { u->category = NEW(Z_InfoCategory); u->category->categoryTypeId = odr_oiddup(o, oid); u->category->categoryValue = in(o, cat); }
    u->which = Z_OtherInfo_characterInfo; u->information.characterInfo = 0; return u;
}
void yaz_oi_set_string_oid(Z_OtherInformation **op, ODR o, const Odr_oid *oid, int cat, const char *s) { Z_OtherInformationUnit *u = yaz_oi_update(op, o, oid, cat, 0); if (!u) return; u->which = Z_OtherInfo_characterInfo; u->information.characterInfo = odr_strdup(o, s); }
char *yaz_oi_get_string_oid(Z_OtherInformation **op, const Odr_oid *oid, int cat, int del) { Z_OtherInformationUnit *u = yaz_oi_update(op, 0, oid, cat, del); return u && u->which == Z_OtherInfo_characterInfo ? u->information.characterInfo : 0; }
static const Odr_oid oid_neg[] = {1,2,840,10003,15,3,-1};
Z_External *yaz_set_proposal_charneg_list(ODR o, const char *delim, const char *charsets, const char *langs, int sel) {
    Z_External *x = NEW(Z_External); memset(x, 0, sizeof *x); x->direct_reference = odr_oiddup(o, oid_neg); x->which = Z_External_charSetandLanguageNegotiation;
    Z_CharSetandLanguageNegotiation *n = NEW(Z_CharSetandLanguageNegotiation); x->u.charNeg3 = n; n->which = Z_CharSetandLanguageNegotiation_proposal; Z_OriginProposal *p = NEW(Z_OriginProposal); memset(p, 0, sizeof *p); n->u.proposal = p;
    p->proposedCharSets = odr_malloc(o, sizeof(void *) * (strlen(charsets) + 1)); p->recordsInSelectedCharSets = odr_booldup(o, sel);
    while (*charsets) { size_t k = strcspn(charsets, delim); Z_OriginProposal_0 *q = NEW(Z_OriginProposal_0); p->proposedCharSets[p->num_proposedCharSets++] = q; q->which = Z_OriginProposal_0_private; q->u.iso10646 = (void *)odr_strdupn(o, charsets, k); charsets += k; if (*charsets) charsets++; }
    return x;
}
void yaz_get_proposal_charneg(NMEM m, Z_CharSetandLanguageNegotiation *n, char ***cs, int *num, char ***l, int *nl, int *sel) {
    Z_OriginProposal *p = n->u.proposal; *num = p->num_proposedCharSets; *cs = nmem_malloc(m, sizeof(char *) * (*num + 1)); for (int i = 0; i < *num; i++) (*cs)[i] = nmem_strdup(m, (char *)p->proposedCharSets[i]->u.iso10646);
    if (nl) *nl = 0; if (sel) *sel = *p->recordsInSelectedCharSets;
}
// --- HTTP
int yaz_strcasecmp(const char *, const char *);
const char *z_HTTP_header_lookup(const Z_HTTP_Header *h, const char *n) { for (; h; h = h->next) if (!yaz_strcasecmp(h->name, n)) return h->value; return 0; }
void z_HTTP_header_add(ODR o, Z_HTTP_Header **p, const char *n, const char *v) { while (*p) p = &(*p)->next; *p = NEW(Z_HTTP_Header); (*p)->name = odr_strdup(o, n); (*p)->value = odr_strdup(o, v); (*p)->next = 0; }
void z_HTTP_header_set(ODR o, Z_HTTP_Header **p, const char *n, const char *v) { while (*p) { if (!yaz_strcasecmp((*p)->name, n)) { (*p)->value = odr_strdup(o, v); return; } p = &(*p)->next; } *p = NEW(Z_HTTP_Header); (*p)->name = odr_strdup(o, n); (*p)->value = odr_strdup(o, v); (*p)->next = 0; }
const char *z_HTTP_header_remove(Z_HTTP_Header **p, const char *n) { while (*p) { if (!yaz_strcasecmp((*p)->name, n)) { const char *v = (*p)->value; *p = (*p)->next; return v; } p = &(*p)->next; } return 0; }
Z_GDU *z_get_HTTP_Response_server(ODR o, int code, const char *details, const char *server, const char *url) {
    Z_GDU *g = NEW(Z_GDU); Z_HTTP_Response *r = NEW(Z_HTTP_Response); g->which = Z_GDU_HTTP_Response; g->u.HTTP_Response = r; r->headers = 0; r->content_len = 0; r->content_buf = 0; r->code = code; r->version = odr_strdup(o, "1.1");
    z_HTTP_header_add(o, &r->headers, "Server", server);
    if (code != 200) { r->content_buf = odr_strdup(o, details ? details : "error page"); r->content_len = strlen(r->content_buf); z_HTTP_header_add(o, &r->headers, "Content-Type", "text/html"); }
    return g;
}
// --- records as EXTERNALs
#include <yaz/oid_db.h>
Z_External *z_ext_record_oid(ODR o, const Odr_oid *oid, const char *buf, int len) {
    if (!oid) return 0; Z_External *x = NEW(Z_External); x->descriptor = 0; x->indirect_reference = 0; x->direct_reference = odr_oiddup(o, oid);
    if (len < 0) { x->u.opac = (Z_OPACRecord *)buf; if (!oid_oidcmp(oid, yaz_oid_recsyn_opac)) x->which = Z_External_OPAC; else if (!oid_oidcmp(oid, yaz_oid_recsyn_sutrs)) x->which = Z_External_sutrs; else if (!oid_oidcmp(oid, yaz_oid_recsyn_grs_1)) x->which = Z_External_grs1; else return 0; }
    else if (!oid_oidcmp(oid, yaz_oid_recsyn_sutrs)) { x->which = Z_External_sutrs; x->u.sutrs = (Z_SUTRS *)odr_create_Odr_oct(o, buf, len); }
    else { x->which = Z_External_octet; x->u.octet_aligned = odr_create_Odr_oct(o, buf, len); }
    return x;
}
Z_External *z_ext_record_sutrs(ODR o, const char *b, int n) { return z_ext_record_oid(o, yaz_oid_recsyn_sutrs, b, n); }
Z_External *z_ext_record_usmarc(ODR o, const char *b, int n) { return z_ext_record_oid(o, yaz_oid_recsyn_usmarc, b, n); }
Z_External *z_ext_record_xml(ODR o, const char *b, int n) { return z_ext_record_oid(o, yaz_oid_recsyn_xml, b, n); }
const char *diagbib1_str(int c) { static char t[24]; extern int sprintf(char *, const char *, ...); sprintf(t, "bib-1 %d", c); return t; }
