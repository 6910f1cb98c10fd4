// Models of YAZ query printing and parsing and HTTP encoding (engine side only).
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <yaz/proto.h>
#include <yaz/zgdu.h>
#include <yaz/wrbuf.h>
#include <yaz/oid_db.h>
#include <yaz/oid_util.h>
#include <yaz/querytowrbuf.h>
int oid_oidcmp(const Odr_oid *a, const Odr_oid *b);
char *oid_oid_to_dotstring(const Odr_oid *o, char *b);
extern const Odr_oid yaz_oid_attset_bib_1[];
struct on { const char *name; const Odr_oid *oid; };
extern const Odr_oid yaz_oid_recsyn_usmarc[], yaz_oid_recsyn_xml[], yaz_oid_recsyn_opac[];
static const struct on names[] = { {"Bib-1", yaz_oid_attset_bib_1}, {"usmarc", yaz_oid_recsyn_usmarc}, {"MARC21", yaz_oid_recsyn_usmarc}, {"XML", yaz_oid_recsyn_xml}, {"OPAC", yaz_oid_recsyn_opac}, {0, 0} };
const char *yaz_oid_to_string_buf(const Odr_oid *o, oid_class *c, char *buf) { for (int i = 0; names[i].name; i++) if (!oid_oidcmp(names[i].oid, o)) return names[i].name; return oid_oid_to_dotstring(o, buf); }
int yaz_strcasecmp(const char *, const char *);
const Odr_oid *yaz_string_to_oid(yaz_oid_db_t db, oid_class c, const char *n) { for (int i = 0; names[i].name; i++) if (!yaz_strcasecmp(names[i].name, n)) return names[i].oid; return 0; }
static int oiddots(const char *s, Odr_oid *o) { int n = 0; while (*s) { if (*s < '0' || *s > '9' || n > 18) return 0; int v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + *s++ - '0'; o[n++] = v; if (*s == '.') s++; else if (*s) return 0; } o[n] = -1; return n > 1; }
Odr_oid *odr_getoidbystr(ODR o, const char *s) { Odr_oid t[20]; return oiddots(s, t) ? odr_oiddup(o, t) : 0; }
Odr_oid *odr_getoidbystr_nmem(NMEM m, const char *s) { Odr_oid t[20]; extern Odr_oid *mp_oid_copy(NMEM, const Odr_oid *); return oiddots(s, t) ? mp_oid_copy(m, t) : 0; }
yaz_oid_db_t yaz_oid_std(void) { return 0; }
Odr_oid *yaz_string_to_oid_odr(yaz_oid_db_t db, oid_class c, const char *n, ODR o) { const Odr_oid *p = yaz_string_to_oid(db, c, n); if (p) return odr_oiddup(o, p); return odr_getoidbystr(o, n); }
Odr_oid *yaz_string_to_oid_nmem(yaz_oid_db_t db, oid_class c, const char *n, NMEM m) { extern Odr_oid *mp_oid_copy(NMEM, const Odr_oid *); const Odr_oid *p = yaz_string_to_oid(db, c, n); return p ? mp_oid_copy(m, p) : odr_getoidbystr_nmem(m, n); }
// --- printing
static void term(WRBUF b, const char *t, int n) {
    int i; for (i = 0; i < n; i++) if (strchr(" \"{", t[i])) break;
    if (i == n && i) { wrbuf_write(b, t, n); wrbuf_puts(b, " "); }
    else { wrbuf_puts(b, "\""); for (i = 0; i < n; i++) { if (t[i] == '"') wrbuf_puts(b, "\\"); wrbuf_write(b, t + i, 1); } wrbuf_puts(b, "\" "); }
}
static void apt(WRBUF b, const Z_AttributesPlusTerm *a) {
    char ob[OID_STR_MAX]; int n = a->attributes ? a->attributes->num_attributes : 0;
    for (int i = 0; i < n; i++) {
        Z_AttributeElement *e = a->attributes->attributes[i]; wrbuf_puts(b, "@attr "); if (e->attributeSet) { wrbuf_puts(b, yaz_oid_to_string_buf(e->attributeSet, 0, ob)); wrbuf_puts(b, " "); }
        wrbuf_printf(b, "%lld=", *e->attributeType);
        if (e->which == Z_AttributeValue_numeric) wrbuf_printf(b, "%lld", *e->value.numeric);
        else { Z_ComplexAttribute *c = e->value.complex; for (int k = 0; k < c->num_list; k++) { if (k) wrbuf_puts(b, ","); if (c->list[k]->which == Z_StringOrNumeric_string) wrbuf_puts(b, c->list[k]->u.string); else wrbuf_printf(b, "%lld", *c->list[k]->u.numeric); } }
        wrbuf_puts(b, " ");
    }
    switch (a->term->which) {
    case Z_Term_general: term(b, (const char *)a->term->u.general->buf, a->term->u.general->len); break;
    case Z_Term_characterString: wrbuf_puts(b, "@term string "); term(b, a->term->u.characterString, strlen(a->term->u.characterString)); break;
    case Z_Term_numeric: wrbuf_printf(b, "@term numeric %lld ", *a->term->u.numeric); break;
    case Z_Term_null: wrbuf_puts(b, "@term null x"); break;
    default: wrbuf_puts(b, "@term null unknown"); break;
    }
}
static void st(WRBUF b, const Z_RPNStructure *s) {
    if (s->which == Z_RPNStructure_complex) {
        Z_Operator *op = s->u.complex->roperator;
        switch (op->which) { case Z_Operator_and: wrbuf_puts(b, "@and "); break; case Z_Operator_or: wrbuf_puts(b, "@or "); break; case Z_Operator_and_not: wrbuf_puts(b, "@not "); break; default: wrbuf_puts(b, "@prox "); }
        st(b, s->u.complex->s1); st(b, s->u.complex->s2);
    } else if (s->which == Z_RPNStructure_simple) {
        if (s->u.simple->which == Z_Operand_APT) apt(b, s->u.simple->u.attributesPlusTerm);
        else if (s->u.simple->which == Z_Operand_resultSetId) { wrbuf_puts(b, "@set "); term(b, s->u.simple->u.resultSetId, strlen(s->u.simple->u.resultSetId)); }
    }
}
void yaz_rpnquery_to_wrbuf(WRBUF b, const Z_RPNQuery *q) { char ob[OID_STR_MAX]; if (q->attributeSetId) { wrbuf_puts(b, "@attrset "); wrbuf_puts(b, yaz_oid_to_string_buf(q->attributeSetId, 0, ob)); wrbuf_puts(b, " "); } st(b, q->RPNStructure); }
void yaz_query_to_wrbuf(WRBUF b, const Z_Query *q) {
    switch (q->which) {
    case Z_Query_type_1: case Z_Query_type_101: wrbuf_puts(b, "RPN "); yaz_rpnquery_to_wrbuf(b, q->u.type_1); break;
    case Z_Query_type_2: wrbuf_puts(b, "CCL "); wrbuf_write(b, q->u.type_2->buf, q->u.type_2->len); break;
    case Z_Query_type_100: wrbuf_puts(b, "Z39.58 "); wrbuf_write(b, q->u.type_100->buf, q->u.type_100->len); break;
    case Z_Query_type_104: if (q->u.type_104->which == Z_External_CQL) { wrbuf_puts(b, "CQL "); wrbuf_puts(b, q->u.type_104->u.cql); } else wrbuf_puts(b, "UNKNOWN type 104 query"); break;
    default: wrbuf_puts(b, "UNKNOWN QUERY");
    }
}
void yaz_scan_to_wrbuf(WRBUF b, const Z_AttributesPlusTerm *a, const Odr_oid *set) { char ob[OID_STR_MAX]; wrbuf_puts(b, "RPN "); if (set) { wrbuf_puts(b, "@attrset "); wrbuf_puts(b, yaz_oid_to_string_buf(set, 0, ob)); wrbuf_puts(b, " "); } apt(b, a); }
// --- encoding (HTTP only: enough for what the filters encode themselves)
void mp_odr_put(ODR o, const void *p, int n);
static void hdrs(WRBUF b, const Z_HTTP_Header *h) { for (; h; h = h->next) { wrbuf_puts(b, h->name); wrbuf_puts(b, ": "); wrbuf_puts(b, h->value); wrbuf_puts(b, "\r\n"); } wrbuf_puts(b, "\r\n"); }
static int has_len(const Z_HTTP_Header *h) { for (; h; h = h->next) if (!yaz_strcasecmp(h->name, "Content-Length")) return 1; return 0; }
int z_GDU(ODR o, Z_GDU **p, int opt, const char *name) {
    WRBUF b = wrbuf_alloc(); Z_GDU *g = *p;
    if (g->which == Z_GDU_HTTP_Request) { Z_HTTP_Request *r = g->u.HTTP_Request; wrbuf_puts(b, r->method); wrbuf_puts(b, " "); wrbuf_puts(b, r->path); wrbuf_puts(b, " HTTP/"); wrbuf_puts(b, r->version); wrbuf_puts(b, "\r\n"); if (r->content_len && !has_len(r->headers)) wrbuf_printf(b, "Content-Length: %d\r\n", r->content_len); hdrs(b, r->headers); wrbuf_write(b, r->content_buf, r->content_len); }
    else if (g->which == Z_GDU_HTTP_Response) { Z_HTTP_Response *r = g->u.HTTP_Response; wrbuf_printf(b, "HTTP/%s %d OK\r\n", r->version, r->code); hdrs(b, r->headers); wrbuf_write(b, r->content_buf, r->content_len); }
    else wrbuf_puts(b, "apdu");
    mp_odr_put(o, b->buf, b->pos); wrbuf_destroy(b); return 1;
}
