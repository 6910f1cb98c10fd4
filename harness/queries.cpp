// cql_rpn (PROP 1, 2: concurrent sessions) and query_rewrite (PROP 3): the query the target is given
#include "fx.h"
#include <yaz/diagbib1.h>
#include <yaz/diagsrw.h>
#include <yaz/oid_db.h>
#include <yaz/srw.h>
static int asked, qk, other_kind; static std::string want; static int want_kind; static char term[3];
static std::string octs(Odr_oct *x) { return std::string(x->buf, x->len); }
static std::string term_of(Z_Query *q) {
    if ((q->which == Z_Query_type_1 || q->which == Z_Query_type_101) && q->u.type_1->RPNStructure->which == Z_RPNStructure_simple) return octs(q->u.type_1->RPNStructure->u.simple->u.attributesPlusTerm->term->u.general);
    if (q->which == Z_Query_type_2) return octs(q->u.type_2); if (q->which == Z_Query_type_104) return q->u.type_104->which == Z_External_CQL ? q->u.type_104->u.cql : octs(q->u.type_104->u.octet_aligned); return "?";
}
static bool cql_;
static void down(mp::Package &p) {
    asked++; mp::odr o; Z_GDU *g = p.request().get(); if (!g || g->which != Z_GDU_Z3950) { p.session().close(); return; } Z_APDU *a = g->u.z3950; mp_assert(ref_is(a, "q"), "reference"); if (a->which != Z_APDU_searchRequest) { p.response() = o.create_scanResponse(a, 0, 0); return; }
    Z_SearchRequest *q = a->u.searchRequest; mp_assert(seq(q->resultSetName, "rs") && q->num_databaseNames == 1 && seq(q->databaseNames[0], "D") && *q->smallSetUpperBound == 3 && q->preferredRecordSyntax && !oid_oidcmp(q->preferredRecordSyntax, yaz_oid_recsyn_xml), "the rest of the search as it is");
    mp_assert(q->query->which == want_kind, "the kind of query"); std::string t = term_of(q->query); mp_assert(t == want, "the query"); if (want_kind == Z_Query_type_104) { cql_ = q->query->u.type_104->which == Z_External_CQL; if (cql_) mp_assert(q->query->u.type_104->direct_reference && !oid_oidcmp(q->query->u.type_104->direct_reference, yaz_oid_userinfo_cql), "as CQL"); }
    Z_APDU *z = o.create_searchResponse(a, 0, 0); *z->u.searchResponse->resultCount = 5; p.response() = z;
}
static Z_External *ext(mp::odr &o, bool cql, const std::string &t) { Z_External *e = (Z_External *)odr_malloc(o, sizeof *e); memset(e, 0, sizeof *e); if (cql) { e->direct_reference = odr_oiddup(o, yaz_oid_userinfo_cql); e->which = Z_External_CQL; e->u.cql = odr_strdup(o, t.c_str()); } else { e->direct_reference = odr_oiddup(o, yaz_oid_recsyn_xml); e->which = Z_External_octet; e->u.octet_aligned = odr_create_Odr_oct(o, t.c_str(), t.size()); } return e; }
enum { RPN, RPN101, CQL, EXT, CCL };
static Z_APDU *search(mp::odr &o, int k, const std::string &t) {
    Z_APDU *a = mk_req(o, Z_APDU_searchRequest, t.c_str(), "D"); set_ref(o, a, "q"); Z_SearchRequest *q = a->u.searchRequest; q->resultSetName = odr_strdup(o, "rs"); *q->smallSetUpperBound = 3; q->preferredRecordSyntax = odr_oiddup(o, yaz_oid_recsyn_xml);
    if (k == RPN101) q->query->which = Z_Query_type_101; if (k == CQL || k == EXT) { q->query->which = Z_Query_type_104; q->query->u.type_104 = ext(o, k == CQL, t); } if (k == CCL) { q->query->which = Z_Query_type_2; q->query->u.type_2 = odr_create_Odr_oct(o, t.c_str(), t.size()); } return a;
}
static int kind_of(int k) { return k == RPN ? Z_Query_type_1 : k == RPN101 ? Z_Query_type_101 : k == CCL ? Z_Query_type_2 : Z_Query_type_104; }
static void the_term() { mp_sym(term, 2, "term"); term[2] = 0; mp_assume(term[0] > ' '); mp_assume(term[1] > ' '); mp_assume(term[0] < 127); mp_assume(term[1] < 127); }
static int code_of(Z_APDU *z) { Z_Records *w = z->u.searchResponse->records; return w && w->which == Z_Records_NSD ? (int)*w->u.nonSurrogateDiagnostic->condition : 0; }
static const char *add_of(Z_APDU *z) { Z_Records *w = z->u.searchResponse->records; return w && w->which == Z_Records_NSD ? w->u.nonSurrogateDiagnostic->u.v2Addinfo : 0; }
static bool others(Chain &ch, mp::Session &s, mp::Origin &og, mp::odr &o) {   // what is not a search
    int k = mp_pick(0, 2, "other"); if (!k) return false; if (k == 1) { Z_APDU *a = mk_req(o, Z_APDU_scanRequest); set_ref(o, a, "q"); Run r(ch, s, og, a); mp_assert(asked == 1 && r.z(Z_APDU_scanResponse) && ref_is(r.z(Z_APDU_scanResponse), "q"), "others as they are"); } else { Run r(ch, s, og, (Z_GDU *)0); mp_assert(asked == 1 && r.p.session().is_closed(), "and the end"); } mp_cover("other"); return true;
}
#if PROP < 3
#include <yazpp/cql2rpn.h>
#include "filter_cql_rpn.hpp"
static int outcome, opened; static bool no_file, no_open; static volatile int inside; static int clash;
extern "C" { char *yaz_filepath_resolve(const char *f, const char *, const char *, char *full) { if (no_file) return 0; strcpy(full, f); return full; }
cql_transform_t cql_transform_open_fname(const char *f) { mp_assert(seq(f, "F"), "the file"); if (no_open) return 0; opened++; return (cql_transform_t)&opened; } void cql_transform_close(cql_transform_t) { opened--; }
int yaz_diag_srw_to_bib1(int c) { return c + 1000; } }
// what YAZ says of the last conversion is kept in the handle: one at a time
static void enter() { mp_assert(inside == 0, "one conversion at a time"); inside = inside + 1; } static void leave() { inside = inside - 1; }
int yazpp_1::Yaz_cql2rpn::query_transform(const char *cql, Z_RPNQuery **rpn, ODR o, char **addinfo) {
    mp_assert(m_transform != 0, "configured"); enter(); int r = outcome ? 10 + outcome : 0; if (!outcome) { std::string t = cql; t += "'"; mp::odr x; Z_Query *q = rpn_term(x, t.c_str()); Z_RPNQuery *n = (Z_RPNQuery *)odr_malloc(o, sizeof *n); *n = *q->u.type_1; n->attributeSetId = odr_oiddup(o, yaz_oid_attset_bib_1); Z_RPNStructure *s = (Z_RPNStructure *)odr_malloc(o, sizeof *s); *s = *n->RPNStructure; n->RPNStructure = s; Z_Operand *p = (Z_Operand *)odr_malloc(o, sizeof *p); *p = *s->u.simple; s->u.simple = p; Z_AttributesPlusTerm *ap = (Z_AttributesPlusTerm *)odr_malloc(o, sizeof *ap); ap->attributes = (Z_AttributeList *)odr_malloc(o, sizeof *ap->attributes); ap->attributes->num_attributes = 0; ap->attributes->attributes = (Z_AttributeElement **)odr_malloc(o, sizeof(void *)); ap->term = (Z_Term *)odr_malloc(o, sizeof(Z_Term)); ap->term->which = Z_Term_general; ap->term->u.general = odr_create_Odr_oct(o, t.c_str(), t.size()); p->u.attributesPlusTerm = ap; *rpn = n; }
    else *addinfo = outcome == 2 ? 0 : odr_strdup(o, cql); leave(); return r;
}
int yazpp_1::Yaz_cql2rpn::rpn2cql_transform(Z_RPNQuery *q, WRBUF cql, ODR o, char **addinfo) {
    mp_assert(m_transform != 0, "configured"); enter(); std::string t = octs(q->RPNStructure->u.simple->u.attributesPlusTerm->term->u.general); wrbuf_puts(cql, t.c_str()); int r = outcome ? 110 + outcome : 0; if (!outcome) wrbuf_puts(cql, "'"); else *addinfo = outcome == 2 ? 0 : odr_strdup(o, t.c_str()); leave(); return r;
}
static xmlNode *conf(int k, int rev) { xmlNode *c = xb::el("filter"), *e; if (k != 1) { xb::add(c, e = xb::el(k == 5 ? "conv" : "conversion")); if (k != 2) xb::attr(e, "file", "F"); if (rev) xb::attr(e, "reverse", rev == 1 ? "false" : "true"); if (k == 6) xb::attr(e, "x", "y"); } return c; }
#if PROP == 1
void mp_main(void) { mp_preempt(0, -1);
    int k = mp_pick(0, 6, "configuration"), rev = mp_pick(0, 2, "reverse"); no_file = k == 3; no_open = k == 4; xmlNode *c = conf(k, rev); mp::filter::CQLtoRPN *f = new mp::filter::CQLtoRPN; bool thrown = false; try { f->configure(c, false, 0); } catch (std::exception &) { thrown = true; } mp_assert(thrown == (k != 0), "configured or refused"); if (k) { delete f; mp_cover("refused"); return; } mp_assert(opened == 1, "the conversion");
    Chain ch(*f); mp::Session s; mp::Origin og; mp::odr o; if (others(ch, s, og, o)) { delete f; return; } the_term(); qk = mp_pick(RPN, CCL, "query"); outcome = mp_pick(0, 2, "outcome"); bool conv = rev == 2 ? qk == RPN : qk == CQL; want = term; want_kind = kind_of(qk); if (conv) { want += "'"; want_kind = rev == 2 ? Z_Query_type_104 : Z_Query_type_1; }
    { Z_APDU *a = search(o, qk, term); long before = mp_heap_live(); { Run r(ch, s, og, a); mp_assert(!r.p.session().is_closed(), "the session goes on"); Z_APDU *z = r.z(Z_APDU_searchResponse); mp_assert(z && ref_is(z, "q"), "answered");
        if (conv && outcome) { mp_assert(asked == 0 && code_of(z) == (rev == 2 ? 110 + outcome : 1010 + outcome), "refused with why"); mp_assert(outcome == 2 || seq(add_of(z), term), "and what"); mp_cover(rev == 2 ? "no CQL" : "no RPN"); }
        else { mp_assert(asked == 1 && *z->u.searchResponse->resultCount == 5, "passed on"); if (conv && rev == 2) mp_assert(cql_, "as CQL"); mp_cover(!conv ? "as it is" : rev == 2 ? "to CQL" : "to RPN"); } }
      mp_assert(mp_heap_live() == before, "nothing is kept of the request"); }
    delete f; mp_assert(opened == 0, "released"); mp_cover("done");
}
#else
#include <pthread.h>
static void *go(void *p) { ((mp::Package *)p)->move(); return 0; }
void mp_main(void) {
    int rev = mp_pick(0, 1, "reverse") * 2; mp::filter::CQLtoRPN *f = new mp::filter::CQLtoRPN; f->configure(conf(0, rev), false, 0); outcome = mp_pick(0, 1, "outcome"); Chain ch(*f); mp::Session s[2]; mp::Origin og; mp::odr o; mp::Package p(s[0], og), q(s[1], og); p.request() = search(o, rev ? RPN : CQL, "a"); q.request() = search(o, rev ? RPN : CQL, "a"); p.router(ch.r); q.router(ch.r); want = "a'"; want_kind = rev ? Z_Query_type_104 : Z_Query_type_1;
    mp_preempt(1, PB); pthread_t t; pthread_create(&t, 0, go, &q); p.move(); mp_preempt(0, 0); pthread_join(t, 0);
    for (int i = 0; i < 2; i++) { Z_GDU *g = (i ? q : p).response().get(); mp_assert(g && g->u.z3950->which == Z_APDU_searchResponse && code_of(g->u.z3950) == (!outcome ? 0 : rev ? 111 : 1011), "each its own answer"); } mp_cover("done");
}
#endif
#else
#include "filter_query_rewrite.hpp"
#include <libxml/tree.h>
#include <libxslt/xsltInternals.h>
#include <yaz/yaz-iconv.h>
#include <yaz/query-charset.h>
static int sheets, cds, q2x, apply, x2q, cs; static bool no_file, no_sheet; static const char *from_, *to_;
extern "C" { char *yaz_filepath_resolve(const char *f, const char *, const char *, char *full) { if (no_file) return 0; strcpy(full, f); return full; }
xsltStylesheetPtr xsltParseStylesheetFile(const xmlChar *n) { mp_assert(seq((const char *)n, "S"), "the stylesheet"); if (no_sheet) return 0; sheets++; return (xsltStylesheetPtr)&sheets; } void xsltFreeStylesheet(xsltStylesheetPtr) { sheets--; }
void yaz_query2xml(const Z_Query *q, xmlDocPtr *d) { *d = 0; if (q2x) return; *d = xmlNewDoc(BAD_CAST "1.0"); std::string t = term_of((Z_Query *)q); xmlNode *r = xmlNewNode(0, BAD_CAST "query"); xmlDocSetRootElement(*d, r); xmlNewProp(r, BAD_CAST "t", BAD_CAST t.c_str()); }
xmlDocPtr xsltApplyStylesheet(xsltStylesheetPtr s, xmlDocPtr d, const char **p) { mp_assert((int *)s == &sheets && !p, "the stylesheet"); if (apply == 1) return 0; xmlDoc *n = xmlNewDoc(BAD_CAST "1.0"); if (apply == 2) return n; std::string t = (const char *)xmlDocGetRootElement(d)->properties->children->content; t += "'"; xmlNode *r = xmlNewNode(0, BAD_CAST "query"); xmlDocSetRootElement(n, r); xmlNewProp(r, BAD_CAST "t", BAD_CAST t.c_str()); return n; }
void yaz_xml2query(const xmlNode *r, Z_Query **q, ODR o, int *error_code, const char **addinfo) {
    if (!r) { *error_code = 1; *addinfo = "missing query element"; return; } std::string t = (const char *)r->properties->children->content; if (x2q == 1) { *q = 0; *error_code = 3; *addinfo = odr_strdup(o, t.c_str()); return; }
    Z_Query *n = (Z_Query *)odr_malloc(o, sizeof *n); n->which = Z_Query_type_1; Z_RPNQuery *z = n->u.type_1 = (Z_RPNQuery *)odr_malloc(o, sizeof *z); z->attributeSetId = odr_oiddup(o, yaz_oid_attset_bib_1); Z_RPNStructure *s = z->RPNStructure = (Z_RPNStructure *)odr_malloc(o, sizeof *s); s->which = Z_RPNStructure_simple; Z_Operand *p = s->u.simple = (Z_Operand *)odr_malloc(o, sizeof *p); p->which = Z_Operand_APT; Z_AttributesPlusTerm *ap = p->u.attributesPlusTerm = (Z_AttributesPlusTerm *)odr_malloc(o, sizeof *ap); ap->attributes = (Z_AttributeList *)odr_malloc(o, sizeof *ap->attributes); ap->attributes->num_attributes = 0; ap->attributes->attributes = (Z_AttributeElement **)odr_malloc(o, sizeof(void *)); ap->term = (Z_Term *)odr_malloc(o, sizeof(Z_Term)); ap->term->which = Z_Term_general; ap->term->u.general = odr_create_Odr_oct(o, t.c_str(), t.size()); *q = n;
}
yaz_iconv_t yaz_iconv_open(const char *t, const char *f) { mp_assert(seq(t, to_) && seq(f, from_ ? from_ : "UTF-8"), "the character sets"); if (cs == 2) return 0; cds++; return (yaz_iconv_t)&cds; } int yaz_iconv_close(yaz_iconv_t) { cds--; return 0; }
int yaz_query_charset_convert_rpnquery_check(Z_RPNQuery *q, ODR o, yaz_iconv_t cd) { mp_assert((int *)cd == &cds, "the converter"); if (cs == 1) return -1; Odr_oct *x = q->RPNStructure->u.simple->u.attributesPlusTerm->term->u.general; std::string t = octs(x) + "c"; q->RPNStructure->u.simple->u.attributesPlusTerm->term->u.general = odr_create_Odr_oct(o, t.c_str(), t.size()); return 0; }
}
void mp_main(void) { mp_preempt(0, -1);
    int k = mp_pick(0, 7, "configuration"), sheet = k ? 1 : mp_pick(0, 1, "stylesheet"); no_file = k == 1; no_sheet = k == 2; xmlNode *c = xb::el("filter"), *e; if (sheet) { xb::add(c, e = xb::el("xslt")); if (k != 3) xb::attr(e, k == 4 ? "href" : "stylesheet", "S"); if (k == 5) { xb::add(c, e = xb::el("xslt")); xb::attr(e, "stylesheet", "S"); } } if (k == 6) xb::add(c, xb::el("other"));
    int ch_ = k == 7 ? 3 : k ? 0 : mp_pick(0, 3, "charset"); if (ch_) { xb::add(c, e = xb::el("charset")); if (ch_ > 1) xb::attr(e, "from", from_ = "latin1"); if (ch_ != 2) xb::attr(e, "to", to_ = "marc8"); if (k == 7) xb::attr(e, "x", "y"); } bool charset = ch_ == 1 || ch_ == 3;
    mp::filter::QueryRewrite *f = new mp::filter::QueryRewrite; bool thrown = false; try { f->configure(c, false, 0); } catch (std::exception &) { thrown = true; } mp_assert(thrown == (k != 0), "configured or refused"); if (k) { delete f; mp_assert(sheets == 0, "released"); mp_cover("refused"); return; }
    Chain ch(*f); mp::Session s; mp::Origin og; mp::odr o; if (others(ch, s, og, o)) { delete f; return; } the_term(); qk = mp_pick(RPN, CCL, "query"); if (sheet) { q2x = mp_pick(0, 1, "no XML"); if (!q2x) { apply = mp_pick(0, 2, "transformation"); if (!apply) x2q = mp_pick(0, 1, "query made"); } } if (charset) cs = mp_pick(0, 2, "conversion");
    bool rewritten = sheet && !q2x, bad = rewritten && (apply || x2q); want = term; want_kind = kind_of(qk); if (rewritten) { want += "'"; want_kind = Z_Query_type_1; } bool conv = charset && (want_kind == Z_Query_type_1 || want_kind == Z_Query_type_101) && !bad; if (conv && cs == 0) want += "c";
    { Z_APDU *a = search(o, qk, term); long before = mp_heap_live(); { Run r(ch, s, og, a); mp_assert(!r.p.session().is_closed() && cds == 0, "nothing is left open"); Z_APDU *z = r.z(Z_APDU_searchResponse); mp_assert(z && ref_is(z, "q"), "answered");
        if (bad) { mp_assert(asked == 0 && code_of(z) == (apply == 1 ? YAZ_BIB1_MALFORMED_QUERY : apply == 2 ? 1 : 3), "refused with why"); std::string t = std::string(term) + "'"; mp_assert(apply || t == add_of(z), "and what"); mp_cover("can not be rewritten"); }
        else if (conv && cs == 1) { mp_assert(asked == 0 && code_of(z) == YAZ_BIB1_MALFORMED_QUERY, "not in that character set"); mp_cover("can not be converted"); }
        else if (conv && cs == 2) { mp_assert(asked == 1 || code_of(z) != 0, "no such character set"); }
        else { mp_assert(asked == 1 && *z->u.searchResponse->resultCount == 5, "passed on"); mp_cover(rewritten ? "rewritten" : "as it is"); if (conv) mp_cover("converted"); } }
      mp_assert(mp_heap_live() == before, "nothing is kept of the request"); }
    delete f; mp_assert(sheets == 0, "released"); mp_cover("done");
}
#endif
