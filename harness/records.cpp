// record_transform (PROP 1) and sd_remove (PROP 2): the records a client is given and in which form
#include "fx.h"
#include <yaz/diagbib1.h>
#include <yaz/oid_db.h>
#include <yaz/retrieval.h>
#include <yaz/record_conv.h>
#include <yaz/marcdisp.h>
#include <yaz/yaz-iconv.h>
#if PROP == 1
#include "filter_record_transform.hpp"
#else
#include "filter_sd_remove.hpp"
#endif
#ifndef NREC
#define NREC 2
#endif
enum { OCTET, OPAC, SUTRS, SURR, EXTDIAG };
static int nrec, kind[NREC], conv_ok[NREC], opac_ok[NREC], back, which_, count0; static char body[NREC][3];
static const Odr_oid *back_syn(int k) { return k == OPAC ? yaz_oid_recsyn_opac : k == SUTRS ? yaz_oid_recsyn_sutrs : yaz_oid_recsyn_usmarc; }
static std::string octs(Odr_oct *x) { return x ? std::string(x->buf, x->len) : "(none)"; }
static std::string text(int i) { return std::string("r") + body[i]; }
static Z_NamePlusRecord *rec(mp::odr &o, int i) {
    Z_NamePlusRecord *q = (Z_NamePlusRecord *)odr_malloc(o, sizeof *q); q->databaseName = i ? 0 : odr_strdup(o, "db");
    if (kind[i] == SURR) { Z_NamePlusRecord *z = zget_surrogateDiagRec(o, q->databaseName, 14, text(i).c_str()); return z; }
    if (kind[i] == EXTDIAG) { q->which = Z_NamePlusRecord_surrogateDiagnostic; q->u.surrogateDiagnostic = (Z_DiagRec *)odr_malloc(o, sizeof(Z_DiagRec)); q->u.surrogateDiagnostic->which = Z_DiagRec_externallyDefined; q->u.surrogateDiagnostic->u.externallyDefined = z_ext_record_oid(o, yaz_oid_recsyn_xml, text(i).c_str(), text(i).size()); return q; }
    q->which = Z_NamePlusRecord_databaseRecord; std::string t = text(i);
    if (kind[i] == OPAC) { Z_OPACRecord *x = (Z_OPACRecord *)odr_malloc(o, sizeof *x); memset(x, 0, sizeof *x); x->bibliographicRecord = z_ext_record_oid(o, yaz_oid_recsyn_usmarc, t.c_str(), t.size()); q->u.databaseRecord = z_ext_record_oid(o, yaz_oid_recsyn_opac, (const char *)x, -1); }
    else q->u.databaseRecord = z_ext_record_oid(o, back_syn(kind[i]), t.c_str(), t.size());
    return q;
}
static bool untouched(Z_NamePlusRecord *q, int i) {
    if (!(i ? q->databaseName == 0 : seq(q->databaseName, "db"))) return false;
    if (kind[i] == SURR) return q->which == Z_NamePlusRecord_surrogateDiagnostic && q->u.surrogateDiagnostic->which == Z_DiagRec_defaultFormat && *q->u.surrogateDiagnostic->u.defaultFormat->condition == 14 && text(i) == q->u.surrogateDiagnostic->u.defaultFormat->u.v2Addinfo;
    if (kind[i] == EXTDIAG) return q->which == Z_NamePlusRecord_surrogateDiagnostic && q->u.surrogateDiagnostic->which == Z_DiagRec_externallyDefined && octs(q->u.surrogateDiagnostic->u.externallyDefined->u.octet_aligned) == text(i);
    if (q->which != Z_NamePlusRecord_databaseRecord) return false; Z_External *x = q->u.databaseRecord; if (oid_oidcmp(x->direct_reference, back_syn(kind[i]))) return false;
    if (kind[i] == OPAC) return x->which == Z_External_OPAC && x->u.opac->bibliographicRecord && octs(x->u.opac->bibliographicRecord->u.octet_aligned) == text(i);
    return kind[i] == SUTRS ? x->which == Z_External_sutrs && octs((Odr_oct *)x->u.sutrs) == text(i) : x->which == Z_External_octet && octs(x->u.octet_aligned) == text(i);
}
static Z_APDU *last_req_copy; static int asked, req_kind; static void check_request(Z_APDU *a);
static Z_ElementSetNames *esn(mp::odr &o, const char *n) { Z_ElementSetNames *e = (Z_ElementSetNames *)odr_malloc(o, sizeof *e); if (n && !*n) { e->which = Z_ElementSetNames_databaseSpecific; Z_DatabaseSpecificUnit *u = (Z_DatabaseSpecificUnit *)odr_malloc(o, sizeof *u); u->dbName = odr_strdup(o, "db"); u->esn = odr_strdup(o, "x"); Z_DatabaseSpecific *d = (Z_DatabaseSpecific *)odr_malloc(o, sizeof *d); d->num = 1; d->elements = (Z_DatabaseSpecificUnit **)odr_malloc(o, sizeof(void *)); d->elements[0] = u; e->u.databaseSpecific = d; return e; } e->which = Z_ElementSetNames_generic; e->u.generic = odr_strdup(o, n ? n : ""); return e; }
static void down(mp::Package &p) {
    asked++; Z_GDU *g = p.request().get(); mp::odr o; if (!g || g->which != Z_GDU_Z3950) { return; } Z_APDU *a = g->u.z3950; check_request(a);
    if (back == 1) { p.session().close(); return; } if (back == 2) { p.response() = o.create_close(a, 2, "gone"); p.session().close(); return; }
    Z_Records *r = 0; if (back == 3) { r = (Z_Records *)odr_malloc(o, sizeof *r); r->which = Z_Records_NSD; r->u.nonSurrogateDiagnostic = zget_DefaultDiagFormat(o, 13, "x"); }
    else { r = (Z_Records *)odr_malloc(o, sizeof *r); r->which = Z_Records_DBOSD; Z_NamePlusRecordList *l = (Z_NamePlusRecordList *)odr_malloc(o, sizeof *l); r->u.databaseOrSurDiagnostics = l; l->num_records = nrec; l->records = (Z_NamePlusRecord **)odr_malloc(o, sizeof(void *) * (nrec + 1)); for (int i = 0; i < nrec; i++) l->records[i] = rec(o, i); if (!nrec) r = 0; }
    if (a->which == Z_APDU_searchRequest) { Z_APDU *z = o.create_searchResponse(a, 0, 0); *z->u.searchResponse->resultCount = 7; *z->u.searchResponse->numberOfRecordsReturned = back == 3 ? 0 : nrec; z->u.searchResponse->records = r; p.response() = z; }
    else if (a->which == Z_APDU_presentRequest) { Z_APDU *z = o.create_presentResponse(a, 0, 0); *z->u.presentResponse->numberOfRecordsReturned = back == 3 ? 0 : nrec; *z->u.presentResponse->nextResultSetPosition = 5; z->u.presentResponse->records = r; p.response() = z; }
    else p.response() = o.create_scanResponse(a, 0, 0);
}
static void records_of(int n) { nrec = mp_pick(0, n, "records"); mp_sym((char *)body, sizeof body, "contents"); for (int i = 0; i < NREC; i++) { body[i][2] = 0; mp_assume(body[i][0] != 0); mp_assume(body[i][1] != 0); mp_assume(body[i][0] > 0 && body[i][1] > 0); } for (int i = 0; i < nrec; i++) kind[i] = mp_pick(OCTET, EXTDIAG, "kind of record"); }
static Z_APDU *request(mp::odr &o, int k) {
    req_kind = k; Z_APDU *a = mk_req(o, k == 0 ? Z_APDU_presentRequest : k == 1 ? Z_APDU_searchRequest : Z_APDU_scanRequest); set_ref(o, a, "q"); if (k == 0) { a->u.presentRequest->resultSetId = odr_strdup(o, "rs"); *a->u.presentRequest->resultSetStartPoint = 2; *a->u.presentRequest->numberOfRecordsRequested = 3; } else if (k == 1) a->u.searchRequest->resultSetName = odr_strdup(o, "rs"); return a;
}
#if PROP == 2
static void check_request(Z_APDU *a) { mp_assert(ref_is(a, "q") && a->which == (req_kind == 0 ? Z_APDU_presentRequest : req_kind == 1 ? Z_APDU_searchRequest : Z_APDU_scanRequest), "passed on as it is"); }
void mp_main(void) { mp_preempt(0, -1);
    mp::filter::Base *f = metaproxy_1_filter_sd_remove.creator(); xmlNode *c = xb::el("filter"); int bad = mp_pick(0, 1, "content"); if (bad) xb::add(c, xb::el("x")); bool thrown = false; try { f->configure(c, false, 0); } catch (std::exception &) { thrown = true; } mp_assert(thrown == (bad != 0), "no content"); if (bad) { delete f; mp_cover("refused"); return; }
    Chain ch(*f); mp::Session s; mp::Origin og; mp::odr o; back = mp_pick(0, 3, "backend"); Z_APDU *a = request(o, mp_pick(0, 2, "request")); records_of(req_kind < 2 && back == 0 ? NREC : 0); Run r(ch, s, og, a); mp_assert(asked == 1, "asked once");
    mp_assert(r.p.session().is_closed() == (back == 1 || back == 2), "closed as the rest says"); if (back == 1) { mp_assert(!r.g(), "nothing"); mp_cover("nothing"); delete f; return; } if (back == 2) { mp_assert(r.z(Z_APDU_close) != 0, "close"); delete f; return; }
    if (req_kind == 2) { mp_assert(r.z(Z_APDU_scanResponse) && ref_is(r.z(Z_APDU_scanResponse), "q"), "others as they are"); mp_cover("other"); delete f; return; }
    Z_APDU *z = r.z(req_kind ? Z_APDU_searchResponse : Z_APDU_presentResponse); mp_assert(z && ref_is(z, "q"), "the response"); Z_Records *w = req_kind ? z->u.searchResponse->records : z->u.presentResponse->records;
    mp_assert((req_kind ? *z->u.searchResponse->numberOfRecordsReturned : *z->u.presentResponse->numberOfRecordsReturned) == (back == 3 ? 0 : nrec), "as many"); mp_assert(req_kind ? *z->u.searchResponse->resultCount == 7 : *z->u.presentResponse->nextResultSetPosition == 5, "the rest as it is");
    if (back == 3) { mp_assert(w && w->which == Z_Records_NSD && *w->u.nonSurrogateDiagnostic->condition == 13, "errors as they are"); mp_cover("error"); delete f; return; } if (!nrec) { mp_assert(!w, "none"); delete f; return; }
    mp_assert(w && w->which == Z_Records_DBOSD && w->u.databaseOrSurDiagnostics->num_records == nrec, "all records");
    for (int i = 0; i < nrec; i++) { Z_NamePlusRecord *q = w->u.databaseOrSurDiagnostics->records[i]; if (kind[i] < SURR) { mp_assert(untouched(q, i), "records as they are"); mp_cover("record"); continue; }
        mp_assert(i ? q->databaseName == 0 : seq(q->databaseName, "db"), "of the same database"); mp_assert(q->which == Z_NamePlusRecord_databaseRecord && q->u.databaseRecord->which == Z_External_sutrs && !oid_oidcmp(q->u.databaseRecord->direct_reference, yaz_oid_recsyn_sutrs), "a text record"); std::string t = octs((Odr_oct *)q->u.databaseRecord->u.sutrs);
        if (kind[i] == EXTDIAG) { mp_assert(t == " ERROR diag not in default format\n", "says so"); mp_cover("other diagnostic"); } else { std::string x = std::string(" ERROR 14: ") + diagbib1_str(14) + " -- " + text(i) + "\n"; mp_assert(t == x, "says what happened"); mp_cover("surrogate"); } }
    delete f; mp_cover("done");
}
#else
// --- what yaz_retrieval and yaz_record_conv do: which request is made of the target, and what of its records
static char the_ret, the_rc; static int ret, has_rc, m_syn, b_schema, b_syn, opens, closes, marcs, ret_calls, cur, charset, in_schema, in_syn; static bool expect_none;
static const char *schemas[] = { 0, "B", "BF" }; static const Odr_oid *syns[] = { 0, yaz_oid_recsyn_xml, yaz_oid_recsyn_usmarc, yaz_oid_recsyn_opac };
extern "C" {
yaz_retrieval_t yaz_retrieval_create(void) { return (yaz_retrieval_t)&the_ret; } void yaz_retrieval_destroy(yaz_retrieval_t p) { mp_assert((char *)p == &the_ret, "destroyed"); opens--; }
void yaz_retrieval_set_path(yaz_retrieval_t, const char *) {} static int conf_bad;
int yaz_retrieval_configure_t(yaz_retrieval_t, const xmlNode *n, struct yaz_record_conv_type *) { conf_bad = !n || !seq((const char *)n->name, "retrievalinfo"); return conf_bad ? -1 : 0; }
const char *yaz_retrieval_get_error(yaz_retrieval_t) { return "retrieval error"; }
int yaz_retrieval_request(yaz_retrieval_t, const char *schema, const Odr_oid *syn, const char **ms, Odr_oid **msyn, yaz_record_conv_t *rc, const char **bs, Odr_oid **bsyn) {
    ret_calls++; mp_assert(seq(schema, schemas[in_schema]), "the schema asked for"); mp_assert(syns[in_syn] ? syn && !oid_oidcmp(syn, syns[in_syn]) : !syn, "the syntax asked for");
    if (ret) return ret; *ms = "M"; static Odr_oid x[8], y[8]; const Odr_oid *q = syns[m_syn]; int i = 0; do x[i] = q[i]; while (q[i++] != -1); *msyn = x; *rc = has_rc ? (yaz_record_conv_t)&the_rc : 0; *bs = b_schema ? "BK" : 0; *bsyn = 0; if (b_syn) { q = syns[b_syn]; i = 0; do y[i] = q[i]; while (q[i++] != -1); *bsyn = y; } return 0;
}
static int find(const std::string &t) { for (int i = 0; i < nrec; i++) if (i == cur && text(i) == t) return i; mp_assert(0, "a record of the response, in order"); return 0; }
static int next_convertible() { while (cur < nrec && kind[cur] != OCTET && kind[cur] != OPAC) cur++; return cur; }
static int conv(const std::string &t, WRBUF out) { next_convertible(); int i = find(t); cur++; if (!conv_ok[i]) { wrbuf_puts(out, "half"); return -1; } wrbuf_puts(out, "C:"); wrbuf_write(out, t.c_str(), t.size()); return 0; }
int yaz_record_conv_record(yaz_record_conv_t rc, const char *b, size_t n, WRBUF out) { mp_assert((char *)rc == &the_rc, "the conversion"); return conv(std::string(b, n), out); }
int yaz_record_conv_opac_record(yaz_record_conv_t rc, Z_OPACRecord *x, WRBUF out) { mp_assert((char *)rc == &the_rc, "the conversion"); return conv(octs(x->bibliographicRecord->u.octet_aligned), out); }
const char *yaz_record_conv_get_error(yaz_record_conv_t) { return "conversion error"; } const char *yaz_record_get_output_charset(yaz_record_conv_t) { return charset ? "marc-8" : 0; }
yaz_iconv_t yaz_iconv_open(const char *to, const char *) { mp_assert(seq(to, "marc-8"), "character set"); opens++; return (yaz_iconv_t)&the_rc; } int yaz_iconv_close(yaz_iconv_t) { closes++; return 0; }
yaz_marc_t yaz_marc_create(void) { marcs++; return (yaz_marc_t)&the_rc; } void yaz_marc_destroy(yaz_marc_t) { marcs--; }
int yaz_xml_to_opac(yaz_marc_t, const char *b, size_t n, Z_OPACRecord **dst, yaz_iconv_t cd, NMEM m, const Odr_oid *) {
    mp_assert((cd != 0) == (charset != 0), "character set conversion"); std::string t(b, n); int i = cur - 1; mp_assert(t == "C:" + text(i), "what the conversion gave"); if (opac_ok[i] == 1) { *dst = 0; return 1; } if (!opac_ok[i]) return 0;
    Z_OPACRecord *x = (Z_OPACRecord *)nmem_malloc(m, sizeof *x); memset(x, 0, sizeof *x); Z_External *e = (Z_External *)nmem_malloc(m, sizeof *e); memset(e, 0, sizeof *e); Odr_oid *d = (Odr_oid *)nmem_malloc(m, 8 * sizeof(Odr_oid)); int k = 0; do d[k] = yaz_oid_recsyn_usmarc[k]; while (yaz_oid_recsyn_usmarc[k++] != -1); e->direct_reference = d; e->which = Z_External_octet; e->u.octet_aligned = (Odr_oct *)nmem_malloc(m, sizeof(Odr_oct)); e->u.octet_aligned->buf = nmem_strdupn(m, b, n); e->u.octet_aligned->len = n; x->bibliographicRecord = e; *dst = x; return 1;
}
}
static int small_esn, med_esn; static Odr_int ssub, lslb, mspn; static bool piggy_off;
static void check_esn(Z_ElementSetNames *e, const char *n) { mp_assert(n ? e && e->which == Z_ElementSetNames_generic && seq(e->u.generic, n) : !e, "the target's schema"); }
static void check_request(Z_APDU *a) {
    mp_assert(ref_is(a, "q"), "the request"); if (req_kind == 2) { mp_assert(a->which == Z_APDU_scanRequest, "others as they are"); return; } mp_assert(!ret || piggy_off, "nothing is asked for when it can not be given");
    if (req_kind == 0) { Z_PresentRequest *q = a->u.presentRequest; mp_assert(a->which == Z_APDU_presentRequest && seq(q->resultSetId, "rs") && *q->resultSetStartPoint == 2 && *q->numberOfRecordsRequested == 3, "the records asked for"); mp_assert(b_syn ? q->preferredRecordSyntax && !oid_oidcmp(q->preferredRecordSyntax, syns[b_syn]) : !q->preferredRecordSyntax, "the target's syntax"); mp_assert(b_schema ? q->recordComposition && q->recordComposition->which == Z_RecordComp_simple : !q->recordComposition, "the target's schema"); if (b_schema) check_esn(q->recordComposition->u.simple, "BK"); return; }
    Z_SearchRequest *q = a->u.searchRequest; mp_assert(a->which == Z_APDU_searchRequest && seq(q->resultSetName, "rs") && q->num_databaseNames == 1 && seq(q->databaseNames[0], "Default") && q->query->which == Z_Query_type_1, "the search");
    if (piggy_off) { mp_assert(*q->smallSetUpperBound == 0 && *q->largeSetLowerBound == 1 && *q->mediumSetPresentNumber == 0, "no records with the search"); return; }
    mp_assert(*q->smallSetUpperBound == ssub && *q->largeSetLowerBound == lslb && *q->mediumSetPresentNumber == mspn, "as many records"); mp_assert(b_syn ? q->preferredRecordSyntax && !oid_oidcmp(q->preferredRecordSyntax, syns[b_syn]) : !q->preferredRecordSyntax, "the target's syntax"); check_esn(q->smallSetElementSetNames, b_schema ? "BK" : 0); check_esn(q->mediumSetElementSetNames, b_schema ? "BK" : 0);
}
void mp_main(void) { mp_preempt(0, -1);
    mp::filter::RecordTransform *f = new mp::filter::RecordTransform; xmlNode *c = xb::el("filter"); int conf = mp_pick(0, 2, "configuration"); if (conf == 2) xb::add(c, xb::el("other")); if (conf) xb::add(c, xb::el("retrievalinfo")); bool thrown = false; opens = 1; try { f->configure(c, false, 0); } catch (std::exception &) { thrown = true; } mp_assert(thrown == (conf == 0), "configured"); if (!conf) { delete f; mp_assert(!opens, "released"); mp_cover("refused"); return; }
    Chain ch(*f); mp::Session s; mp::Origin og; mp::odr o; ret = conf == 2 ? mp_pick(0, 5, "retrieval") - 1 : 0; has_rc = mp_pick(0, 1, "conversion"); m_syn = ret ? 1 : mp_pick(1, 3, "client's syntax"); b_schema = mp_pick(0, 1, "target's schema"); b_syn = mp_pick(0, 3, "target's syntax"); charset = m_syn == 3 && has_rc ? mp_pick(0, 1, "character set") : 0; in_syn = mp_pick(0, 3, "syntax"); if (b_syn && b_schema && conf == 2) back = mp_pick(0, 3, "backend");
    Z_APDU *a = request(o, mp_pick(0, 2, "request")); if (ret == 2) mp_assume(in_syn != 0);
    if (req_kind == 0) { Z_PresentRequest *q = a->u.presentRequest; q->preferredRecordSyntax = odr_oiddup(o, syns[in_syn]); in_schema = mp_pick(0, 2, "schema"); if (in_schema) { q->recordComposition = (Z_RecordComposition *)odr_malloc(o, sizeof(Z_RecordComposition)); q->recordComposition->which = Z_RecordComp_simple; q->recordComposition->u.simple = esn(o, schemas[in_schema]); } }
    else if (req_kind == 1) { Z_SearchRequest *q = a->u.searchRequest; q->preferredRecordSyntax = odr_oiddup(o, syns[in_syn]); *q->smallSetUpperBound = ssub = mp_i64("small"); *q->largeSetLowerBound = lslb = mp_i64("large"); *q->mediumSetPresentNumber = mspn = mp_i64("medium"); mp_assume(ssub >= 0 && lslb >= 0 && mspn >= 0); mp_assume(ssub < 1000000 && lslb < 1000000 && mspn < 1000000); static const char *names[] = { 0, "B", "BF", "" }; small_esn = mp_pick(0, 3, "small set"); med_esn = mp_pick(0, 3, "medium set"); q->smallSetElementSetNames = small_esn ? esn(o, names[small_esn]) : 0; q->mediumSetElementSetNames = med_esn ? esn(o, names[med_esn]) : 0; in_schema = small_esn % 3; piggy_off = !(small_esn == med_esn && (small_esn == 1 || small_esn == 2 || (!small_esn && lslb > 1))); }
    records_of(req_kind < 2 && back == 0 && !piggy_off && !ret ? NREC : 0); if (has_rc) for (int i = 0; i < nrec; i++) if (kind[i] <= OPAC) { conv_ok[i] = mp_pick(0, 1, "converted"); if (conv_ok[i] && m_syn == 3) opac_ok[i] = mp_pick(0, 2, "as OPAC"); }
    Run r(ch, s, og, a); mp_assert(opens - 1 == closes && marcs == 0, "nothing is left open");
    if (req_kind == 2) { mp_assert(asked == 1 && ret_calls == 0, "others are passed on"); if (back == 0) mp_assert(r.z(Z_APDU_scanResponse) && ref_is(r.z(Z_APDU_scanResponse), "q"), "with their response"); mp_cover("other"); delete f; return; }
    if (piggy_off) { mp_assert(asked == 1, "passed on"); mp_cover("no records with the search"); }
    Z_APDU *z = r.z(req_kind ? Z_APDU_searchResponse : Z_APDU_presentResponse);
    if (ret && !piggy_off) { mp_assert(asked == 0 && z && ref_is(z, "q"), "refused"); Z_Records *w = req_kind ? z->u.searchResponse->records : z->u.presentResponse->records; mp_assert(w && w->which == Z_Records_NSD, "with a diagnostic"); Z_DefaultDiagFormat *d = w->u.nonSurrogateDiagnostic; int code = ret == -1 ? YAZ_BIB1_SYSTEM_ERROR_IN_PRESENTING_RECORDS : ret == 1 || ret == 3 ? YAZ_BIB1_ELEMENT_SET_NAMES_UNSUPP : ret == 2 ? YAZ_BIB1_RECORD_SYNTAX_UNSUPP : YAZ_BIB1_UNSPECIFIED_ERROR; mp_assert(*d->condition == code, "why"); if (ret == 1 || ret == 3) mp_assert(seq(d->u.v2Addinfo ? d->u.v2Addinfo : "", in_schema ? schemas[in_schema] : ""), "which schema"); if (ret == 2) { char b[OID_STR_MAX]; oid_oid_to_dotstring(syns[in_syn], b); mp_assert(seq(d->u.v2Addinfo, b), "which syntax"); } if (ret == -1) mp_assert(seq(d->u.v2Addinfo, "retrieval error"), "what"); mp_cover("not available"); delete f; return; }
    mp_assert(asked == 1, "asked once"); mp_assert(r.p.session().is_closed() == (back == 1 || back == 2), "closed as the rest says"); if (back == 1) { mp_assert(!r.g(), "nothing"); delete f; return; } if (back == 2) { mp_assert(r.z(Z_APDU_close) != 0, "close"); delete f; return; }
    mp_assert(z && ref_is(z, "q"), "the response"); Z_Records *w = req_kind ? z->u.searchResponse->records : z->u.presentResponse->records; mp_assert((req_kind ? *z->u.searchResponse->numberOfRecordsReturned : *z->u.presentResponse->numberOfRecordsReturned) == (back == 3 ? 0 : nrec), "as many"); mp_assert(req_kind ? *z->u.searchResponse->resultCount == 7 : *z->u.presentResponse->nextResultSetPosition == 5, "the rest as it is");
    if (back == 3) { mp_assert(w && w->which == Z_Records_NSD && *w->u.nonSurrogateDiagnostic->condition == 13, "errors as they are"); mp_cover("error"); delete f; return; } if (!nrec) { mp_assert(!w, "none"); delete f; return; }
    mp_assert(w && w->which == Z_Records_DBOSD && w->u.databaseOrSurDiagnostics->num_records == nrec, "all records");
    for (int i = 0; i < nrec; i++) { Z_NamePlusRecord *q = w->u.databaseOrSurDiagnostics->records[i];
        if (!has_rc || kind[i] >= SURR) { mp_assert(untouched(q, i), "as it is"); mp_cover("as it is"); continue; }
        mp_assert(i ? q->databaseName == 0 : seq(q->databaseName, "db"), "of the same database"); bool conv_fail = kind[i] == SUTRS || !conv_ok[i], fail = conv_fail || (m_syn == 3 && opac_ok[i] != 2);
        if (fail) { mp_assert(q->which == Z_NamePlusRecord_surrogateDiagnostic && q->u.surrogateDiagnostic->which == Z_DiagRec_defaultFormat, "a diagnostic in its place"); Z_DefaultDiagFormat *d = q->u.surrogateDiagnostic->u.defaultFormat; mp_assert(*d->condition == YAZ_BIB1_SYSTEM_ERROR_IN_PRESENTING_RECORDS && d->u.v2Addinfo && *d->u.v2Addinfo, "why"); if (kind[i] != SUTRS && conv_fail) mp_assert(seq(d->u.v2Addinfo, "conversion error"), "what"); mp_cover("not converted"); continue; }
        mp_assert(q->which == Z_NamePlusRecord_databaseRecord && !oid_oidcmp(q->u.databaseRecord->direct_reference, syns[m_syn]), "in the client's syntax"); Z_External *x = q->u.databaseRecord; std::string t = "C:" + text(i);
        if (m_syn == 3) { mp_assert(x->which == Z_External_OPAC && octs(x->u.opac->bibliographicRecord->u.octet_aligned) == t, "the record converted"); mp_cover("OPAC"); } else { mp_assert(x->which == Z_External_octet && octs(x->u.octet_aligned) == t, "the record converted"); mp_cover("converted"); } }
    delete f; mp_assert(opens - closes == 0, "released"); mp_cover("done");
}
#endif
