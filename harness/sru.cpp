// sru_z3950: a SRU request is answered with what the target says, through one Z39.50 session of its own
#include "fx.h"
#include <sstream>
#include <pthread.h>
#include <yaz/srw.h>
#include <yaz/soap.h>
#include <yaz/pquery.h>
#include <yaz/diagsrw.h>
#include <yaz/diagbib1.h>
#include <yaz/oid_db.h>
#include <yaz/otherinfo.h>
#include "filter_sru_to_z3950.hpp"
// --- decoding and encoding of SRU packages are libyaz's: the harness gives the decoded request and takes the response to encode
static Z_SRW_PDU *req_pdu; static Z_SOAP *req_soap; static int dec; static Z_SRW_diagnostic *req_diag; static int req_ndiag, answers, faults; static std::string sheet, fault_text;
static void answer(const Z_SRW_PDU *p);
extern "C" {
int yaz_sru_decode(Z_HTTP_Request *, Z_SRW_PDU **p, Z_SOAP **s, ODR, char **, Z_SRW_diagnostic **d, int *n) { if (dec) return 2; *p = req_pdu; *s = req_soap; *d = req_diag; *n = req_ndiag; return 0; }
int yaz_srw_decode(Z_HTTP_Request *, Z_SRW_PDU **p, Z_SOAP **s, ODR, char **) { if (dec == 1) { *p = req_pdu; *s = req_soap; return 0; } if (dec == 2) { *s = req_soap; return 1; } return 2; }
int z_soap_codec_enc_xsl(ODR o, Z_SOAP **pp, char **buf, int *len, Z_SOAP_Handler *, const char *, const char *xsl) {
    Z_SOAP *s = *pp; sheet = xsl ? xsl : ""; *buf = odr_strdup(o, "body"); *len = 4;
    if (s->which == Z_SOAP_generic) { answers++; answer((const Z_SRW_PDU *)s->u.generic->p); } else { faults++; mp_assert(seq(s->u.fault->fault_code, "c") && seq(s->u.fault->fault_string, "s") && s->u.fault->details == 0, "the fault as decoded"); } return 0;
}
Z_RPNQuery *yaz_pqf_parse(YAZ_PQF_Parser, ODR o, const char *q) { if (q[0] == '@') return 0; mp::odr t; Z_RPNQuery *r = (Z_RPNQuery *)odr_malloc(o, sizeof *r); memset(r, 0, sizeof *r); Z_RPNStructure *s = r->RPNStructure = (Z_RPNStructure *)odr_malloc(o, sizeof *s); s->which = Z_RPNStructure_simple; s->u.simple = (Z_Operand *)odr_malloc(o, sizeof *s->u.simple); s->u.simple->which = Z_Operand_resultSetId; s->u.simple->u.resultSetId = odr_strdup(o, q); return r; }
}
static int diag_code(const Z_SRW_diagnostic *d) { const char *u = d->uri; static const char pre[] = "info:srw/diagnostic/1/"; mp_assert(u && !strncmp(u, pre, sizeof pre - 1), "a diagnostic of SRU"); return atoi(u + sizeof pre - 1); }
static Z_SOAP *generic(mp::odr &o) { Z_SOAP *s = (Z_SOAP *)odr_malloc(o, sizeof *s); s->which = Z_SOAP_generic; s->ns = 0; s->u.generic = (Z_SOAP_Generic *)odr_malloc(o, sizeof *s->u.generic); s->u.generic->no = 0; s->u.generic->ns = (char *)YAZ_XMLNS_SRU_v1_1; s->u.generic->p = req_pdu; return s; }
#if PROP == 1
static int hits, most, nf, inits, closes, presents, next_pos, want, fail; static bool open_, searched, stopped, wild; static std::string qtype, qtext, user, pass, host, db, schema, peer, addinfo; static Odr_int start, maxr; static int kinds[MAXH + 2];
static int sockets; static bool custom, logging;
static const char *rtext[] = { "<r>1</r>", "<r>22</r>", "<r>333</r>", "<r>4</r>", "<r>5</r>", "<r>6</r>" };
static Z_Records *nsd(mp::odr &o, int code, bool multi) { Z_Records *r = (Z_Records *)odr_malloc(o, sizeof *r); if (multi) { r->which = Z_Records_multipleNSD; r->u.multipleNonSurDiagnostics = zget_DiagRecs(o, code, "x"); } else { r->which = Z_Records_NSD; r->u.nonSurrogateDiagnostic = zget_DefaultDiagFormat(o, code, "x"); } return r; }
static Z_Records *records(mp::odr &o, int st, int n) {
    Z_Records *r = (Z_Records *)odr_malloc(o, sizeof *r); r->which = Z_Records_DBOSD; Z_NamePlusRecordList *l = (Z_NamePlusRecordList *)odr_malloc(o, sizeof *l); r->u.databaseOrSurDiagnostics = l; l->num_records = n; l->records = (Z_NamePlusRecord **)odr_malloc(o, sizeof(void *) * (n + 1));
    for (int i = 0; i < n; i++) {
        int pos = st + i, k = pos <= hits ? (kinds[pos] = mp_pick(0, KINDS, "kind of record")) : 0; Z_NamePlusRecord *q; const char *t = rtext[pos % 6];
        if (k == 1) { q = zget_surrogateDiagRec(o, "d", 238, "y"); l->records[i] = q; continue; }
        q = (Z_NamePlusRecord *)odr_malloc(o, sizeof *q); l->records[i] = q; q->databaseName = odr_strdup(o, "d");
        if (k == 2) { q->which = Z_NamePlusRecord_surrogateDiagnostic; q->u.surrogateDiagnostic = (Z_DiagRec *)odr_malloc(o, sizeof(Z_DiagRec)); q->u.surrogateDiagnostic->which = Z_DiagRec_externallyDefined; Z_External *x = q->u.surrogateDiagnostic->u.externallyDefined = (Z_External *)odr_malloc(o, sizeof *x); memset(x, 0, sizeof *x); x->direct_reference = odr_oiddup(o, yaz_oid_recsyn_xml); x->which = Z_External_octet; x->u.octet_aligned = odr_create_Odr_oct(o, "z", 1); continue; }
        q->which = Z_NamePlusRecord_databaseRecord; Z_External *x = (Z_External *)odr_malloc(o, sizeof *x); memset(x, 0, sizeof *x); q->u.databaseRecord = x; x->which = Z_External_octet; x->u.octet_aligned = odr_create_Odr_oct(o, t, strlen(t));
        if (k != 4) x->direct_reference = odr_oiddup(o, k == 3 ? yaz_oid_recsyn_usmarc : yaz_oid_recsyn_xml);
        if (k == 5) { x->which = Z_External_sutrs; x->u.sutrs = (Odr_oct *)odr_malloc(o, sizeof(Odr_oct)); x->u.sutrs->buf = odr_strdup(o, "s"); x->u.sutrs->len = 1; }
    }
    return r;
}
static void down(mp::Package &p) {
    if (p.session().is_closed()) { mp_assert(open_, "only what is open is closed"); open_ = false; closes++; return; }
    Z_GDU *g = p.request().get(); mp_assert(g && g->which == Z_GDU_Z3950, "a Z39.50 request"); Z_APDU *a = g->u.z3950; mp::odr o; mp_assert(p.origin().get_max_sockets() == sockets, "the number of sockets"); if (custom) { std::ostringstream os; os << p.origin(); mp_assert(os.str().find("cs") != std::string::npos, "the session name for logs"); mp_cover("custom session"); } p.log_write("L<", 2); int k = nf ? mp_pick(0, 3, "target") : 0; if (k) { nf--; mp_cover("fault"); }
    if (a->which == Z_APDU_initRequest) {
        mp_assert(!open_, "one session at a time"); open_ = true; inits++; Z_InitRequest *q = a->u.initRequest; Z_IdAuthentication *au = q->idAuthentication;
        if (user.empty()) mp_assert(au == 0, "no credentials"); else if (pass.empty()) mp_assert(au && au->which == Z_IdAuthentication_open && user == au->u.open, "the user"); else mp_assert(au && au->which == Z_IdAuthentication_idPass && user == au->u.idPass->userId && pass == au->u.idPass->password, "the credentials");
        const char *v = yaz_oi_get_string_oid(&q->otherInfo, yaz_oid_userinfo_proxy, 1, 0); mp_assert(host == (v ? v : ""), "the target asked for"); v = yaz_oi_get_string_oid(&q->otherInfo, yaz_oid_userinfo_client_ip, 1, 0); mp_assert(peer == (v ? v : ""), "the client's address");
        if (k == 0) { Z_APDU *r = o.create_initResponse(a, user.empty() ? 0 : 2, user.empty() ? 0 : "accepted all the same"); *r->u.initResponse->result = 1; p.response() = r; } else if (k == 1) { p.response() = o.create_initResponse(a, YAZ_BIB1_INIT_AC_AUTHENTICATION_SYSTEM_ERROR, "x"); fail = yaz_diag_bib1_to_srw(YAZ_BIB1_INIT_AC_AUTHENTICATION_SYSTEM_ERROR); addinfo = "x"; } else if (k == 2) { Z_APDU *r = o.create_initResponse(a, 0, 0); *r->u.initResponse->result = 0; p.response() = r; fail = YAZ_SRW_AUTHENTICATION_ERROR; } else { fail = YAZ_SRW_SYSTEM_TEMPORARILY_UNAVAILABLE; p.response() = o.create_close(a, 0, 0); } return;
    }
    mp_assert(open_, "in the session that was opened"); mp_assert(fail == 0, "no more requests after a failure");
    if (a->which == Z_APDU_searchRequest) {
        mp_assert(!searched, "one search"); searched = true; Z_SearchRequest *q = a->u.searchRequest; std::string dbs; for (int i = 0; i < q->num_databaseNames; i++) dbs += (i ? "|" : "") + std::string(q->databaseNames[i]); mp_assert(dbs == db, "the databases");
        if (qtype == "cql") { mp_assert(q->query->which == Z_Query_type_104 && q->query->u.type_104->which == Z_External_CQL && qtext == q->query->u.type_104->u.cql, "the CQL query"); } else if (qtype == "pqf") mp_assert(q->query->which == Z_Query_type_1 && qtext == q->query->u.type_1->RPNStructure->u.simple->u.resultSetId, "the PQF query"); else mp_assert(q->query->which == Z_Query_type_2 && q->query->u.type_2->len == (int)qtext.size() && !memcmp(q->query->u.type_2->buf, qtext.c_str(), qtext.size()), "the CCL query");
        if (k == 3) { fail = YAZ_SRW_SYSTEM_TEMPORARILY_UNAVAILABLE; if (mp_pick(0, 1, "other response")) p.response() = o.create_presentResponse(a, 0, 0); return; }
        Z_APDU *r = o.create_searchResponse(a, 0, 0); *r->u.searchResponse->resultCount = k ? 0 : hits; if (k) { *r->u.searchResponse->searchStatus = 0; r->u.searchResponse->records = nsd(o, 114, k == 2); fail = yaz_diag_bib1_to_srw(114); addinfo = "x"; } p.response() = r; return;
    }
    mp_assert(a->which == Z_APDU_presentRequest && searched, "a present after the search"); Z_PresentRequest *q = a->u.presentRequest; int st = (int)*q->resultSetStartPoint, n = (int)*q->numberOfRecordsRequested; presents++;
    mp_assert(!stopped && st == next_pos && n == want - (next_pos - (int)start), "the records still to be got"); mp_assert(st >= 1 && n >= 1 && st + n - 1 <= hits, "records of the result"); mp_assert(q->preferredRecordSyntax && !oid_oidcmp(q->preferredRecordSyntax, yaz_oid_recsyn_xml), "XML records");
    if (schema.empty()) mp_assert(q->recordComposition == 0, "no schema"); else mp_assert(q->recordComposition && q->recordComposition->which == Z_RecordComp_simple && q->recordComposition->u.simple->which == Z_ElementSetNames_generic && schema == q->recordComposition->u.simple->u.generic, "the schema");
    Z_APDU *r = o.create_presentResponse(a, 0, 0); Z_PresentResponse *w = r->u.presentResponse;
    if (k == 3) { fail = YAZ_SRW_SYSTEM_TEMPORARILY_UNAVAILABLE; if (mp_pick(0, 1, "other response")) p.response() = o.create_searchResponse(a, 0, 0); return; }
    if (k == 1) { bool multi = mp_pick(0, 1, "several diagnostics") == 1; w->records = nsd(o, 14, multi); fail = yaz_diag_bib1_to_srw(14); addinfo = "x"; }
    else if (k == 2) { int c = mp_pick(0, 2, "odd number of records"); if (c == 0) stopped = true; else if (c == 1) { stopped = true; w->records = records(o, st, 0); } else { wild = true; w->records = records(o, st, n + 1); next_pos += n; mp_cover("too many"); } }
    else { int m = n < most ? n : most; w->records = records(o, st, m); *w->numberOfRecordsReturned = m; next_pos += m; if (m < n) mp_cover("several presents"); }
    p.response() = r;
}
static bool string_packing; static int prefail;
static void answer(const Z_SRW_PDU *p) {
    mp_assert(p->which == Z_SRW_searchRetrieve_response, "a search response"); if (logging && inits) { std::string l(p->extraResponseData_buf, p->extraResponseData_len); mp_assert(l.find("L&lt;") != std::string::npos && l.find("L<") == std::string::npos, "the log of the request"); mp_cover("log"); } else mp_assert(p->extraResponseData_len == 0, "no log"); Z_SRW_searchRetrieveResponse *r = p->u.response;
    if (fail) { mp_assert(r->num_diagnostics > 0, "a failure is reported"); Z_SRW_diagnostic *d = r->diagnostics + r->num_diagnostics - 1; mp_assert(diag_code(d) == fail, "what the target says"); if (!addinfo.empty()) mp_assert(d->details && addinfo == d->details, "and what about"); mp_assert(!searched || presents || !r->num_records, "no records"); mp_cover("diagnostic"); return; }
    if (prefail) { bool f = false; for (int i = 0; i < r->num_diagnostics; i++) f = f || diag_code(r->diagnostics + i) == prefail; mp_assert(f, "an unsupported request is reported"); mp_assert(r->num_records == 0 && presents == 0, "and not carried out"); mp_cover("unsupported"); return; }
    mp_assert(r->num_diagnostics == 0 && searched, "no diagnostics"); mp_assert(r->numberOfRecords && *r->numberOfRecords == hits, "the hit count"); int got = want ? next_pos - (int)start : 0; mp_assert(r->num_records == got, "the records"); if (got) mp_cover("records");
    for (int i = 0; i < got; i++) {
        Z_SRW_record *c = r->records + i; int pos = (int)start + i; mp_assert(c->recordPosition && *c->recordPosition == pos, "its position"); mp_assert(c->recordPacking == (string_packing ? Z_SRW_recordPacking_string : Z_SRW_recordPacking_XML), "its packing"); std::string d(c->recordData_buf, c->recordData_len);
        if (kinds[pos] == 0) { mp_assert(d == rtext[pos % 6], "the record"); mp_assert(seq(c->recordSchema, schema.empty() ? 0 : schema.c_str()), "its schema"); } else { mp_assert(seq(c->recordSchema, "info:srw/schema/1/diagnostics-v1.1"), "a diagnostic record"); char u[60]; int code = kinds[pos] == 1 ? yaz_diag_bib1_to_srw(238) : kinds[pos] == 2 ? YAZ_SRW_RECORD_TEMPORARILY_UNAVAILABLE : YAZ_SRW_RECORD_NOT_AVAILABLE_IN_THIS_SCHEMA; sprintf(u, "<uri>info:srw/diagnostic/1/%d</uri>", code); mp_assert(d.find(u) != std::string::npos, "its diagnostic"); mp_cover("surrogate"); }
    }
    if (want) { int nx = (int)start + got; if (nx <= hits) { mp_assert(r->nextRecordPosition && *r->nextRecordPosition == nx, "where to go on"); mp_cover("more"); } else mp_assert(r->nextRecordPosition == 0, "nothing more"); }
}
static char *dup(mp::odr &o, const char *s) { return odr_strdup(o, s); }
static void arg(mp::odr &o, Z_SRW_PDU *p, const char *n, const char *v) { Z_SRW_extra_arg **a = &p->extra_args; while (*a) a = &(*a)->next; *a = (Z_SRW_extra_arg *)odr_malloc(o, sizeof **a); (*a)->name = dup(o, n); (*a)->value = dup(o, v); (*a)->next = 0; }
void mp_main(void) { mp_preempt(0, -1);
    mp::filter::SRUtoZ3950 *f = new mp::filter::SRUtoZ3950; xmlNode *c = xb::el("filter"), *e; int lim = FORM ? mp_pick(0, 2, "limit") : 0; if (lim) { xb::add(c, e = xb::el("limit")); xb::attr(e, "retrieve", lim == 1 ? "1" : "2"); } f->configure(c, false, 0);
    NamedChain ch(*f); mp::Session s; mp::Origin og; mp::odr o; nf = NF;
    Z_SRW_PDU *p = req_pdu = yaz_srw_get(o, Z_SRW_searchRetrieve_request); p->extra_args = 0; Z_SRW_searchRetrieveRequest *q = p->u.request; req_soap = generic(o); hits = mp_pick(0, MAXH, "hits"); most = mp_pick(1, MAXH, "records in a response"); q->queryType = dup(o, "cql"); q->query = dup(o, "t"); qtype = "cql"; qtext = "t"; db = "Default";
    Z_GDU *h = http_get(o, "GET", "/Default"); std::string want_sheet; int unsupp = 0; start = 1; maxr = 0;
    if (FORM) {
        maxr = mp_pick(0, 1, "records asked for") * (MAXH + 1); q->maximumRecords = odr_intdup(o, maxr);
        switch (mp_pick(0, 19, "form")) {
        case 1: qtype = "pqf"; q->queryType = dup(o, "pqf"); if (mp_pick(0, 1, "bad query")) { q->query = dup(o, "@"); fail = YAZ_SRW_QUERY_SYNTAX_ERROR; } qtext = q->query; break;
        case 2: qtype = "ccl"; q->queryType = dup(o, "ccl"); break;
        case 3: q->queryType = dup(o, "foo"); fail = YAZ_SRW_MANDATORY_PARAMETER_NOT_SUPPLIED; break;
        case 4: q->query = 0; unsupp = -YAZ_SRW_MANDATORY_PARAMETER_NOT_SUPPLIED; break;
        case 5: user = "u"; break;
        case 6: user = "u"; pass = "p"; break;
        case 7: arg(o, p, "x-target", "h:1/a+b"); host = "h:1"; db = "a|b"; break;
        case 8: q->recordSchema = dup(o, "F"); schema = "F"; break;
        case 9: q->recordPacking = dup(o, "string"); string_packing = true; break;
        case 10: arg(o, p, "x-client-a&", "1&"); db = "Default,a%26=1%26"; break;
        case 11: q->database = dup(o, "D"); db = "D"; break;
        case 12: q->recordXPath = dup(o, "/x"); unsupp = YAZ_SRW_XPATH_RETRIEVAL_UNSUPP; break;
        case 13: q->resultSetTTL = odr_intdup(o, 1); unsupp = YAZ_SRW_RESULT_SETS_UNSUPP; break;
        case 14: q->sort_type = Z_SRW_sort_type_sort; q->sort.sortKeys = dup(o, "t"); unsupp = YAZ_SRW_SORT_UNSUPP; break;
        case 15: z_HTTP_header_add(o, &h->u.HTTP_Request->headers, "X-Forwarded-For", "9"); peer = "9"; break;
        case 17: arg(o, p, "x-max-sockets", "7"); sockets = 7; break;
        case 18: arg(o, p, "x-session-id", "cs"); custom = true; break;
        case 19: arg(o, p, "x-log-enable", "1"); logging = true; break;
        case 16: want_sheet = "z"; q->stylesheet = dup(o, "z"); break;
        }
        if (!user.empty()) p->username = dup(o, user.c_str()); if (!pass.empty()) p->password = dup(o, pass.c_str());
    } else {
        if (mp_pick(0, 1, "start given")) { start = mp_i32("startRecord"); q->startRecord = odr_intdup(o, 0); *q->startRecord = start; }
        maxr = mp_i32("maximumRecords"); q->maximumRecords = odr_intdup(o, 0); *q->maximumRecords = maxr; if (mp_pick(0, 1, "maximum not given")) { maxr = 0; q->maximumRecords = 0; }
    }
    if (unsupp < 0) prefail = -unsupp; else if (hits && maxr != 0) { if (start < 1 || start > hits) prefail = YAZ_SRW_FIRST_RECORD_POSITION_OUT_OF_RANGE; else if (maxr < 0) prefail = YAZ_SRW_UNSUPP_PARAMETER_VALUE; else if (unsupp) prefail = unsupp; }
    if (!prefail && hits && maxr > 0) { start = mp_concretize(start); if (q->startRecord) *q->startRecord = start; want = hits - (int)start + 1; if (maxr < want) want = (int)mp_concretize(maxr); if (lim && lim < want) want = lim; } next_pos = (int)start;
    if (lim && want == lim) mp_cover("limited");
    Run r(ch, s, og, h); mp_assert(answers == 1, "one response"); Z_GDU *g = r.g(); mp_assert(g && g->which == Z_GDU_HTTP_Response && g->u.HTTP_Response->code == 200, "an HTTP response"); mp_assert(seq(z_HTTP_header_lookup(g->u.HTTP_Response->headers, "Content-Type"), "text/xml") || !strncmp(z_HTTP_header_lookup(g->u.HTTP_Response->headers, "Content-Type"), "text/xml;", 9), "of XML"); mp_assert(sheet == want_sheet, "the stylesheet");
    mp_assert(!r.p.session().is_closed(), "the connection is kept"); mp_assert(!open_ && closes == inits, "the session with the target is closed"); mp_assert(want == 0 || fail || stopped || next_pos - start == want, "all records asked for"); mp_cover("done");
}
#endif
#if PROP == 2
static int kind, conf_; static bool known; static std::string path_db, host_, port_; static int moved;
static void down(mp::Package &p) { if (!p.session().is_closed()) moved++; }
static std::string text_in(xmlNode *n, const char *name) { for (; n; n = n->next) if (n->type == XML_ELEMENT_NODE) { if (!strcmp((const char *)n->name, name)) { std::string t; for (xmlNode *x = n->children; x; x = x->next) if (x->type == XML_TEXT_NODE) t += (const char *)x->content; return t; } std::string r = text_in(n->children, name); if (r != "?") return r; } return "?"; }
static void answer(const Z_SRW_PDU *p) {
    if (kind == 1) { mp_assert(p->which == Z_SRW_scan_response && p->u.scan_response->num_diagnostics == 1 && diag_code(p->u.scan_response->diagnostics) == YAZ_SRW_UNSUPP_OPERATION, "scan is not supported"); mp_cover("scan"); return; }
    mp_assert(p->which == Z_SRW_explain_response, "an explain response"); Z_SRW_explainResponse *r = p->u.explain_response;
    if (kind == 2) { mp_assert(r->num_diagnostics >= 1 && diag_code(r->diagnostics + r->num_diagnostics - 1) == YAZ_SRW_UNSUPP_OPERATION, "other operations are not supported"); mp_cover("other"); return; }
    mp_assert(r->num_diagnostics == req_ndiag && (!req_ndiag || r->diagnostics == req_diag), "what the decoder says"); std::string d(r->record.recordData_buf, r->record.recordData_len); while (!d.empty() && !d[d.size() - 1]) d.resize(d.size() - 1);
    mp_assert(r->record.recordPosition && *r->record.recordPosition == 1, "one record"); mp_assert(seq(r->record.recordSchema, "http://explain.z3950.org/dtd/2.0/"), "of explain");
    xmlDoc *x = xmlParseMemory(d.c_str(), (int)d.size()); mp_assert(x != 0, "that is well formed"); xmlNode *n = x->children; if (known) { mp_assert(text_in(n, "x") == "conf", "the record of the database"); mp_cover("configured"); } else { mp_assert(text_in(n, "database") == path_db, "the database"); mp_assert(text_in(n, "host") == host_, "the host"); mp_assert(text_in(n, "port") == port_, "the port"); mp_cover("explain"); } xmlFreeDoc(x);
}
static void printable(char *p, int n, const char *not_) { for (int i = 0; i < n; i++) { mp_assume(p[i] > ' ' && p[i] < 127); for (const char *c = not_; *c; c++) mp_assume(p[i] != *c); } }
void mp_main(void) { mp_preempt(0, -1);
    mp::filter::SRUtoZ3950 *f = new mp::filter::SRUtoZ3950; xmlNode *c = xb::el("filter"), *e, *x; conf_ = mp_pick(0, 1, "configured"); if (conf_) { xb::add(c, e = xb::el("database")); xb::attr(e, "name", "db"); xb::add(e, x = xb::el("explain", 0)); xb::add(x, e = xb::el("x", 0)); xb::add(e, xb::text("conf")); xb::add(c, e = xb::el("stylesheet")); xb::add(e, xb::text("/s.xsl")); } f->configure(c, false, 0);
    NamedChain ch(*f); mp::Session s; mp::Origin og; mp::odr o; 
    if (mp_pick(0, 4, "not SRU") == 4) { Run r(ch, s, og, mk_req(o, Z_APDU_searchRequest)); mp_assert(moved == 1 && answers == 0, "passed on"); mp_cover("passed on"); mp_cover("done"); return; }
    int nd = mp_pick(0, NB, "length of database"), nh = mp_pick(0, NB, "length of host"); char *d = sym_cstr(nd, "database"), *hn = sym_cstr(nh, "host"); printable(d, nd, "?"); printable(hn, nh, ":"); std::string path = "/" + std::string(d) + (mp_pick(0, 1, "query") ? "?operation=x" : ""); path_db = nd ? d : "Default"; host_ = "localhost"; port_ = "80";
    if (conf_ && mp_pick(0, 1, "configured database")) { path = "/db?x=y"; path_db = "db"; } known = conf_ && path_db == "db";
    Z_GDU *h = http_get(o, "GET", path.c_str()); if (nh) { std::string v = hn; host_ = hn; if (mp_pick(0, 1, "port")) { v += ":9"; port_ = "9"; } z_HTTP_header_add(o, &h->u.HTTP_Request->headers, "Host", v.c_str()); }
    kind = mp_pick(0, 4, "kind"); dec = mp_pick(0, 1, "SOAP"); bool empty = false;
    switch (kind) {
    case 0: req_pdu = yaz_srw_get(o, Z_SRW_explain_request); if (!dec && mp_pick(0, 1, "diagnostic")) yaz_add_srw_diagnostic(o, &req_diag, &req_ndiag, 4, "d"); break;
    case 1: req_pdu = yaz_srw_get(o, Z_SRW_scan_request); break;
    case 2: { static const int w[] = { Z_SRW_update_request, Z_SRW_searchRetrieve_response, Z_SRW_explain_response, Z_SRW_scan_response }; dec = 1; req_pdu = yaz_srw_get(o, w[mp_pick(0, 3, "operation")]); break; }
    case 3: dec = 2; break;
    case 4: dec = 3; break;
    }
    if (req_pdu) req_pdu->extra_args = 0; if (dec < 2) req_soap = generic(o); else if (dec == 2) { req_soap = (Z_SOAP *)odr_malloc(o, sizeof *req_soap); req_soap->which = Z_SOAP_fault; req_soap->ns = 0; req_soap->u.fault = (Z_SOAP_Fault *)odr_malloc(o, sizeof(Z_SOAP_Fault)); req_soap->u.fault->fault_code = odr_strdup(o, "c"); req_soap->u.fault->fault_string = odr_strdup(o, "s"); req_soap->u.fault->details = 0; }
    Run r(ch, s, og, h); Z_GDU *g = r.g(); mp_assert(moved == 0, "answered here"); mp_assert(g && g->which == Z_GDU_HTTP_Response, "an HTTP response"); (void)empty;
    if (dec == 3) { mp_assert(g->u.HTTP_Response->code == 400 && !answers && !faults, "not a SRU request"); mp_cover("bad request"); } else if (dec == 2) { mp_assert(faults == 1 && !answers, "the fault is returned"); mp_cover("fault"); } else { mp_assert(g->u.HTTP_Response->code == 200 && answers == 1 && !faults, "a response"); mp_assert(sheet == (conf_ ? "/s.xsl" : ""), "the default stylesheet"); }
    mp_assert(r.p.session().is_closed() == (dec >= 2), "the connection"); mp_cover("done");
}
#endif
#if PROP == 3
// requests of one session are handled one after the other, other sessions do not wait
static void answer(const Z_SRW_PDU *) {}
static mp::Session *ss[2]; static int inside[2], same_, both; static NamedChain *chn; static mp::odr *od; static pthread_mutex_t gm; static pthread_cond_t gc; static int waiting;
static void down(mp::Package &p) {
    int i = p.session() == *ss[0] ? 0 : 1; mp_assert(!inside[i], "one request of a session at a time"); inside[i]++;
    if (!same_ && !p.session().is_closed()) { pthread_mutex_lock(&gm); waiting++; pthread_cond_broadcast(&gc); while (waiting < 2) pthread_cond_wait(&gc, &gm); pthread_mutex_unlock(&gm); both++; }
    else { pthread_mutex_lock(&gm); pthread_mutex_unlock(&gm); } inside[i]--;
}
static void *work(void *v) { int i = (int)(long)v; mp::Origin og; mp::Package p(*ss[same_ ? 0 : i], og); p.request() = mk_req(od[i], Z_APDU_searchRequest); p.router(chn->r).move(); return 0; }
void mp_main(void) { mp_preempt(0, -1);
    mp::filter::SRUtoZ3950 *f = new mp::filter::SRUtoZ3950; xmlNode *c = xb::el("filter"); f->configure(c, false, 0); NamedChain ch(*f); chn = &ch; mp::Session s1, s2; ss[0] = &s1; ss[1] = &s2; same_ = mp_pick(0, 1, "same session"); mp::odr o2[2]; od = o2; pthread_mutex_init(&gm, 0); pthread_cond_init(&gc, 0);
    mp_preempt(0, PB); pthread_t t; pthread_create(&t, 0, work, (void *)1L); work(0); pthread_join(t, 0); mp_preempt(0, -1);
    if (!same_) { mp_assert(both == 2, "both sessions at a time"); mp_cover("two sessions"); } else mp_cover("same session");
    mp::Origin og; { mp::Package p(s1, og); p.session().close(); p.router(ch.r).move(); } mp_cover("done");
}
#endif
#if PROP == 4
// zeerex_explain: the configured record for explain requests of configured databases, nothing else
#include "filter_zeerex_explain.hpp"
static int moved, kind; static std::string want_rec; static Z_GDU *seen;
static void down(mp::Package &p) { moved++; seen = p.request().get(); mp::odr o; if (seen && seen->which == Z_GDU_HTTP_Request) p.response() = o.create_HTTP_Response(p.session(), seen->u.HTTP_Request, 299); }
static void answer(const Z_SRW_PDU *p) {
    mp_assert(p->which == Z_SRW_explain_response, "an explain response"); Z_SRW_explainResponse *r = p->u.explain_response; mp_assert(r->num_diagnostics == req_ndiag && (!req_ndiag || r->diagnostics == req_diag), "what the decoder says");
    std::string d(r->record.recordData_buf, r->record.recordData_len); while (!d.empty() && !d[d.size() - 1]) d.resize(d.size() - 1); mp_assert(r->record.recordPosition && *r->record.recordPosition == 1 && seq(r->record.recordSchema, "http://explain.z3950.org/dtd/2.0/"), "one record of explain"); mp_assert(d.find(want_rec) != std::string::npos, "the record of the database"); 
}
void mp_main(void) { mp_preempt(0, -1);
    mp::filter::ZeeRexExplain *f = new mp::filter::ZeeRexExplain; xmlNode *c = xb::el("filter"), *e, *x; int cfg = mp_pick(0, 4, "config"); bool bad = false; static const char *names[] = { "a", "b" }; int n = cfg == 0 ? 0 : cfg == 1 ? 1 : 2;
    if (cfg == 3) { xb::add(c, xb::el("databas")); bad = true; } if (cfg == 4) { xb::add(c, e = xb::el("database")); xb::attr(e, "nam", "a"); bad = true; }
    for (int i = 0; i < n; i++) { xb::add(c, xb::text("\n")); xb::add(c, e = xb::el("database")); xb::attr(e, "name", names[i]); xb::add(e, xb::text(" ")); xb::add(e, x = xb::el("explain", 0)); xb::add(x, e = xb::el("x", 0)); xb::add(e, xb::text(i ? "two" : "one")); }
    bool ok = true; try { f->configure(c, false, 0); } catch (std::exception &) { ok = false; } mp_assert(ok == !bad, "configurations are accepted if and only if they are valid"); if (!ok) { delete f; mp_cover("refused"); return; }
    NamedChain ch(*f); mp::Session s; mp::Origin og; mp::odr o;
    if (mp_pick(0, 3, "not HTTP") == 3) { Run r(ch, s, og, mk_req(o, Z_APDU_searchRequest)); mp_assert(moved == 1 && !answers, "passed on"); mp_cover("passed on"); return; }
    int nd = mp_pick(0, NB, "length of database"); char *d = sym_cstr(nd, "database"); for (int i = 0; i < nd; i++) { mp_assume(d[i] > ' ' && d[i] < 127); mp_assume(d[i] != '?' && d[i] != '%' && d[i] != '+'); } std::string db = nd ? d : "Default", path = "/" + std::string(d) + (mp_pick(0, 1, "query") ? "?operation=x" : "");
    int which = -1; for (int i = 0; i < n; i++) if (db == names[i]) which = i;
    Z_GDU *h = http_get(o, mp_pick(0, 1, "method") ? "GET" : "POST", path.c_str()); kind = mp_pick(0, 4, "kind"); dec = mp_pick(0, 1, "SOAP");
    switch (kind) {
    case 0: req_pdu = yaz_srw_get(o, Z_SRW_explain_request); if (!dec && mp_pick(0, 1, "diagnostic")) yaz_add_srw_diagnostic(o, &req_diag, &req_ndiag, 4, "d"); break;
    case 1: req_pdu = yaz_srw_get(o, Z_SRW_scan_request); break; case 2: req_pdu = yaz_srw_get(o, Z_SRW_searchRetrieve_request); break;
    case 3: dec = 2; break; case 4: dec = 3; break; }
    if (req_pdu) req_pdu->extra_args = 0; if (dec < 2) req_soap = generic(o); else if (dec == 2) { req_soap = (Z_SOAP *)odr_malloc(o, sizeof *req_soap); req_soap->which = Z_SOAP_fault; req_soap->ns = 0; req_soap->u.fault = (Z_SOAP_Fault *)odr_malloc(o, sizeof(Z_SOAP_Fault)); req_soap->u.fault->fault_code = odr_strdup(o, "c"); req_soap->u.fault->fault_string = odr_strdup(o, "s"); req_soap->u.fault->details = 0; }
    want_rec = which == 1 ? "two" : "one"; Run r(ch, s, og, h); Z_GDU *g = r.g(); mp_assert(g && g->which == Z_GDU_HTTP_Response, "an HTTP response"); int code = g->u.HTTP_Response->code;
    if (which < 0 || kind == 1 || kind == 2) { mp_assert(moved == 1 && code == 299 && !answers && !faults && !r.p.session().is_closed(), "passed on"); mp_assert(seen && seq(seen->u.HTTP_Request->path, path.c_str()), "as it was"); mp_cover(which < 0 ? "other database" : "other operation"); }
    else { mp_assert(moved == 0, "answered here"); if (dec == 3) { mp_assert(code == 400 && !answers && !faults, "not a SRU request"); mp_cover("bad request"); } else if (dec == 2) { mp_assert(faults == 1 && !answers, "the fault is returned"); mp_cover("fault"); } else { mp_assert(code == 200 && answers == 1 && !faults, "a response"); mp_cover("explain"); } mp_assert(r.p.session().is_closed() == (dec >= 2), "the connection"); }
    delete f; mp_cover("done");
}
#endif
