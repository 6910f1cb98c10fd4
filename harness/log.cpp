// log: what is written for every package (PROP 1), and by sessions at the same time (PROP 2)
#include "fx.h"
#include <yaz/diagbib1.h>
#include <yaz/log.h>
#include <yaz/oid_db.h>
#include <yaz/querytowrbuf.h>
#include <yaz/timing.h>
#include "filter_log.hpp"
#include <stdio.h>
#include <time.h>
static char out[6000]; static int nout; static char theF, theY; static int fopens, flushed = 1, locked; static bool no_open, file;
#if PROP == 2
#include <pthread.h>
static pthread_mutex_t out_lock = PTHREAD_MUTEX_INITIALIZER;   // of stdio
struct Out { Out() { pthread_mutex_lock(&out_lock); } ~Out() { pthread_mutex_unlock(&out_lock); } };
#else
struct Out { Out() {} ~Out() {} };
#endif
static void put(const char *s, int n) { Out l; for (int i = 0; i < n && nout < (int)sizeof out; i++) out[nout++] = s[i]; }
extern "C" {
FILE *mp_fopen(const char *n, const char *m) { if (!*n) return 0; mp_assert(seq(n, "F") && seq(m, "a"), "the file, to add to it"); fopens++; return no_open ? 0 : (FILE *)&theF; }
int mp_fputs(const char *s, FILE *f) { mp_assert((char *)f == &theF, "the file"); flushed = 0; put(s, strlen(s)); return 1; } int mp_fputc(int c, FILE *f) { mp_assert((char *)f == &theF, "the file"); char x = c; put(&x, 1); return c; } int mp_fflush(FILE *f) { flushed = 1; return 0; }
size_t mp_fwrite(const void *p, size_t a, size_t b, FILE *f) { mp_assert((char *)f == (file ? &theF : &theY), "where the log goes"); mp_assert(file || locked, "not between lines of others"); if (file) flushed = 0; put((const char *)p, a * b); return b; }
size_t mp_strftime(char *b, size_t n, const char *f, const struct tm *) { if (!*f) return 0; strcpy(b, seq(f, "T") ? "now" : "then"); return strlen(b); }
static void *st_handle; static void (*st_write)(ODR, void *, int, const char *, int);
void mp_odr_set_stream(ODR, void *h, void (*w)(ODR, void *, int, const char *, int), void (*)(void *)) { st_handle = h; st_write = w; }
int mp_z_GDU(ODR o, Z_GDU **g, int, const char *) { char b[9]; int k = (*g)->which == Z_GDU_Z3950 ? (*g)->u.z3950->which : 90 + (*g)->which; b[0] = '{'; b[1] = char('0' + k / 10); b[2] = char('0' + k % 10); b[3] = '}'; st_write(o, st_handle, 0, b, 4); return 1; }
void yaz_log(int, const char *f, ...) { if (!seq(f, "%s")) return; va_list a; va_start(a, f); const char *s = va_arg(a, const char *); std::string t = s; t += "\n"; put(t.c_str(), t.size()); va_end(a); }
FILE *yaz_log_file(void) { return (FILE *)&theY; } void yaz_log_lock(void) { locked++; } void yaz_log_unlock(void) { locked--; }
double yaz_timing_get_real(yaz_timing_t) { return 0.25; }
void yaz_init_opt_decode(Z_Options *o, void (*f)(const char *, void *), void *h) { if (ODR_MASK_GET(o, Z_Options_search)) f("s", h); if (ODR_MASK_GET(o, Z_Options_present)) f("p", h); }
}
static std::string num(long long n) { if (n < 0) return "-" + num(-n); std::string r; do { r.insert(r.begin(), char('0' + n % 10)); n /= 10; } while (n); return r; }
static const char *SHA = "1.2.3.4:7"; static char user[3];
static Z_APDU *resp_; static int back, asked; static Z_GDU *seen;
static Z_DiagRecs *diags(mp::odr &o, int k) { Z_DiagRecs *d = (Z_DiagRecs *)odr_malloc(o, sizeof *d); d->num_diagRecs = k ? 1 : 0; d->diagRecs = (Z_DiagRec **)odr_malloc(o, sizeof(void *)); d->diagRecs[0] = 0; if (k) { Z_DiagRec *r = d->diagRecs[0] = (Z_DiagRec *)odr_malloc(o, sizeof *r); if (k == 1) { r->which = Z_DiagRec_defaultFormat; r->u.defaultFormat = zget_DefaultDiagFormat(o, 14, "a"); } else { r->which = Z_DiagRec_externallyDefined; r->u.externallyDefined = z_ext_record_oid(o, yaz_oid_recsyn_xml, "x", 1); } } return d; }
static Z_Records *recs(mp::odr &o) { if (back == 1) return 0; Z_Records *r = (Z_Records *)odr_malloc(o, sizeof *r); if (back == 2) { r->which = Z_Records_NSD; r->u.nonSurrogateDiagnostic = zget_DefaultDiagFormat(o, 14, "a"); } else { r->which = Z_Records_multipleNSD; r->u.multipleNonSurDiagnostics = diags(o, back - 3); } return r; }
// 0 nothing, 1 fine, 2 a diagnostic, 3-5 several: none, one, another format; 6 closed, 7 another response
static void down(mp::Package &p) {
    asked++; mp::odr o; Z_GDU *g = p.request().get(); if (!g) { p.session().close(); return; } if (!back) return;
    if (g->which == Z_GDU_HTTP_Request) { Z_GDU *h = o.create_HTTP_Response(p.session(), g->u.HTTP_Request, back == 1 ? 200 : 404); p.response() = h; return; }
    Z_APDU *a = g->u.z3950, *z = 0; if (back == 6) { p.response() = o.create_close(a, Z_Close_finished, "bye"); p.session().close(); return; }
    switch (back == 7 ? Z_APDU_deleteResultSetRequest : a->which) {
    case Z_APDU_initRequest: z = o.create_initResponse(a, back == 2 ? 14 : 0, back == 2 ? "a" : 0); if (back == 1) { ODR_MASK_ZERO(z->u.initResponse->options); ODR_MASK_SET(z->u.initResponse->options, Z_Options_present); } if (back == 3) { *z->u.initResponse->result = 0; z->u.initResponse->userInformationField = 0; } break;
    case Z_APDU_searchRequest: z = o.create_searchResponse(a, 0, 0); z->u.searchResponse->records = recs(o); *z->u.searchResponse->resultCount = 11; *z->u.searchResponse->numberOfRecordsReturned = 2; *z->u.searchResponse->nextResultSetPosition = 3; *z->u.searchResponse->searchStatus = back == 1; break;
    case Z_APDU_presentRequest: z = o.create_presentResponse(a, 0, 0); z->u.presentResponse->records = recs(o); *z->u.presentResponse->numberOfRecordsReturned = 2; *z->u.presentResponse->nextResultSetPosition = 3; *z->u.presentResponse->presentStatus = back == 1 ? Z_PresentStatus_success : Z_PresentStatus_failure; break;
    case Z_APDU_scanRequest: z = o.create_scanResponse(a, 0, 0); *z->u.scanResponse->numberOfEntriesReturned = 4; z->u.scanResponse->positionOfTerm = odr_intdup(o, 2); if (back > 1) *z->u.scanResponse->scanStatus = back == 2 ? 6 : back == 3 ? 5 : 2; break;
    case Z_APDU_sortRequest: z = zget_APDU(o, Z_APDU_sortResponse); *z->u.sortResponse->sortStatus = back == 1 ? Z_SortResponse_success : back == 2 ? Z_SortResponse_partial_1 : Z_SortResponse_failure; if (back > 2) { Z_DiagRecs *d = diags(o, back - 3); z->u.sortResponse->num_diagnostics = d->num_diagRecs; z->u.sortResponse->diagnostics = d->diagRecs; } break;
    case Z_APDU_extendedServicesRequest: z = zget_APDU(o, Z_APDU_extendedServicesResponse); *z->u.extendedServicesResponse->operationStatus = back == 1 ? Z_ExtendedServicesResponse_done : back == 2 ? Z_ExtendedServicesResponse_accepted : Z_ExtendedServicesResponse_failure; if (back > 2) { Z_DiagRecs *d = diags(o, back - 3); z->u.extendedServicesResponse->num_diagnostics = d->num_diagRecs; z->u.extendedServicesResponse->diagnostics = d->diagRecs; } break;
    default: z = zget_APDU(o, Z_APDU_deleteResultSetResponse); *z->u.deleteResultSetResponse->deleteOperationStatus = 0; }
    set_ref(o, z, "w"); p.response() = z;
}
static std::string query_text(Z_APDU *a) { mp::wrbuf w; if (a->which == Z_APDU_searchRequest) yaz_query_to_wrbuf(w, a->u.searchRequest->query); else yaz_scan_to_wrbuf(w, a->u.scanRequest->termListAndStartPoint, a->u.scanRequest->attributeSet); return std::string(wrbuf_cstr(w), w.len()); }
static const char *ids(Z_APDU *a) { return a->u.initRequest->implementationId ? " i n v" : " - - -"; }
static const char *diag_text(int k, const char *none, const char *ext) { return k == 3 ? none : k == 4 || k == 2 ? "14 \"a\"" : ext; }
static const char *u_of(Z_APDU *a) { Z_IdAuthentication *x = a->u.initRequest->idAuthentication; return !x ? 0 : x->which == Z_IdAuthentication_open ? x->u.open : x->which == Z_IdAuthentication_idPass ? x->u.idPass->userId : 0; }
// the request as the access log has it
static std::string req_text(Z_GDU *g, int el) {
    if (g->which == Z_GDU_HTTP_Request) return "HTTP_Request GET /p"; Z_APDU *a = g->u.z3950; std::string r = "Z3950 ";
    switch (a->which) { case Z_APDU_initRequest: { const char *u = u_of(a); return r + "initRequest " + (u ? u : "-") + " -" + ids(a); }
    case Z_APDU_searchRequest: return r + "searchRequest D+E rs " + (el & 1 ? "XML" : "-") + " " + query_text(a); case Z_APDU_presentRequest: return r + "presentRequest rs 2+3 " + (el & 1 ? "XML" : "-") + (el & 2 ? " F" : " -"); case Z_APDU_scanRequest: return r + "scanRequest D 5 - - " + query_text(a);
    case Z_APDU_sortRequest: return r + "sortRequest "; case Z_APDU_deleteResultSetRequest: return r + "deleteResultSetRequest"; case Z_APDU_extendedServicesRequest: return r + "extendedServicesRequest create " + (el & 1 ? user : "-") + (el & 1 ? " pk" : " -") + " -"; case Z_APDU_close: return r + "close 0 finished"; case Z_APDU_resourceControlResponse: return r + "resourceControlResponse"; } return "?";
}
static std::string res_text(Z_GDU *g, int kind) {
    if (g->which == Z_GDU_HTTP_Response) return std::string("HTTP_Response ") + (back == 1 ? "200 " : "404 ") + num(g->u.HTTP_Response->content_len); Z_APDU *a = g->u.z3950; std::string r = "Z3950 "; const char *dg = diag_text(back, "multipleNSD", "Z_DiagRec_externallyDefined");
    switch (a->which) { case Z_APDU_initResponse: { Z_InitResponse *i = a->u.initResponse; return r + "initResponse " + (back == 1 || back > 3 ? "OK" : "FAIL") + " " + (i->implementationId ? i->implementationId : "-") + " " + (i->implementationName ? i->implementationName : "-") + " " + (i->implementationVersion ? i->implementationVersion : "-"); }
    case Z_APDU_searchResponse: return r + "searchResponse " + (back == 1 ? "OK 11 1+2 3" : std::string("Failure DIAG ") + dg); case Z_APDU_presentResponse: return r + "presentResponse " + (back == 1 ? "OK 2 3" : std::string("Failure DIAG ") + dg);
    case Z_APDU_scanResponse: return r + "scanResponse " + (back == 1 ? "OK" : back == 2 ? "failure" : back == 3 ? "partial_5" : "partial_2") + " 4 2 -"; case Z_APDU_sortResponse: return r + "sortResponse "; case Z_APDU_deleteResultSetResponse: return r + "deleteResultSetResponse";
    case Z_APDU_extendedServicesResponse: return r + "extendedServicesResponse " + (back == 1 ? "OK" : back == 2 ? "ACCEPT" : back == 3 ? "ERROR" : std::string("DIAG ") + dg); case Z_APDU_close: return r + "close 0 finished bye"; } return "?";
}
// request and response in one line; empty: nothing
static std::string one_line(Z_GDU *g, Z_GDU *h, int el) {
    if (!g) return ""; if (g->which == Z_GDU_HTTP_Request) return std::string("GET /p HTTP/1.1 ") + (!h ? "?" : (back == 1 ? "200 " : "404 ") + num(h->u.HTTP_Response->content_len)); Z_APDU *a = g->u.z3950, *z = h ? h->u.z3950 : 0; std::string x = z ? "? response=" + num(z->which) : "?", ud = diag_text(back, "-", "(diag not in default format?)"), sy = el & 1 ? "XML" : "-";
    switch (a->which) { case Z_APDU_initRequest: { if (!z || z->which != Z_APDU_initResponse) return "Init " + x; bool im = a->u.initRequest->implementationId != 0; return std::string("Init ") + (back == 2 ? "ERROR 14 \"a\"" : back == 3 ? "ERROR -" : "OK -") + (im ? " ID:i Name:n Version:v" : " ID:- Name:- Version:-"); }
    case Z_APDU_searchRequest: if (!z || z->which != Z_APDU_searchResponse) return "Search " + x; return "Search D+E " + (back == 1 ? "OK 11 rs" : "ERROR " + ud) + " " + sy + " 1+2 " + query_text(a);
    case Z_APDU_presentRequest: if (!z || z->which != Z_APDU_presentResponse) return "Present " + x; return "Present " + (back == 1 ? "OK" : "ERROR " + ud) + " " + sy + " rs 2+3 ";
    case Z_APDU_scanRequest: if (!z || z->which != Z_APDU_scanResponse) return "Scan " + x; return std::string("Scan D ") + (back == 1 ? "OK" : back == 2 ? "ERROR" : back == 3 ? "PARTIAL5" : "PARTIAL2") + " 4 1+5+1 " + query_text(a);
    case Z_APDU_sortRequest: if (!z || z->which != Z_APDU_sortResponse) return "sort " + x; return std::string("sort ") + (back == 1 ? "OK -" : back == 2 ? "PARTIAL -" : "ERROR " + ud) + " (default)->sorted ";
    case Z_APDU_deleteResultSetRequest: return "deleteResultSet "; case Z_APDU_extendedServicesRequest: if (!z || z->which != Z_APDU_extendedServicesResponse) return "extendedServices " + x; return std::string("extendedServices ") + (back == 1 ? "DONE -" : back == 2 ? "ACCEPTED -" : "ERROR " + ud);
    case Z_APDU_close: return "close"; default: return "REQ=" + num(a->which) + " RES=" + (z ? num(z->which) : std::string("?")); }
}
static xmlNode *conf(int cat, bool msg, bool tf) {
    xmlNode *c = xb::el("filter"), *e; if (msg) { xb::add(c, e = xb::el("message")); xb::add(e, xb::text("m")); } if (file || no_open) { xb::add(c, e = xb::el("filename")); xb::add(e, xb::text("F")); } if (tf) { xb::add(c, e = xb::el("time-format")); xb::add(e, xb::text("T")); }
    static const char *names[] = { 0, "user-access", "line", "apdu", "request-apdu", "response-apdu", "session", "request-session", "response-session", "init-options" };
    if (cat) { xb::add(c, e = xb::el("category")); if (cat < 10) { xb::attr(e, "access", "false"); xb::attr(e, names[cat], "true"); } else if (cat == 10) for (int i = 1; i < 10; i++) xb::attr(e, names[i], "1"); else xb::attr(e, "what", "true"); } return c;
}
static std::string want, dt, msg_;
static void line(const std::string &s) { if (file) { want += dt; want += " "; } want += s; want += "\n"; }
static bool plain(char c) { return c > 31 && c < 127; }
static bool same_out() { if ((int)want.size() != nout) return false; for (int i = 0; i < nout; i++) { char a = want[i], b = out[i]; int ok = a == '\1' ? b != '\n' && b != '\r' : a == b; if (!ok) return false; } return true; }
#if PROP == 1
static Z_APDU *make(mp::odr &o, int k, int auth, int el) {
    static const int kinds[] = { Z_APDU_initRequest, Z_APDU_searchRequest, Z_APDU_presentRequest, Z_APDU_scanRequest, Z_APDU_sortRequest, Z_APDU_deleteResultSetRequest, Z_APDU_extendedServicesRequest, Z_APDU_close, Z_APDU_resourceControlResponse }; Z_APDU *a = mk_req(o, kinds[k]); if (k < 8) set_ref(o, a, "q");
    if (k == 0) { Z_InitRequest *q = a->u.initRequest; ODR_MASK_ZERO(q->options); ODR_MASK_SET(q->options, Z_Options_search); q->implementationId = el & 1 ? odr_strdup(o, "i") : 0; q->implementationName = el & 1 ? odr_strdup(o, "n") : 0; q->implementationVersion = el & 1 ? odr_strdup(o, "v") : 0; if (auth) { Z_IdAuthentication *x = q->idAuthentication = (Z_IdAuthentication *)odr_malloc(o, sizeof *x); x->which = auth == 1 ? Z_IdAuthentication_open : Z_IdAuthentication_idPass; if (auth == 1) x->u.open = odr_strdup(o, user); else { Z_IdPass *w = x->u.idPass = (Z_IdPass *)odr_malloc(o, sizeof *w); w->userId = auth == 2 ? odr_strdup(o, user) : 0; w->groupId = 0; w->password = odr_strdup(o, "secret"); } } }
    if (k == 1) { std::vector<std::string> d; d.push_back("D"); d.push_back("E"); set_dbs(o, &a->u.searchRequest->num_databaseNames, &a->u.searchRequest->databaseNames, d); a->u.searchRequest->resultSetName = odr_strdup(o, "rs"); if (el & 1) a->u.searchRequest->preferredRecordSyntax = odr_oiddup(o, yaz_oid_recsyn_xml); }
    if (k == 2) { Z_PresentRequest *q = a->u.presentRequest; q->resultSetId = odr_strdup(o, "rs"); *q->resultSetStartPoint = 2; *q->numberOfRecordsRequested = 3; if (el & 1) q->preferredRecordSyntax = odr_oiddup(o, yaz_oid_recsyn_xml); if (el & 2) { q->recordComposition = (Z_RecordComposition *)odr_malloc(o, sizeof(Z_RecordComposition)); q->recordComposition->which = Z_RecordComp_simple; Z_ElementSetNames *e = q->recordComposition->u.simple = (Z_ElementSetNames *)odr_malloc(o, sizeof *e); e->which = Z_ElementSetNames_generic; e->u.generic = odr_strdup(o, "F"); } }
    if (k == 3) { a->u.scanRequest->databaseNames[0] = odr_strdup(o, "D"); *a->u.scanRequest->numberOfTermsRequested = 5; a->u.scanRequest->preferredPositionInResponse = 0; a->u.scanRequest->stepSize = 0; }
    if (k == 6) { Z_ExtendedServicesRequest *q = a->u.extendedServicesRequest; *q->function = Z_ExtendedServicesRequest_create; q->packageType = odr_oiddup(o, yaz_oid_recsyn_xml); q->userId = el & 1 ? odr_strdup(o, user) : 0; q->packageName = el & 1 ? odr_strdup(o, "pk") : 0; }
    if (k == 7) { *a->u.close->closeReason = Z_Close_finished; a->u.close->diagnosticInformation = 0; } return a;
}
static std::string san(const std::string &s) { std::string r = s; for (size_t i = 0; i < r.size(); i++) if (r[i] == '\n' || r[i] == '\r') r[i] = '\1'; return r; }
void mp_main(void) { mp_preempt(0, -1);
    int cat = mp_pick(0, 11, "category"); bool full = cat == 10 || cat == 2 || cat == 1; static const int few[] = { 0, 1, 9, 10 }; int k = cat == 11 ? 0 : full ? mp_pick(0, 10, "request") : few[mp_pick(0, 3, "request")], form = cat == 11 || (full && k > 1) ? 2 : mp_pick(0, 3, "where and message"); file = form > 1; no_open = form == 1; bool msg = form == 1 || form == 2, tf = form == 2; dt = tf ? "now" : "then"; msg_ = msg ? "m" : "-"; xmlNode *c = conf(cat, msg, tf);
    mp::filter::Log *f = new mp::filter::Log; bool thrown = false; try { f->configure(c, false, 0); } catch (mp::filter::FilterException &) { thrown = true; } mp_assert(thrown == (cat == 11), "configured or refused"); if (thrown) { delete f; mp_cover("refused"); return; }
    mp_sym(user, 2, "user"); user[2] = 0; mp_assume(user[0] != 0); mp_assume(user[1] != 0); mp_assume(user[0] > 0); mp_assume(user[1] > 0);
    Chain ch(*f); mp::Session s[2]; mp::Origin og; og.set_tcpip_address("1.2.3.4 b:1", 7); mp::odr o; bool users = cat == 1 || (cat == 0 && k == 0); int auth = users ? mp_pick(0, 3, "authentication") : 2, who = users && k ? mp_pick(0, 1, "session") : 0, el = 0; std::string known = auth == 1 || auth == 2 ? user : "-";
    if (k != 0) { back = 1; Run r(ch, s[0], og, make(o, 0, auth, 0)); mp_assert(asked == 1 && r.z(Z_APDU_initResponse) && ref_is(r.z(Z_APDU_initResponse), "w"), "passed on and back"); } else who = 0;
    std::string u = k != 0 && who == 1 ? "-" : known; nout = 0; asked = 0; back = k == 10 ? 0 : cat == 1 && k ? mp_pick(0, 1, "response") : !full ? mp_pick(0, 1, "response") * 6 : mp_pick(0, k == 9 ? 2 : k == 8 || k == 5 || k == 7 ? 1 : 7, "response"); if (k == 9 && back == 6) back = 2; if (k == 0 && back > 3) mp_assume(back > 5); if (full && (k < 3 || k == 6)) el = mp_pick(0, k == 2 ? 3 : 1, "details");
    Z_GDU *g = 0; Z_APDU *a = 0; if (k < 9) { a = make(o, k, auth, el); g = (Z_GDU *)odr_malloc(o, sizeof *g); g->which = Z_GDU_Z3950; g->u.z3950 = a; } else if (k == 9) g = http_get(o, "GET", "/p"); if (k == 10) s[who].close();
    mp::Session ss(s[who]); Run r(ch, ss, og, g); mp_assert(asked == 1 && locked == 0, "passed on"); Z_GDU *h = r.g(); mp_assert(!h == (back == 0 || k == 10), "and back"); bool gone = r.p.session().is_closed(), was = k == 10; if (h && h->which == Z_GDU_Z3950 && back != 6) mp_assert(ref_is(h->u.z3950, "w"), "as it is"); mp_assert(gone == (k == 10 || (back == 6 && k < 9)), "closed as the rest says"); mp_assert(flushed, "written at once");
    std::string id = num(s[who].id()), pre = std::string(SHA) + " " + id + " "; bool acc = cat == 0 || cat == 10, all = cat == 10;
    if (g && acc) line(san(msg_ + " " + pre + "0.000000 " + req_text(g, el))); if (g && (cat == 1 || all)) line(san(msg_ + " " + u + " " + pre + "0.000000 " + req_text(g, el))); if (cat == 6 || cat == 7 || all) line(msg_ + " request id=" + id + " close=" + (was ? "yes" : "no")); if ((cat == 9 || all) && k == 0) line(msg_ + " init options: s"); if (g && (cat == 3 || cat == 4 || all)) want += "{" + std::string(1, char('0' + (k == 9 ? 92 : a->which) / 10)) + char('0' + (k == 9 ? 90 + g->which : a->which) % 10) + "}";
    std::string l = one_line(g, h, el); if ((cat == 2 || all) && l.size()) line(msg_ + " " + pre + "0.250000 " + l); if (h && acc) line(san(msg_ + " " + pre + "0.250000 " + res_text(h, k))); if (h && (cat == 1 || all)) line(san(msg_ + " " + u + " " + pre + "0.250000 " + res_text(h, k))); if (cat == 6 || cat == 8 || all) line(msg_ + " response id=" + id + " close=" + (gone ? "yes " : "no ") + "duration=0.250000");
    if ((cat == 9 || all) && h && h->which == Z_GDU_Z3950 && h->u.z3950->which == Z_APDU_initResponse && back == 1) line(msg_ + " init options: p"); else if ((cat == 9 || all) && h && h->which == Z_GDU_Z3950 && h->u.z3950->which == Z_APDU_initResponse) { Z_Options *q = h->u.z3950->u.initResponse->options; line(msg_ + " init options:" + (ODR_MASK_GET(q, Z_Options_search) ? " s" : "") + (ODR_MASK_GET(q, Z_Options_present) ? " p" : "")); }
    if (h && (cat == 3 || cat == 5 || all)) { int w = h->which == Z_GDU_Z3950 ? h->u.z3950->which : 90 + h->which; want += "{"; want += char('0' + w / 10); want += char('0' + w % 10); want += "}"; }
    mp_assert(same_out(), "what is logged"); if (!g) mp_cover("end"); else if (!h) mp_cover("no response"); if (cat == 2 && back > 1) mp_cover("failure in one line"); if (u != "-") mp_cover("user"); if (file) mp_cover("file"); delete f; mp_cover("done");
}
#endif
#if PROP == 2
#include <pthread.h>
// two clients at a time, logged to one file by two filters, or by one
static void *go(void *p) { ((mp::Package *)p)->move(); return 0; }
static Z_APDU *init_of(mp::odr &o, const char *u) { Z_APDU *a = mk_req(o, Z_APDU_initRequest); a->u.initRequest->implementationId = a->u.initRequest->implementationName = a->u.initRequest->implementationVersion = 0; Z_IdAuthentication *x = a->u.initRequest->idAuthentication = (Z_IdAuthentication *)odr_malloc(o, sizeof *x); x->which = Z_IdAuthentication_open; x->u.open = odr_strdup(o, u); return a; }
void mp_main(void) {
    file = mp_pick(0, 1, "where"); dt = "then"; int one = mp_pick(0, 1, "one filter"); mp::filter::Log *f = new mp::filter::Log, *g = one ? f : new mp::filter::Log; xmlNode *c = xb::el("filter"), *e; if (file) { xb::add(c, e = xb::el("filename")); xb::add(e, xb::text("F")); } xb::add(c, e = xb::el("category")); xb::attr(e, "access", "false"); xb::attr(e, "user-access", "true"); xb::attr(e, "request-session", "true"); xb::attr(e, "request-apdu", "true"); f->configure(c, false, 0); if (!one) g->configure(c, false, 0); mp_assert(fopens == (file ? 1 : 0), "the file is opened once");
    Chain ch(*f), ch2(*g); mp::Session s[2]; mp::Origin og; og.set_tcpip_address("1.2.3.4 b:1", 7); mp::odr o; mp::Package p(s[0], og), q(s[1], og); p.request() = init_of(o, "a"); q.request() = init_of(o, "b"); p.router(ch.r); q.router(ch2.r); back = 0;
    mp_preempt(0, PB); pthread_t t; pthread_create(&t, 0, go, &q); p.move(); pthread_join(t, 0); mp_preempt(0, 0);
    std::string w[2]; for (int i = 0; i < 2; i++) { want = ""; std::string id = num(s[i].id()), u = i ? "b" : "a"; line("- " + u + " " + SHA + " " + id + " 0.000000 Z3950 initRequest " + u + " - - - -"); line("- request id=" + id + " close=no"); w[i] = want + "{01}"; }
    std::string all(out, nout); mp_assert(asked == 2 && (all == w[0] + w[1] || all == w[1] + w[0]), "entries are not mixed up"); mp_cover("done");
}
#endif
