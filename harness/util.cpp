// Helpers of metaproxy_1::util. PROP 11: piggyback; 12: responses; 13: address/database/URL handling
#include "xmlb.h"
#include <metaproxy/util.hpp>
#include <metaproxy/package.hpp>
#include <yaz/proto.h>
#include <yaz/oid_db.h>
#include <yaz/otherinfo.h>
#include <list>
#include <vector>
namespace mp = metaproxy_1;
#ifndef NB
#define NB 3
#endif
static bool seq(const char *a, const char *b) { if (!a || !b) return a == b; size_t n = strlen(a); return n == strlen(b) && !memcmp(a, b, n); }
#if PROP == 11
static const char *esn_or_null(const char *nm) { return mp_pick(0, 1, nm) ? "F" : 0; }
static void plain() {
    Odr_int small = mp_i64("small"), large = mp_i64("large"), medium = mp_i64("medium"), size = mp_i64("size"), num = mp_i64("num");
    mp_assume(size >= 0); mp_assume(medium >= 0);
    const char *se = mp_pick(0, 1, "small esn") ? "S" : 0, *me = mp_pick(0, 1, "medium esn") ? "M" : 0, *got = 0;
    Odr_int want; const char *wesn = 0;
    if (size < small) { want = size; wesn = se; mp_cover("small set"); }
    else if (size > large) { want = 0; mp_cover("large set"); }
    else { want = medium < size ? medium : size; wesn = me; mp_cover("medium set"); }
    if (mp_pick(0, 1, "with names")) { mp::util::piggyback(small, large, medium, se, me, size, num, &got); mp_assert(got == wesn, "element set name of the set's class"); }
    else mp::util::piggyback(small, large, medium, se, me, size, num, 0);
    mp_assert(num == want, "number of records to return");
    mp_assert(num >= 0 && num <= size, "never more records than the set holds");
}
static void narrow() {
    int small = mp_i32("small"), large = mp_i32("large"), medium = mp_i32("medium"), size = mp_i32("size"), num = mp_i32("num");
    mp_assume(size >= 0); mp_assume(medium >= 0);
    mp::util::piggyback(small, large, medium, size, num);
    mp_assert(num == (size < small ? size : size > large ? 0 : medium < size ? medium : size), "number of records to return");
}
static void request() {
    mp::odr o; Z_APDU *a = zget_APDU(o, Z_APDU_searchRequest); Z_SearchRequest *r = a->u.searchRequest;
    Odr_int small = mp_i64("small"), large = mp_i64("large"), medium = mp_i64("medium"), size = mp_i64("size"); mp_assume(size >= 0); mp_assume(medium >= 0);
    *r->smallSetUpperBound = small; *r->largeSetLowerBound = large; *r->mediumSetPresentNumber = medium;
    Z_ElementSetNames s, m; const char *sn = 0, *mn = 0;
    if (mp_pick(0, 1, "small esn")) { r->smallSetElementSetNames = &s; s.which = Z_ElementSetNames_generic; s.u.generic = (char *)(sn = "small"); }
    switch (mp_pick(0, 2, "medium esn")) { case 1: r->mediumSetElementSetNames = &m; m.which = Z_ElementSetNames_generic; m.u.generic = (char *)(mn = "mediu"); break; case 2: r->mediumSetElementSetNames = &m; m.which = Z_ElementSetNames_databaseSpecific; m.u.databaseSpecific = 0; break; }
    Odr_int num = -1; const char *esn = 0; mp::util::piggyback_sr(r, size, num, &esn);
    bool isS = size < small, isL = !isS && size > large; const char *w = isS ? sn : isL ? 0 : mn;
    mp_assert(num == (isS ? size : isL ? 0 : medium < size ? medium : size), "number of records to return");
    mp_assert(esn == w, "element set name of the set's class");
    Z_RecordComposition *c = mp::util::piggyback_to_RecordComposition(o, size, r);
    mp_assert(!c == !w, "composition present exactly when an element set applies");
    if (c) { mp_assert(c->which == Z_RecordComp_simple && c->u.simple->which == Z_ElementSetNames_generic && seq(c->u.simple->u.generic, w), "composition carries the element set");
        mp_assert(seq(mp::util::record_composition_to_esn(c), w), "element set read back"); mp_cover("composition"); }
}
static void esn() {
    mp_assert(!mp::util::record_composition_to_esn(0), "no composition, no element set");
    Z_RecordComposition c; Z_ElementSetNames e; Z_CompSpec cs; Z_Specification sp; Z_ElementSpec es; memset(&cs, 0, sizeof cs); memset(&sp, 0, sizeof sp); const char *w = 0;
    switch (mp_pick(0, 5, "kind")) {
    case 0: c.which = Z_RecordComp_simple; c.u.simple = &e; e.which = Z_ElementSetNames_generic; e.u.generic = (char *)(w = "F"); break;
    case 1: c.which = Z_RecordComp_simple; c.u.simple = &e; e.which = Z_ElementSetNames_databaseSpecific; e.u.databaseSpecific = 0; break;
    case 2: c.which = Z_RecordComp_complex; c.u.complex = &cs; break;
    case 3: c.which = Z_RecordComp_complex; c.u.complex = &cs; cs.generic = &sp; break;
    case 4: c.which = Z_RecordComp_complex; c.u.complex = &cs; cs.generic = &sp; sp.elementSpec = &es; es.which = Z_ElementSpec_elementSetName; es.u.elementSetName = (char *)(w = "B"); break;
    case 5: c.which = Z_RecordComp_complex; c.u.complex = &cs; cs.generic = &sp; sp.elementSpec = &es; es.which = Z_ElementSpec_externalSpec; es.u.externalSpec = 0; break;
    }
    mp_assert(seq(mp::util::record_composition_to_esn(&c), w), "element set of a composition");
}
void mp_main(void) { switch (mp_pick(0, 3, "part")) { case 0: plain(); break; case 1: narrow(); break; case 2: request(); break; case 3: esn(); break; } mp_cover("done"); }
#elif PROP == 12
static const int reqs[] = { Z_APDU_initRequest, Z_APDU_searchRequest, Z_APDU_presentRequest, Z_APDU_scanRequest, Z_APDU_sortRequest, Z_APDU_deleteResultSetRequest, Z_APDU_close, Z_APDU_extendedServicesRequest, Z_APDU_resourceControlRequest, Z_APDU_accessControlRequest, Z_APDU_segmentRequest, Z_APDU_resourceReportRequest, Z_APDU_triggerResourceControlRequest };
static Odr_oct *refid(const Z_APDU *a) {   // independent of util's own table: the reference id is every APDU's first member (sort/delete/...: see asn.1)
    return *(Odr_oct **)a->u.initRequest;
}
static void z3950() {
    mp::odr in, o; Z_APDU *q = 0; Odr_oct *id = 0;
    if (mp_pick(0, 1, "answering")) {
        q = zget_APDU(in, reqs[mp_pick(0, (int)(sizeof reqs / sizeof *reqs) - 1, "request")]);
        if (mp_pick(0, 1, "has id")) { int n = mp_pick(0, NB, "len"); char b[NB + 1]; mp_sym(b, n, "id"); id = odr_create_Odr_oct(in, b, n); *(Odr_oct **)q->u.initRequest = id; mp_cover("reference id"); }
    }
    int err = mp_pick(0, 1, "error") ? mp_range(1, 1200, "code") : 0; static const char *adds[] = { 0, "", "x y" }; const char *add = adds[mp_pick(0, 2, "addinfo")];
    Z_APDU *r = 0; Z_DefaultDiagFormat *d = 0;
    switch (mp_pick(0, 5, "response")) {
    case 0: r = o.create_initResponse(q, err, add); mp_assert(r->which == Z_APDU_initResponse, "response of the kind asked for"); mp_assert(!*r->u.initResponse->result == !!err, "init is refused exactly on error");
        if (err) { int e = 0; std::string s = "none"; mp::util::get_init_diagnostics(r->u.initResponse, e, s); mp_assert(e == err && seq(s.c_str(), add ? add : ""), "init diagnostic can be read back"); mp_cover("init diagnostic"); } break;
    case 1: r = o.create_searchResponse(q, err, add); mp_assert(r->which == Z_APDU_searchResponse, "response of the kind asked for"); mp_assert(!*r->u.searchResponse->searchStatus == !!err, "search fails exactly on error"); mp_assert(!!r->u.searchResponse->records == !!err, "diagnostic exactly on error");
        if (err) { mp_assert(r->u.searchResponse->records->which == Z_Records_NSD, "non-surrogate diagnostic"); d = r->u.searchResponse->records->u.nonSurrogateDiagnostic; } mp_assert(*r->u.searchResponse->resultCount == 0, "no hits"); break;
    case 2: r = o.create_presentResponse(q, err, add); mp_assert(r->which == Z_APDU_presentResponse, "response of the kind asked for"); mp_assert(!!r->u.presentResponse->records == !!err, "diagnostic exactly on error"); mp_assert((*r->u.presentResponse->presentStatus == Z_PresentStatus_failure) == !!err, "present fails exactly on error");
        if (err) { mp_assert(r->u.presentResponse->records->which == Z_Records_NSD, "non-surrogate diagnostic"); d = r->u.presentResponse->records->u.nonSurrogateDiagnostic; } break;
    case 3: { r = o.create_scanResponse(q, err, add); mp_assert(r->which == Z_APDU_scanResponse, "response of the kind asked for"); mp_assert((*r->u.scanResponse->scanStatus == Z_Scan_failure) == !!err, "scan fails exactly on error"); Z_ListEntries *l = r->u.scanResponse->entries; mp_assert(l && l->num_entries == 0, "no entries"); mp_assert(l->num_nonsurrogateDiagnostics == !!err, "diagnostic exactly on error");
        if (err) { mp_assert(l->nonsurrogateDiagnostics[0]->which == Z_DiagRec_defaultFormat, "default format"); d = l->nonsurrogateDiagnostics[0]->u.defaultFormat; } break; }
    case 4: r = o.create_close(q, err, add); mp_assert(r->which == Z_APDU_close && *r->u.close->closeReason == err, "close with the given reason"); mp_assert(seq(r->u.close->diagnosticInformation, add), "close with the given text"); break;
    case 5: { int w = reqs[mp_pick(0, 6, "kind")]; r = o.create_APDU(w, q); mp_assert(r->which == w, "APDU of the kind asked for"); break; }
    }
    if (d) { int e = 0; std::string s; mp::util::get_default_diag(d, e, s); mp_assert(e == err, "diagnostic carries the code"); mp_assert(seq(s.c_str(), add ? add : ""), "diagnostic carries the text"); mp_cover("diagnostic"); }
    Odr_oct *got = refid(r); mp_assert(!got == !id, "reference id exactly when the request has one");
    if (id) { mp_assert(got->len == id->len && !memcmp(got->buf, id->buf, id->len), "reference id of the request"); mp_assert(got != id && (!id->len || got->buf != id->buf), "reference id is a copy"); }
}
static void http() {
    mp::odr o; Z_HTTP_Request q; memset(&q, 0, sizeof q); q.method = (char *)"GET"; q.path = (char *)"/";
    static const char *vers[] = { "1.0", "1.1", "1.2", "" }; static const char *conn[] = { 0, "Keep-Alive", "close", "", "keep-alive", "Close" }; static const char *hn[] = { "Connection", "connection" };
    int v = mp_pick(0, 3, "version"), c = mp_pick(0, 5, "connection"); q.version = (char *)vers[v];
    if (mp_pick(0, 1, "other header")) z_HTTP_header_add(o, &q.headers, "X-A", "close");
    if (c) z_HTTP_header_add(o, &q.headers, hn[mp_pick(0, 1, "name")], conn[c]);
    int code = mp_range(100, 599, "code"); mp::Session s; bool closed = mp_pick(0, 1, "closed already"); if (closed) s.close();
    Z_GDU *g = mp_pick(0, 1, "details") ? o.create_HTTP_Response_details(s, &q, code, "d") : o.create_HTTP_Response(s, &q, code);
    mp_assert(g->which == Z_GDU_HTTP_Response && g->u.HTTP_Response->code == code, "HTTP response with the given code");
    Z_HTTP_Response *r = g->u.HTTP_Response; bool keep = v == 0 ? c == 1 : c != 2;
    mp_assert(seq(r->version, v == 0 ? "1.0" : "1.1"), "version answered");
    const char *k = z_HTTP_header_lookup(r->headers, "Connection"); mp_assert(keep ? seq(k, "Keep-Alive") : !k, "keep-alive announced exactly when kept");
    mp_assert(s.is_closed() == (closed || !keep), "session closed exactly when not kept alive"); mp_cover(keep ? "kept alive" : "closed");
}
static void content() {
    mp::Session s; mp::Origin og; mp::Package p(s, og); mp::odr o; Z_GDU q; Z_HTTP_Request r; memset(&r, 0, sizeof r); r.method = (char *)"GET"; r.path = (char *)"/"; r.version = (char *)"1.1"; q.which = Z_GDU_HTTP_Request; q.u.HTTP_Request = &r; p.request() = &q;
    int n = mp_pick(0, NB, "len"); char b[NB + 1]; mp_sym(b, n, "content"); std::string c(b, n); int code = mp_pick(0, 1, "ok") ? 200 : 404;
    mp::util::http_response(p, c, code); Z_GDU *g = p.response().get();
    mp_assert(g && g->which == Z_GDU_HTTP_Response && g->u.HTTP_Response->code == code, "HTTP response with the given code");
    mp_assert(g->u.HTTP_Response->content_len == n && (!n || !memcmp(g->u.HTTP_Response->content_buf, b, n)), "content is sent unchanged"); mp_cover("content");
}
static void header() {
    Z_HTTP_Header h[2]; static const char *nm[] = { "A", "B", "a" }, *vl[] = { "1", "2" }; int n = mp_pick(0, 2, "headers"); const char *want = "";  bool found = false;
    for (int i = 0; i < n; i++) { int k = mp_pick(0, 2, "name"), v = mp_pick(0, 1, "value"); h[i].name = (char *)nm[k]; h[i].value = (char *)vl[v]; h[i].next = i + 1 < n ? &h[i + 1] : 0; if (k == 0 && !found) { found = true; want = vl[v]; } }
    mp_assert(seq(mp::util::http_header_value(n ? h : 0, "A").c_str(), want), "first header of that name");
}
void mp_main(void) { switch (mp_pick(0, 3, "part")) { case 0: z3950(); break; case 1: http(); break; case 2: content(); break; case 3: header(); break; } mp_cover("done"); }
#else
static void cmp2() {
    int n = mp_pick(0, NB, "n"), m = mp_pick(0, NB, "m"); unsigned char a[NB + 1], b[NB + 1]; mp_sym(a, n, "a"); mp_sym(b, m, "b");
    int w = 0; for (int i = 0; i < n && i < m && !w; i++) if (a[i] != b[i]) w = a[i] < b[i] ? -1 : 1; if (!w) w = n < m ? -1 : n > m ? 1 : 0;
    mp_assert(mp::util::memcmp2(a, n, b, m) == w, "octet string order");
}
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static void dbs() {
    std::list<std::string> x, y; int n = mp_pick(0, 2, "n"), m = mp_pick(0, 2, "m"); bool eq = n == m; std::vector<std::string> a, b;
    for (int i = 0; i < n; i++) { a.push_back(sym_cstr(mp_pick(0, 2, "len"), "db")); x.push_back(a[i]); }
    for (int i = 0; i < m; i++) { b.push_back(sym_cstr(mp_pick(0, 2, "len"), "db")); y.push_back(b[i]); }
    for (int i = 0; i < n && eq; i++) { if (a[i].size() != b[i].size()) eq = false; else for (size_t k = 0; k < a[i].size(); k++) if (lower((unsigned char)a[i][k]) != lower((unsigned char)b[i][k])) eq = false; }
    mp_assert(mp::util::match(x, y) == eq, "database lists are compared element by element, ignoring case"); if (eq && n) mp_cover("match");
}
static void norm() {
    char *s = sym_cstr(mp_pick(0, NB, "len"), "name"); std::string r = mp::util::database_name_normalize(s); mp_assert(r.size() == strlen(s), "length kept"); for (size_t i = 0; i < r.size(); i++) mp_assert((unsigned char)r[i] == (unsigned char)lower((unsigned char)s[i]), "ASCII letters are lowered, all else is kept");
}
static bool glob(const char *g, const char *t) { if (!*g) return !*t; if (*g == '*') return glob(g + 1, t) || (*t && glob(g, t + 1)); return *t && (*g == '?' || *g == *t) && glob(g + 1, t + 1); }
static void ip() {
    static const char *vals[] = { "1.2", "::ffff:1.2", "::1", "", "::ffff:" }; const char *v = vals[mp_pick(0, 4, "value")]; bool mapped = !strncmp(v, "::ffff:", 7) && strlen(v) > 7;
    int n = mp_pick(0, NB + 1, "len"); char *p = sym_cstr(n, "pattern");
    for (int i = 0; i < n; i++) mp_assume((p[i] == ' ') | (p[i] == '1') | (p[i] == '2') | (p[i] == '.') | (p[i] == ':') | (p[i] == '*') | (p[i] == '?'));
    bool any = false, ok = false; char w[16]; int k = 0;
    for (int i = 0; i <= n; i++) { if (i < n && p[i] != ' ') { w[k++] = p[i]; continue; } w[k] = 0; if (k) { any = true; if (glob(w, v) || (mapped && !strchr(w, ':') && glob(w, v + 7))) ok = true; } k = 0; }
    mp_assert(mp::util::match_ip(p, v) == (!any || ok), "an address matches when a pattern word does, or there is none"); if (any && ok) mp_cover("address matches"); if (any && !ok) mp_cover("address refused");
}
static void zurl() {
    static const char *pre[] = { "", "h", "tcp:h:1", "ssl://h", "unix:/s" }; std::string u = pre[mp_pick(0, 4, "host")]; int n = mp_pick(0, NB, "len"); char *s = sym_cstr(n, "rest"); u += s;
    for (int i = 0; i < n; i++) mp_assume((s[i] == '/') | (s[i] == '+') | (s[i] == 'a') | (s[i] == ':'));
    std::string host = "?"; std::list<std::string> db; mp::util::split_zurl(u, host, db);
    // the database part starts after the first slash behind any "://"; unix sockets have none
    size_t at = std::string::npos; const char *c = u.c_str();
    if (*c && strncmp(c, "unix:", 5)) { size_t b = 0; for (size_t i = 0; i + 2 < u.size(); i++) if (c[i] == ':' && c[i + 1] == '/' && c[i + 2] == '/') { b = i + 3; break; } for (size_t i = b; i < u.size(); i++) if (c[i] == '/') { at = i; break; } }
    if (at == std::string::npos || at + 1 == u.size()) { mp_assert(seq(host.c_str(), c) && db.empty(), "no database part"); }
    else { mp_assert(host.size() == at && !memcmp(host.data(), c, at), "host is what precedes the database part"); std::string j; bool f = true; for (std::list<std::string>::iterator i = db.begin(); i != db.end(); ++i) { if (!f) j += "+"; f = false; j += *i; mp_assert(i->find('+') == std::string::npos, "database names are separated at plus"); } mp_assert(seq(j.c_str(), c + at + 1), "every database is found in order"); mp_cover("databases"); }
    mp::odr o; int num = -1; char **strs = 0; bool r = mp::util::set_databases_from_zurl(o, u, &num, &strs); mp_assert(r == !db.empty(), "databases set exactly when the URL names some");
    if (r) { mp_assert(num == (int)db.size(), "number of databases"); int k = 0; for (std::list<std::string>::iterator i = db.begin(); i != db.end(); ++i, ++k) mp_assert(seq(strs[k], i->c_str()), "database names"); }
}
static void vhost() {
    mp::odr o; Z_OtherInformation *oi = 0; static const char *hs[] = { "a", "b:210/Db", "" }; std::list<std::string> in, out; int n = mp_pick(0, 3, "n");
    int other = mp_pick(0, 2, "other info"); if (other == 1) yaz_oi_set_string_oid(&oi, o, yaz_oid_userinfo_client_ip, 1, "ip");
    for (int i = 0; i < n; i++) in.push_back(hs[mp_pick(0, 2, "host")]);
    if (mp_pick(0, 1, "one by one")) { int k = 1; for (std::list<std::string>::iterator i = in.begin(); i != in.end(); ++i) mp::util::set_vhost_otherinfo(&oi, o, *i, k++); } else mp::util::set_vhost_otherinfo(&oi, o, in);
    if (other == 2) yaz_oi_set_string_oid(&oi, o, yaz_oid_userinfo_client_ip, 1, "ip");
    mp::util::get_vhost_otherinfo(oi, out); mp_assert(out == in, "virtual hosts are read back in order"); out.clear();
    mp::util::get_vhost_otherinfo(oi, out); mp_assert(out == in, "reading does not remove"); out.clear();
    int r = mp::util::remove_vhost_otherinfo(&oi, out); mp_assert(out == in && r == n, "removing returns all of them in order"); out.clear();
    mp_assert(mp::util::remove_vhost_otherinfo(&oi, out) == 0 && out.empty(), "nothing is left");
    mp_assert(!!oi == !!other, "other information is kept"); if (other) mp_assert(oi->num_elements == 1 && seq(yaz_oi_get_string_oid(&oi, yaz_oid_userinfo_client_ip, 1, 0), "ip"), "other information is kept"); mp_cover("vhost");
}
static bool plain(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '.' || c == '_' || c == '~'; }
static void uri() {
    int n = mp_pick(0, NB, "len"); char *s = sym_cstr(n, "text"); std::string e = mp::util::uri_encode(s); size_t k = 0;
    for (int i = 0; i < n; i++) { unsigned char c = s[i]; if (plain(c)) { mp_assert(k < e.size() && (unsigned char)e[k] == c, "unreserved characters are kept"); k++; } else { mp_assert(k + 2 < e.size() && e[k] == '%' && (unsigned char)e[k + 1] == (unsigned char)"0123456789ABCDEF"[c >> 4] && (unsigned char)e[k + 2] == (unsigned char)"0123456789ABCDEF"[c & 15], "all else is percent encoded"); k += 3; } }
    mp_assert(k == e.size(), "nothing is added"); std::string d = mp::util::uri_decode(e); mp_assert(d.size() == (size_t)n && !memcmp(d.data(), s, n), "decoding undoes encoding"); mp_cover("uri");
}
static void undec() { int n = mp_pick(0, NB, "len"); char *s = sym_cstr(n, "text"); std::string d = mp::util::uri_decode(s); mp_assert(d.size() <= (size_t)n, "decoding never grows"); }
void mp_main(void) {
    switch (mp_pick(0, 8, "part")) { case 0: cmp2(); break; case 1: dbs(); break; case 2: norm(); break; case 3: ip(); break; case 4: zurl(); break; case 5: vhost(); break; case 6: uri(); break; case 7: undec(); break; case 8: break; }
    mp_cover("done");
}
#endif
