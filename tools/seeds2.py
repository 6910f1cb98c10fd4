"""planted bugs in the filters; run: python3 tools/seeds2.py, then tools/mkseed.py IDS"""
import sys; sys.path.insert(0,'/verif/tools')
from mkseed import make
S = "/verif/shim"
COM = r'''#include <metaproxy/filter.hpp>
#include <metaproxy/package.hpp>
#include <metaproxy/router_chain.hpp>
#include <metaproxy/util.hpp>
#include <metaproxy/xmlutil.hpp>
#include <yaz/proto.h>
#include <yaz/zgdu.h>
#include <yaz/log.h>
#include <yaz/oid_db.h>
#include <libxml/parser.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <vector>
namespace mp = metaproxy_1;
static void down(mp::Package &p);
struct Down : mp::filter::Base { void process(mp::Package &p) const { down(p); } void configure(const xmlNode *, bool, const char *) {} };
static void conf(mp::filter::Base &f, const char *x) { xmlDoc *d = xmlParseMemory(x, strlen(x)); f.configure(xmlDocGetRootElement(d), false, "."); xmlFreeDoc(d); }
struct Go { mp::RouterChain r; Down d; Go(mp::filter::Base &f) { r.append(f); r.append(d); yaz_log_init_level(0); } };
static Z_GDU *req(mp::Package &p, Go &g, Z_APDU *a) { p.request() = a; p.router(g.r).move(); return p.response().get(); }
static Z_APDU *apdu(mp::Package &p, int which) { Z_GDU *g = p.response().get(); return g && g->which == Z_GDU_Z3950 && g->u.z3950->which == which ? g->u.z3950 : 0; }
static Z_AttributesPlusTerm *apt(ODR o) { Z_AttributesPlusTerm *t = (Z_AttributesPlusTerm *)odr_malloc(o, sizeof *t); t->attributes = (Z_AttributeList *)odr_malloc(o, sizeof *t->attributes); t->attributes->num_attributes = 0; t->attributes->attributes = (Z_AttributeElement **)odr_malloc(o, 8); t->term = (Z_Term *)odr_malloc(o, sizeof *t->term); t->term->which = Z_Term_general; t->term->u.general = odr_create_Odr_oct(o, "t", 1); return t; }
static Z_APDU *search(ODR o, const char *db) { Z_APDU *a = zget_APDU(o, Z_APDU_searchRequest); Z_SearchRequest *s = a->u.searchRequest; s->num_databaseNames = 1; s->databaseNames = (char **)odr_malloc(o, sizeof(char *)); s->databaseNames[0] = odr_strdup(o, db);
  Z_Query *q = (Z_Query *)odr_malloc(o, sizeof *q); q->which = Z_Query_type_1; q->u.type_1 = (Z_RPNQuery *)odr_malloc(o, sizeof(Z_RPNQuery)); q->u.type_1->attributeSetId = odr_oiddup(o, yaz_oid_attset_bib_1); Z_RPNStructure *r = (Z_RPNStructure *)odr_malloc(o, sizeof *r); r->which = Z_RPNStructure_simple; r->u.simple = (Z_Operand *)odr_malloc(o, sizeof *r->u.simple); r->u.simple->which = Z_Operand_APT; r->u.simple->u.attributesPlusTerm = apt(o); q->u.type_1->RPNStructure = r; s->query = q; return a; }
static Z_NamePlusRecord *xmlrec(ODR o, const char *x, const Odr_oid *syn) { Z_NamePlusRecord *n = (Z_NamePlusRecord *)odr_malloc(o, sizeof *n); n->databaseName = 0; n->which = Z_NamePlusRecord_databaseRecord; n->u.databaseRecord = z_ext_record_oid(o, syn, x, strlen(x)); return n; }
static Z_APDU *presentRes(ODR o, std::vector<Z_NamePlusRecord *> v, int next) { Z_APDU *a = zget_APDU(o, Z_APDU_presentResponse); Z_PresentResponse *r = a->u.presentResponse; *r->numberOfRecordsReturned = v.size(); *r->nextResultSetPosition = next; *r->presentStatus = Z_PresentStatus_success; r->records = (Z_Records *)odr_malloc(o, sizeof(Z_Records)); r->records->which = Z_Records_DBOSD; Z_NamePlusRecordList *l = r->records->u.databaseOrSurDiagnostics = (Z_NamePlusRecordList *)odr_malloc(o, sizeof *l); l->num_records = v.size(); l->records = (Z_NamePlusRecord **)odr_malloc(o, sizeof(void *) * (v.size() + 1)); for (size_t i = 0; i < v.size(); i++) l->records[i] = v[i]; return a; }
static Z_APDU *presentReq(ODR o, int start, int n) { Z_APDU *a = zget_APDU(o, Z_APDU_presentRequest); *a->u.presentRequest->resultSetStartPoint = start; *a->u.presentRequest->numberOfRecordsRequested = n; return a; }
static Z_GDU *http(ODR o, const char *method, const char *path) { Z_GDU *g = (Z_GDU *)odr_malloc(o, sizeof *g); Z_HTTP_Request *r = (Z_HTTP_Request *)odr_malloc(o, sizeof *r); memset(r, 0, sizeof *r); r->method = odr_strdup(o, method); r->path = odr_strdup(o, path); r->version = odr_strdup(o, "1.1"); g->which = Z_GDU_HTTP_Request; g->u.HTTP_Request = r; return g; }
'''
BASE = ["util", "session", "package", "origin", "filter", "router_chain", "xmlutil"]
def f(sid, prop, flt, edits, demo, needs, breaks, more=(), inc=None, flags=""):
    make(sid, prop, edits, COM + '#include "%s.hpp"\n' % (inc or flt) + demo, BASE + [flt] + list(more), needs, breaks, shim=S, files=["shim/native_yazpp.cpp"], extra_flags=flags)

f("lb-tie", "C21", "filter_load_balance",
  [("src/filter_load_balance.cpp", "                            if (cost_i > cost)", "                            if (cost_i >= cost)")],
  r'''static std::string got;
static void down(mp::Package &p) { Z_GDU *g = p.request().get(); mp::odr o; std::list<std::string> v; mp::util::remove_vhost_otherinfo(&g->u.z3950->u.initRequest->otherInfo, v); got = v.empty() ? "" : v.front(); p.response() = zget_APDU(o, Z_APDU_initResponse); }
int main() { mp::filter::LoadBalance f; Go g(f); mp::Session s; mp::odr o; mp::Origin r; Z_APDU *a = zget_APDU(o, Z_APDU_initRequest); std::list<std::string> v; v.push_back("A"); v.push_back("B"); mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, o, v); mp::Package p(s, r); req(p, g, a); return got == "A" ? 0 : 1; }''',
  "two targets with the same load", "the last one named is taken instead of the first")

f("limit-pdu", "C14", "filter_limit",
  [("src/filter_limit.cpp", "                reduce = (reduce > nreduce) ? reduce : nreduce;", "                reduce = nreduce;")],
  r'''static unsigned slept; extern "C" unsigned sleep(unsigned n) { slept = n; return 0; }
static void down(mp::Package &p) { mp::odr o; p.response() = zget_APDU(o, Z_APDU_searchResponse); }
int main() { mp::filter::Limit f; conf(f, "<f><limit search='1' pdu='30'/></f>"); Go g(f); mp::Session s; mp::Origin r;
 for (int i = 1; i <= 32; i++) { mp::odr o; mp::Package p(s, r); slept = 0; req(p, g, search(o, "x")); if (slept != (unsigned)i) return 1; } return 0; }''',
  "a session that is above the packet limit and above the search limit at the same time", "the delay for the searches is forgotten")

f("chunk-close", "C16", "filter_present_chunk",
  [("src/filter_present_chunk.cpp", "            package.session().close();\n            return;", "            break;")],
  r'''static int n; static void down(mp::Package &p) { mp::odr o; if (++n == 2) { p.session().close(); return; } std::vector<Z_NamePlusRecord *> v; for (int i = 0; i < 2; i++) v.push_back(xmlrec(o, "<a/>", yaz_oid_recsyn_xml)); p.response() = presentRes(o, v, 3); }
int main() { mp::filter::PresentChunk f; conf(f, "<f><chunk>2</chunk></f>"); Go g(f); mp::Session s; mp::Origin r; mp::odr o; mp::Package p(s, r); req(p, g, presentReq(o, 1, 5)); return p.session().is_closed() ? 0 : 1; }''',
  "a backend that closes the session at the second chunk", "the client is given the first chunk as a success and its session stays open")

f("sort-syntax", "C28", "filter_sort",
  [("src/filter_sort.cpp", "    if ((!this->syntax && !syntax)\n        ||", "    if ((!this->syntax || !syntax)\n        ||")],
  r'''static int presents; static void down(mp::Package &p) { Z_GDU *g = p.request().get(); mp::odr o; if (!g) return; if (g->u.z3950->which == Z_APDU_initRequest) { p.response() = zget_APDU(o, Z_APDU_initResponse); return; } if (g->u.z3950->which == Z_APDU_searchRequest) { Z_APDU *a = zget_APDU(o, Z_APDU_searchResponse); *a->u.searchResponse->resultCount = 2; *a->u.searchResponse->searchStatus = 1; p.response() = a; return; }
 Z_PresentRequest *q = g->u.z3950->u.presentRequest; presents++; std::vector<Z_NamePlusRecord *> v; for (int i = 0; i < *q->numberOfRecordsRequested; i++) v.push_back(xmlrec(o, "<a>b</a>", q->preferredRecordSyntax ? q->preferredRecordSyntax : yaz_oid_recsyn_sutrs)); p.response() = presentRes(o, v, 0); }
int main() { mp::filter::Sort f; conf(f, "<f><sort prefetch='2' xpath='/a'/></f>"); Go g(f); mp::Session s; mp::Origin r; { mp::odr o; mp::Package p(s, r); req(p, g, zget_APDU(o, Z_APDU_initRequest)); }
 { mp::odr o; mp::Package p(s, r); req(p, g, search(o, "x")); }
 { mp::odr o; mp::Package p(s, r); Z_APDU *a = presentReq(o, 1, 2); req(p, g, a); }
 mp::odr o; mp::Package p(s, r); Z_APDU *a = presentReq(o, 1, 2); a->u.presentRequest->preferredRecordSyntax = odr_oiddup(o, yaz_oid_recsyn_xml); req(p, g, a); Z_APDU *x = apdu(p, Z_APDU_presentResponse); if (!x) return 2; Z_Records *z = x->u.presentResponse->records; if (!z || z->which != Z_Records_DBOSD || z->u.databaseOrSurDiagnostics->num_records != 2) return 3;
 return oid_oidcmp(z->u.databaseOrSurDiagnostics->records[0]->u.databaseRecord->direct_reference, yaz_oid_recsyn_xml) ? 1 : 0; }''',
  "a set whose records were first fetched without a record syntax and then with one", "the client receives sorted records in another syntax than it asked for")

f("hc-forwarded", "C34", "filter_http_client",
  [("src/filter_http_client.cpp", "                pcomb.append(peer_name1);\n                pcomb.append(\", \");\n            }\n            pcomb.append(peer_name2);", "                pcomb.append(peer_name1);\n            }\n            if (pcomb.find(peer_name2) == std::string::npos)\n            {\n                if (pcomb.length())\n                    pcomb.append(\", \");\n                pcomb.append(peer_name2);\n            }")],
  r'''#include <yaz/url.h>
static std::string seen; extern "C" Z_HTTP_Response *yaz_url_exec(yaz_url_t, const char *, const char *, Z_HTTP_Header *h, const char *, size_t) { const char *v = z_HTTP_header_lookup(h, "X-Forwarded-For"); seen = v ? v : ""; return 0; }
extern "C" const char *yaz_url_get_error(yaz_url_t) { return "x"; }
static void down(mp::Package &) {}
static std::string go(const char *had, const char *addr) { mp::filter::HTTPClient f; conf(f, "<f><x-forwarded-for>true</x-forwarded-for><default-host>http://h</default-host></f>"); Go g(f); mp::Session s; mp::Origin r; r.set_tcpip_address(std::string(addr) + " 1.1.1.1", 1); mp::odr o; mp::Package p(s, r); Z_GDU *q = http(o, "GET", "/x"); if (had) z_HTTP_header_add(o, &q->u.HTTP_Request->headers, "X-Forwarded-For", had); p.request() = q; p.router(g.r).move(); return seen; }
int main() { std::string a = go(0, "10.0.0.1"), e = go("10.0.0.11", "10.0.0.1"); if (e != "10.0.0.11, " + a) { puts(e.c_str()); return 1; } return a.empty(); }''',
  "a forwarded-for header that contains the client's address as part of another", "the address of the client is not appended")

f("httpfile-dotdot", "C19", "filter_http_file",
  [("src/filter_http_file.cpp", "    path = mp::util::uri_decode(path);\n\n    // we don't allow ..\n    p = path.find(\"..\");\n    if (p != std::string::npos)\n        sane = false;\n", "    // we don't allow ..\n    p = path.find(\"..\");\n    if (p != std::string::npos)\n        sane = false;\n\n    path = mp::util::uri_decode(path);\n")],
  r'''#include <sys/stat.h>
static bool passed; static void down(mp::Package &) { passed = true; }
int main() { mkdir("root", 0755); FILE *x = fopen("secret", "w"); fputs("s", x); fclose(x); mp::filter::HttpFile f; conf(f, "<f xmlns='http://indexdata.com/metaproxy'><area><documentroot>root</documentroot><prefix>/p</prefix></area></f>"); Go g(f); mp::Session s; mp::Origin r; mp::odr o; mp::Package p(s, r); p.request() = http(o, "GET", "/p/%2e%2e/secret"); p.router(g.r).move(); return passed ? 0 : 1; }''',
  "a path whose dots are percent-encoded", "a file outside of the document root is served", more=["plainfile"])

f("auth-stale", "C20", "filter_auth_simple",
  [("src/filter_auth_simple.cpp", "        if (pdbs.password == password) {", "        if (!pdbs.password.compare(0, std::string::npos, password, 0, pdbs.password.length())) {")],
  r'''static bool passed; static void down(mp::Package &) { passed = true; }
static bool in(Go &g, const char *up) { passed = false; mp::Session s; mp::Origin r; mp::odr o; mp::Package p(s, r); Z_APDU *a = zget_APDU(o, Z_APDU_initRequest); Z_IdAuthentication *i = (Z_IdAuthentication *)odr_malloc(o, sizeof *i); i->which = Z_IdAuthentication_open; i->u.open = odr_strdup(o, up); a->u.initRequest->idAuthentication = i; req(p, g, a); return passed; }
int main() { FILE *x = fopen("users", "w"); fputs("u:secret:*\n", x); fclose(x); mp::filter::AuthSimple f; conf(f, "<f><userRegister>./users</userRegister></f>"); Go g(f); if (!in(g, "u/secret")) return 1; if (in(g, "u/secre")) return 2; return in(g, "u/secretx") ? 3 : 0; }''',
  "a password that starts with the right one", "the client is let in with a longer password")

make("pool-stop-one", "C17", [("src/thread_pool_observer.cpp", "        m_p->m_cond_input_data.notify_all();", "        m_p->m_cond_input_data.notify_one();")],
  r'''#include "thread_pool_observer.hpp"
#include <unistd.h>
#include <stdlib.h>
struct Obs : yazpp_1::ISocketObservable { void addObserver(int, yazpp_1::ISocketObserver *) {} void deleteObserver(yazpp_1::ISocketObserver *) {} void deleteObservers() {} void maskObserver(yazpp_1::ISocketObserver *, int) {} void timeoutObserver(yazpp_1::ISocketObserver *, int) {} int processEvent() { return 0; } };
int main() { alarm(20); Obs o; metaproxy_1::ThreadPoolSocketObserver *t = new metaproxy_1::ThreadPoolSocketObserver(&o, 4, 4, 0); usleep(300000); delete t; return 0; }''',
  ["thread_pool_observer", "pipe"], "a pool with more than one idle worker that is stopped", "one worker ends, the others wait for ever and so does the one who stops the pool", shim=S, files=["shim/native_yazpp.cpp"])

f("package-log-shared", "C18", "filter_bounce",
  [("src/package.cpp", "        res = p_logger->str;\n        // p_logger->str.clear();\n        p_logger.reset();", "        res = p_logger->str;\n        p_logger->str.clear();")],
  r'''static void down(mp::Package &) {}
int main() { mp::filter::Bounce f; Go g(f); mp::Session s; mp::Origin r; mp::Package p(s, r); p.log_enable(); p.log("m", YLOG_LOG, "a"); std::string x; p.log_reset(x); if (x.find("a") == std::string::npos) return 1; p.log("m", YLOG_LOG, "b"); x = "none"; p.log_reset(x); return x == "none" ? 0 : 2; }''',
  "messages logged after the log was handed out", "messages are collected although nobody asks for them any more", inc="filter_bounce", more=["gduutil"])

