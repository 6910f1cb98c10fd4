// session_shared. PROP 1: what clients see; 2: expiry; 3: several clients at once; 4: who shares
#include "fx.h"
#include <map>
#include <set>
#include <yaz/diagbib1.h>
#include <yaz/oid_db.h>
#include <yaz/otherinfo.h>
#include "filter_session_shared.hpp"
#if PROP == 2 || PROP == 3
#include <pthread.h>
#endif
struct Back { long last; std::string key; bool inited, closed; std::map<std::string, std::string> sets; Back() : last(0), inited(false), closed(false) {} };
static std::map<unsigned long, Back> be; static bool named, any_neg; static int faults_left, inits, searches, last_fault, n_faults; static std::string asked_text;
static std::string canon(Z_RPNStructure *s) {
    if (s->which == Z_RPNStructure_complex) { std::string r = "("; r += canon(s->u.complex->s1); r += "&"; r += canon(s->u.complex->s2); return r + ")"; }
    if (s->u.simple->which == Z_Operand_resultSetId) return std::string("#") + s->u.simple->u.resultSetId;
    Odr_oct *t = s->u.simple->u.attributesPlusTerm->term->u.general; return std::string(t->buf, t->len);
}
static std::string dbs_of(int n, char **v) { std::string r; for (int i = 0; i < n; i++) { r += "/"; r += v[i]; } return r; }
static std::string key_of(Z_InitRequest *r) { std::string k = r->idAuthentication ? r->idAuthentication->which == Z_IdAuthentication_open ? std::string("o:") + r->idAuthentication->u.open : "p" : "-"; std::list<std::string> v; mp::util::get_vhost_otherinfo(r->otherInfo, v); for (std::list<std::string>::iterator i = v.begin(); i != v.end(); ++i) { k += "|"; k += *i; } return k; }
static Odr_int count_of(const std::string &t) { return 3 + t.size(); }
static std::string elems(Z_RecordComposition *c) { return c && c->which == Z_RecordComp_simple && c->u.simple->which == Z_ElementSetNames_generic ? c->u.simple->u.generic : ""; }
static Z_Records *records(mp::odr &o, const std::string &set, Odr_int start, int n, Odr_oid *syn, const std::string &el) {
    Z_Records *r = (Z_Records *)odr_malloc(o, sizeof *r); r->which = Z_Records_DBOSD; Z_NamePlusRecordList *l = (Z_NamePlusRecordList *)odr_malloc(o, sizeof *l); r->u.databaseOrSurDiagnostics = l; l->num_records = n; l->records = (Z_NamePlusRecord **)odr_malloc(o, sizeof(void *) * (n + 1));
    for (int i = 0; i < n; i++) { Z_NamePlusRecord *q = (Z_NamePlusRecord *)odr_malloc(o, sizeof *q); l->records[i] = q; q->databaseName = odr_strdup(o, "d"); q->which = Z_NamePlusRecord_databaseRecord; Z_External *x = (Z_External *)odr_malloc(o, sizeof *x); memset(x, 0, sizeof *x); q->u.databaseRecord = x; x->direct_reference = odr_oiddup(o, syn); x->which = Z_External_octet; std::string t = set + ":" + char('0' + start + i) + el; x->u.octet_aligned = odr_create_Odr_oct(o, t.c_str(), t.size()); }
    return r;
}
static std::string rec_text(Z_NamePlusRecord *q) { Odr_oct *x = q->u.databaseRecord->u.octet_aligned; return std::string(x->buf, x->len); }
static Z_Records *nsd(mp::odr &o, int code) { Z_Records *r = (Z_Records *)odr_malloc(o, sizeof *r); r->which = Z_Records_NSD; r->u.nonSurrogateDiagnostic = zget_DefaultDiagFormat(o, code, 0); return r; }
static int nsd_code(Z_Records *r) { return r && r->which == Z_Records_NSD ? (int)*r->u.nonSurrogateDiagnostic->condition : 0; }
static int fault(const char *what, int kinds) { if (!faults_left) return 0; int k = mp_pick(0, kinds, what); if (k) { faults_left--; n_faults++; last_fault = k; } return k; }
enum { F_GONE = 1, F_TEMP, F_OTHER, F_NEG };
static void pause_(); static void on_close(struct Back &);
static void down(mp::Package &p) {
    unsigned long id = p.session().id(); if (p.session().is_closed()) { if (be.count(id)) { on_close(be[id]); be[id].closed = true; } return; } Z_GDU *g = p.request().get(); mp_assert(g && g->which == Z_GDU_Z3950, "a Z39.50 request"); Z_APDU *a = g->u.z3950; mp::odr o; Back &b = be[id]; mp_assert(!b.closed, "nothing on a closed session"); b.last = (long)time(0);
    if (a->which == Z_APDU_initRequest) {
        mp_assert(!b.inited, "a single Init"); b.key = key_of(a->u.initRequest); inits++; int k = fault("init", 2); pause_(); if (k == 1) { be.erase(id); p.session().close(); return; }
        Z_APDU *r = o.create_initResponse(a, k ? 1014 : 0, k ? "no" : 0); if (!k) { ODR_MASK_SET(r->u.initResponse->options, Z_Options_search); ODR_MASK_SET(r->u.initResponse->options, Z_Options_present); if (named) ODR_MASK_SET(r->u.initResponse->options, Z_Options_namedResultSets); b.inited = true; } p.response() = r; if (k) be.erase(id); return;
    }
    mp_assert(b.inited, "Init first");
    if (a->which == Z_APDU_searchRequest) {
        Z_SearchRequest *q = a->u.searchRequest; std::string t = canon(q->query->u.type_1->RPNStructure) + dbs_of(q->num_databaseNames, q->databaseNames); mp_assert(named || seq(q->resultSetName, "default"), "sets are named only where they can be"); mp_assert(*q->replaceIndicator != 0, "sets are replaced"); searches++; asked_text = t;
        std::string nm = q->resultSetName; b.sets.erase(nm); int k = fault("search", 4); pause_(); if (k == F_GONE) { p.session().close(); be[id].closed = true; return; }
        Z_APDU *r = o.create_searchResponse(a, 0, 0); *r->u.searchResponse->resultCount = k == F_NEG ? -1 : count_of(t); if (k == F_TEMP || k == F_OTHER) { *r->u.searchResponse->resultCount = 0; r->u.searchResponse->records = nsd(o, k == F_TEMP ? 2 : 108); } else be[id].sets[nm] = t; if (k == F_NEG) any_neg = true; p.response() = r; return;
    }
    if (a->which == Z_APDU_presentRequest) {
        Z_PresentRequest *q = a->u.presentRequest; mp_assert(b.sets.count(q->resultSetId) == 1, "a set that is there"); std::string t = b.sets[q->resultSetId]; int k = fault("present", 1); pause_(); if (k) { p.session().close(); be[id].closed = true; return; }
        Z_APDU *r = o.create_presentResponse(a, 0, 0); r->u.presentResponse->records = records(o, t, *q->resultSetStartPoint, (int)*q->numberOfRecordsRequested, q->preferredRecordSyntax, elems(q->recordComposition)); *r->u.presentResponse->numberOfRecordsReturned = *q->numberOfRecordsRequested; *r->u.presentResponse->nextResultSetPosition = *q->resultSetStartPoint + *q->numberOfRecordsRequested; p.response() = r; return;
    }
    mp_assert(a->which == Z_APDU_scanRequest, "a request that can be shared"); int k = fault("scan", 1); pause_(); if (k) { p.session().close(); be[id].closed = true; return; }
    Z_APDU *r = o.create_scanResponse(a, 0, 0); *r->u.scanResponse->numberOfEntriesReturned = 7; p.response() = r;
}
static int live(const std::string &key) { int n = 0; for (std::map<unsigned long, Back>::iterator i = be.begin(); i != be.end(); ++i) if (i->second.inited && !i->second.closed && (key.empty() || i->second.key == key)) n++; return n; }
static bool have(const std::string &key, const std::string &t) { for (std::map<unsigned long, Back>::iterator i = be.begin(); i != be.end(); ++i) if (i->second.inited && !i->second.closed && i->second.key == key) for (std::map<std::string, std::string>::iterator k = i->second.sets.begin(); k != i->second.sets.end(); ++k) if (k->second == t) return true; return false; }
static xmlNode *cfg(const char *rmax, const char *rttl, const char *smax, const char *sttl, bool restart, bool ignore) {
    xmlNode *c = xb::el("filter"), *e; xb::add(c, e = xb::el("resultset")); xb::attr(e, "max", rmax); xb::attr(e, "ttl", rttl); if (restart) xb::attr(e, "restart", "true"); xb::add(c, e = xb::el("session")); xb::attr(e, "max", smax); xb::attr(e, "ttl", sttl); if (ignore) { xb::add(c, e = xb::el("init")); xb::attr(e, "ignore-auth", "true"); } return c;
}
static Z_APDU *init_req(mp::odr &o, const char *auth, const char *target) {
    Z_APDU *a = mk_req(o, Z_APDU_initRequest); set_ref(o, a, "r"); if (auth) { Z_IdAuthentication *t = (Z_IdAuthentication *)odr_malloc(o, sizeof *t); t->which = Z_IdAuthentication_open; t->u.open = odr_strdup(o, auth); a->u.initRequest->idAuthentication = t; }
    std::list<std::string> v; v.push_back(target); mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, o, v); return a;
}
static Z_RPNStructure *setref(mp::odr &o, const char *n) { Z_RPNStructure *r = (Z_RPNStructure *)odr_malloc(o, sizeof *r); r->which = Z_RPNStructure_simple; r->u.simple = (Z_Operand *)odr_malloc(o, sizeof *r->u.simple); r->u.simple->which = Z_Operand_resultSetId; r->u.simple->u.resultSetId = odr_strdup(o, n); return r; }
static Z_RPNStructure *both(mp::odr &o, Z_RPNStructure *a, Z_RPNStructure *b) { Z_RPNStructure *r = (Z_RPNStructure *)odr_malloc(o, sizeof *r); r->which = Z_RPNStructure_complex; Z_Complex *c = (Z_Complex *)odr_malloc(o, sizeof *c); r->u.complex = c; c->s1 = a; c->s2 = b; c->roperator = (Z_Operator *)odr_malloc(o, sizeof *c->roperator); c->roperator->which = Z_Operator_and; c->roperator->u.op_and = odr_nullval(); return r; }
static Z_APDU *search_req(mp::odr &o, const char *set, Z_RPNStructure *s, const char *db, bool replace) { Z_APDU *a = mk_req(o, Z_APDU_searchRequest, "t", db); set_ref(o, a, "r"); a->u.searchRequest->query = rpn_query(o, s); a->u.searchRequest->resultSetName = odr_strdup(o, set); *a->u.searchRequest->replaceIndicator = replace; return a; }
static Z_APDU *present_req(mp::odr &o, const char *set, int start, int n, const char *el) {
    Z_APDU *a = mk_req(o, Z_APDU_presentRequest); set_ref(o, a, "r"); a->u.presentRequest->resultSetId = odr_strdup(o, set); *a->u.presentRequest->resultSetStartPoint = start; *a->u.presentRequest->numberOfRecordsRequested = n; a->u.presentRequest->preferredRecordSyntax = odr_oiddup(o, yaz_oid_recsyn_usmarc);
    Z_RecordComposition *c = (Z_RecordComposition *)odr_malloc(o, sizeof *c); c->which = Z_RecordComp_simple; c->u.simple = (Z_ElementSetNames *)odr_malloc(o, sizeof *c->u.simple); c->u.simple->which = Z_ElementSetNames_generic; c->u.simple->u.generic = odr_strdup(o, el); a->u.presentRequest->recordComposition = c; return a;
}
#if PROP == 1
static void on_close(Back &) {}
static void pause_() {}
struct Cl { mp::Session s; bool open; std::string key; std::map<std::string, std::string> sets, dbs, txt; Cl() : open(false) {} };
void mp_main(void) { mp_preempt(0, -1);
    mp::filter::SessionShared *f = new mp::filter::SessionShared; named = mp_pick(0, 1, "named result sets") == 1; bool restart = mp_pick(0, 1, "restart") == 1, ignore = mp_pick(0, 1, "ignore auth") == 1; f->configure(cfg(RMAX, "30", "2", "90", restart, ignore), false, 0);
    NamedChain ch(*f); mp::Origin og; std::vector<Cl> cl(2); static const char *auths[] = { "u/0", "u/1" }; static const char *sn[] = { "a", "b" }; static const char *db[] = { "d", "e" }; faults_left = NF;
    { mp::odr o; n_faults = 0; Run r(ch, cl[0].s, og, init_req(o, auths[0], "t")); Z_APDU *z = r.z(Z_APDU_initResponse); cl[0].key = ignore ? "-|t" : "o:u/0|t"; if (n_faults) { mp_assert(z && !*z->u.initResponse->result && ref_is(z, "r") && r.p.session().is_closed(), "refused"); cl[0].s = mp::Session(); mp_cover("init refused"); } else { mp_assert(z && *z->u.initResponse->result && ref_is(z, "r") && ODR_MASK_GET(z->u.initResponse->options, Z_Options_search), "accepted"); cl[0].open = true; } }
    for (int st = 0; st < STEPS; st++) {
        int i = mp_pick(0, 1, "client"); Cl &c = cl[i]; mp::odr o; int s0 = searches, i0 = inits; n_faults = 0; last_fault = 0;
        if (!c.open) {
            int k = mp_pick(0, 1, "user"); c.key = ignore ? "-|t" : k ? "o:u/1|t" : "o:u/0|t"; bool known = live(c.key) > 0; Run r(ch, c.s, og, init_req(o, auths[k], "t")); Z_APDU *z = r.z(Z_APDU_initResponse);
            if (n_faults) { mp_assert(z && !*z->u.initResponse->result && ref_is(z, "r") && r.p.session().is_closed(), "refused"); c.s = mp::Session(); mp_cover("init refused"); continue; }
            mp_assert(z && *z->u.initResponse->result && ref_is(z, "r"), "accepted"); mp_assert(!known || inits == i0, "no further connection"); c.open = true; c.sets.clear(); c.dbs.clear(); c.txt.clear(); mp_cover(known ? "shared" : "first"); continue;
        }
        int op = mp_pick(0, 3, "request");
        if (op == 0) {
            int n = mp_pick(0, 1, "set"), q = mp_pick(0, 3, "query"), d = mp_pick(0, 1, "database"); bool rep = st == 0 || mp_pick(0, 1, "replace") == 1; std::string other = sn[1 - n];
            Z_RPNStructure *s = q == 0 ? rpn_leaf(o, "x") : q == 1 ? rpn_leaf(o, "y") : q == 2 ? setref(o, other.c_str()) : both(o, rpn_leaf(o, "x"), setref(o, other.c_str())); bool exists = c.sets.count(sn[n]) == 1;
            Run r(ch, c.s, og, search_req(o, sn[n], s, db[d], rep)); Z_APDU *z = r.z(Z_APDU_searchResponse); mp_assert(z && ref_is(z, "r"), "answered"); Z_SearchResponse *w = z->u.searchResponse;
            if (exists && !rep) { mp_assert(nsd_code(w->records) == YAZ_BIB1_RESULT_SET_EXISTS_AND_REPLACE_INDICATOR_OFF && searches == s0, "kept"); mp_cover("kept"); continue; }
            c.sets.erase(sn[n]); std::string t = q == 0 ? "x" : q == 1 ? "y" : ""; bool bad = false; if (q >= 2) { if (!c.sets.count(other) || c.dbs[other] != db[d]) bad = true; else t = q == 2 ? c.txt[other] : "(x&" + c.txt[other] + ")"; }
            if (bad) { mp_assert(nsd_code(w->records) == YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST && searches == s0, "no such set"); mp_cover("no such set"); continue; }
            std::string full = t + "/" + db[d]; 
            if (w->records) { int code = nsd_code(w->records); if (!n_faults) { mp_assert(code == 2 && live(c.key) >= 2, "only when there are too many sessions"); mp_cover("too many"); } else mp_cover("search fails"); continue; }
            mp_assert(*w->resultCount == count_of(full) || (any_neg && *w->resultCount == -1), "the count of the search"); if (*w->resultCount < 0) { mp_assert(!restart || n_faults != 1 || searches == s0, "tried again when the size makes no sense"); mp_cover("no size"); } else if (n_faults) { mp_assert(restart && last_fault != F_GONE && last_fault != F_OTHER, "tried again only after a temporary error"); mp_cover("restarted"); }
            c.sets[sn[n]] = full; c.txt[sn[n]] = t; c.dbs[sn[n]] = db[d]; mp_assert(have(c.key, full), "searched by somebody with the same key"); mp_cover(searches == s0 ? "optimised" : "searched"); if (q >= 2) mp_cover("set used in a query");
        }
        else if (op == 1) {
            int n = mp_pick(0, 1, "set"), start = mp_pick(1, 2, "start"); const char *el = mp_pick(0, 1, "elements") ? "F" : "B"; bool there = c.sets.count(sn[n]) && have(c.key, c.sets[sn[n]]); Run r(ch, c.s, og, present_req(o, sn[n], start, 1, el)); Z_APDU *z = r.z(Z_APDU_presentResponse); mp_assert(z && ref_is(z, "r"), "answered"); Z_PresentResponse *w = z->u.presentResponse;
            if (!c.sets.count(sn[n])) { mp_assert(nsd_code(w->records) == YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST && searches == s0, "no such set"); continue; }
            mp_assert(!there || searches == s0, "a set that is there is not searched again");
            if (!w->records || w->records->which != Z_Records_DBOSD) { if (!n_faults) { mp_assert(nsd_code(w->records) == 2 && live(c.key) >= 2, "only when there are too many sessions"); } mp_cover("present fails"); continue; }
            char pos = '0' + start; std::string want = c.sets[sn[n]] + ":"; want += pos; want += el; mp_assert(w->records->u.databaseOrSurDiagnostics->num_records == 1 && rec_text(w->records->u.databaseOrSurDiagnostics->records[0]) == want, "the record of the client's own search"); mp_assert(*w->numberOfRecordsReturned == 1 && *w->nextResultSetPosition == start + 1, "how many"); mp_cover(searches == s0 ? "present" : "searched again for present");
        }
        else if (op == 2) { Run r(ch, c.s, og, mk_req(o, Z_APDU_scanRequest)); if (n_faults) { mp_assert(r.p.session().is_closed() || r.z(Z_APDU_scanResponse), "scan fails"); if (r.p.session().is_closed()) { c.open = false; c.s = mp::Session(); } } else { Z_APDU *z = r.z(Z_APDU_scanResponse); mp_assert(z && (*z->u.scanResponse->numberOfEntriesReturned == 7 || live(c.key) >= 2), "scan"); } mp_cover("scan"); }
        else if (mp_pick(0, 1, "how it ends")) { Z_APDU *a = mk_req(o, Z_APDU_close); set_ref(o, a, "r"); Run r(ch, c.s, og, a); Z_APDU *z = r.z(Z_APDU_close); mp_assert(z && ref_is(z, "r") && r.p.session().is_closed(), "closed"); c.open = false; c.s = mp::Session(); mp_cover("closed"); }
        else { mp::Session g(c.s); g.close(); Run r(ch, g, og, (Z_GDU *)0); c.open = false; c.s = mp::Session(); mp_cover("ended"); }
        std::set<std::string> keys; for (std::map<unsigned long, Back>::iterator k = be.begin(); k != be.end(); ++k) keys.insert(k->second.key); for (std::set<std::string>::iterator k = keys.begin(); k != keys.end(); ++k) mp_assert(live(*k) <= 2, "no more sessions than allowed");
    }
    for (int i = 0; i < 2; i++) if (cl[i].open) { mp::Session g(cl[i].s); g.close(); Run r(ch, g, og, (Z_GDU *)0); }
    delete f; mp_assert(live("") == 0, "all are closed in the end"); mp_cover("done");
}
#endif
#if PROP == 4
static void on_close(Back &) {}
static void pause_() {}
static Z_APDU *req(mp::odr &o, int kind, const char *id, const char *ip, int len) {
    Z_APDU *a = mk_req(o, Z_APDU_initRequest); if (kind) { Z_IdAuthentication *t = (Z_IdAuthentication *)odr_malloc(o, sizeof *t); a->u.initRequest->idAuthentication = t; if (kind == 1) { t->which = Z_IdAuthentication_open; t->u.open = odr_strdup(o, id); } else { t->which = Z_IdAuthentication_idPass; t->u.idPass = (Z_IdPass *)odr_malloc(o, sizeof *t->u.idPass); t->u.idPass->groupId = 0; char b[2] = { id[0], 0 }; t->u.idPass->userId = odr_strdup(o, b); t->u.idPass->password = odr_strdup(o, id[0] ? id + 1 : ""); } }
    if (len) { std::string s = ip; s.append(len, '.'); yaz_oi_set_string_oid(&a->u.initRequest->otherInfo, o, yaz_oid_userinfo_client_ip, 1, s.c_str()); } return a;
}
void mp_main(void) { mp_preempt(0, -1);
    mp::filter::SessionShared *f = new mp::filter::SessionShared; f->configure(cfg("2", "30", "2", "90", false, false), false, 0); NamedChain ch(*f); mp::Origin og; mp::odr o; static const int lens[] = { 0, 1, 40 }; char id[2][3], ip[2][2]; int kind[2], len[2]; std::vector<mp::Session> s(2);
    for (int i = 0; i < 2; i++) { kind[i] = mp_pick(0, 2, "authentication"); mp_sym(id[i], 2, "identity"); id[i][2] = 0; for (int k = 0; k < 2; k++) mp_assume(id[i][k] > 0); len[i] = lens[mp_pick(0, 2, "length")]; mp_sym(ip[i], 1, "other"); ip[i][1] = 0; mp_assume(ip[i][0] > 0);
        Run r(ch, s[i], og, req(o, kind[i], id[i], ip[i], len[i])); mp_assert(r.z(Z_APDU_initResponse) != 0, "accepted"); }
    bool same = kind[0] == kind[1] && (!kind[0] || (id[0][0] == id[1][0] && id[0][1] == id[1][1])) && len[0] == len[1] && (!len[0] || ip[0][0] == ip[1][0]);
    mp_assert(inits == (same ? 1 : 2), "sessions are shared by equals only"); mp_cover(same ? "same" : "different"); for (int i = 0; i < 2; i++) { mp::Session g(s[i]); g.close(); Run r(ch, g, og, (Z_GDU *)0); } delete f; mp_cover("done");
}
#endif
#if PROP == 3
static void on_close(Back &) {}
static pthread_mutex_t hm; static bool trace_;
static void pause_() { pthread_mutex_lock(&hm); pthread_mutex_unlock(&hm); }   // somebody else may run while this one waits for the target
static int smax; static NamedChain *chp; static mp::Origin og; static mp::Session ss[2]; static int what_[2]; static int gone;
static const char *key = "-|t";
static void client(int i) {
    mp::odr o; static const char *terms[] = { "x", "y" };
    { Run r(*chp, ss[i], og, init_req(o, 0, "t")); Z_APDU *z = r.z(Z_APDU_initResponse); mp_assert(z && ref_is(z, "r"), "answered"); mp_assert(live(key) <= smax, "no more sessions than allowed"); if (!*z->u.initResponse->result) { mp_assert(n_faults, "refused only if the target does"); gone |= 1 << i; mp_cover("refused"); return; } }
    if (what_[i] == 2) { Run r(*chp, ss[i], og, mk_req(o, Z_APDU_scanRequest)); mp_assert(r.z(Z_APDU_scanResponse) != 0 || n_faults, "answered"); if (r.p.session().is_closed()) gone |= 1 << i; mp_assert(live(key) <= smax, "no more sessions than allowed"); mp_cover("scan"); return; }
    std::string full = std::string(terms[what_[i]]) + "/d"; bool ok;
    { Run r(*chp, ss[i], og, search_req(o, "a", rpn_leaf(o, terms[what_[i]]), "d", true)); Z_APDU *z = r.z(Z_APDU_searchResponse); mp_assert(z && ref_is(z, "r"), "answered"); Z_SearchResponse *w = z->u.searchResponse; ok = !w->records; mp_assert(live(key) <= smax, "no more sessions than allowed"); if (!ok) { mp_assert(nsd_code(w->records) == 2 || n_faults, "a diagnostic"); mp_cover("fails"); return; } mp_assert(*w->resultCount == count_of(full) || any_neg, "the count of the search"); }
    { Run r(*chp, ss[i], og, present_req(o, "a", 1, 1, "F")); Z_APDU *z = r.z(Z_APDU_presentResponse); mp_assert(z && ref_is(z, "r"), "answered"); Z_PresentResponse *w = z->u.presentResponse; mp_assert(live(key) <= smax, "no more sessions than allowed"); if (!w->records || w->records->which != Z_Records_DBOSD) { mp_assert(nsd_code(w->records) == 2 || n_faults, "a diagnostic"); mp_cover("present fails"); } else { mp_assert(w->records->u.databaseOrSurDiagnostics->num_records == 1 && rec_text(w->records->u.databaseOrSurDiagnostics->records[0]) == full + ":1F", "the record of the client's own search"); mp_cover("present"); } }
}
static void *other(void *) { client(1); return 0; }
void mp_main(void) { mp_preempt(0, -1); pthread_mutex_init(&hm, 0);
    mp::filter::SessionShared *f = new mp::filter::SessionShared; named = mp_pick(0, 1, "named result sets") == 1; smax = mp_pick(1, 2, "sessions"); what_[0] = mp_pick(0, 1, "first"); what_[1] = mp_pick(0, 2, "second"); int early = mp_pick(0, 1, "a session there already"); f->configure(cfg("1", "30", smax == 1 ? "1" : "2", "90", false, false), false, 0);
    NamedChain ch(*f); chp = &ch; mp::Session s0; if (early) { mp::odr o; Run r(ch, s0, og, init_req(o, 0, "t")); }
    faults_left = NF; mp_preempt(MEM, PB); pthread_t t; pthread_create(&t, 0, other, 0); client(0); pthread_join(t, 0); mp_preempt(0, -1);
    mp_assert(live(key) <= smax, "no more sessions than allowed");
    for (int i = 0; i < 2; i++) if (!(gone & 1 << i)) { mp::Session g(ss[i]); g.close(); Run r(ch, g, og, (Z_GDU *)0); } if (early) { mp::Session g(s0); g.close(); Run r(ch, g, og, (Z_GDU *)0); }
    delete f; mp_assert(live("") == 0, "all are closed in the end"); mp_cover("done");
}
#endif
#if PROP == 2
#ifndef NAMED
#define NAMED 1
#define OPS 3
#endif
extern "C" { extern long mp_clock_sec; }
static struct { pthread_cond_t *c; pthread_mutex_t *m; long until; } waiting[4];
extern "C" int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { int i = 0; while (waiting[i].c) i++; waiting[i].c = c; waiting[i].m = m; waiting[i].until = t->tv_sec; pthread_cond_wait(c, m); waiting[i].c = 0; return mp_clock_sec >= t->tv_sec ? 110 : 0; }
static void pass(int sec) { mp_clock_sec += sec; for (int i = 0; i < 4; i++) if (waiting[i].c && waiting[i].until <= mp_clock_sec) { pthread_mutex_lock(waiting[i].m); pthread_cond_broadcast(waiting[i].c); pthread_mutex_unlock(waiting[i].m); } }
static bool ending; static void pause_() { if (MEM) { static pthread_mutex_t hm = PTHREAD_MUTEX_INITIALIZER; pthread_mutex_lock(&hm); pthread_mutex_unlock(&hm); } }
static void on_close(Back &b) { mp_assert(ending || !b.inited || (long)time(0) - b.last > 90, "not closed before its time"); }
void mp_main(void) { mp_preempt(0, -1);
    mp::filter::SessionShared *f = new mp::filter::SessionShared; named = mp_pick(0, NAMED, "named result sets") == 1; f->configure(cfg("2", "30", "1", "90", false, false), false, 0); NamedChain ch(*f); mp::Origin og; mp::Session cs[2]; bool open[2] = { false, false }; faults_left = 0;
    mp_preempt(0, 0); f->start();
#if MEM
    mp_wait_idle(); mp_preempt(0, -1); { mp::odr o; Run r(ch, cs[0], og, init_req(o, 0, "t")); } { mp::odr o; Run r(ch, cs[0], og, search_req(o, "a", rpn_leaf(o, "x"), "d", true)); } int op = mp_pick(0, OPS, "meanwhile"); faults_left = 1; ending = true; int late = mp_pick(0, 1, "time"); pass(late ? 91 : 90); mp_preempt(1, PB);
    if (op == 0) { mp::odr o; Run r(ch, cs[0], og, present_req(o, "a", 1, 1, "F")); mp_assert(r.z(Z_APDU_presentResponse) != 0, "answered"); mp_cover("present"); }
    else if (op == 1) { mp::odr o; Run r(ch, cs[0], og, search_req(o, "b", rpn_leaf(o, "y"), "d", true)); mp_assert(r.z(Z_APDU_searchResponse) != 0, "answered"); mp_cover("search"); }
    else if (op == 2) { mp::odr o; Run r(ch, cs[1], og, init_req(o, 0, "t")); mp_assert(r.z(Z_APDU_initResponse) != 0, "answered"); open[1] = true; mp_cover("init"); }
    mp_preempt(0, -1); open[0] = true;
#else
    for (int st = 0; st < STEPS; st++) {
        int op = mp_pick(0, 6, "what happens"), i = op < 3 ? mp_pick(0, 1, "client") : 0; mp::odr o; Run *r = 0; int i0 = inits, n = live("-|t"); Z_APDU *z;
        if (op < 3 && !open[i]) { Run r(ch, cs[i], og, init_req(o, 0, "t")); z = r.z(Z_APDU_initResponse); mp_assert(z && *z->u.initResponse->result, "accepted"); mp_assert(!n || inits == i0, "no further connection"); open[i] = true; mp_cover(n ? "shared" : "connected"); }
        else if (op == 0) { Run r(ch, cs[i], og, search_req(o, "a", rpn_leaf(o, i ? "y" : "x"), "d", true)); z = r.z(Z_APDU_searchResponse); mp_assert(z && !z->u.searchResponse->records, "found"); if (!n) mp_cover("connected again"); }
        else if (op == 1) { Run r(ch, cs[i], og, mk_req(o, Z_APDU_scanRequest)); mp_assert(r.z(Z_APDU_scanResponse) != 0, "scanned"); }
        else if (op == 2) { mp::Session g(cs[i]); g.close(); Run r(ch, g, og, (Z_GDU *)0); open[i] = false; cs[i] = mp::Session(); }
        else if (op == 3) { pass(30); mp_wait_idle(); }
        else if (op == 4) { pass(90); mp_wait_idle(); pass(90); mp_wait_idle(); pass(90); mp_wait_idle(); mp_assert(live("") == 0, "closed when not used for long"); mp_cover("idle"); }
        else if (op == 5) { mp_wait_idle(); }
        else break;
        mp_assert(live("-|t") <= 1, "no more sessions than allowed");
    }
    ending = true;
#endif
    for (int i = 0; i < 2; i++) if (open[i]) { mp::Session g(cs[i]); g.close(); Run r(ch, g, og, (Z_GDU *)0); }
    ending = true; delete f; mp_assert(live("") == 0, "all are closed in the end"); mp_cover("done");
}
#endif
