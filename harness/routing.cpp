// Filters that choose where a session goes. PROP 1: load_balance; 2: virt_db
#include "fx.h"
#include <map>
static const char *diag_of(Z_APDU *z, int *code) {
    Z_DefaultDiagFormat *d = 0; *code = 0;
    if (z->which == Z_APDU_searchResponse && z->u.searchResponse->records && z->u.searchResponse->records->which == Z_Records_NSD) d = z->u.searchResponse->records->u.nonSurrogateDiagnostic;
    if (z->which == Z_APDU_presentResponse && z->u.presentResponse->records && z->u.presentResponse->records->which == Z_Records_NSD) d = z->u.presentResponse->records->u.nonSurrogateDiagnostic;
    if (z->which == Z_APDU_scanResponse && z->u.scanResponse->entries && z->u.scanResponse->entries->num_nonsurrogateDiagnostics == 1) d = z->u.scanResponse->entries->nonsurrogateDiagnostics[0]->u.defaultFormat;
    if (!d) return 0; *code = *d->condition; return d->u.v2Addinfo;
}
#if PROP == 1
#include "filter_load_balance.hpp"
static Chain *chp; static mp::Origin *ogp; static mp::Session *S; static std::vector<std::string> tried; static int fails, how, nest = -1; static std::map<std::string, int> ses, pk, dead; static std::string at[4]; static int calls;
static const char *lists[][4] = { {"A", "B", 0}, {"B", "A", 0}, {"A", "B", "C", 0} };
static void init(int s, int list, int fail);
static void down(mp::Package &p) {
    Z_GDU *g = p.request().get(); mp::odr o; calls++;
    if (!g) return;
    if (g->u.z3950->which == Z_APDU_initRequest) {
        std::list<std::string> v; mp::util::get_vhost_otherinfo(g->u.z3950->u.initRequest->otherInfo, v); mp_assert(v.size() == 1, "one target at a time"); mp_assert(seq(g->u.z3950->u.initRequest->implementationName, "me"), "the Init is the client's"); tried.push_back(v.front());
        p.response() = o.create_initResponse(g->u.z3950, 0, 0); if ((int)tried.size() <= fails) p.session().close(); return;
    }
    if (nest >= 0) { int n = nest; nest = -1; init(n, 0, 0); }
    if (how == 0) p.response() = o.create_searchResponse(g->u.z3950, 0, 0);
    if (how == 1) p.response() = o.create_close(g->u.z3950, 0, 0);
    if (how == 2) p.session().close();
    if (how == 4) { p.response() = o.create_searchResponse(g->u.z3950, 0, 0); p.session().close(); }
}
static void forget(int s) { if (!at[s].empty()) { ses[at[s]]--; if (!ses[at[s]]) { pk[at[s]] = 0; dead[at[s]] = 0; } at[s] = ""; } }
static void init(int s, int list, int fail) {
    mp::odr o; Z_APDU *a = zget_APDU(o, Z_APDU_initRequest); a->u.initRequest->implementationName = odr_strdup(o, "me"); std::list<std::string> v; for (int i = 0; lists[list][i]; i++) v.push_back(lists[list][i]);
    if (list >= 0) mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, o, v); set_ref(o, a, "r"); fails = fail; tried.clear();
    Run r(*chp, S[s], *ogp, a); Z_APDU *z = r.z(Z_APDU_initResponse); mp_assert(z != 0, "Init is answered"); size_t n = v.size(); bool served = fail < (int)n; mp_assert(tried.size() == (served ? (size_t)fail + 1 : n), "targets are tried until one takes the session");
    for (size_t i = 0; i < tried.size(); i++) {   // cheapest first, first named first
        std::string best; int bc = 0; for (std::list<std::string>::iterator it = v.begin(); it != v.end(); it++) { int c = ses[*it] + pk[*it] + dead[*it]; if (best.empty() || c < bc) { best = *it; bc = c; } }
        mp_assert(tried[i] == best, "the least loaded target is tried next"); if (best != lists[list][i]) mp_cover("not the first"); v.remove(best);
    }
    if (served) { mp_assert(*z->u.initResponse->result && !r.p.session().is_closed(), "the session is open"); forget(s); at[s] = tried.back(); ses[at[s]]++; if (fail) mp_cover("fail over"); }
    else { mp_assert(!*z->u.initResponse->result && r.p.session().is_closed() && ref_is(z, "r"), "no target: refused"); mp_cover("refused"); }
}
void mp_main(void) {
    mp::filter::LoadBalance *f = new mp::filter::LoadBalance; f->configure(xb::el("filter"), false, 0); Chain ch(*f); chp = &ch; mp::Session s[4]; S = s; mp::Origin og; ogp = &og; int used = 0;
    for (int k = 0; k < STEPS; k++) {
        int op = used ? mp_pick(0, 3, "op") : 0; int i;
        if (op == 0) { i = mp_pick(0, used < 2 ? used : 2, "session"); if (i == used) used++; int l = mp_pick(0, 2, "list"); init(i, l, mp_pick(0, l == 2 ? 3 : 2, "failing")); }
        else if (op == 3) { i = mp_pick(0, used - 1, "session"); mp::Session c(s[i]); c.close(); Run r(ch, c, og, (Z_GDU *)0); forget(i); mp_cover("gone"); }
        else {
            i = mp_pick(0, used - 1, "session"); how = mp_pick(0, 4, "outcome"); bool cl = op == 2; nest = !cl && used < 3 && mp_pick(0, 1, "meanwhile") ? used : -1; mp::odr o; Z_APDU *a = mk_req(o, cl ? Z_APDU_close : Z_APDU_searchRequest); calls = 0;
            if (nest >= 0) { used++; } std::string t = at[i]; if (!t.empty()) pk[t]++;
            Run r(ch, s[i], og, a); mp_assert(calls >= 1, "passed on");
            if (!t.empty() && pk[t]) pk[t]--;
            mp_assert(r.g() ? how == 0 || how == 1 || how == 4 : how == 2 || how == 3, "the response is passed back");
            bool ends = cl || how == 1 || how == 2 || how == 4; mp_assert(r.p.session().is_closed() == ends, "the session ends with the backend's or the client's close");
            if (ends) { if (!cl && !t.empty()) { dead[t]++; mp_cover("dead"); } forget(i); }
        }
    }
    init(3, mp_pick(0, 1, "list"), 0);   // where does the next one go
    mp_cover("done");
}
#elif PROP == 3
#include "filter_load_balance.hpp"
#include <pthread.h>
static std::string last; static bool quiet;
static void down(mp::Package &p) { Z_GDU *g = p.request().get(); mp::odr o; std::list<std::string> v; if (!g || g->u.z3950->which != Z_APDU_initRequest) return; mp::util::get_vhost_otherinfo(g->u.z3950->u.initRequest->otherInfo, v); last = v.front(); p.response() = o.create_initResponse(g->u.z3950, 0, 0); }
static void *mv(void *p) { ((mp::Package *)p)->move(); return 0; }
static void setup(mp::Package &p, mp::RouterChain &r, const char *t1, const char *t2) { mp::odr o; Z_APDU *a = zget_APDU(o, Z_APDU_initRequest); std::list<std::string> v; v.push_back(t1); if (t2) v.push_back(t2); mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, o, v); p.request() = a; p.router(r); }
void mp_main(void) {   // two sessions come (or one comes, one goes) at the same time; then the counts are right
    mp::filter::LoadBalance *f = new mp::filter::LoadBalance; Chain ch(*f); mp::Session s[6]; mp::Origin og; int mode = mp_pick(0, 1, "mode");
    { mp::Package p(s[0], og); setup(p, ch.r, "A", 0); p.move(); mp::Package q(s[5], og); setup(q, ch.r, "A", 0); q.move(); }
    mp::Session gone(s[5]); gone.close(); mp::Package a(s[1], og), b(mode ? gone : s[2], og); setup(a, ch.r, "A", 0); if (mode) { b.router(ch.r); } else setup(b, ch.r, "A", 0);
    bool swap = mp_pick(0, 1, "swap"); mp_preempt(1, PB); pthread_t t; pthread_create(&t, 0, mv, swap ? &a : &b); (swap ? b : a).move(); mp_preempt(0, 0); pthread_join(t, 0);
    int want = mode ? 2 : 4; for (int i = 0; i < want; i++) { mp::Session n; mp::Package p(n, og); setup(p, ch.r, "B", "A"); p.move(); mp_assert(last == "B", "less loaded"); }
    mp::Session n; mp::Package p(n, og); setup(p, ch.r, "A", "B"); p.move(); mp_assert(last == "A", "equally loaded: none of the sessions is lost or counted twice"); mp_cover("done");
}
#elif PROP == 2
#include "filter_virt_db.hpp"
static bool iseq(const char *a, const char *b) { for (; *a && *b; a++, b++) if ((*a | 32) != (*b | 32)) return false; return *a == *b; }
struct B { bool up, named; std::list<std::string> targets; std::string route; std::map<std::string, int> sets; std::string client; bool closed; };
static std::map<unsigned long, B> be; static unsigned long front; static int fault, calls, inits; static bool named; static int want_q; static std::vector<std::string> seen_db; static unsigned long used_be; static std::string rec_db;
static int qno(Z_Query *q) { Z_Term *t = q->u.type_1->RPNStructure->u.simple->u.attributesPlusTerm->term; return t->u.general->buf[0] - '0'; }
static void dbs(int n, char **d) { seen_db.clear(); for (int i = 0; i < n; i++) seen_db.push_back(d[i]); }
static Z_Records *recs(mp::odr &o, int q) { Z_Records *r = (Z_Records *)odr_malloc(o, sizeof *r); r->which = Z_Records_DBOSD; Z_NamePlusRecordList *l = (Z_NamePlusRecordList *)odr_malloc(o, sizeof *l); r->u.databaseOrSurDiagnostics = l; l->num_records = 1; l->records = (Z_NamePlusRecord **)odr_malloc(o, sizeof(void *)); Z_NamePlusRecord *n = (Z_NamePlusRecord *)odr_malloc(o, sizeof *n); l->records[0] = n; n->databaseName = odr_strdup(o, rec_db.c_str()); n->which = Z_NamePlusRecord_surrogateDiagnostic; n->u.surrogateDiagnostic = zget_DiagRec(o, 1000 + q, 0); return r; }
static void down(mp::Package &p) {
    Z_GDU *g = p.request().get(); mp::odr o; if (p.session().id() == front) { mp_assert(p.session().is_closed(), "nothing of the client is passed on"); return; } B &b = be[p.session().id()];
    if (p.session().is_closed()) { mp_assert(b.up && !b.closed, "a backend is closed once"); b.closed = true; mp_assert(moved_route == b.route, "closed along its route"); return; }
    mp_assert(g && g->which == Z_GDU_Z3950, "a request"); Z_APDU *a = g->u.z3950; calls++; mp_assert(!b.closed, "a closed backend is not used"); used_be = p.session().id();
    if (a->which == Z_APDU_initRequest) {
        mp_assert(!b.up, "one Init for a backend"); inits++; b.up = true; b.named = named; b.route = moved_route; mp::util::get_vhost_otherinfo(a->u.initRequest->otherInfo, b.targets); mp_assert(seq(a->u.initRequest->implementationName, "me"), "the client's Init data"); mp_assert(*a->u.initRequest->preferredMessageSize == 123 && *a->u.initRequest->maximumRecordSize == 456, "the client's sizes");
        Z_APDU *r = o.create_initResponse(a, fault == 1 ? 1011 : 0, fault == 1 ? "x" : 0); if (named) ODR_MASK_SET(r->u.initResponse->options, Z_Options_namedResultSets); if (fault == 1) *r->u.initResponse->result = 0; p.response() = r; if (fault == 2) { p.session().close(); b.closed = true; } return;
    }
    mp_assert(b.up, "Init comes first"); mp_assert(moved_route == b.route, "requests follow the backend's route");
    if (a->which == Z_APDU_searchRequest) { Z_SearchRequest *s = a->u.searchRequest; mp_assert(b.named || seq(s->resultSetName, "default"), "the only set of a backend without names"); mp_assert(*s->replaceIndicator, "replaces"); dbs(s->num_databaseNames, s->databaseNames); int q = qno(s->query); Z_APDU *r = o.create_searchResponse(a, fault == 3 ? 114 : 0, fault == 3 ? "y" : 0); if (fault != 3) { b.sets[s->resultSetName] = q; *r->u.searchResponse->resultCount = 50 + q; r->u.searchResponse->records = recs(o, q); } else b.sets.erase(s->resultSetName); p.response() = r; }
    else if (a->which == Z_APDU_presentRequest) { Z_PresentRequest *s = a->u.presentRequest; mp_assert(b.sets.count(s->resultSetId), "the set is there"); Z_APDU *r = o.create_presentResponse(a, 0, 0); r->u.presentResponse->records = recs(o, b.sets[s->resultSetId]); p.response() = r; }
    else if (a->which == Z_APDU_scanRequest) { dbs(a->u.scanRequest->num_databaseNames, a->u.scanRequest->databaseNames); p.response() = o.create_scanResponse(a, fault == 3 ? 114 : 0, fault == 3 ? "y" : 0); }
    else if (a->which == Z_APDU_close) { p.response() = o.create_close(a, 0, 0); }
    else mp_assert(0, "no other requests");
    if (fault == 4) p.session().close();
}
// database: pattern, targets, route, database names at the target
struct VM { const char *pat, *t1, *t2, *route; } maps[] = { {"a", "h1/x", 0, 0}, {"b*", "h2", 0, 0}, {"c", "h3/y+z", 0, "R"}, {"bd", "h9", 0, 0}, {"D", "h1/x", "h4", 0} };
static const char *names[] = { "a", "A", "bd", "c", "d", "q" };
static int vm_of(const std::string &d) { size_t n = d.size(); if (!n) return -1; char c = d[0]; if (n == 1 && (c == 'a' || c == 'A')) return 0; if (c == 'b' || c == 'B') return 1; if (n == 1 && (c == 'c' || c == 'C')) return 2; if (n == 1 && (c == 'd' || c == 'D')) return 4; return -1; }
void mp_main(void) {
    mp::filter::VirtualDB *f = new mp::filter::VirtualDB; xmlNode *c = xb::el("filter");
    for (size_t i = 0; i < sizeof maps / sizeof *maps; i++) { xmlNode *v = xb::el("virtual"), *e; xb::add(c, v); if (maps[i].route) xb::attr(v, "route", maps[i].route); xb::add(v, e = xb::el("database")); xb::add(e, xb::text(maps[i].pat)); xb::add(v, e = xb::el("target")); xb::add(e, xb::text(maps[i].t1)); if (maps[i].t2) { xb::add(v, e = xb::el("target")); xb::add(e, xb::text(maps[i].t2)); } }
    f->configure(c, false, 0); NamedChain ch(*f); mp::Session s; front = s.id(); mp::Origin og; mp::odr o;
    { Z_APDU *a = zget_APDU(o, Z_APDU_initRequest); a->u.initRequest->implementationName = odr_strdup(o, "me"); *a->u.initRequest->preferredMessageSize = 123; *a->u.initRequest->maximumRecordSize = 456; Run r(ch, s, og, a); Z_APDU *z = r.z(Z_APDU_initResponse); mp_assert(z && *z->u.initResponse->result && !calls, "Init is answered here"); mp_assert(*z->u.initResponse->preferredMessageSize == 123 && *z->u.initResponse->maximumRecordSize == 456, "sizes as asked for"); }
    struct Set { int q; std::vector<std::string> db; }; std::map<std::string, Set> sets; int q = 0; bool over = false; int multi = mp_pick(0, 1, "databases per request");
    named = multi == 0 && mp_pick(0, 1, "named result sets"); bool zz = mp_pick(0, 1, "record database"); int fstep = mp_pick(0, STEPS, "faulty step");
    bool sym = !multi && mp_pick(0, 1, "any name"); int steps = sym ? 1 : multi ? STEPS - 1 : STEPS; for (int k = 0; k < steps && !over; k++) {
        int op = mp_pick(0, k ? 4 : 1, "op"); calls = inits = 0; fault = 0; used_be = 0; Z_APDU *a;
        if (op == 0 || op == 1) {
            std::vector<std::string> d; int n = multi ? mp_pick(0, 2, "databases") : 1; for (int i = 0; i < n; i++) d.push_back(names[mp_pick(multi || !k ? 0 : 2, multi ? 5 : 4, "database")]);
            if (sym) { char b[NB + 1]; mp_sym(b, NB, "database name"); b[NB] = 0; size_t l = 0; while (b[l]) l++; d.assign(1, std::string(b, l)); }
            std::string id = op == 1 ? "" : sets.size() && mp_pick(0, 1, "set") ? "2" : "1"; bool replace = op == 1 || multi || !sets.count(id) || mp_pick(0, 1, "replace"); fault = k == fstep ? mp_pick(1, 4, "fault") : 0;
            char term[2] = { (char)('0' + ++q), 0 }; a = mk_req(o, op ? Z_APDU_scanRequest : Z_APDU_searchRequest, term); set_ref(o, a, "r"); if (op) set_dbs(o, &a->u.scanRequest->num_databaseNames, &a->u.scanRequest->databaseNames, d); else { set_dbs(o, &a->u.searchRequest->num_databaseNames, &a->u.searchRequest->databaseNames, d); a->u.searchRequest->resultSetName = odr_strdup(o, id.c_str()); *a->u.searchRequest->replaceIndicator = replace; }
            int m = -1; const char *bad = 0; bool conflict = false; std::vector<std::string> tg; for (int i = 0; i < n && !bad && !conflict; i++) { int x = vm_of(d[i]); if (x < 0) { bad = d[i].c_str(); break; } if (m >= 0 && !seq(maps[m].route ? maps[m].route : "", maps[x].route ? maps[x].route : "")) conflict = true; m = x; const char *t[] = { maps[x].t1, maps[x].t2 }; for (int j = 0; j < 2; j++) if (t[j]) { bool in = false; for (size_t w = 0; w < tg.size(); w++) if (tg[w] == t[j]) in = true; if (!in) tg.push_back(t[j]); } }
            rec_db = zz ? "zz" : tg.empty() ? "" : tg[0];
            Run r(ch, s, og, a); Z_APDU *z = r.z(op ? Z_APDU_scanResponse : Z_APDU_searchResponse); mp_assert(z && ref_is(z, "r"), "answered"); int code; const char *add = diag_of(z, &code);
            if (!op && sets.count(id) && !replace) { mp_assert(calls == 0 && code == 21, "an existing set is kept if so asked"); mp_cover("kept"); continue; }
            bool fresh = inits > 0;
            if (bad) { mp_assert(calls == 0 && code == 235 && seq(add, bad), "unknown database"); mp_cover("unknown database"); continue; }
            if (conflict) { mp_assert(calls == 0 && code == 23, "databases of different routes"); mp_cover("conflict"); continue; }
            mp_assert(inits <= 1, "one backend at most"); B &b = be[used_be]; std::vector<std::string> bt(b.targets.begin(), b.targets.end()); mp_assert(bt == tg && seq(b.route.c_str(), m >= 0 && maps[m].route ? maps[m].route : ""), "the targets of the databases, along their route");
            if (fresh && (fault == 1 || fault == 2)) { mp_assert(fault == 1 ? code == 1011 && seq(add, "x") : code == 236 && seq(add, n ? d[0].c_str() : ""), "the backend's refusal is told"); mp_assert(b.closed, "a refused backend is closed"); mp_assert(!r.p.session().is_closed(), "session stays"); if (!op && 0) sets.erase(id); mp_cover("refused"); continue; }
            if (tg.size()) { std::vector<std::string> w; const char *sl = strchr(tg[0].c_str(), '/'); if (!sl) w = d; else if (seq(sl, "/y+z")) { w.push_back("y"); w.push_back("z"); } else w.push_back(sl + 1); mp_assert(seen_db == w, "the databases of the target"); }
            if (fault == 4) { mp_assert(r.p.session().is_closed(), "backend's close is passed on"); over = true; mp_cover("closed"); }
            if (!op) { sets.erase(id); if (fault == 3) { mp_assert(code == 114 && seq(add, "y"), "the backend's diagnostic"); mp_cover("diagnostic"); } else { mp_assert(*z->u.searchResponse->resultCount == 50 + q, "the backend's answer"); Set t; t.q = q; t.db = d; sets[id] = t; if (!over && n) mp_assert(iseq(z->u.searchResponse->records->u.databaseOrSurDiagnostics->records[0]->databaseName, d[0].c_str()), "records bear the virtual database's name"); mp_cover("search"); } }
            else mp_cover("scan");
        } else if (op == 2) {
            std::string id = mp_pick(0, 1, "set") ? "2" : "1"; a = mk_req(o, Z_APDU_presentRequest); set_ref(o, a, "r"); a->u.presentRequest->resultSetId = odr_strdup(o, id.c_str()); fault = k == fstep ? 4 : 0; rec_db = "zz";
            Run r(ch, s, og, a); Z_APDU *z = r.z(Z_APDU_presentResponse); mp_assert(z && ref_is(z, "r"), "answered"); int code; const char *add = diag_of(z, &code);
            if (!sets.count(id)) { mp_assert(calls == 0 && code == 30 && seq(add, id.c_str()), "no such set"); mp_cover("no set"); continue; }
            mp_assert(calls == 1 && *z->u.presentResponse->records->u.databaseOrSurDiagnostics->records[0]->u.surrogateDiagnostic->u.defaultFormat->condition == 1000 + sets[id].q, "records of the search that made the set"); mp_cover("present");
            if (fault) { mp_assert(r.p.session().is_closed(), "backend's close is passed on"); over = true; } else if (sets[id].db.size()) mp_assert(iseq(z->u.presentResponse->records->u.databaseOrSurDiagnostics->records[0]->databaseName, sets[id].db[0].c_str()), "records bear the virtual database's name");
        } else if (op == 3) { Run r(ch, s, og, mk_req(o, mp_pick(0, 1, "which") ? Z_APDU_initRequest : Z_APDU_deleteResultSetRequest)); mp_assert(r.z(Z_APDU_close) && r.p.session().is_closed() && !calls, "other requests end the session"); over = true; mp_cover("other"); }
        else { Run r(ch, s, og, mk_req(o, Z_APDU_close)); mp_assert(r.z(Z_APDU_close) != 0, "close is answered"); over = true; mp_cover("close"); }
    }
    if (!over) for (std::map<std::string, Set>::iterator i = sets.begin(); i != sets.end(); i++) {   // every set is still there
        calls = inits = fault = 0; rec_db = "zz"; Z_APDU *a = mk_req(o, Z_APDU_presentRequest); a->u.presentRequest->resultSetId = odr_strdup(o, i->first.c_str()); Run r(ch, s, og, a); Z_APDU *z = r.z(Z_APDU_presentResponse);
        mp_assert(calls == 1 && z && *z->u.presentResponse->records->u.databaseOrSurDiagnostics->records[0]->u.surrogateDiagnostic->u.defaultFormat->condition == 1000 + i->second.q, "records of the search that made the set"); mp_cover("audit");
    }
    { mp::Session e(s); e.close(); Run r(ch, e, og, (Z_GDU *)0); }
    for (std::map<unsigned long, B>::iterator i = be.begin(); i != be.end(); i++) mp_assert(!i->second.up || i->second.closed, "every backend is closed with the session");
    mp_cover("done");
}
#endif
