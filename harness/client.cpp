// z3950_client. PROP 1: a session with its target; 2: limit of connections per target; 3: requests at once
#include "fx.h"
#include <map>
#include <yaz/charneg.h>
#include <yaz/otherinfo.h>
#include <yaz/oid_db.h>
#include <yaz/diagbib1.h>
#include <yazpp/socket-manager.h>
#include <yazpp/pdu-assoc.h>
#include <yazpp/z-assoc.h>
#include "filter_z3950_client.hpp"
int yazpp_1::SocketManager::live = 0; int yazpp_1::live_pdu_assoc = 0;
int yazpp_1::Z_Assoc::server(const char *a) { return -1; }
static void to_target(yazpp_1::Z_Assoc *c, Z_GDU *g); static int event(yazpp_1::Z_Assoc *c); static int open_to(yazpp_1::Z_Assoc *c, const char *addr);
static std::map<yazpp_1::SocketManager *, yazpp_1::Z_Assoc *> conns;
static yazpp_1::SocketManager *mgr(yazpp_1::Z_Assoc *a) { return static_cast<yazpp_1::SocketManager *>(static_cast<yazpp_1::PDU_Assoc *>(a->m_pdu)->m_o); }
int yazpp_1::Z_Assoc::client(const char *a) { conns[mgr(this)] = this; return open_to(this, a); }
int yazpp_1::Z_Assoc::send_GDU(Z_GDU *g, int *len) { *len = 10; to_target(this, g); return 0; }
int yazpp_1::SocketManager::processEvent() { mp_assert(conns.count(this), "waits on a connection of its own"); return event(conns[this]); }
static std::string oi_ip(Z_OtherInformation *oi) { char *s = yaz_oi_get_string_oid(&oi, yaz_oid_userinfo_client_ip, 1, 0); return s ? s : "-"; }
static int vhosts(Z_OtherInformation *oi) { std::list<std::string> l; mp::util::get_vhost_otherinfo(oi, l); return (int)l.size(); }
static std::string charset_of(Z_OtherInformation *oi) {
    std::string res = "-"; int found = 0;
    if (oi) for (int i = 0; i < oi->num_elements; i++) { Z_OtherInformationUnit *u = oi->list[i]; if (u->which == Z_OtherInfo_externallyDefinedInfo && u->information.externallyDefinedInfo->which == Z_External_charSetandLanguageNegotiation) {
        NMEM m = nmem_create(); char **cs, **l; int n, nl, sel; yaz_get_proposal_charneg(m, u->information.externallyDefinedInfo->u.charNeg3, &cs, &n, &l, &nl, &sel); std::string r; for (int k = 0; k < n; k++) { if (k) r += ","; r += cs[k]; } nmem_destroy(m); mp_assert(found++ == 0, "a single proposal"); res = r; } }
    return res;
}
static void opt(xmlNode *c, const char *n, const char *v) { xmlNode *e; xb::add(c, e = xb::el(n)); xb::add(e, xb::text(v)); }
#if PROP == 1
static yazpp_1::Z_Assoc *conn; static bool connected, refuse, end_close; static int phase, silent, lim[3], outcome, sent; static std::string addr, ref, want_ip, want_cs; static bool own_info; static int want_kind, want_vh, passed; static bool waiting_allowed;
static void down(mp::Package &p) { passed++; Z_GDU *g = p.request().get(); mp_assert(!g || g->which == Z_GDU_HTTP_Request, "what is not Z39.50 goes on"); }
static int open_to(yazpp_1::Z_Assoc *c, const char *a) { mp_assert(!conn, "a single connection"); conn = c; addr = a; phase = 0; silent = 0; connected = false; refuse = mp_pick(0, 1, "refused at once"); return refuse ? -1 : 0; }
static void to_target(yazpp_1::Z_Assoc *c, Z_GDU *g) {
    mp_assert(c == conn && connected && !refuse, "sent on the connection once it is there"); mp_assert(g && g->which == Z_GDU_Z3950, "only Z39.50"); sent++; silent = 0; Z_APDU *a = g->u.z3950;
    if (end_close) { mp_assert(a->which == Z_APDU_close && *a->u.close->closeReason == Z_Close_finished, "the end of the session is told"); return; }
    mp_assert(a->which == want_kind && ref_is(a, ref.c_str()), "the request itself");
    if (a->which == Z_APDU_initRequest) { Z_OtherInformation *oi = a->u.initRequest->otherInfo; mp_assert(vhosts(oi) == want_vh, "targets of the request are taken out"); mp_assert(oi_ip(oi) == want_ip, "address of the client"); mp_assert(charset_of(oi) == want_cs, "character set"); if (own_info) { int n = 0; for (int i = 0; i < oi->num_elements; i++) if (oi->list[i]->which == Z_OtherInfo_characterInfo && !oi->list[i]->category && !strcmp(oi->list[i]->information.characterInfo, "mine")) n++; mp_assert(n == 1, "other information stays"); } mp_assert(want_cs == "-" || ODR_MASK_GET(a->u.initRequest->options, Z_Options_negotiationModel), "negotiation offered"); }
}
enum { CONNECTED, FAILED, SILENT, ANSWER, DIAG, CLOSED };
static std::string add_in; static int nth;
static void answer(Z_APDU *q, int how) {
    mp::odr o; Z_GDU g; g.which = Z_GDU_Z3950; Z_APDU *a; const char *add = add_in.length() ? add_in.c_str() : 0;
    if (how == CLOSED) a = o.create_close(0, Z_Close_peerAbort, "bye");
    else if (want_kind == Z_APDU_initRequest) { a = how == DIAG ? o.create_initResponse(0, 2, add) : o.create_initResponse(0, 0, 0); }
    else if (want_kind == Z_APDU_searchRequest) { a = o.create_searchResponse(0, 0, 0); if (how == DIAG) { Z_Records *r = (Z_Records *)odr_malloc(o, sizeof *r); r->which = Z_Records_NSD; r->u.nonSurrogateDiagnostic = zget_DefaultDiagFormat(o, 2, add); a->u.searchResponse->records = r; } }
    else if (want_kind == Z_APDU_presentRequest) { a = o.create_presentResponse(0, 0, 0); if (how == DIAG) { Z_Records *r = (Z_Records *)odr_malloc(o, sizeof *r); r->which = Z_Records_multipleNSD; Z_DiagRecs *d = (Z_DiagRecs *)odr_malloc(o, sizeof *d); r->u.multipleNonSurDiagnostics = d; d->num_diagRecs = 2; d->diagRecs = (Z_DiagRec **)odr_malloc(o, 2 * sizeof *d->diagRecs); d->diagRecs[0] = zget_DiagRec(o, 2, add); d->diagRecs[1] = zget_DiagRec(o, 3, 0); a->u.presentResponse->records = r; } }
    else a = o.create_close(0, Z_Close_finished, 0);
    set_ref(o, a, "resp"); g.u.z3950 = a; if (!end_close) phase = want_kind == Z_APDU_initRequest && a->which == Z_APDU_initResponse ? 2 : phase; conn->recv_GDU(&g, 10);
}
static int event(yazpp_1::Z_Assoc *c) {
    mp_assert(c == conn && !refuse, "waits for this target"); mp_assert(outcome < 0, "waits no longer than needed"); int e;
    mp_assert(silent < lim[connected ? phase : 0], "waits no longer than configured");
    e = mp_pick(0, connected ? 3 : 2, "event");
    if (e == 2) { silent++; if (silent >= lim[connected ? phase : 0]) outcome = SILENT; conn->timeoutNotify(); return 1; }
    if (e == 1) { outcome = FAILED; conn->failNotify(); return 1; }
    if (!connected) { connected = true; phase = 1; silent = 0; conn->connectNotify(); return 1; }
    outcome = e == 3 ? (mp_pick(0, 1, "closed by the target") ? CLOSED : DIAG) : ANSWER; int k = outcome; answer(0, k); return 1;
}
static std::string expect_add(bool with) { std::string r = with && add_in.length() ? add_in + " " : ""; return r + "(backend=" + addr.substr(0, addr.find(' ')) + ")"; }
static bool add_is(Z_DefaultDiagFormat *d, const std::string &s) { return d && d->u.v2Addinfo && s == d->u.v2Addinfo; }
void mp_main(void) { mp_preempt(0, -1);
    mp::filter::Z3950Client *f = new mp::filter::Z3950Client; xmlNode *c = xb::el("filter"); 
    int deft = mp_pick(0, 1, "default target"), force = mp_pick(0, 1, "force target"), extra = mp_pick(0, 1, "extras"); bool fclose = mp_pick(0, 1, "force close");
    if (deft) opt(c, "default_target", "dflt"); if (force) opt(c, "force_target", "forced"); if (fclose) opt(c, "force_close", "true");
    if (extra) { opt(c, "client_ip", "true"); opt(c, "bind_host", "true"); opt(c, "charset", "latin1,latin2"); }
    lim[0] = mp_pick(1, 2, "connect timeout"); lim[1] = 1; lim[2] = 2; opt(c, "connect-timeout", lim[0] == 1 ? "1" : "2"); opt(c, "init-timeout", "1"); opt(c, "timeout", "2"); f->configure(c, false, 0);
    NamedChain ch(*f); mp::Session s; mp::Origin og; og.set_tcpip_address("1.2.3.4 b:1", 7); mp::odr o; bool open = false, said_close = false, over = false;
    char in[NB + 1]; mp_sym(in, NB, "additional information"); in[NB] = 0; for (int i = 0; i < NB; i++) mp_assume(in[i] >= 0 && in[i] != 127); int nin = 0; while (in[nin]) nin++; nin = (int)mp_concretize(nin); add_in.assign(in, nin);
    for (int st = 0; st < STEPS && !over; st++) {
        int k = mp_pick(0, 4, "request"); if (k == 4 && open) { mp_assume(0); } // an HTTP request on a Z39.50 session
        Z_APDU *a = 0; int nv = 0; bool has_ip = false, own_cs = false; own_info = false; ref = st == 0 ? "r0" : st == 1 ? "r1" : "r2"; outcome = -1; sent = 0; silent = 0; passed = 0; end_close = false;
        mp::Package p(s, og); std::string tgt;
        if (k == 4) p.request() = http_get(o, "GET", "/");
        else {
            static const int kinds[] = { Z_APDU_initRequest, Z_APDU_searchRequest, Z_APDU_presentRequest, Z_APDU_close }; want_kind = kinds[k]; a = mk_req(o, want_kind); set_ref(o, a, ref.c_str());
            if (k == 0) { nv = mp_pick(0, 2, "targets"); has_ip = mp_pick(0, 1, "address given"); Z_OtherInformation **oi = &a->u.initRequest->otherInfo; std::list<std::string> v; if (nv) v.push_back("t1/x"); if (nv > 1) v.push_back("t2"); if (nv) mp::util::set_vhost_otherinfo(oi, o, v); if (has_ip) yaz_oi_set_string_oid(oi, o, yaz_oid_userinfo_client_ip, 1, "9.9.9.9"); int own = has_ip ? mp_pick(0, 2, "other information") : 0; own_cs = own == 1; own_info = own == 2; if (own_info) { Z_OtherInformationUnit *u = yaz_oi_update(oi, o, 0, 0, 0); u->which = Z_OtherInfo_characterInfo; u->information.characterInfo = odr_strdup(o, "mine"); } if (own_cs) { Z_OtherInformationUnit *u = yaz_oi_update(oi, o, 0, 0, 0); u->which = Z_OtherInfo_externallyDefinedInfo; u->information.externallyDefinedInfo = yaz_set_proposal_charneg_list(o, ",", "koi8", 0, 1); ODR_MASK_SET(a->u.initRequest->options, Z_Options_negotiationModel); } }
            p.request() = a;
        }
        tgt = force ? "forced" : nv ? "t1/x" : deft ? "dflt" : ""; want_vh = force ? nv : 0; if (open) want_vh = nv; want_ip = has_ip ? "9.9.9.9" : "-"; want_cs = "-"; if (extra) { want_ip = has_ip ? "9.9.9.9, 1.2.3.4" : "1.2.3.4"; want_cs = "latin1,latin2"; } if (own_cs) want_cs = "koi8";
        bool was_open = open; p.router(ch.r).move(); Z_GDU *g = p.response().get(); Z_APDU *z = g && g->which == Z_GDU_Z3950 ? g->u.z3950 : 0;
        if (k == 4) { mp_assert(passed == 1 && !conn && !p.session().is_closed(), "HTTP goes on"); mp_cover("passed on"); continue; }
        mp_assert(passed == 0, "Z39.50 ends here"); mp_assert(z != 0, "answered");
        if (Z_GDU *q = p.request().get()) { Z_APDU *b = q->u.z3950; mp_assert(b->which == want_kind && ref_is(b, ref.c_str()), "the request stays the request"); if (k == 0) { oi_ip(b->u.initRequest->otherInfo); charset_of(b->u.initRequest->otherInfo); } }
        if (!was_open) {
            if (k != 0) { mp_assert(!conn && z->which == Z_APDU_close && *z->u.close->closeReason == Z_Close_protocolError && ref_is(z, ref.c_str()) && p.session().is_closed(), "the first request must be Init"); mp_cover("no init"); over = true; continue; }
            if (!force && nv != 1 && (nv > 1 || !deft)) { mp_assert(!conn && z->which == Z_APDU_initResponse && !*z->u.initResponse->result && ref_is(z, ref.c_str()) && p.session().is_closed(), "no single target"); Z_DefaultDiagFormat *d = yaz_decode_init_diag(0, z->u.initResponse); mp_assert(d && *d->condition == (nv ? YAZ_BIB1_COMBI_OF_SPECIFIED_DATABASES_UNSUPP : YAZ_BIB1_INIT_NEGOTIATION_OPTION_REQUIRED), "diagnostic"); mp_cover("target unknown"); over = true; continue; }
            mp_assert(conn && addr == tgt + (extra ? " b:1" : ""), "connected to the target of the request"); open = true;
            if (refuse || !connected) { mp_assert(sent == 0 && z->which == Z_APDU_close && *z->u.close->closeReason == Z_Close_peerAbort && ref_is(z, ref.c_str()) && p.session().is_closed(), "no connection"); mp_cover(refuse ? "refused" : "not connected"); over = true; open = false; continue; }
        }
        if (k == 3) said_close = true;
        mp_assert(sent == 1, "sent once");
        if (outcome == FAILED || outcome == SILENT) { mp_assert(z->which == Z_APDU_close && ref_is(z, ref.c_str()) && *z->u.close->closeReason == (outcome == SILENT && phase == 2 ? Z_Close_lackOfActivity : Z_Close_peerAbort) && p.session().is_closed(), "the target is gone"); mp_cover(outcome == FAILED ? "lost" : "silent"); over = true; continue; }
        mp_assert(!p.session().is_closed() && ref_is(z, "resp"), "the answer of the target");
        if (outcome == CLOSED) { mp_assert(z->which == Z_APDU_close, "as it was"); mp_cover("closed by target"); continue; }
        if (outcome == DIAG && k < 3) {
            if (k == 0) mp_assert(z->which == Z_APDU_initResponse && add_is(yaz_decode_init_diag(0, z->u.initResponse), expect_add(true)), "the target is named");
            if (k == 1) mp_assert(z->which == Z_APDU_searchResponse && add_is(z->u.searchResponse->records->u.nonSurrogateDiagnostic, expect_add(true)), "the target is named");
            if (k == 2) { mp_assert(z->which == Z_APDU_presentResponse && z->u.presentResponse->records->which == Z_Records_multipleNSD && z->u.presentResponse->records->u.multipleNonSurDiagnostics->num_diagRecs == 2, "both diagnostics"); Z_DiagRecs *d = z->u.presentResponse->records->u.multipleNonSurDiagnostics; mp_assert(add_is(d->diagRecs[0]->u.defaultFormat, expect_add(true)) && add_is(d->diagRecs[1]->u.defaultFormat, expect_add(false)), "the target is named"); }
            mp_cover("diagnostic");
        }
        mp_cover("answered");
    }
    // the session ends
    sent = 0; silent = 0; outcome = -1; end_close = true; passed = 0; bool tell = open && !over && fclose && connected && !said_close; mp::Session g(s); g.close(); { mp::Package p(g, og); p.router(ch.r).move(); }
    mp_assert(sent == (tell ? 1 : 0), "the target is told at most once, if asked for"); if (tell) mp_cover("told");
    mp_assert(yazpp_1::SocketManager::live == 0 && yazpp_1::live_pdu_assoc == 0, "nothing is kept"); delete f; mp_cover("done");
}
#endif
#if PROP == 2
// sessions opened and closed in turn: targets h0 and h1, limits of the filter and of the client
static std::map<yazpp_1::Z_Assoc *, int> tgt; static bool alive_[4]; static int of[4]; static bool fail_now;
static void down(mp::Package &p) {}
static int open_to(yazpp_1::Z_Assoc *c, const char *a) { tgt[c] = a[1] - '0'; return fail_now ? -1 : 0; }
static void to_target(yazpp_1::Z_Assoc *c, Z_GDU *g) {}
static std::map<yazpp_1::Z_Assoc *, bool> conn_up;
static int event(yazpp_1::Z_Assoc *c) { if (!conn_up[c]) { conn_up[c] = true; c->connectNotify(); return 1; } mp::odr o; Z_GDU g; g.which = Z_GDU_Z3950; g.u.z3950 = o.create_initResponse(0, 0, 0); c->recv_GDU(&g, 1); return 1; }
void mp_main(void) { mp_preempt(0, -1);
    mp::filter::Z3950Client *f = new mp::filter::Z3950Client; xmlNode *c = xb::el("filter"); int lim = mp_pick(0, 2, "limit"), own = mp_pick(0, 2, "limit of the client"); if (lim) opt(c, "max-sockets", lim == 1 ? "1" : "2"); opt(c, "max-sockets-timeout", "3"); f->configure(c, false, 0);
    int eff = own ? own : lim; NamedChain ch(*f); mp::odr o; std::vector<mp::Session> ss(4); int n[2] = { 0, 0 };
    for (int st = 0; st < STEPS; st++) {
        int i = mp_pick(0, 2, "session"); mp::Origin og; if (own) og.set_max_sockets(own);
        if (alive_[i]) { mp::Session g(ss[i]); g.close(); mp::Package p(g, og); p.router(ch.r).move(); alive_[i] = false; n[of[i]]--; ss[i] = mp::Session(); mp_cover("ended"); continue; }
        of[i] = mp_pick(0, 1, "target"); fail_now = mp_pick(0, 1, "fails") == 1; Z_APDU *a = mk_req(o, Z_APDU_initRequest); set_ref(o, a, "r"); std::list<std::string> v; v.push_back(of[i] ? "h1" : "h0"); mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, o, v);
        conns.clear(); conn_up.clear(); mp::Package p(ss[i], og); p.request() = a; p.router(ch.r).move(); Z_GDU *g = p.response().get(); mp_assert(g && g->which == Z_GDU_Z3950, "answered"); Z_APDU *z = g->u.z3950;
        if (eff && n[of[i]] >= eff) { mp_assert(z->which == Z_APDU_initResponse && !*z->u.initResponse->result && ref_is(z, "r") && conns.empty() && p.session().is_closed(), "no more connections than allowed"); Z_DefaultDiagFormat *d = yaz_decode_init_diag(0, z->u.initResponse); mp_assert(d && *d->condition == YAZ_BIB1_TEMPORARY_SYSTEM_ERROR, "diagnostic"); ss[i] = mp::Session(); mp_cover("limit"); continue; }
        mp_assert(conns.size() == 1, "connected"); if (fail_now) { mp_assert(z->which == Z_APDU_close && p.session().is_closed(), "not there"); ss[i] = mp::Session(); mp_cover("fails"); continue; }
        mp_assert(z->which == Z_APDU_initResponse && *z->u.initResponse->result, "open"); alive_[i] = true; n[of[i]]++; mp_assert(yazpp_1::SocketManager::live == n[0] + n[1], "one connection for each session"); mp_cover(eff ? "below the limit" : "no limit");
    }
    mp_assert(yazpp_1::SocketManager::live == n[0] + n[1] && yazpp_1::live_pdu_assoc == n[0] + n[1], "what ended is freed"); mp_cover("done");
}
#endif
#if PROP == 3
// two threads: requests of one session (0), one ending while another waits at the limit (1), something passed on meanwhile (2)
#include <pthread.h>
static pthread_mutex_t hm; static pthread_cond_t hc; static int outstanding, released, mode, refused_n; static std::map<yazpp_1::Z_Assoc *, std::string> last; static std::map<yazpp_1::Z_Assoc *, bool> up; static NamedChain *chp; static mp::Session *s1;
static void down(mp::Package &p) { pthread_mutex_lock(&hm); while (mode == 2 && !released) pthread_cond_wait(&hc, &hm); pthread_mutex_unlock(&hm); }
static int open_to(yazpp_1::Z_Assoc *c, const char *a) { up[c] = false; return 0; }
static void to_target(yazpp_1::Z_Assoc *c, Z_GDU *g) { mp_assert(outstanding == 0 || mode == 1 || mode == 2, "one request at a time"); outstanding++; Odr_oct *r = *(Odr_oct **)g->u.z3950->u.initRequest; last[c] = r ? std::string(r->buf, r->len) : ""; }
static int event(yazpp_1::Z_Assoc *c) {
    pthread_mutex_lock(&hm); pthread_mutex_unlock(&hm);   // somebody else may run while this one waits for the target
    if (!up[c]) { up[c] = true; c->connectNotify(); return 1; } if (mode == 3 && last[c] != "A" && mp_pick(0, 1, "lost")) { outstanding--; c->failNotify(); return 1; } mp::odr o; Z_GDU g; g.which = Z_GDU_Z3950; g.u.z3950 = o.create_initResponse(0, 0, 0); set_ref(o, g.u.z3950, last[c].c_str()); outstanding--; c->recv_GDU(&g, 1); return 1; }
static Z_APDU *ini(mp::odr &o, const char *ref, const char *t) { Z_APDU *a = mk_req(o, Z_APDU_initRequest); set_ref(o, a, ref); std::list<std::string> v; v.push_back(t); mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, o, v); return a; }
static bool patient; extern "C" { extern long mp_clock_sec, mp_clock_usec; int mp_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (patient) return pthread_cond_wait(c, m); int r = mp_cond_timedwait(c, m, t); if (r == 110) { mp_clock_sec = t->tv_sec; mp_clock_usec = t->tv_nsec / 1000 + 1; } return r; } }
// the connection may be lost while requests of its session are under way
static void own_or_end(Z_GDU *g, const char *ref) { mp_cover(!g ? "not answered: ended" : g->u.z3950->which == Z_APDU_close ? "told the end" : "answered before the end"); mp_assert(!g || ref_is(g->u.z3950, ref), "no answer but its own"); }
static void *other(void *) {
    mp::odr o; mp::Origin og;
    if (mode == 3) { Z_APDU *a = mk_req(o, Z_APDU_presentRequest); set_ref(o, a, "B"); mp::Package p(*s1, og); p.request() = a; p.router(chp->r).move(); own_or_end(p.response().get(), "B"); }
    if (mode == 0) { Z_APDU *a = mk_req(o, Z_APDU_presentRequest); set_ref(o, a, "B"); mp::Package p(*s1, og); p.request() = a; p.router(chp->r).move(); Z_GDU *g = p.response().get(); mp_assert(g && ref_is(g->u.z3950, "B"), "its own answer"); }
    if (mode == 1) { mp::Session g(*s1); g.close(); mp::Package p(g, og); p.router(chp->r).move(); }
    if (mode == 2) { mp::Session s; mp::Package p(s, og); p.request() = ini(o, "C", "h1"); p.router(chp->r).move(); Z_GDU *g = p.response().get(); mp_assert(g && ref_is(g->u.z3950, "C"), "answered meanwhile"); pthread_mutex_lock(&hm); released = 1; pthread_cond_broadcast(&hc); pthread_mutex_unlock(&hm); mp::Session e(s); e.close(); mp::Package q(e, og); q.router(chp->r).move(); }
    return 0;
}
void mp_main(void) { mp_preempt(0, -1); mode = mp_pick(0, 3, "mode"); patient = mode == 1 && mp_pick(0, 1, "waits long");
    mp::filter::Z3950Client *f = new mp::filter::Z3950Client; xmlNode *c = xb::el("filter"); if (mode == 1) opt(c, "max-sockets", "1"); f->configure(c, false, 0); NamedChain ch(*f); chp = &ch; mp::Session s; s1 = &s; mp::odr o; mp::Origin og;
    if (mode != 2) { Run r(ch, s, og, ini(o, "A", "h0")); mp_assert(r.g() && ref_is(r.g()->u.z3950, "A"), "open"); }
    mp_preempt(0, PB); pthread_t t; pthread_create(&t, 0, other, 0);
    if (mode == 0) { Z_APDU *a = mk_req(o, Z_APDU_searchRequest); set_ref(o, a, "D"); Run r(ch, s, og, a); mp_assert(r.g() && ref_is(r.g()->u.z3950, "D"), "its own answer"); mp_cover("same session"); }
    if (mode == 3) { Z_APDU *a = mk_req(o, Z_APDU_searchRequest); set_ref(o, a, "D"); Run r(ch, s, og, a); own_or_end(r.g(), "D"); mp_cover("lost at the same time"); }
    if (mode == 1) { mp::Session n; Run r(ch, n, og, ini(o, "E", "h0")); Z_GDU *g = r.g(); mp_assert(g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_initResponse && ref_is(g->u.z3950, "E"), "answered"); mp_cover(*g->u.z3950->u.initResponse->result ? "took the place" : "timed out"); if (*g->u.z3950->u.initResponse->result) { mp::Session e(n); e.close(); Run q(ch, e, og, (Z_GDU *)0); } }
    if (mode == 2) { mp::Session n; Run r(ch, n, og, http_get(o, "GET", "/")); mp_cover("passed on"); }
    pthread_join(t, 0); mp_preempt(0, -1); if (mode == 0 || mode == 3) { mp::Session e(s); e.close(); Run q(ch, e, og, (Z_GDU *)0); }
    mp_assert(yazpp_1::SocketManager::live == 0 && yazpp_1::live_pdu_assoc == 0, "nothing is kept"); mp_cover("done");
}
#endif
