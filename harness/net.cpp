// frontend_net. PROP 1: life of a connection, whatever the schedule; 2: limits; 3: statistics
#include "fx.h"
#include <map>
#include <pthread.h>
#include <metaproxy/filter.hpp>
#include <yazpp/socket-manager.h>
#include <yazpp/pdu-assoc.h>
#include <yazpp/z-assoc.h>
#include "filter_frontend_net.hpp"
namespace mp = metaproxy_1;
int yazpp_1::SocketManager::live = 0; int yazpp_1::live_pdu_assoc = 0;
static pthread_mutex_t hm, dm; static int in_pipe, done; 
extern "C" {
int pipe(int *fd) { fd[0] = 50; fd[1] = 51; return 0; }
int close(int fd) { return 0; }
int fcntl(int fd, int c, ...) { return 0; }
ssize_t read(int fd, void *b, size_t n) { pthread_mutex_lock(&hm); mp_assert(fd == 50 && in_pipe > 0, "the event loop never blocks on the pipe"); in_pipe--; pthread_mutex_unlock(&hm); *(char *)b = 0; return 1; }
ssize_t write(int fd, const void *b, size_t n) { pthread_mutex_lock(&hm); in_pipe++; pthread_mutex_unlock(&hm); return 1; }
}
static std::vector<yazpp_1::Z_Assoc *> servers; static std::vector<std::string> addrs; static int observers;
int yazpp_1::Z_Assoc::server(const char *a) { servers.push_back(this); addrs.push_back(a); static_cast<yazpp_1::PDU_Assoc *>(m_pdu)->m_o->addObserver(1, 0); return 0; }
int yazpp_1::Z_Assoc::client(const char *a) { return -1; }
// a connection as yaz++ would have it
static int alive; static bool defer;
struct Pdu : public yazpp_1::IPDU_Observable {
    yazpp_1::IPDU_Observer *ob; const char *peer; int idle, shut; bool fail_due, freed;
    Pdu(const char *p) : ob(0), peer(p), idle(-2), shut(0), fail_due(false), freed(false) { alive++; }
    ~Pdu() { alive--; }
    const char *getpeername() { return peer; } void idleTime(int t) { idle = t; } void shutdown() { shut++; }
    void close_session() { shut++; if (defer) fail_due = true; else ob->failNotify(); }
};
static void notify() { yazpp_1::SocketManager::last()->socketNotify(yazpp_1::SOCKET_OBSERVE_READ); }
static void scenario(); static bool ran;
int yazpp_1::SocketManager::processEvent() { if (!ran) { ran = true; scenario(); } return 0; }
static void drain() { for (;;) { mp_wait_idle(); if (!in_pipe) break; while (in_pipe) notify(); } }
// the route "R" after the filter
struct Route : public mp::Router {
    const mp::filter::Base *f; Down d;
    struct Pos : public mp::RoutePos { const Route *r; int at; const mp::filter::Base *move(const char *n) { if (at == 0) { at = 1; return r->f; } mp_assert(at == 1 && seq(n, "R"), "along the route of the port"); at = 2; return &r->d; } mp::RoutePos *clone() { Pos *p = new Pos; p->r = r; p->at = at; return p; } };
    mp::RoutePos *createpos() const { Pos *p = new Pos; p->r = this; p->at = 0; return p; } void start() {} void stop(int) {}
};
static xmlNode *conf() { xmlNode *c = xb::el("filter"), *e = xb::el("port"); xb::attr(e, "route", "R"); xb::add(e, xb::text("@:9000")); xb::add(c, e); return c; }
static void run(xmlNode *c) {
    mp::filter::FrontendNet *f = new mp::filter::FrontendNet; f->configure(c, false, 0); mp_assert(servers.size() == 1 && addrs[0] == "@:9000", "listens at the port"); Route r; r.f = f; mp::Session s; mp::Origin og;
    { mp::Package p(s, og); p.router(r).move(); } mp_assert(ran, "serves"); delete f; mp_assert(yazpp_1::live_pdu_assoc == 0, "listener is gone"); mp_cover("done");
}
#if PROP == 1
#ifndef NR
#define NR 2
#endif
static int nrecv, how[NR], handled[NR], sent[NR], closes, kind, ended; static bool gone_wrong; static unsigned long sid; static Pdu *pd; static bool dead, closing; static mp::odr *io;
static int here = -1, normal;
int yazpp_1::Z_Assoc::send_GDU(Z_GDU *g, int *len) {
    mp_assert(m_pdu == pd, "to the client"); int i = -1; *len = 1;
    if (here >= 0) { Z_HTTP_Response *h = g->u.HTTP_Response; mp_assert(g->which == Z_GDU_HTTP_Response && h->code == (how[here] == 4 ? 200 : 500), "answered here"); if (how[here] == 4) { mp_assert(std::string(h->content_buf, h->content_len).find("<frontend_net>") != std::string::npos, "a report"); mp_cover("report"); } else mp_cover("too many"); sent[here]++; handled[here]++; return 0; }
    if (g->which == Z_GDU_Z3950) { Odr_oct *r = *(Odr_oct **)g->u.z3950->u.initRequest; mp_assert(r && r->len == 1, "reference"); i = r->buf[0] - '0'; mp_assert((g->u.z3950->which == Z_APDU_close) == (how[i] == 1) && (how[i] != 1 || *g->u.z3950->u.close->closeReason == Z_Close_systemProblem), "the response, or Close if there is none"); }
    else { mp_assert(g->which == Z_GDU_HTTP_Response, "a response"); Z_HTTP_Response *h = g->u.HTTP_Response; if (h->code == 500) { for (i = 0; i < NR && !(how[i] == 1 && handled[i] && !sent[i]); i++) ; mp_assert(i < NR, "500 for an unhandled request only"); } else { mp_assert(h->content_len == 1, "content"); i = h->content_buf[0] - '0'; } }
    mp_assert(i >= 0 && i < nrecv && handled[i] == 1 && how[i] != 3 && !sent[i], "each response is sent once"); sent[i]++; if (how[i] == 1) mp_cover("unhandled"); return 0;
}
static void down(mp::Package &p) {
    pthread_mutex_lock(&dm); Z_GDU *g = p.request().get(); if (!sid) sid = p.session().id(); mp_assert(sid == p.session().id(), "one session for the connection"); mp_assert(p.origin().get_address() == "1.2.3.4", "from the client");
    if (!g) { mp_assert(p.session().is_closed(), "end of session"); closes++; mp_assert(closes == 1, "the session ends once"); pthread_mutex_unlock(&dm); return; }
    mp_assert(!p.session().is_closed(), "request of a live session"); int i; if (g->which == Z_GDU_Z3950) i = (*(Odr_oct **)g->u.z3950->u.initRequest)->buf[0] - '0'; else i = g->u.HTTP_Request->path[1] - '0';
    mp_assert(i >= 0 && i < nrecv && !handled[i], "each request is handled once"); handled[i]++; pthread_mutex_unlock(&dm);
    mp::odr o; if (how[i] == 0 || how[i] == 2) { if (g->which == Z_GDU_Z3950) p.response() = o.create_initResponse(g->u.z3950, 0, 0); else { mp::Session x; Z_GDU *h = o.create_HTTP_Response(x, g->u.HTTP_Request, 200); char *b = (char *)odr_malloc(o, 1); *b = '0' + i; h->u.HTTP_Response->content_buf = b; h->u.HTTP_Response->content_len = 1; p.response() = h; } }
    if (how[i] >= 2) p.session().close();
}
static bool over() { return !alive; }
static void scenario() {
    defer = mp_pick(0, 1, "output pending at close"); 
#ifdef REPORT
    kind = 1;
#else
    kind = mp_pick(0, 1, "HTTP");
#endif
    pd = new Pdu("tcp:1.2.3.4"); pd->ob = static_cast<yazpp_1::IPDU_Observer *>(servers[0])->sessionNotify(pd, 7); mp_assert(pd->ob != 0, "accepted"); mp_assert(pd->idle == 300, "idle time"); Pdu *keep = pd; mp::odr o; bool lost = false, cut = false;
    for (int k = 0; k < STEPS && alive; k++) {
        int w = mp_pick(0, 5, "event"); if (w == 5) break;
        if (w == 0) { if (nrecv == NR || lost || pd->shut) return; 
#ifdef REPORT
            how[nrecv] = mp_pick(0, 1, "report") * 4; if (!how[nrecv] && normal++ && !cut) how[nrecv] = 5;
#else
            how[nrecv] = mp_pick(0, 3, "what becomes of it");
#endif
            Z_GDU *g; char b[3] = { '/', (char)(how[nrecv] == 4 ? 's' : '0' + nrecv), 0 }; if (kind) g = http_get(o, "GET", b); else { g = (Z_GDU *)odr_malloc(o, sizeof *g); g->which = Z_GDU_Z3950; g->u.z3950 = zget_APDU(o, Z_APDU_initRequest); set_ref(o, g->u.z3950, b + 1); } if (cut) { mp_cover("request of a session that is ending"); } if (how[nrecv] >= 4 && !cut) here = nrecv; int me = nrecv++; static_cast<yazpp_1::Z_Assoc *>(pd->ob)->recv_GDU(g, 1); if (here >= 0) mp_assert(sent[me] == 1, "answered at once"); here = -1; }
        else if (w == 1) { if (!in_pipe) mp_wait_idle(); if (!in_pipe) return; notify(); }
        else if (w == 2) { if (lost) return; lost = cut = true; pd->fail_due = false; pd->ob->failNotify(); }
        else if (w == 3) { if (lost) return; cut = true; pd->ob->timeoutNotify(); }
        else { if (!pd->fail_due) return; pd->fail_due = false; lost = true; pd->ob->failNotify(); mp_cover("closed later"); }
    }
    for (;;) { drain(); if (alive && pd->fail_due) { pd->fail_due = false; lost = true; pd->ob->failNotify(); mp_cover("closed later"); } else break; }
    bool must = cut; for (int i = 0; i < nrecv; i++) if (handled[i] && how[i]) must = true;
    if (alive && !must) { mp_assert(!closes && !keep->shut, "open as long as nobody closes"); for (int i = 0; i < nrecv; i++) mp_assert(handled[i] == 1 && sent[i] == 1, "every request is answered"); pd->ob->failNotify(); for (;;) { drain(); if (alive && pd->fail_due) { pd->fail_due = false; pd->ob->failNotify(); } else break; } mp_cover("answered"); }
    else { for (int i = 0; i < nrecv; i++) mp_assert((handled[i] || cut) && sent[i] == (handled[i] && how[i] != 3), "every response is sent"); mp_cover("ended"); }
    bool seen = false; for (int i = 0; i < nrecv; i++) if (how[i] < 4 && handled[i]) seen = true; mp_assert(closes == 1 || (!seen && nrecv), "the session ends"); mp_assert(!alive, "the connection is given up");
}
void mp_main(void) { mp_preempt(0, PB); xmlNode *c = conf(), *e; xb::add(c, e = xb::el("threads")); xb::add(e, xb::text(mp_pick(1, NT, "threads") == 1 ? "1" : "2")); xb::add(c, e = xb::el("max-threads")); xb::add(e, xb::text("1"));
#ifdef REPORT
    xb::add(c, e = xb::el("stat-req")); xb::add(e, xb::text("/s")); xb::add(c, e = xb::el("http-req-max")); xb::add(e, xb::text("1"));
#endif
    run(c); }
#endif
#if PROP == 2
#ifndef STEPS
#define STEPS 3
#endif
static const char *pats[] = { "", "1.2.3.4", "5.* 1.2.3.*", "9.9" }, *peers[] = { "tcp:1.2.3.4", "tcp:5.6.7.8" }; static const bool hits[4][2] = { { 1, 1 }, { 1, 0 }, { 1, 1 }, { 0, 0 } };
static const char *el; static int n, pat[2], val[2], code, asked; static yazpp_1::IPDU_Observable *to;
int yazpp_1::Z_Assoc::send_GDU(Z_GDU *g, int *len) { mp_assert(g->which == Z_GDU_HTTP_Response && m_pdu == to && !code, "one response"); code = g->u.HTTP_Response->code; *len = 1; return 0; }
static void down(mp::Package &p) { Z_GDU *g = p.request().get(); if (!g) return; asked++; mp::Session x; mp::odr o; p.response() = o.create_HTTP_Response(x, g->u.HTTP_Request, 200); }
static int limit(int who, int dflt) { for (int i = 0; i < n; i++) if (hits[pat[i]][who]) return val[i]; return dflt; }
static void scenario() {
    Pdu *c[STEPS]; int who[STEPS], k, open[2] = { 0, 0 }, total[2] = { 0, 0 }, reqs[2] = { 0, 0 }; mp::odr o;
    int steps = n == 2 ? STEPS - 1 : STEPS; for (k = 0; k < STEPS; k++) c[k] = 0;
    for (k = 0; k < steps; k++) {
        who[k] = k ? mp_pick(0, 1, "peer") : 0; int w = who[k]; c[k] = new Pdu(peers[w]); c[k]->ob = static_cast<yazpp_1::IPDU_Observer *>(servers[0])->sessionNotify(c[k], 7); bool want = true;
        if (seq(el, "connect-total")) want = open[w] < limit(w, 1000); if (seq(el, "connect-max")) want = total[w] < limit(w, 1000);
        mp_assert((c[k]->ob != 0) == want, "connections are accepted up to the limit"); if (!want) { mp_cover("refused"); delete c[k]; c[k] = 0; continue; } total[w]++; open[w]++;
        mp_assert(c[k]->idle == (seq(el, "timeout") ? limit(w, 300) : 300), "time out of the first pattern that matches");
        if (seq(el, "http-req-max")) for (int r = mp_pick(0, 2, "requests"); r > 0 && c[k]; r--) { bool ok = reqs[w] < limit(w, 1000); code = 0; asked = 0; to = c[k]; int before = alive; static_cast<yazpp_1::Z_Assoc *>(c[k]->ob)->recv_GDU(http_get(o, "GET", "/x"), 1); drain(); mp_assert(code == (ok ? 200 : 500) && asked == ok, "requests are handled up to the limit"); if (ok) reqs[w]++; else { mp_assert(alive == before - 1, "closed"); c[k] = 0; open[w]--; mp_cover("too many"); } }
        if (c[k] && mp_pick(0, 1, "disconnect")) { int j = mp_pick(0, k, "which"); if (c[j]) { c[j]->ob->failNotify(); drain(); c[j] = 0; open[who[j]]--; } }
    }
    int left = 0; for (k = 0; k < STEPS; k++) if (c[k]) left++; mp_assert(alive == left, "only closed connections are gone"); for (k = 0; k < STEPS; k++) if (c[k]) { c[k]->ob->failNotify(); drain(); } mp_assert(!alive, "all are gone");
}
void mp_main(void) { mp_preempt(0, -1); xmlNode *c = conf(), *e; static const char *els[] = { "connect-total", "connect-max", "http-req-max", "timeout" }; el = els[mp_pick(0, 3, "limit")]; n = mp_pick(0, 2, "elements");
    for (int i = 0; i < n; i++) { pat[i] = mp_pick(0, i ? 2 : 3, "pattern"); xb::add(c, e = xb::el(el)); if (pat[i]) xb::attr(e, "ip", pats[pat[i]]); char v[2] = { 0, 0 }; mp_sym(v, 1, "value"); mp_assume(v[0] >= '0' && v[0] <= '3'); val[i] = v[0] - '0'; xb::add(e, xb::text(v)); }
    run(c); }
#endif
