// C05 configuration acceptance, C06 route walking, C07 start/stop: RouterFleXML and RouterChain.
#include "xmlb.h"
#include <metaproxy/filter.hpp>
#include <metaproxy/router_chain.hpp>
#include <metaproxy/xmlutil.hpp>
#include "router_flexml.hpp"
#include "factory_filter.hpp"
#include <vector>
#include <stdexcept>
namespace mp = metaproxy_1;
#ifndef NF
#define NF 2
#endif
#ifndef NR
#define NR 2
#endif
struct Ev { const xmlNode *n; int what, signo; };
static std::vector<Ev> ev;
static int configured;
class HF : public mp::filter::Base {
public:
    const xmlNode *n; int tag;
    HF(int t) : n(0), tag(t) {}
    void process(mp::Package &) const;
    void configure(const xmlNode *p, bool, const char *) { n = p; configured++; }
    void start() const { ev.push_back(Ev{n, 1, 0}); }
    void stop(int s) const { ev.push_back(Ev{n, 2, s}); }
};
static mp::filter::Base *mk1() { return new HF(1); }
static mp::filter::Base *mk2() { return new HF(2); }
struct RF { int ref; const char *refid; const char *type; xmlNode *n; };
struct Route { char *id; std::vector<const xmlNode *> list; };
static char *id1(const char *nm) { char *s = sym_cstr(1, nm); mp_assume(s[0] >= 'a' && s[0] <= 'c'); if (PROP == 6 || PROP == 9) s[0] = (char)mp_concretize(s[0]); return s; }

static int anom = 1;                    // anomalies still allowed in this document
// a choice among nrm ordinary forms and odd forms beyond them (at most one odd form per document)
static int odd(int nrm, int all, const char *name) { int k = mp_pick(0, (anom ? all : nrm) - 1, name); if (k >= nrm) anom--; return k; }
static bool bad;                        // the oracle's verdict
static std::vector<char *> fids; static std::vector<xmlNode *> fnodes;
static std::vector<char *> routerefs;
static Route R[4]; static int nroutes;
static void child_route(xmlNode *f) {
    int k = odd(2, 3, "childroute");
    if (!k) return;
    if (k == 2) xb::add(f, xb::text("\n"));
    xmlNode *c = xb::add(f, xb::el("target"));
    if (k == 2) xb::attr(c, "x", "y");
    char *r = id1("child"); xb::attr(c, "route", r); routerefs.push_back(r);
}
static void route_filter(xmlNode *parent, Route &r, int rich) {
    int k = rich ? odd(2, 7, "rfkind") : mp_pick(0, 1, "rfkind");
    if (k == 4) { xmlNode *n = xb::add(parent, xb::el("filters")); for (int m = mp_pick(0, 2, "nested"); m > 0; m--) route_filter(n, r, 0); return; }
    if (k == 5) { xb::add(parent, xb::el("bogus")); bad = true; return; }
    xmlNode *f = xb::add(parent, xb::el("filter"));
    if (k == 0 || k == 3) {
        char *x = id1("refid");
        if (k == 3) xb::attr(f, "base", "b");
        xb::attr(f, "refid", x);
        bool hit = false;
        for (size_t i = 0; i < fids.size() && !hit; i++) if (fids[i] && !strcmp(fids[i], x)) { r.list.push_back(fnodes[i]); hit = true; }
        if (!hit) bad = true;
    } else if (k == 1) { int t = odd(1, 3, "rftype"); static const char *ty[] = {"t1", "t2", "nosuch"}; xb::attr(f, "type", ty[t]); if (t == 2) bad = true; child_route(f); r.list.push_back(f); }
    else if (k == 2) { if (rich) {} /* neither refid nor type: no filter */ }
    else { xb::attr(f, "id", "z"); bad = true; }
}
static xmlDoc *config(int focus) {
    // focus 0: section structure; 1: filters; 2: routes
    xmlNode *root = xb::el("metaproxy");
    if (focus == 0) { int k = odd(1, 3, "root"); if (k) bad = true; if (k == 1) root = xb::el("metaprox"); if (k == 2) root = xb::el("metaproxy", "other"); }
    xb::add(root, xb::comment("c")); xb::add(root, xb::text("\n"));
    if (focus == 0) { int k = odd(1, 3, "dlpath"); if (k) { xmlNode *d = xb::add(root, xb::el("dlpath")); if (k == 2) xb::add(d, xb::text("/nonexistent")); } }
    static char dflt[] = "start"; char *start = dflt;
    int sk = focus == 0 ? odd(2, 5, "startkind") : 1;
    if (sk == 2) bad = true;
    else {
        xmlNode *s = xb::add(root, xb::el("start"));
        if (sk == 1 || sk == 3) { start = id1("start"); if (sk == 3) xb::attr(s, "base", "x"); xb::attr(s, "route", start); }
        if (sk == 4) { xb::attr(s, "rout", "a"); bad = true; }
    }
    int havef = focus == 2 ? 1 : mp_pick(0, 1, "havefilters");
    if (havef) {
        xmlNode *fs = xb::add(root, xb::el("filters"));
        int n = focus == 1 ? mp_pick(0, NF, "nfilters") : 1;
        for (int i = 0; i < n; i++) {
            xb::add(fs, xb::text(" "));
            int k = focus == 1 ? odd(1, 6, "fkind") : 0;
            if (k == 3) { xb::add(fs, xb::el("filtr")); bad = true; continue; }
            xmlNode *f = xb::add(fs, xb::el("filter"));
            char *id = 0;
            if (k != 1) { id = id1("fid"); xb::attr(f, "id", id); }
            if (k == 2) { xb::attr(f, "name", "q"); bad = true; }
            if (k == 4) xb::attr(f, "base", "q");
            static const char *ty[] = {"t1", "t2", "nosuch"};
            int t = k == 5 ? 2 : focus == 1 ? i & 1 : 0;
            xb::attr(f, "type", ty[t]); if (t == 2) bad = true;
            if (focus == 1) child_route(f);
            for (size_t j = 0; j < fids.size(); j++) if ((!fids[j] && !id) || (fids[j] && id && !strcmp(fids[j], id))) bad = true;
            fids.push_back(id); fnodes.push_back(f);
        }
    }
    int rk = focus == 0 ? odd(1, 4, "routeskind") : 0;
    if (rk == 1) bad = true;
    if (rk == 2) { xb::add(root, xb::el("bogus")); bad = true; }
    if (rk != 1) {
        xmlNode *rs = xb::add(root, xb::el("routes"));
        int n = focus == 2 ? mp_pick(0, NR, "nroutes") : 1;
        if (!n) bad = true;
        for (int i = 0; i < n; i++) {
            int k = focus == 2 ? odd(1, 5, "rkind") : 0;
            if (k == 1) { xb::add(rs, xb::el("rute")); bad = true; continue; }
            xmlNode *r = xb::add(rs, xb::el("route"));
            Route &o = R[nroutes]; o.id = 0;
            static char em[] = "";
            o.id = em;
            if (k == 2) { xb::attr(r, "name", "x"); bad = true; }
            if (k == 3) xb::attr(r, "base", "x");
            if (k != 4) { o.id = focus == 0 && mp_pick(0, 1, "namedstart") ? dflt : id1("rid"); xb::attr(r, "id", o.id); }
            for (int j = 0; j < nroutes; j++) if (!strcmp(R[j].id, o.id)) bad = true;
            nroutes++;
            int m = focus == 2 ? mp_pick(0, i == 0 ? 2 : 1, "nrfilters") : mp_pick(0, 1, "nrfilters");
            for (int j = 0; j < m; j++) { xb::add(r, xb::comment("x")); route_filter(r, o, focus == 2); }
        }
    }
    if (rk == 3) { xb::add(root, xb::el("routes")); bad = true; }
    bool hs = false; for (int j = 0; j < nroutes; j++) if (!strcmp(R[j].id, start)) hs = true;
    if (!hs) bad = true;
    for (size_t i = 0; i < routerefs.size(); i++) { bool h = false; for (int j = 0; j < nroutes; j++) if (!strcmp(R[j].id, routerefs[i])) h = true; if (!h) bad = true; }
    // the start route first
    if (hs) for (int j = 1; j < nroutes; j++) if (!strcmp(R[j].id, start)) { std::swap(R[0].id, R[j].id); std::swap(R[0].list, R[j].list); break; }
    return xb::doc(root);
}
static const xmlNode *who(const mp::filter::Base *b) { return b ? static_cast<const HF *>(b)->n : 0; }
static Route *find(const char *s) { for (int j = 0; j < nroutes; j++) if (!strcmp(R[j].id, s)) return &R[j]; return 0; }
// a position as the property sees it
struct Pos { mp::RoutePos *p; Route *r; size_t i; };
static void step(Pos &q, const char *label) {
    const xmlNode *want = q.r && q.i < q.r->list.size() ? q.r->list[q.i] : 0;
    if (want) q.i++;
    mp_assert(who(q.p->move(0)) == want, label);
    mp_cover(want ? "next filter" : "end of route");
}
static void jump(Pos &q) {
    char *t = id1("jump"); if (mp_pick(0, 1, "odd")) t = (char *)"nowhere";
    Route *r = find(t);
    const xmlNode *f = who(q.p->move(t));
    if (!r) { mp_assert(f == 0, "an unknown route yields nobody"); mp_cover("unknown route"); return; }
    q.r = r; q.i = 0;
    const xmlNode *want = r->list.size() ? r->list[0] : 0; if (want) q.i = 1;
    mp_assert(f == want, "a named route starts with its first filter"); mp_cover("named route");
}
static void walk(mp::Router &router) {
    Pos q[2]; q[0].p = router.createpos(); q[0].r = &R[0]; q[0].i = 0; int n = 1;
    mp_assert(q[0].p != 0, "a fresh position exists"); if (!q[0].p) mp_end();
    for (int s = 0; s < STEPS; s++) {
        int w = n == 2 ? mp_pick(0, 1, "which") : 0;
        switch (mp_pick(0, 2, "op")) {
        case 0: step(q[w], "filters come in configured order"); break;
        case 1: jump(q[w]); break;
        case 2: if (n == 2) { if (w) mp_end(); delete q[1].p; } q[1] = q[0]; q[1].p = q[0].p->clone(); n = 2; mp_cover("clone"); break;
        }
    }
    for (int w = 0; w < n; w++) { step(q[w], "filters come in configured order"); step(q[w], "filters come in configured order"); delete q[w].p; }
}
static bool seq(size_t at, unsigned used, int what, int signo) {
    if (at == ev.size()) { for (int j = 0; j < nroutes; j++) if (!(used & (1u << j)) && R[j].list.size()) return false; return true; }
    for (int j = 0; j < nroutes; j++) {
        if ((used & (1u << j)) || !R[j].list.size() || at + R[j].list.size() > ev.size()) continue;
        bool ok = true;
        for (size_t k = 0; k < R[j].list.size(); k++) if (ev[at + k].n != R[j].list[k] || ev[at + k].what != what) ok = false;
        if (ok && seq(at + R[j].list.size(), used | (1u << j), what, signo)) return true;
    }
    return false;
}
#if PROP == 9
#include <metaproxy/package.hpp>
// two routes, a and b, of a few filters each
static xmlDoc *small() {
    xmlNode *root = xb::el("metaproxy"); xmlNode *st = xb::add(root, xb::el("start")); static char a[] = "a", b[] = "b"; int first = mp_pick(0, 1, "start");
    xb::attr(st, "route", first ? b : a); xmlNode *rs = xb::add(root, xb::el("routes")); nroutes = 2;
    for (int i = 0; i < 2; i++) { Route &o = R[i ^ first]; o.id = i ? b : a; xmlNode *r = xb::add(rs, xb::el("route")); xb::attr(r, "id", o.id); int m = mp_pick(0, i ? 1 : 3, "filters"); for (int j = 0; j < m; j++) { xmlNode *f = xb::add(r, xb::el("filter")); xb::attr(f, "type", "t1"); o.list.push_back(f); } }
    return xb::doc(root);
}
// packages: what the next filter is when a filter hands a package on
struct Place { Route *r; size_t i; };
static Place *at; static const xmlNode *want_n; static bool called; static int left = STEPS;
static void go(mp::Package &p, Place &l, bool named) {
    std::string t; Route *r = l.r; size_t i = l.i; const xmlNode *want;
    if (named) { static const char *to[] = { "a", "b", "nowhere" }; t = to[mp_pick(0, 2, "to")]; r = find(t.c_str()); i = 0; }
    want = r && i < r->list.size() ? r->list[i] : 0;
    if (r) { l.r = r; l.i = want ? i + 1 : i; }
    at = &l; want_n = want; called = false;
    if (named) p.move(t); else if (left < 1) p.move(""); else p.move();
    mp_assert(!want || called, "the package is handed to the next filter of its route"); called = true;
    mp_cover(named && !r ? "unknown route" : !want ? "end of route" : named ? "named route" : "next filter");
}
void HF::process(mp::Package &p) const {
    mp_assert(want_n != 0, "a package is handed to nobody after the last filter"); mp_assert(want_n == n && !called, "filters come in configured order"); called = true; Place *l = at;
    if (left <= 0) return; left--;
    int op = mp_pick(0, 3, "op");
    if (op == 3) { mp::Package q(p.session(), p.origin()); q.copy_filter(p); Place m = *l; go(q, m, mp_pick(0, 1, "named")); mp_cover("clone"); op = 1; }
    if (op) go(p, *l, op == 2);
}
#else
void HF::process(mp::Package &) const {}
#endif
void mp_main(void) {
#if PROP == 8
    // RouterChain
    HF f[3] = { HF(1), HF(2), HF(3) }; xmlNode *nd[3]; for (int i = 0; i < 3; i++) { nd[i] = xb::el("f"); f[i].n = nd[i]; }
    mp::RouterChain c; int n = mp_pick(0, 4, "chain"); static char nm[] = "x"; R[0].id = nm; nroutes = 1;
    for (int i = 0; i < n; i++) { int k = mp_pick(0, 2, "filter"); c.append(f[k]); R[0].list.push_back(nd[k]); }
    mp::Router &r = c;
    Pos q[2]; q[0].p = r.createpos(); q[0].r = &R[0]; q[0].i = 0; int m = 1;
    for (int s = 0; s < 5; s++) { if (m == 1 && mp_pick(0, 1, "clone")) { q[1] = q[0]; q[1].p = q[0].p->clone(); m = 2; mp_cover("clone"); } step(q[m == 2 ? mp_pick(0, 1, "which") : 0], "filters come in configured order"); }
    for (int w = 0; w < m; w++) delete q[w].p;
    r.start(); mp_assert(seq(0, 0, 1, 0), "start reaches every filter in order");
    ev.clear(); int sg = mp_i32("signo"); r.stop(sg);
    mp_assert(seq(0, 0, 2, sg), "stop reaches every filter in order");
    for (size_t i = 0; i < ev.size(); i++) mp_assert(ev[i].signo == sg, "signal number is passed on");
    mp_cover("done");
    return;
#else
    mp::FactoryFilter fac; fac.add_creator("t1", mk1); fac.add_creator("t2", mk2);
    #ifndef FORMS
    if (PROP == 6 || PROP == 9) anom = 0;
#endif
#if PROP == 9
    xmlDoc *d = small();
#else
    xmlDoc *d = config(PROP == 5 ? mp_pick(0, 2, "focus") : 2);
#endif
    if (PROP != 5) mp_assume(!bad);
    bool ok = false; mp::RouterFleXML *r = 0;
    try { r = new mp::RouterFleXML(d, fac, false, 0); ok = true; } catch (std::runtime_error &) {}
    if (PROP == 5) {
        mp_assert(!(ok && bad), "a bad configuration is refused");
        mp_assert(ok || bad, "a good configuration is accepted");
        mp_cover(ok ? "accepted" : "refused");
        return;
    }
    mp_assert(ok, "a good configuration is accepted");
#if PROP == 6
    walk(*r);
#elif PROP == 9
    { mp::Session se; mp::Origin og; { mp::Package w(se, og); w.router(*r); } Place l; l.r = &R[0]; l.i = 0; long heap = mp_heap_live(); { mp::Package p(se, og); p.router(*r); go(p, l, mp_pick(0, 1, "named")); if (mp_pick(0, 1, "again")) go(p, l, false); } mp_assert(mp_heap_live() <= heap, "positions are released"); }
#elif PROP == 7
    r->start();
    mp_assert(seq(0, 0, 1, 0), "start reaches every filter of every route in order");
    if (ev.size() > 1) mp_cover("started several");
    ev.clear();
    int sg = mp_i32("signo"); r->stop(sg);
    mp_assert(seq(0, 0, 2, sg), "stop reaches every filter of every route in order");
    for (size_t i = 0; i < ev.size(); i++) mp_assert(ev[i].signo == sg, "signal number is passed on");
#endif
    mp_cover("done");
#endif
}
