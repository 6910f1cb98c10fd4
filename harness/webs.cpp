// HTTP filters that talk to something else. PROP 1: http_client; 2: cgi
#include "fx.h"
#include "ifs.h"
#include <yaz/url.h>
static const char *hdr(Z_HTTP_Header *h, const char *n) { return z_HTTP_header_lookup(h, n); }
#if PROP == 1
#include "filter_http_client.hpp"
static int passed; static void down(mp::Package &) { passed++; }
struct yaz_url { ODR o; std::string proxy; bool has_proxy; int redirects; };
static int live, execs, outcome; static std::string uri, method, body, proxy, fwd; static bool has_proxy, has_fwd, has_xmp; static int redirects, code; static std::string acc;
static const char answer[] = "ans";
extern "C" {
yaz_url_t yaz_url_create(void) { yaz_url_t u = new yaz_url; u->o = odr_createmem(ODR_DECODE); u->has_proxy = false; u->redirects = 10; live++; return u; }
void yaz_url_destroy(yaz_url_t u) { if (!u) return; odr_destroy(u->o); delete u; live--; }
void yaz_url_set_proxy(yaz_url_t u, const char *p) { u->has_proxy = p != 0; u->proxy = p ? p : ""; }
void yaz_url_set_max_redirects(yaz_url_t u, int n) { u->redirects = n; }
void yaz_url_set_verbose(yaz_url_t, int) {} void yaz_url_set_timeout(yaz_url_t, int, int) {}
const char *yaz_url_get_error(yaz_url_t) { return outcome == 1 ? "no way" : ""; }
Z_HTTP_Response *yaz_url_exec(yaz_url_t u, const char *a, const char *m, Z_HTTP_Header *h, const char *b, size_t n) {
    execs++; uri = a; method = m; body = n ? std::string(b, n) : std::string(); proxy = u->proxy; has_proxy = u->has_proxy; redirects = u->redirects; const char *v = hdr(h, "X-Forwarded-For"); has_fwd = v != 0; fwd = v ? v : ""; has_xmp = hdr(h, "X-Metaproxy-Proxy") != 0; acc = hdr(h, "Accept") ? hdr(h, "Accept") : "";
    if (outcome == 1) return 0;
    Z_HTTP_Response *r = (Z_HTTP_Response *)odr_malloc(u->o, sizeof *r); r->headers = 0; r->version = odr_strdup(u->o, "1.1"); r->code = code; r->content_buf = odr_strdup(u->o, answer); r->content_len = 3;
    z_HTTP_header_add(u->o, &r->headers, "A", "1"); if (outcome == 2) z_HTTP_header_add(u->o, &r->headers, "Transfer-Encoding", "chunked"); z_HTTP_header_add(u->o, &r->headers, "B", "2"); return r;
}
}
void mp_main(void) {
    mp::filter::HTTPClient *f = new mp::filter::HTTPClient; xmlNode *c = xb::el("filter"), *e; bool bad = false, xff = false, bind = false; std::string dh, px; int mr = 0;
    int cfg = mp_pick(0, 9, "config"); xb::add(c, xb::text("\n"));
    if (cfg == 1) { xb::add(c, xb::el("timeout")); bad = true; }
    if (cfg == 2) { xb::add(c, e = xb::el("default-host")); xb::add(e, xb::text("h")); bad = true; }
    if (cfg == 3 || cfg >= 7) { dh = "http://h"; xb::add(c, e = xb::el("default-host")); xb::add(e, xb::text("http://h")); }
    if (cfg == 4 || cfg == 9) { px = "p:1"; xb::add(c, e = xb::el("proxy")); xb::add(e, xb::text("p:1")); }
    if (cfg == 5 || cfg == 8 || cfg == 9) { xff = true; xb::add(c, e = xb::el("x-forwarded-for")); xb::add(e, xb::text("true")); mr = 7; xb::add(c, e = xb::el("max-redirects")); xb::add(e, xb::text("7")); }
    if (cfg == 6 || cfg == 7 || cfg == 9) { bind = true; xb::add(c, e = xb::el("bind_host")); xb::add(e, xb::text("1")); }
    bool ok = true; try { f->configure(c, false, 0); } catch (std::exception &) { ok = false; }
    mp_assert(ok == !bad, "configurations are accepted if and only if they are valid"); if (!ok) { delete f; mp_cover("refused"); return; }
    Chain ch(*f); mp::Session s; mp::Origin og; og.set_tcpip_address("peer addr", s.id()); mp::odr o;
    int kind = mp_pick(0, 2, "package");
    if (kind) { if (kind == 1) { Run r(ch, s, og, (Z_GDU *)0); mp_assert(passed == 1 && !r.g() && !execs && !live, "passed on"); } else { Run r(ch, s, og, mk_req(o, Z_APDU_searchRequest)); mp_assert(passed == 1 && !r.g() && !execs && !live, "passed on"); } delete f; mp_cover("passed on"); return; }
    std::string path; { static const char *pre[] = { "", "/", "http://" }; path = pre[mp_pick(0, 2, "path form")]; char *t = sym_cstr(mp_pick(0, NB, "length"), "path"); path += t; }
    static const char *ms[] = { "GET", "POST", "x" }; Z_GDU *g = http_get(o, ms[mp_pick(0, 2, "method")], path.c_str()); Z_HTTP_Request *h = g->u.HTTP_Request; std::string want_method = h->method;
    int ver = mp_pick(0, 3, "connection"); h->version = odr_strdup(o, ver < 2 ? "1.0" : "1.1"); if (ver == 1) z_HTTP_header_add(o, &h->headers, "Connection", "Keep-Alive"); if (ver == 3) z_HTTP_header_add(o, &h->headers, "Connection", "close"); bool closes = ver == 0 || ver == 3;
    int xp = mp_pick(0, 2, "proxy header"); static const char *xps[] = { 0, "", "q:2" }; if (xp) z_HTTP_header_add(o, &h->headers, "X-Metaproxy-Proxy", xps[xp]);
    int fw = xff || mp_pick(0, 1, "forwarded") ? mp_pick(0, 3, "forwarded header") : 0; static const char *fws[] = { 0, "old", "peer", "peer, speerx" }; std::string had = fw ? fws[fw] : ""; if (fw) z_HTTP_header_add(o, &h->headers, "x-forwarded-for", fws[fw]); z_HTTP_header_add(o, &h->headers, "Accept", "a");
    bool hasbody = mp_pick(0, 1, "body"); if (hasbody) { h->content_buf = odr_strdup(o, "b\1d"); h->content_len = 3; }
    outcome = mp_pick(0, 2, "outcome"); code = mp_i32("code");
    Run r(ch, s, og, g); Z_GDU *z = r.g(); mp_assert(z && z->which == Z_GDU_HTTP_Response && !passed, "answered"); mp_assert(live == 0, "handles are released"); mp_assert(r.p.session().is_closed() == closes, "the session ends if the client asks for it");
    Z_HTTP_Response *w = z->u.HTTP_Response;
    std::string want = path.size() && path[0] == '/' ? (dh.size() ? dh + path : std::string()) : path;
    if (want.empty()) { mp_assert(!execs && w->code == 404, "no target: 404"); mp_cover("no target"); }
    else {
        if (bind) want += " addr"; mp_assert(execs == 1 && uri == want, "the URI that is asked for"); mp_assert(method == want_method && body == (hasbody ? "b\1d" : ""), "the method and content of the request"); mp_assert(redirects == mr, "redirects as configured");
        std::string wp = xp ? xps[xp] : px.c_str(); mp_assert(wp.size() ? has_proxy && proxy == wp : !has_proxy || proxy.empty(), "the proxy"); mp_assert(!has_xmp, "the proxy header is for Metaproxy only"); mp_assert(acc == "a", "other headers stay");
        if (xff) { mp_assert(has_fwd && fwd == (fw ? had + ", peer" : std::string("peer")), "forwarded for"); mp_cover("forwarded"); } else mp_assert(has_fwd == (fw != 0) && (!fw || fwd == had), "forwarded header as it was");
        if (outcome == 1) { mp_assert(w->code == 502 && std::string(w->content_buf, w->content_len).find("no way") != std::string::npos, "failure is told"); mp_cover("failed"); }
        else { mp_assert(w->code == code && w->content_len == 3 && !memcmp(w->content_buf, "ans", 3), "the answer of the target"); mp_assert(!hdr(w->headers, "Transfer-Encoding") && seq(hdr(w->headers, "A"), "1") && seq(hdr(w->headers, "B"), "2"), "its headers but for the transfer encoding"); mp_cover("answered"); }
    }
    delete f; mp_cover("done");
}
#endif
#if PROP == 2
#include "filter_cgi.hpp"
#include <yaz/poll.h>
#include <signal.h>
#include <errno.h>
#include <map>
static int passed; static void down(mp::Package &) { passed++; }
// the script and what the filter sees of it
struct ScriptRuns { int how; };                // thrown where the child would become the script (or end)
enum { NONE, REQ_R, REQ_W, RES_R, RES_W, STD_IN, STD_OUT };
static int fdt[24]; static bool child_side; static int pipes, forks, waits, kills; static int pipe_fail, fork_res; // pipe_fail: the nth pipe fails
static std::map<std::string, std::string> env; static std::string cwd, ran, arg0; static bool chdir_fails;
static int takes, nout, outpos, hangs; static std::string got, output, body; static bool in_closed, valid, decoded; static int polls;
static const int PID = 77;
static int low() { int i = 0; while (fdt[i]) i++; return i; }
extern "C" {
int mp_pipe(int *p) { if (++pipes == pipe_fail) return -1; bool res = pipes == 1; p[0] = low(); fdt[p[0]] = res ? RES_R : REQ_R; p[1] = low(); fdt[p[1]] = res ? RES_W : REQ_W; return 0; }
int mp_close(int f) { mp_assert(f >= 0 && f < 24 && fdt[f] != NONE, "only open files are closed"); fdt[f] = NONE; return 0; }
int mp_dup(int f) { mp_assert(f >= 0 && f < 24 && fdt[f] != NONE, "an open file"); int n = low(); fdt[n] = fdt[f]; return n; }
int mp_dup2(int f, int n) { mp_assert(f >= 0 && f < 24 && fdt[f] != NONE && n >= 0 && n < 24, "an open file"); fdt[n] = fdt[f]; return n; }
int mp_fcntl(int, int, ...) { return 0; }
pid_t mp_fork(void) { forks++; child_side = fork_res == 0; return fork_res; }
int mp_chdir(const char *d) { if (!*d || chdir_fails) return -1; cwd = d[0] == '/' || cwd.empty() ? std::string(d) : cwd + "/" + d; return 0; }
int mp_setenv(const char *n, const char *v, int over) { if (over || !env.count(n)) env[n] = v; return 0; }
int mp_execl(const char *p, const char *a, ...) { mp_assert(child_side, "only the child becomes the script"); ran = p; arg0 = a; if (hangs == 2) return -1; throw ScriptRuns{0}; }
void mp_exit(int c) { mp_assert(child_side, "only the child ends"); throw ScriptRuns{c ? 1 : 2}; }
int mp_kill(pid_t p, int) { mp_assert(p == PID, "only the script is ended"); kills++; return 0; }
pid_t mp_waitpid(pid_t p, int *st, int) { mp_assert(p == PID, "the script is waited for"); mp_assert(!hangs || kills, "a script that does not end is not waited for"); waits++; *st = 0; return p; }
int mp_yaz_poll(struct yaz_poll_fd *f, int n, int sec, int) {
    polls++; mp_assert(polls < 20, "polling makes progress"); mp_assert(sec > 0, "with a time limit"); bool rd = false, wr = false; int ri = -1, wi = -1;
    for (int i = 0; i < n; i++) { f[i].output_mask = (enum yaz_poll_mask)0; int o = f[i].fd >= 0 && f[i].fd < 24 ? fdt[f[i].fd] : NONE; if (o == RES_R && (f[i].input_mask & yaz_poll_read)) { ri = i; rd = outpos < nout || !hangs; } if (o == REQ_W && (f[i].input_mask & yaz_poll_write)) { wi = i; wr = (int)got.size() < takes || in_closed; } }
    if (!in_closed && (int)got.size() >= takes && takes < (int)body.size() && hangs == 0) in_closed = wr = wi >= 0;   // the script wants no more
    if (!rd && !wr) return 0; if (rd && wr) { int k = mp_pick(0, 2, "ready"); rd = k != 1; wr = k != 0; }
    int r = 0; if (rd) { f[ri].output_mask = yaz_poll_read; r++; } if (wr) { f[wi].output_mask = yaz_poll_write; r++; } return r;
}
ssize_t mp_read(int f, void *b, size_t n) { mp_assert(f >= 0 && f < 24 && fdt[f] == RES_R, "the response of the script is read"); if (outpos < nout) { char c = mp_i32("output"); *(char *)b = c; output += c; outpos++; return 1; } mp_assert(!hangs, "not beyond what is there"); return 0; }
ssize_t mp_write(int f, const void *b, size_t n) { mp_assert(f >= 0 && f < 24 && fdt[f] == REQ_W && n > 0, "the content is written to the script"); if (in_closed) { errno = EPIPE; return -1; } size_t room = takes - got.size(), k = n < room ? n : room; if (k > 1 && mp_pick(0, 1, "partly")) k = 1; got.append((const char *)b, k); return k; }
void mp_odr_setbuf(ODR, char *b, int n, int) { std::string s(b, n); decoded = true; mp_assert(s == "HTTP/1.1 200 OK\r\n" + output, "all that the script wrote is the response"); }
int mp_z_GDU(ODR o, Z_GDU **g, int, const char *) { if (!valid) return 0; Z_GDU *x = (Z_GDU *)odr_malloc(o, sizeof *x); x->which = Z_GDU_HTTP_Response; Z_HTTP_Response *r = (Z_HTTP_Response *)odr_malloc(o, sizeof *r); memset(r, 0, sizeof *r); r->version = odr_strdup(o, "1.1"); r->code = 200; r->content_buf = odr_strdup(o, "out"); r->content_len = 3; x->u.HTTP_Response = r; *g = x; return 1; }
}
void mp_main(void) {
    mp::filter::CGI *f = new mp::filter::CGI; xmlNode *c = xb::el("filter"), *e; bool bad = false, root = false; std::map<std::string, std::string> uenv; static const char *mps[] = { "/a", "/ab", "" }, *prg[] = { "./d/p", "q", "/p", "/x/r" }; std::vector<std::pair<std::string, std::string> > maps;
    int focus = mp_pick(0, 2, "focus"); /* 0: configurations, paths and the child, 1: the exchange, 2: failures */ int cfg = focus ? 0 : mp_pick(0, 6, "config"); if (cfg == 1) { xb::add(c, xb::el("mapp")); bad = true; } if (cfg == 2) { xb::add(c, e = xb::el("map")); xb::attr(e, "paths", "/a"); bad = true; } if (cfg == 3) { xb::add(c, e = xb::el("env")); xb::attr(e, "nam", "/a"); bad = true; }
    if (cfg == 4) { root = true; xb::add(c, e = xb::el("documentroot")); xb::add(e, xb::text(".")); xb::add(c, e = xb::el("env")); xb::attr(e, "name", "E"); xb::attr(e, "value", "v"); uenv["E"] = "v"; xb::add(c, e = xb::el("env")); xb::attr(e, "value", "z"); xb::attr(e, "name", "PATH_INFO"); uenv["PATH_INFO"] = "z"; }
    int nm = cfg == 6 ? 0 : cfg == 5 ? 2 : 1; for (int i = 0; i < nm; i++) { int a = focus ? 0 : mp_pick(0, 2, "map path"), b = i || focus ? 1 : mp_pick(0, 3, "program"); xb::add(c, xb::text(" ")); xb::add(c, e = xb::el("map")); xb::attr(e, "path", mps[a]); xb::attr(e, "exec", prg[b]); maps.push_back(std::make_pair(std::string(mps[a]), std::string(prg[b]))); }
    bool ok = true; try { f->configure(c, false, "/cfg"); } catch (std::exception &) { ok = false; } mp_assert(ok == !bad, "configurations are accepted if and only if they are valid"); if (!ok) { delete f; mp_cover("refused"); return; }
    Chain ch(*f); mp::Session s; mp::Origin og; mp::odr o; for (int i = 0; i < 3; i++) fdt[i] = STD_IN; fdt[1] = STD_OUT; int before[24]; memcpy(before, fdt, sizeof fdt);
    if (!focus && mp_pick(0, 1, "package")) { Run r(ch, s, og, mk_req(o, Z_APDU_searchRequest)); mp_assert(passed == 1 && !r.g() && !forks, "passed on"); delete f; mp_cover("passed on"); return; }
    static const char *ctx[] = { "", "/a", "/ab" }; std::string path = ctx[focus ? 1 : mp_pick(0, 2, "context")]; char *t = sym_cstr(focus ? 0 : mp_pick(0, NB, "length"), "path"); path += t;
    static const char *ms[] = { "GET", "POST" }; Z_GDU *g = http_get(o, ms[focus ? 1 : mp_pick(0, 1, "method")], path.c_str()); Z_HTTP_Request *h = g->u.HTTP_Request; std::string method = h->method;
    int ver = focus ? mp_pick(0, 3, "connection") : 2; h->version = odr_strdup(o, ver < 2 ? "1.0" : "1.1"); if (ver == 1) z_HTTP_header_add(o, &h->headers, "Connection", "Keep-Alive"); if (ver == 3) z_HTTP_header_add(o, &h->headers, "Connection", "close"); bool closes = ver == 0 || ver == 3;
    int hs = focus == 0 ? mp_pick(0, 2, "headers") : 2; if (hs) { z_HTTP_header_add(o, &h->headers, "cookie", "c"); z_HTTP_header_add(o, &h->headers, "User-Agent", "u"); z_HTTP_header_add(o, &h->headers, "Accept", "a"); z_HTTP_header_add(o, &h->headers, "Accept-Encoding", "ae"); } if (hs == 2) z_HTTP_header_add(o, &h->headers, "Content-Type", "ct");
    int bl = mp_pick(0, 2, "content"); body = std::string("\1z").substr(0, bl); if (bl) { h->content_buf = odr_strdup(o, body.c_str()); h->content_len = bl; }
    fork_res = PID; valid = true; takes = bl;
    if (focus == 0) { fork_res = 0; chdir_fails = mp_pick(0, 1, "no directory"); if (!chdir_fails && mp_pick(0, 1, "no program")) hangs = 2; }
    if (focus == 1) { takes = mp_pick(0, bl, "takes"); nout = mp_pick(0, 2, "output"); hangs = mp_pick(0, 1, "hangs"); valid = mp_pick(0, 1, "valid"); }
    if (focus == 2) { int k = mp_pick(1, 3, "failure"); if (k == 3) fork_res = -1; else pipe_fail = k; }
    int m = -1; for (int i = 0; i < nm && m < 0; i++) if (!path.compare(0, maps[i].first.size(), maps[i].first)) m = i;
    bool child = false; int how = 0; Z_GDU *z = 0;
    try {
        Run r(ch, s, og, g); z = r.g();
        mp_assert(!child_side || m < 0, "the child does not return");
        if (m < 0) { mp_assert(passed == 1 && !z && !pipes && !forks, "paths of no script are passed on"); mp_cover("passed on"); }
        else {
            mp_assert(passed == 0, "not passed on"); mp_assert(z && z->which == Z_GDU_HTTP_Response, "answered"); mp_assert(!memcmp(before, fdt, sizeof fdt), "pipes are closed");
            mp_assert(r.p.session().is_closed() == closes, "the session ends if the client asks for it"); int code = z->u.HTTP_Response->code;
            if (focus == 2) { mp_assert(code == 400 && !waits && !kills, "failure is told"); mp_cover("failed"); }
            else { mp_assert(waits == 1 && decoded, "the script is waited for"); if (valid) { mp_assert(code == 200 && z->u.HTTP_Response->content_len == 3 && !memcmp(z->u.HTTP_Response->content_buf, "out", 3), "the response of the script"); mp_cover("answered"); } else { mp_assert(code == 400, "what is no response is told"); mp_cover("no response"); }
                if (hangs) { mp_assert(kills == 1, "a script that does not end is ended"); mp_cover("ended"); } else { mp_assert(outpos == nout && kills == 0, "the whole output is read"); mp_assert(got == body.substr(0, got.size()) && (int)got.size() <= takes, "the content is given to the script in order"); mp_cover("script"); if (takes < bl) mp_cover("content not wanted"); } }
        }
    } catch (ScriptRuns &x) { child = true; how = x.how; }
    mp_assert(child == (m >= 0 && focus == 0), "the child is the script");
    if (child) {
        const std::string &prog = maps[m].second; std::string docroot = root ? "/cfg" : "."; size_t sl = prog.rfind('/');
        if (how == 1) { mp_assert(chdir_fails || hangs == 2, "ends only on failure"); mp_cover("can not run"); if (chdir_fails) mp_assert(ran.empty(), "nothing is run in another directory"); }
        else {
            mp_assert(how == 0 && !chdir_fails, "runs");
            std::string dir = sl == std::string::npos ? docroot : sl == 0 ? std::string("/") : prog[0] == '/' ? prog.substr(0, sl) : docroot + "/" + prog.substr(0, sl); mp_assert(ran.find('/') == std::string::npos ? cwd == dir && ran == prog.substr(sl == std::string::npos ? 0 : sl + 1) : ran == prog, "the program that is configured runs in its directory"); mp_assert(fdt[0] == REQ_R && fdt[1] == RES_W, "content and output of the script"); for (int i = 0; i < 24; i++) mp_assert(fdt[i] != REQ_W && fdt[i] != RES_R, "the other ends are closed");
            std::string rest = path.substr(maps[m].first.size()), qs; size_t q = rest.find('?'); if (q != std::string::npos) { qs = rest.substr(q + 1); rest = rest.substr(0, q); }
            if (uenv.count("PATH_INFO")) rest = "z"; mp_assert(env["REQUEST_METHOD"] == method && env["REQUEST_URI"] == path && env["SCRIPT_NAME"] == maps[m].first && env["PATH_INFO"] == rest && env["QUERY_STRING"] == qs, "the request"); mp_assert(env["DOCUMENT_ROOT"] == docroot && env["GATEWAY_INTERFACE"] == "CGI/1.1", "the interface");
            if (hs) mp_assert(env["HTTP_COOKIE"] == "c" && env["HTTP_USER_AGENT"] == "u" && env["HTTP_ACCEPT"] == "a" && env["HTTP_ACCEPT_ENCODING"] == "ae", "headers"); else mp_assert(!env.count("HTTP_COOKIE") && !env.count("HTTP_USER_AGENT") && !env.count("HTTP_ACCEPT") && !env.count("HTTP_ACCEPT_ENCODING"), "no headers"); if (hs == 2) { char d[2] = { char('0' + bl), 0 }; mp_assert(env["CONTENT_TYPE"] == "ct" && env["CONTENT_LENGTH"] == d, "content"); } else mp_assert(!env.count("CONTENT_TYPE"), "no content type"); mp_assert(env.count("E") == uenv.count("E") && (!uenv.count("E") || env["E"] == "v"), "configured environment"); mp_cover("runs");
        }
        return;                             // what the child holds is gone with it
    }
    delete f; mp_assert(kills == (m >= 0 && focus == 1 && hangs ? 1 : 0), "nobody else is ended"); mp_cover("done");
}
#endif
