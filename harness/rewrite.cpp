// http_rewrite. PROP 1: rules on a text; 2: which texts; 3: skip links; 4: elements
#include "fx.h"
#include "filter_http_rewrite.hpp"
#include <map>
#include <stdexcept>
typedef std::map<std::string, std::string> Vars;
static Z_GDU *reply; static std::string got_path, got_hdr, got_other, got_body; static bool asked; static std::vector<std::string> skiphdr;
static void hdr(mp::odr &o, Z_HTTP_Header **h, const char *n, const char *v) { z_HTTP_header_add(o, h, n, v); }
static void down(mp::Package &p) {
    asked = true; Z_HTTP_Request *r = p.request().get()->u.HTTP_Request; got_path = r->path; const char *v = z_HTTP_header_lookup(r->headers, "Link"); got_hdr = v ? v : ""; v = z_HTTP_header_lookup(r->headers, "Other"); got_other = v ? v : ""; got_body = std::string(r->content_buf ? r->content_buf : "", r->content_len);
    mp_assert(!z_HTTP_header_lookup(r->headers, "X-Metaproxy-SkipLink"), "skip links are for us only"); p.response() = reply;
}
static Z_GDU *response(mp::odr &o, const std::string &link, const std::string &other, const char *type, const std::string &body) {
    Z_GDU *g = (Z_GDU *)odr_malloc(o, sizeof *g); Z_HTTP_Response *r = (Z_HTTP_Response *)odr_malloc(o, sizeof *r); memset(r, 0, sizeof *r); g->which = Z_GDU_HTTP_Response; g->u.HTTP_Response = r; r->code = 200; r->version = odr_strdup(o, "1.1"); r->headers = 0;
    hdr(o, &r->headers, "Link", link.c_str()); hdr(o, &r->headers, "Other", other.c_str()); if (type) hdr(o, &r->headers, "Content-Type", type); r->content_len = (int)body.size(); r->content_buf = (char *)odr_malloc(o, body.size() + 1); memcpy(r->content_buf, body.data(), body.size()); return g;
}
static std::string head(Z_HTTP_Header *h, const char *n) { const char *v = z_HTTP_header_lookup(h, n); return v ? v : ""; }
// the patterns used, and what they mean: length of the match at i (-1: none), variables set
struct Pat { const char *from, *to; };
static const Pat P[] = { { "ab", "X" }, { "^a(?<v>b*)", "<${v}>" }, { "b(?<v>.)", "${v}${v}" }, { "(?:b|c)(?P<w>a?)", "\\$${w}${v}" }, { "(a)(?<w>\\(|c)", "[${w}]" }, { "^.*$", "all" }, { "c*", "e" } };
static int match(int p, const std::string &s, size_t i, size_t &n, Vars &v) {
    size_t l = s.size(); if (i > l) return 0;
    switch (p) {
    case 0: if (i + 2 <= l && s[i] == 'a' && s[i + 1] == 'b') { n = 2; return 1; } return 0;
    case 1: if (i < l && s[i] == 'a') { n = 1; while (i + n < l && s[i + n] == 'b') n++; v["v"] = s.substr(i + 1, n - 1); return 1; } return 0;
    case 2: if (i + 2 <= l && s[i] == 'b') { n = 2; v["v"] = s.substr(i + 1, 1); return 1; } return 0;
    case 3: if (i < l && (s[i] == 'b' || s[i] == 'c')) { n = i + 1 < l && s[i + 1] == 'a' ? 2 : 1; v["w"] = s.substr(i + 1, n - 1); return 1; } return 0;
    case 4: if (i + 2 <= l && s[i] == 'a' && (s[i + 1] == '(' || s[i + 1] == 'c')) { n = 2; v["w"] = s.substr(i + 1, 1); return 1; } return 0;
    case 5: n = l - i; return 1;
    }
    return 0;
}
static bool start_only(int p) { return p == 1 || p == 5; }
static std::string value(int p, Vars &v) { switch (p) { case 0: return "X"; case 1: return "<" + v["v"] + ">"; case 2: return v["v"] + v["v"]; case 3: return "$" + v["w"] + v["v"]; case 4: return "[" + v["w"] + "]"; } return "all"; }
static std::string rewrite(const std::vector<int> &r, const std::string &s, bool anchor, Vars &v) {
    std::string out; size_t i = 0; bool first = anchor;
    while (i <= s.size()) {
        bool hit = false; size_t j; 
        for (j = i; j <= s.size() && !hit; j++) for (size_t k = 0; k < r.size() && !hit; k++) { size_t n; Vars w = v; if (start_only(r[k]) && !(first && j == 0)) continue; if (!match(r[k], s, j, n, w)) continue; hit = true; v = w; out += s.substr(i, j - i) + value(r[k], v); i = j + n; first = false; if (n == 0) return out + s.substr(i); break; }
        if (!hit) break;
    }
    return out + s.substr(i < s.size() ? i : s.size());
}
static xmlNode *rule(const char *name, const std::vector<int> &ps) { xmlNode *r = xb::el("rule"), *e; xb::attr(r, "name", name); for (size_t i = 0; i < ps.size(); i++) { e = xb::el("rewrite"); xb::attr(e, "from", P[ps[i]].from); xb::attr(e, "to", P[ps[i]].to); xb::add(r, e); } return r; }
static xmlNode *within(const char *a, const char *av, const char *b, const char *bv, const char *rule) { xmlNode *e = xb::el("within"); if (a) xb::attr(e, a, av); if (b) xb::attr(e, b, bv); xb::attr(e, "rule", rule); return e; }
static xmlNode *content(const char *type, const char *mime) { xmlNode *c = xb::el("content"); xb::attr(c, "type", type); if (mime) xb::attr(c, "mime", mime); return c; }
static mp::filter::HttpRewrite *f; static xmlNode *req, *res;
static void conf(void) { xmlNode *c = xb::el("filter"); xb::add(c, req); xb::add(c, res); f = new mp::filter::HttpRewrite; f->configure(c, false, 0); }
#if PROP == 1
#ifndef NB
#define NB 3
#endif
void mp_main(void) {
    std::vector<int> r1, r2, all; std::string names = "r1"; r1.push_back(mp_pick(0, 6, "pattern")); bool empty = r1[0] == 6; if (mp_pick(0, 1, "two") && !empty) { int q = mp_pick(0, 5, "pattern"); if (mp_pick(0, 1, "two rules")) { r2.push_back(q); names = "r1,r2"; } else r1.push_back(q); } all = r1; all.insert(all.end(), r2.begin(), r2.end());
    bool text = mp_pick(0, 1, "in text"); req = xb::el("request"); res = xb::el("response"); xmlNode *c; xb::add(res, rule("r2", r2)); xb::add(res, rule("r1", r1)); xb::add(res, c = content(text ? "html" : "headers", text ? "text/.*" : 0)); if (text) xb::add(c, within("tag", "p", "attr", "#text", names.c_str())); else xb::add(c, within("header", "link", 0, 0, names.c_str()));
    std::vector<int> rv(1, 2); bool vars = !text && mp_pick(0, 1, "variables from the request"); if (vars) { xb::add(req, rule("q", rv)); xb::add(req, c = content("headers", 0)); xb::add(c, within("header", "Link", 0, 0, "q")); }
    conf(); char t[NB + 1]; int n = mp_pick(0, NB, "length"); mp_sym(t, n, "text"); t[n] = 0; for (int i = 0; i < n; i++) mp_assume(t[i] && t[i] != '<' && t[i] != '\n' && t[i] != '\r' && t[i] != '\f' && t[i] != '\v' && t[i] > 0);
    std::string s(t, n); NamedChain ch(*f); mp::Session ses; mp::Origin og; og.set_tcpip_address("1.2.3.4 @:80", 1); mp::odr o; Z_GDU *g = http_get(o, "GET", "/"); hdr(o, &g->u.HTTP_Request->headers, "Link", "-bz"); reply = response(o, text ? "l" : s, s, "text/html", text ? "<p>" + s + "</p>" + s : s);
    Run r(ch, ses, og, g); mp_assert(r.g() && r.g()->which == Z_GDU_HTTP_Response, "response"); Z_HTTP_Response *h = r.g()->u.HTTP_Response; mp_assert(got_hdr == (vars ? "-zz" : "-bz"), "request header"); mp_assert(head(h->headers, "Other") == s, "other headers are left alone"); Vars v; if (vars) v["v"] = "z";
    std::string body(h->content_buf, h->content_len); if (empty) { mp_cover("empty matches"); return; } std::string want = rewrite(all, s, !text, v);
    if (text) { mp_assert(body == (n ? "<p>" + want + "</p>" + s : "<p></p>"), "the text of the element is rewritten, all else is left alone"); mp_cover("text"); } else { mp_assert(head(h->headers, "Link") == want, "the header is rewritten as the rules say"); mp_assert(body == s, "the body is left alone"); mp_cover("header"); } if (want != s) mp_cover("changed"); mp_cover("done");
}
#endif
#if PROP == 2
#ifndef NB
#define NB 3
#endif
static std::string ab(const std::string &s) { std::string o; for (size_t i = 0; i < s.size(); i++) if (s[i] == 'a' && i + 1 < s.size() && s[i + 1] == 'b') { o += "X"; i++; } else o += s[i]; return o; }
static std::string abc(const std::string &s) { if (s.size() && s[0] == 'c') return "Y" + ab(s.substr(1)); return ab(s); }
// string literals of a script; those in an attribute may be quoted by &quot;
static std::string literals(const std::string &s, bool html) {
    std::string o; size_t i = 0;
    while (i < s.size()) {
        std::string q; if (html && s.compare(i, 6, "&quot;") == 0) q = "&quot;"; else if (s[i] == '"' || s[i] == '\'') q = std::string(1, s[i]); else if (s[i] == '/' && i + 1 < s.size() && s[i + 1] == '/') { while (i < s.size() && s[i] != '\n') o += s[i++]; continue; }
        if (q.empty()) { o += s[i++]; continue; }
        o += q; i += q.size(); size_t j = i; while (j < s.size() && s[j] != '\n' && !(s.compare(j, q.size(), q) == 0 && (q.size() > 1 || j == i || s[j - 1] != '\\'))) j++;
        if (j == s.size()) return o + s.substr(i);
        o += abc(s.substr(i, j - i)); if (s[j] == '\n') { o += '\n'; i = j + 1; } else { o += s.substr(j, q.size()); i = j + q.size(); }
    }
    return o;
}
static std::string sym(const char *bad) { char t[NB + 1]; int n = mp_pick(0, NB, "length"); mp_sym(t, n, "text"); for (int i = 0; i < n; i++) { mp_assume(t[i] != 0); for (const char *b = bad; *b; b++) mp_assume(t[i] != *b); } return std::string(t, n); }
void mp_main(void) {
    req = xb::el("request"); res = xb::el("response"); xmlNode *c, *e; mp::Session ses; mp::Origin og; mp::odr o; int what = mp_pick(0, 4, "what"); std::vector<int> r(1, 0);
    std::string s = what == 2 ? sym("<>\"' \t\n\r\f\v/&=") : what == 1 ? sym("\n") : what == 3 ? sym(mp_pick(0, 1, "in page") ? "<\r\f\v" : "\r\f\v") : what == 0 ? sym(" ") : "ab"; bool ssl = what == 0 && mp_pick(0, 1, "ssl"); og.set_tcpip_address(ssl ? "1.2.3.4 ssl:@:443" : "1.2.3.4 @:80", 1);
    if (what == 0) {        // request line
        xb::add(req, c = xb::el("rule")); xb::attr(c, "name", "r"); xb::add(c, e = xb::el("rewrite")); xb::attr(e, "from", "^(?<pr>https?)://(?<host>[a-z]+)/(?<p>a*)"); xb::attr(e, "to", "/${pr}/${host}/${p}-"); xb::add(req, c = content("headers", 0)); xb::add(c, within("reqline", "1", 0, 0, "r")); conf(); NamedChain ch(*f);
        int k = mp_pick(0, 3, "kind"); std::string base = k == 1 ? "http://w/" : k == 2 ? "https://w/" : "/", path = base + s; Z_GDU *g = http_get(o, "GET", path.c_str()); if (k != 3) hdr(o, &g->u.HTTP_Request->headers, "Host", "h"); reply = response(o, "l", "o", 0, s); Run x(ch, ses, og, g);
        size_t na = 0; while (na < s.size() && s[na] == 'a') na++; std::string want = k == 3 ? path : std::string("/") + (k == 2 || (k == 0 && ssl) ? "https" : "http") + (k ? "/w/" : "/h/") + s.substr(0, na) + "-" + s.substr(na); mp_assert(got_path == want, "the request URL is rewritten"); mp_cover(k == 3 ? "no host" : "request line");
    } else if (what == 1) { // headers of request and body type
        xb::add(req, rule("r", r)); xb::add(req, c = content("headers", 0)); xb::add(c, within("header", "li.*|x-y", 0, 0, "r")); xb::add(res, rule("r", r)); int t = mp_pick(0, 5, "content type"); static const char *ty[] = { 0, "text/html", "application/x-javascript", "image/png", "TEXT/HTML; charset=x", "not-text/html" };
        xb::add(res, c = content("html", "text/html.*")); xb::add(c, within("tag", "p", "attr", "#text", "r")); xb::add(res, c = content("quoted-literal", ".*javascript.*")); xb::add(c, within(0, 0, 0, 0, "r")); conf(); NamedChain ch(*f); Z_GDU *g = http_get(o, "GET", "/"); hdr(o, &g->u.HTTP_Request->headers, "Other", s.c_str()); hdr(o, &g->u.HTTP_Request->headers, "LINK", s.c_str());
        std::string body = "<p>ab\"ab\"</p>\"ab\""; bool bin = mp_pick(0, 1, "binary"); if (bin) body += std::string(1, '\0'); if (mp_pick(0, 1, "empty")) body = ""; reply = response(o, "ab", "ab", ty[t], body); Run x(ch, ses, og, g);
        mp_assert(got_hdr == ab(s) && got_other == s, "headers with such a name are rewritten"); Z_HTTP_Response *h = x.g()->u.HTTP_Response; mp_assert(head(h->headers, "Link") == "ab", "headers of responses are not"); std::string b(h->content_buf, h->content_len);
        mp_assert(b == (bin || body.empty() ? body : t == 1 || t == 4 ? "<p>X\"X\"</p>\"ab\"" : t == 2 ? "<p>ab\"X\"</p>\"X\"" : body), "bodies of the types configured are rewritten"); mp_cover(bin ? "binary" : "body");
    } else if (what == 2) { // HTML attributes
        std::vector<int> r2(1, 2); xb::add(res, rule("r", r)); xb::add(res, c = xb::el("rule")); xb::attr(c, "name", "q"); xb::add(c, e = xb::el("rewrite")); xb::attr(e, "from", "b"); xb::attr(e, "to", "Z"); xb::add(c, e = xb::el("rewrite")); xb::attr(e, "from", "^c"); xb::attr(e, "to", "Y"); xb::add(res, c = content("html", "text/html")); int k = mp_pick(0, 3, "withins");
        if (k == 0) xb::add(c, within("attr", "href|src", 0, 0, "r")); if (k == 1) { xb::add(c, within("tag", "img", "attr", "src", "r")); xb::add(c, within("tag", "a|img", "attr", "href|src|x|alt", "q")); } if (k == 2) { xb::add(c, within("tag", "a", "attr", "#text", "q")); xb::add(c, within("attr", "href", 0, 0, "r")); } if (k == 3) xb::add(c, within("tag", "IMG", "attr", "SRC", "r")); conf(); NamedChain ch(*f);
        bool img = mp_pick(0, 1, "img"), src = mp_pick(0, 1, "src"); int quote = mp_pick(0, 2, "quote"); const char *q = quote == 0 ? "\"" : quote == 1 ? "'" : ""; if (quote == 2) mp_assume(s.size() > 0); std::string a = std::string("<") + (img ? "img" : "a") + " alt " + (src ? "src" : "href") + "=" + q, z = std::string(q) + " x=\"ab\">", tail = std::string(img ? "" : "ab</a>") + "ab"; bool all = k == 1 && !(img && src);
        reply = response(o, "l", "o", "text/html", a + s + z + tail); Run x(ch, ses, og, http_get(o, "GET", "/")); std::string b2; for (size_t i = 0; i < s.size(); i++) b2 += s[i] == 'b' ? 'Z' : s[i] == 'c' && !i ? 'Y' : s[i];
        bool hit = k == 0 || (k == 1 && img && src) || (k == 2 && !src) || (k == 3 && img && src); std::string v = hit ? ab(s) : all ? b2 : s, z2 = k == 1 ? std::string(q) + " x=\"aZ\">" : z, t2 = k == 2 && !img ? "aZ</a>ab" : tail; Z_HTTP_Response *h = x.g()->u.HTTP_Response; mp_assert(std::string(h->content_buf, h->content_len) == a + v + z2 + t2, "attributes are rewritten by the first that applies, all else is left alone"); if (hit) mp_cover("attribute");
    } else if (what == 3) { // script
        xb::add(res, c = xb::el("rule")); xb::attr(c, "name", "r"); xb::add(c, e = xb::el("rewrite")); xb::attr(e, "from", "ab"); xb::attr(e, "to", "X"); xb::add(c, e = xb::el("rewrite")); xb::attr(e, "from", "^c"); xb::attr(e, "to", "Y");
        bool page = s.find('<') == std::string::npos && mp_pick(0, 1, "page"); static const char *ctx[][2] = { { "", "" }, { "x='", "'y" }, { "\"ab", "" }, { "'c\\", "ab'ab" }, { "//'", "\n'ab'" }, { "&quot;c", "&quot;'ab'" } }; int k = mp_pick(0, 5, "context"); std::string t = ctx[k][0] + s + ctx[k][1];
        if (page) { xb::add(res, c = content("html", "t")); e = within("tag", "script", "attr", "#text", "r"); xb::attr(e, "type", "quoted-literal"); xb::add(c, e); } else { xb::add(res, c = content("quoted-literal", "t")); xb::add(c, within(0, 0, 0, 0, "r")); } conf(); NamedChain ch(*f);
        if (page) mp_assume(t.size() > 0); reply = response(o, "l", "o", "t", page ? "<script>" + t + "</script>'ab'" : t); Run x(ch, ses, og, http_get(o, "GET", "/")); Z_HTTP_Response *h = x.g()->u.HTTP_Response; std::string w = literals(t, page); mp_assert(std::string(h->content_buf, h->content_len) == (page ? "<script>" + w + "</script>'ab'" : w), "string literals are rewritten, all else is left alone"); if (w != t) mp_cover("literal");
    } else {                // no HTTP at all
        conf(); NamedChain ch(*f); asked = false; 
        // malformed configurations are refused
        static const char *to[] = { "${x", "$x", "$", "ok", "\\$x" }; int k = mp_pick(0, 4, "to"); xmlNode *m = xb::el("filter"), *ph = xb::el("response"); xb::add(m, ph); xb::add(ph, c = xb::el("rule")); xb::attr(c, "name", "r"); xb::add(c, e = xb::el("rewrite")); xb::attr(e, "from", "ab"); xb::attr(e, "to", to[k]); xb::add(ph, c = content("headers", 0)); bool norule = mp_pick(0, 1, "no such rule"); xb::add(c, within("header", "link", 0, 0, norule ? "x" : "r"));
        mp::filter::HttpRewrite g; bool threw = false; try { g.configure(m, true, 0); } catch (std::runtime_error &) { threw = true; } mp_assert(threw == (k < 3 || norule), "malformed rules are found when configured"); if (threw) mp_cover("malformed");
    }
    mp_cover("done");
}
#endif
#if PROP == 3
void mp_main(void) {
    req = xb::el("request"); res = xb::el("response"); xmlNode *c; std::vector<int> r(1, 0); xb::add(res, rule("r", r)); xb::add(res, c = content("html", "text/html")); xb::add(c, within("tag", "a", "attr", "href", "r")); conf(); NamedChain ch(*f); mp::Session ses; mp::Origin og; og.set_tcpip_address("1.2.3.4 @:80", 1); mp::odr o;
    static const char *sk[] = { "h/x ab", "h/y ab", "^http://h/x$ a.", ". zz", "( ab", ". )", "noblank", ". [" }; static const bool ok[] = { 1, 0, 1, 0, 0, 0, 0, 0 }; Z_GDU *g = http_get(o, "GET", mp_pick(0, 1, "absolute") ? "http://h/x" : "/x"); hdr(o, &g->u.HTTP_Request->headers, "Host", "h"); bool skip = false;
    char t[4]; mp_sym(t, 3, "header"); int n = mp_pick(0, 2, "headers"); for (int i = 0; i < n; i++) { int k = mp_pick(0, 7, "skip link"); hdr(o, &g->u.HTTP_Request->headers, "X-Metaproxy-SkipLink", sk[k]); if (ok[k]) skip = true; }
    reply = response(o, "l", "o", "text/html", "<a href=\"qab\">"); Run x(ch, ses, og, g); mp_assert(x.g() && asked, "handled"); Z_HTTP_Response *h = x.g()->u.HTTP_Response; mp_assert(std::string(h->content_buf, h->content_len) == (skip ? "<a href=\"qab\">" : "<a href=\"qX\">"), "links to skip are left alone on their page"); if (skip) mp_cover("skipped"); mp_cover("done");
}
#endif
#if PROP == 4
// elements within each other, closed or not: each text belongs to the innermost one that is named
#ifndef NT
#define NT 3
#endif
static std::string sub(const std::string &s, bool q, bool attr) { std::string o; for (size_t i = 0; i < s.size(); i++) o += s[i] == 'a' ? (q ? 'Z' : 'X') : q && attr && !i && s[i] == 'c' ? 'Y' : s[i]; return o; }
void mp_main(void) {
    req = xb::el("request"); res = xb::el("response"); xmlNode *c, *e; static const char *from[] = { "a", "a", "^c" }, *to[] = { "X", "Z", "Y" };
    for (int i = 0; i < 2; i++) { xb::add(res, c = xb::el("rule")); xb::attr(c, "name", i ? "q" : "r"); for (int k = i; k <= 2 * i; k++) { xb::add(c, e = xb::el("rewrite")); xb::attr(e, "from", from[k]); xb::attr(e, "to", to[k]); } }
    xb::add(res, c = content("html", "text/html")); xb::add(c, within("tag", "p", "attr", "#text", "r")); xb::add(c, within("tag", "b|i", "attr", "#text|k", "q")); conf(); NamedChain ch(*f);
    char t[3]; mp_sym(t, 2, "text"); for (int i = 0; i < 2; i++) mp_assume(t[i] > ' ' && t[i] != '<' && t[i] != '"' && t[i] != 127); t[2] = 0;
    std::string in, want; std::vector<int> open; int n = mp_pick(1, NT, "tags"); static const char *tag[] = { "<p>", "</p>", "<p/>", "</b>" };
    for (int k = 0; k < n; k++) {
        int w = mp_pick(0, 5, "tag"); std::string x = "ca"; if (k == n - 1) x = t; 
        if (w < 4) { in += tag[w]; want += tag[w]; } else { bool own = w == 5; in += std::string("<b k=\"") + x + (own ? "\"/>" : "\">"); want += std::string("<b k=\"") + sub(x, true, true) + (own ? "\"/>" : "\">"); }
        int of = w < 3 ? 0 : 1; if (w == 0 || w == 4) open.push_back(of); if ((w == 1 || w == 3) && !open.empty()) { mp_assume(open.back() == of); open.pop_back(); }
        in += x; want += open.empty() ? x : sub(x, open.back() == 1, false); mp_cover(open.empty() ? "outside" : open.size() == 1 ? "inside" : "nested");
    }
    mp::Session ses; mp::Origin og; og.set_tcpip_address("1.2.3.4 @:80", 1); mp::odr o; reply = response(o, "l", "o", "text/html", in); Run x(ch, ses, og, http_get(o, "GET", "/")); Z_HTTP_Response *h = x.g()->u.HTTP_Response;
    mp_assert(std::string(h->content_buf, h->content_len) == want, "each text as its innermost element says"); mp_cover("done");
}
#endif
