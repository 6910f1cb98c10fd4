// C03: URL recipe expansion against an independent reading of the recipe language.
#include "xmlb.h"
#include <metaproxy/xmlutil.hpp>
#include <stdexcept>
#ifndef N
#define N 5
#endif
static std::string hexenc(const std::string &s) {
    static const char *hx = "0123456789ABCDEF";
    std::string r;
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        bool plain = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '.' || c == '_' || c == '~';
        if (plain) r += (char)c; else { r += '%'; r += hx[c >> 4]; r += hx[c & 15]; }
    }
    return r;
}
static std::string T[3], X[3]; static int NM;
static std::string lookup(const std::string &var) {
    std::string v = var;
    if (v.size() >= 3 && v[0] == 'm' && v[1] == 'd' && v[2] == '-') v = v.substr(3);
    std::string r;
    for (int i = 0; i < NM; i++) if (T[i] == v) r = X[i];
    return r;
}
static std::string replace(const std::string &s, const std::string &p, const std::string &r, bool all, bool icase) {
    std::string o; size_t i = 0; bool done = false;
    while (i < s.size()) {
        bool m = !(done && !all) && i + p.size() <= s.size();
        for (size_t k = 0; m && k < p.size(); k++) {
            char a = s[i + k], b = p[k];
            if (icase) { if (a >= 'A' && a <= 'Z') a += 32; if (b >= 'A' && b <= 'Z') b += 32; }
            if (a != b) m = false;
        }
        if (m) { o += r; i += p.size(); done = true; } else o += s[i++];
    }
    return o;
}
// literal: the harness guarantees that pattern and replacement have no special characters
static std::string expand(const std::string &r) {
    std::string out;
    for (size_t i = 0; i < r.size();) {
        if (!(i + 1 < r.size() && (r[i] == '$' || r[i] == '%') && r[i + 1] == '{')) { out += r[i++]; continue; }
        bool enc = r[i] == '%';
        i += 2;
        std::string f[4]; int st = 0; char prev = 0; bool done = false;
        while (i < r.size() && !done) {
            char c = r[i++]; bool esc = prev == '\\'; prev = c;
            if (!esc && c == '}') done = true;
            else if (st == 0 && !esc && c == '[') st = 1;
            else if (st > 0 && !esc && c == ']') st = 4;
            else if ((st == 1 || st == 2) && !esc && c == '/') st++;
            else if (st < 4) f[st] += c;
        }
        if (f[0].empty()) continue;
        std::string t = lookup(f[0]);
        if (!f[1].empty()) {
#ifndef REGEX
            mp_end();   // patterns are the subject of the other part
#else
            t = replace(t, f[1], f[2], f[3].find('g') != std::string::npos, f[3].find('i') != std::string::npos);
#endif
        }
        out += enc ? hexenc(t) : t;
    }
    return out;
}
static xmlDoc *mk() {
    xmlNode *root = xb::el("pz2:record", 0);
    xb::add(root, xb::text("\n"));
    for (int i = 0; i < NM; i++) {
        xmlNode *o = xb::add(root, xb::el("other", 0)); xb::attr(o, "type", T[i].c_str()); xb::add(o, xb::text("no"));
        xmlNode *m = xb::add(root, xb::el("metadata", 0));
        xb::attr(m, "rank", T[(i + 1) % NM].c_str());
        xb::attr(m, "type", T[i].c_str());
        xb::add(m, xb::text(X[i].c_str()));
    }
    return xb::doc(root);
}
void mp_main(void) {
#ifndef REGEX
    static const char *ctx[][2] = { {"", ""}, {"${", "}"}, {"x%{", "}y"}, {"${md-", "}"}, {"a${m}", "}"}, {"${", ""}, {"${a}${", "}"}, {"${a[", "}z"}, {"%{a}", ""} };
    int k = mp_pick(0, 8, "context"), n = mp_pick(0, k ? N - 2 : N, "len");
    char *s = sym_cstr(n, "recipe");
    static const char *types[] = {"a", "m", "md-", "d-b", "id", "ab"};
    NM = 2;
    T[0] = types[mp_pick(0, 2, "type0")]; T[1] = types[mp_pick(2, 5, "type1")];
    if (k) mp_assume(T[0] != T[1]);
    char *x = sym_cstr(1, "text"); X[0] = std::string("<") + x; X[1] = "q";
    std::string recipe = std::string(ctx[k][0]) + s + ctx[k][1];
#else
    NM = 1; T[0] = "t";
    char *x = sym_cstr(mp_pick(0, N, "textlen"), "text");
    X[0] = x;
    char *p = sym_cstr(mp_pick(1, 2, "patlen"), "pat"), *r = sym_cstr(mp_pick(0, 2, "replen"), "rep");
    for (int i = 0; p[i]; i++) mp_assume((p[i] >= 'a' && p[i] <= 'c') || p[i] == 'B' || p[i] == '5');
    for (int i = 0; r[i]; i++) mp_assume((r[i] >= 'a' && r[i] <= 'c') || r[i] == '+' || r[i] == '-');
    for (int i = 0; x[i]; i++) mp_assume((x[i] >= 'a' && x[i] <= 'c') || x[i] == 'A' || x[i] == 'B' || x[i] == '5' || x[i] == ' ' || x[i] == '%');
    static const char *modes[] = {"", "/", "/g", "/i", "/gi", "/ig"};
    int md = mp_pick(0, 5, "mode");
    std::string recipe = std::string(mp_pick(0, 1, "encode") ? "%{t[" : "${t[") + p + "/" + r + modes[md] + "]}.";
#endif
    xmlDoc *doc = mk();
    std::string want = expand(recipe);
    bool threw = false; std::string got;
    try { got = metaproxy_1::xml::url_recipe_handle(doc, recipe); } catch (std::exception &) { threw = true; }
    mp_assert(!threw, "expansion does not fail");
    if (threw) mp_end();
    mp_notes("recipe", recipe.c_str()); mp_notes("got", got.c_str()); mp_notes("want", want.c_str());
    mp_assert(got.size() == want.size(), "expansion has the right length");
    if (got.size() == want.size()) mp_assert(!memcmp(got.data(), want.data(), want.size()), "expansion is what the recipe says");
    if (want.find("%3C") != std::string::npos) mp_cover("percent-encoded");
    if (want.size() > 1 && want[0] == '<') mp_cover("variable");
#ifdef REGEX
    if (want.size() < X[0].size() + 1) mp_cover("shortened");
    if (want.size() > X[0].size() + 1) mp_cover("lengthened");
#endif
    mp_cover("done");
}
