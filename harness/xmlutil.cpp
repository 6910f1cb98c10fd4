// C04: XML configuration accessors.
#include "xmlb.h"
#include <metaproxy/xmlutil.hpp>
#include <stdexcept>
namespace mx = metaproxy_1::xml;
typedef metaproxy_1::XMLError XE;
#ifndef N
#define N 5
#endif
static xmlNode *symtext(int max, const char *name) { return xb::text(sym_cstr(mp_pick(0, max, "len"), name)); }
// a child list of up to n nodes of any kind
static const xmlElementType kinds[] = { XML_TEXT_NODE, XML_ELEMENT_NODE, XML_COMMENT_NODE, XML_CDATA_SECTION_NODE, XML_PI_NODE };
static int kids(xmlNode *p, int n, int textmax) {
    int k = mp_pick(0, n, "nchildren");
    for (int i = 0; i < k; i++) {
        int t = mp_pick(0, 4, "kind");
        if (t == 0) xb::add(p, symtext(textmax, "text"));
        else { xmlNode *e = xb::add(p, xb::node(kinds[t], "x", t == 1 ? 0 : "1")); if (t == 1) xb::add(e, xb::text("1")); }
    }
    return k;
}
static bool streq(const std::string &a, const std::string &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); }
static void texts() {
    xmlNode *p = xb::el("e"); kids(p, 3, 2);
    int how = mp_pick(0, 2, "how");
    const xmlNode *q = how == 0 ? p : p->children;
    std::string want;
    const xmlNode *s = q;
    if (s && s->type != XML_TEXT_NODE) s = s->children;
    for (; s; s = s->next) if (s->type == XML_TEXT_NODE) want += (const char *)s->content;
    std::string got;
    if (how < 2) got = mx::get_text(q);
    else { xmlAttr *a = xb::attr(p, "n", 0); a->children = p->children; got = mx::get_text(a); }
    mp_assert(streq(got, want), "text content"); mp_cover("text");
}
static void boolint() {
    xmlNode *p = xb::el("e");
    if (mp_pick(0, 1, "lead")) kids(p, 2, N); else xb::add(p, symtext(N, "value"));
    const xmlNode *q = mp_pick(0, 1, "direct") ? p : p->children;
    const xmlNode *s = q;
    if (s && s->type != XML_TEXT_NODE) s = s->children;
    const char *c = s && s->type == XML_TEXT_NODE ? (const char *)s->content : 0;
    bool d = mp_range(0, 1, "default") != 0;
    bool wantb = c ? (!strcmp(c, "true") || !strcmp(c, "1")) : d;
    mp_assert(mx::get_bool(q, d) == wantb, "boolean value");
    if (c && wantb) mp_cover("true"); else if (c) mp_cover("false"); else mp_cover("default");
    int di = mp_i32("defint"), want = di;
    if (c) {
        const char *x = c; bool neg = false; want = 0;
        while (*x == ' ' || (*x >= 9 && *x <= 13)) x++;
        if (*x == '-') { neg = true; x++; } else if (*x == '+') x++;
        for (; *x >= '0' && *x <= '9'; x++) want = want * 10 + (*x - '0');
        if (neg) want = -want;
    }
    mp_assert(mx::get_int(q, di) == want, "integer value");
    if (c && want < 0) mp_cover("negative");
}
static const char *NS[] = { 0, "", "u", "v" };
static void match() {
    char *en = sym_cstr(mp_pick(0, 2, "len"), "name"), *want = sym_cstr(mp_pick(0, 2, "len"), "wanted");
    const char *ens = NS[mp_pick(0, 3, "ns")], *wns = NS[mp_pick(1, 3, "wantedns")];
    bool nm = !strcmp(en, want), nsm = ens && !strcmp(ens, wns);
    xmlNode *e = xb::el(en, ens);
    int k = mp_pick(0, 1, "kind"); if (k) e->type = XML_TEXT_NODE;
    mp_assert(mx::is_element(e, wns, want) == (!k && nm && nsm), "element matches by kind, name and namespace");
    mp_assert(!mx::is_element(0, wns, want), "no element matches nothing");
    xmlNode *m = xb::el(en, mp_pick(0, 1, "mpns") ? xb::MPNS : ens); bool mpm = m->ns && !strcmp((const char *)m->ns->href, xb::MPNS) && nm;
    mp_assert(mx::is_element_mp(m, want) == mpm, "metaproxy element");
    bool threw = false; try { mp_assert(mx::check_element_mp(m, want), "check tells"); } catch (XE &) { threw = true; }
    mp_assert(threw == !mpm, "a wrong element is an error");
    threw = false; try { mx::check_element_mp(0, want); } catch (XE &) { threw = true; }
    mp_assert(threw, "a missing element is an error");
    xmlAttr *a = xb::attr(e, en, "v", ens); bool am = nm && (!*wns || nsm);
    mp_assert(mx::is_attribute(a, wns, want) == am, "attribute matches by name and namespace");
    threw = false; try { mp_assert(mx::check_attribute(a, wns, want), "check tells"); } catch (XE &) { threw = true; }
    mp_assert(threw == !am, "a wrong attribute is an error");
    if (am && nsm) mp_cover("attribute matches");
    if (mpm) mp_cover("mp element");
}
static void attrs() {
    static const char *pool[] = { "route", "auth", "rout", "routes" };
    xmlNode *e = xb::el("target"); int n = mp_pick(0, 3, "nattr"); int id[3]; char *val[3];
    for (int i = 0; i < n; i++) {
        id[i] = mp_pick(0, 3, "attr"); int k = mp_pick(0, 2, "valkind");
        if (k == 0) { val[i] = (char *)""; xb::attr(e, pool[id[i]], 0); }
        else { val[i] = sym_cstr(k, "val"); xb::attr(e, pool[id[i]], val[i]); }
        for (int j = 0; j < i; j++) mp_assume(id[j] != id[i]);
    }
    std::string want[2]; bool bad = false, bad1 = false;
    for (int i = 0; i < n; i++) { if (id[i] < 2) want[id[i]] = val[i]; else bad = true; if (id[i] != 0) bad1 = true; }
    bool threw = false; std::string auth = "old", r;
    try { r = mx::get_route(e, auth); } catch (XE &) { threw = true; }
    mp_assert(threw == bad, "an attribute that is not allowed is an error");
    if (!threw) { mp_assert(streq(r, want[0]), "route value"); mp_assert(streq(auth, want[1]), "auth value"); mp_cover("route"); } else mp_cover("refused");
    threw = false;
    try { r = mx::get_route(e); } catch (XE &) { threw = true; }
    mp_assert(threw == bad1, "an attribute that is not allowed is an error");
    if (!threw) mp_assert(streq(r, want[0]), "route value");
    const char *names[] = { "rout", "auth", "route", "routes", 0 }; std::string v[4]; for (int i = 0; i < 4; i++) v[i] = "stale";
    mx::parse_attr(e, names, v);
    static const int map[] = { 2, 1, 0, 3 };
    for (int k = 0; k < 4; k++) { std::string w; for (int i = 0; i < n; i++) if (id[i] == map[k]) w = val[i]; mp_assert(streq(v[k], w), "attribute value"); }
    std::string z[4]; z[1] = "x"; mx::parse_attr(0, names, z); mp_assert(z[1].empty(), "no node, no values");
}
static void nav() {
    xmlNode *p = xb::el("e"); kids(p, 4, 0);
    int t = kinds[mp_pick(0, 4, "wanted")];
    const xmlNode *w = p->children; while (w && w->type != t) w = w->next;
    mp_assert(mx::jump_to_children(p, t) == w, "first child of a kind");
    if (p->children) {
        mp_assert(mx::jump_to(p->children, t) == w, "first node of a kind");
        const xmlNode *x = p->children->next; while (x && x->type != t) x = x->next;
        mp_assert(mx::jump_to_next(p->children, t) == x, "next node of a kind");
        if (x) mp_cover("next found");
    }
    mp_assert(mx::jump_to(0, t) == 0, "nothing to jump to");
    bool has = false; for (const xmlNode *c = p->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) has = true;
    if (mp_pick(0, 1, "typed")) xb::attr(p, "type", "f");
    bool threw = false; try { mx::check_empty(p); } catch (XE &) { threw = true; }
    mp_assert(threw == has, "child elements are refused exactly when there are some");
    mx::check_empty(0);
    if (has) mp_cover("not empty"); else mp_cover("empty");
}
void mp_main(void) {
    switch (mp_pick(0, 4, "case")) { case 0: texts(); break; case 1: boolint(); break; case 2: match(); break; case 3: attrs(); break; case 4: nav(); break; }
    mp_cover("done");
}
