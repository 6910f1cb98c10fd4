// Filters that read files. PROP 1: http_file; 2: mime types file; 3: auth_simple; 4: its registers
#include "fx.h"
#include "ifs.h"
#include <sys/stat.h>
static bool pre(const std::string &s, const char *p) { return !s.compare(0, strlen(p), p); }
#if PROP == 1
#include "filter_http_file.hpp"
static int calls; static void down(mp::Package &p) { calls++; mp::odr o; p.response() = o.create_HTTP_Response(p.session(), p.request().get()->u.HTTP_Request, 203); }
static std::string opened, statted; static int opens, closes_, kind; static long fsize; static const char content[] = "xy\1"; static int raw_ok, raws; static long pos;
static const char mime[] = "text/html html htm\n# c\n\ntext/a a\n";
extern "C" {
const char *mp_file(const char *n) { return seq(n, "/mime") ? mime : 0; }
// kind: 0 regular 1 missing 2 directory 3 open fails 4 seek fails 5 read fails
int mp_stat_rec(const char *n, unsigned *mode) { statted = n; *mode = kind == 2 ? S_IFDIR : S_IFREG; return kind == 1 ? -1 : 0; }
void *mp_fopen(const char *n, const char *m) { mp_assert(m[0] == 'r', "files are only read"); opened = n; if (kind == 3) return 0; opens++; return &opens; }
int mp_fseek(void *, long, int w) { if (kind == 4) return -1; pos = w == 2 ? fsize : 0; return 0; }
long mp_ftell(void *) { return kind == 6 ? -1 : pos; }
void mp_rewind(void *) { pos = 0; }
size_t mp_fread(void *b, size_t s, size_t n, void *) { if (kind == 5) return 0; size_t want = s * n; if ((long)want > fsize - pos) want = fsize - pos; memcpy(b, content + pos, want); pos += want; return s ? want / s : 0; }
int mp_fclose(void *) { closes_++; return 0; }
void mp_odr_setbuf(ODR, char *b, int len, int) { mp_assert(len == fsize && !memcmp(b, content, len), "raw file content is decoded"); raws++; }
int mp_z_GDU(ODR o, Z_GDU **g, int, const char *) { if (!raw_ok) return 0; Z_GDU *x = (Z_GDU *)odr_malloc(o, sizeof *x); x->which = Z_GDU_HTTP_Response; Z_HTTP_Response *r = (Z_HTTP_Response *)odr_malloc(o, sizeof *r); memset(r, 0, sizeof *r); r->version = odr_strdup(o, "1.1"); r->code = 299; x->u.HTTP_Response = r; *g = x; return 1; }
}
static std::string dec(const char *s) { std::string r; for (; *s; s++) { if (*s == '%' && s[1] && s[2]) { int v = 0, k; for (k = 1; k < 3; k++) { int c = s[k]; if (c >= '0' && c <= '9') v = v * 16 + c - '0'; else if (c >= 'a' && c <= 'f') v = v * 16 + c - 'a' + 10; else if (c >= 'A' && c <= 'F') v = v * 16 + c - 'A' + 10; else mp_assume(0); } if (!v) break; r += (char)v; s += 2; } else { mp_assume(*s != '%'); r += *s == '+' ? ' ' : *s; } } return r; }
void mp_main(void) {
    mp::filter::HttpFile *f = new mp::filter::HttpFile; xmlNode *c = xb::el("filter"), *m = xb::el("mimetypes"); xb::add(c, m); xb::add(m, xb::text("/mime"));
    static const char *pref[] = { "/a", "/ab", "/a/", "" }, *root[] = { "/r", "/s/", "/t" }; struct { const char *p, *r; bool raw, pass; } ar[2]; int na = mp_pick(1, 2, "areas");
    int focus = mp_pick(0, 1, "focus"); // 0 paths, 1 file system
    for (int i = 0; i < na; i++) {
        ar[i].p = pref[i == 0 ? mp_pick(0, 3, "prefix") : 0]; ar[i].r = root[i == 0 ? mp_pick(0, 1, "root") : 2]; ar[i].raw = focus == 1 && i == 0 && mp_pick(0, 1, "raw"); ar[i].pass = focus == 1 && i == 0 && mp_pick(0, 1, "passthru");
        xmlNode *a = xb::el("area"), *e; xb::add(c, a);
        xb::add(a, e = xb::el("documentroot")); xb::add(e, xb::text(ar[i].r)); xb::add(a, e = xb::el("prefix")); xb::add(e, xb::text(ar[i].p));
        if (ar[i].raw) { xb::add(a, e = xb::el("raw")); xb::add(e, xb::text("true")); } if (ar[i].pass) { xb::add(a, e = xb::el("passthru")); xb::add(e, xb::text("1")); }
    }
    f->configure(c, false, 0); Chain ch(*f); mp::Session s; mp::Origin og; mp::odr o;
    static const char *meth[] = { "GET", "POST", "get" }; std::string method = "GET", path;
    if (focus == 0) {
        static const char *ctx[] = { "", "/a", "/a/", "/ab", "/a/x%", "/a/..", "/b" }; path = ctx[mp_pick(0, 6, "context")]; char *t = sym_cstr(NB, "path"); path += t; fsize = 3;
    } else {
        static const char *tail[] = { "/x.html", "/x", "/x.a", "/y.htm?q=.a", "/d.a/x", "/x.b#.a", "/.html", "/x." };
        method = meth[mp_pick(0, 2, "method")]; path = std::string("/a") + tail[mp_pick(0, 7, "file")]; kind = mp_pick(0, 6, "kind"); static const long sz[] = { 3, 0, 1000001 }; fsize = sz[mp_pick(0, 2, "size")]; raw_ok = mp_pick(0, 1, "raw ok");
    }
    // the file that is meant
    std::string u = path; size_t q = u.find('#'); if (q != std::string::npos) u.erase(q); q = u.find('?'); if (q != std::string::npos) u.erase(q); u = dec(u.c_str());
    int area = -1; std::string file;
    if (u.find("..") == std::string::npos) for (int i = 0; i < na && area < 0; i++) if (pre(u, ar[i].p)) { std::string rest = u.substr(strlen(ar[i].p)), rt = ar[i].r; if (rest.empty() || rest[0] == '/' || rt[rt.size() - 1] == '/') { area = i; file = rt + rest; } }
    Run r(ch, s, og, http_get(o, method.c_str(), path.c_str()));
    Z_GDU *g = r.g(); mp_assert(g && g->which == Z_GDU_HTTP_Response, "answered"); Z_HTTP_Response *h = g->u.HTTP_Response; mp_assert(opens == closes_, "files are closed");
    if (area < 0) { mp_assert(calls == 1 && h->code == 203 && opened.empty(), "paths outside the areas are passed on and nothing is opened"); mp_cover("passed on"); }
    else {
        bool get = method == "GET", there = kind != 1 && kind != 2;
        if (!get || !there) { mp_assert(opened.empty(), "nothing is opened"); if (ar[area].pass) { mp_assert(calls == 1 && h->code == 203, "passed on when configured"); mp_cover("passthru"); } else { mp_assert(calls == 0 && h->code == (get ? 404 : 405), "refused"); mp_cover(get ? "404" : "405"); } }
        else {
            mp_assert(calls == 0, "not passed on"); mp_assert(opened == file && statted == file, "the file that is opened is the one named below the document root");
            if (kind == 3 || kind == 4 || kind == 6 || fsize > 1000000) mp_assert(h->code == 404, "not served");
            else if (kind == 5 && fsize > 0) { mp_assert(h->code == 500, "read failure is reported"); mp_cover("500"); }
            else if (ar[area].raw) { mp_assert(h->code == (raw_ok ? 299 : 500) && raws == 1, "raw files are responses"); mp_cover("raw"); }
            else {
                mp_assert(h->code == 200 && h->content_len == fsize && !memcmp(h->content_buf, content, fsize), "the content of the file"); mp_cover("200");
                std::string ext, base = file; size_t d = base.rfind('/'); if (d != std::string::npos) base = base.substr(d + 1); d = base.rfind('.'); if (d != std::string::npos) ext = base.substr(d + 1);
                const char *ct = 0; int n = 0; for (Z_HTTP_Header *x = h->headers; x; x = x->next) if (seq(x->name, "Content-Type")) ct = x->value, n++;
                mp_assert(n == 1 && seq(ct, ext == "html" || ext == "htm" ? "text/html" : ext == "a" ? "text/a" : "application/octet-stream"), "type by extension");
            } } }
    mp_cover("done");
}
#elif PROP == 2
#include <sstream>
static void down(mp::Package &) {}
static char *text; extern "C" const char *mp_file(const char *n) { return seq(n, "/f") ? text : 0; }
extern "C" { int mp_stat_rec(const char *, unsigned *) { return -1; } }
// words of every line that is not empty and starts with none of "# \t"
void mp_main(void) {
    static const char *ctx[] = { "", "a b\n", "#a\n", "a\n\n", "a \t" }; std::string t = ctx[mp_pick(0, 4, "context")]; t += sym_cstr(NB, "text"); static const char *tail[] = { "", "\n", " c\nd" }; t += tail[mp_pick(0, 2, "tail")];
    int longline = mp_pick(0, 1, "long line"); if (longline) { t += "\n"; for (int i = 0; i < 300; i++) t += 'x'; t += "\ny\n"; }
    text = (char *)malloc(t.size() + 1); strcpy(text, t.c_str());
    mp::PlainFile f; mp_assert(!f.open("/none"), "no such file"); std::vector<std::string> a; mp_assert(!f.getline(a) && a.empty(), "nothing without file"); mp_assert(f.open("/f"), "opened");
    size_t p = 0, n = t.size(); int lines = 0;
    while (p <= n) {
        size_t e = t.find('\n', p); if (e == std::string::npos) e = n; std::string l = t.substr(p, e - p); p = e + 1; if (l.empty() || l[0] == '#' || l[0] == ' ' || l[0] == '\t') continue;
        mp_assert(f.getline(a), "a line"); lines++; mp_assert(lines < 20, "reading ends");
        size_t k = 0, w = 0; if (l.size() > 250) { mp_assert(a.size() == 1 && a[0] == l, "a long line is read as a whole"); mp_cover("long"); continue; }
        while (k < l.size()) { while (k < l.size() && (l[k] == ' ' || l[k] == '\t')) k++; if (k == l.size()) break; size_t b = k; while (k < l.size() && l[k] != ' ' && l[k] != '\t') k++; mp_assert(w < a.size() && a[w] == l.substr(b, k - b), "the words of the line in order"); w++; }
        mp_assert(w == a.size(), "all the words"); mp_cover("line");
    }
    mp_assert(!f.getline(a), "end of file"); mp_assert(!f.getline(a), "and again"); mp_cover("done");
}
#else
#include "filter_auth_simple.hpp"
#include <yaz/oid_db.h>
static std::string users, targets; static int calls; static std::vector<std::string> got; static bool fail_open;
extern "C" { const char *mp_file(const char *n) { return seq(n, "U") ? users.c_str() : seq(n, "T") ? targets.c_str() : 0; } int mp_stat_rec(const char *, unsigned *) { return -1; }
char *yaz_filepath_resolve(const char *f, const char *, const char *, char *full) { if (fail_open) return 0; strcpy(full, f); return full; } }
static void down(mp::Package &p) { calls++; Z_GDU *g = p.request().get(); if (g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_initRequest) { std::list<std::string> v; mp::util::get_vhost_otherinfo(g->u.z3950->u.initRequest->otherInfo, v); got.assign(v.begin(), v.end()); } mp::odr o; if (g) p.response() = o.create_close(g->u.z3950, Z_Close_finished, 0); }
static mp::filter::AuthSimple *conf(bool u, bool t, bool discard) {
    mp::filter::AuthSimple *f = new mp::filter::AuthSimple; xmlNode *c = xb::el("filter"), *e;
    if (t) { xb::add(c, e = xb::el("targetRegister")); xb::add(e, xb::text("T")); } if (u) { xb::add(c, e = xb::el("userRegister")); xb::add(e, xb::text("U")); } if (discard) xb::add(c, xb::el("discardUnauthorisedTargets"));
    f->configure(c, false, 0); return f;
}
static Z_IdAuthentication *open_auth(mp::odr &o, const char *s) { Z_IdAuthentication *a = (Z_IdAuthentication *)odr_malloc(o, sizeof *a); a->which = Z_IdAuthentication_open; a->u.open = odr_strdup(o, s); return a; }
static Z_IdAuthentication *pw_auth(mp::odr &o, const char *u, const char *p) { Z_IdAuthentication *a = (Z_IdAuthentication *)odr_malloc(o, sizeof *a); a->which = Z_IdAuthentication_idPass; a->u.idPass = (Z_IdPass *)odr_malloc(o, sizeof *a->u.idPass); a->u.idPass->groupId = odr_strdup(o, "g"); a->u.idPass->userId = u ? odr_strdup(o, u) : 0; a->u.idPass->password = p ? odr_strdup(o, p) : 0; return a; }
static bool ieq(const std::string &a, const char *b) { if (a.size() != strlen(b)) return false; for (size_t i = 0; i < a.size(); i++) { int x = (unsigned char)a[i], y = (unsigned char)b[i]; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y) return false; } return true; }
static bool rejected(Run &r, int code, const char *add) {
    Z_APDU *z = r.z(Z_APDU_initResponse); if (!z || *z->u.initResponse->result) return false; if (!r.p.session().is_closed()) return false;
    Z_External *e = z->u.initResponse->userInformationField; if (!e || e->which != Z_External_userInfo1) return false; Z_OtherInformationUnit *u = e->u.userInfo1->list[0]; if (u->which != Z_OtherInfo_externallyDefinedInfo) return false; Z_External *d = u->information.externallyDefinedInfo; if (!d || d->which != Z_External_diag1) return false;
    Z_DefaultDiagFormat *f = d->u.diag1->elements[0]->u.defaultDiagRec; return *f->condition == code && seq(f->u.v2Addinfo, add);
}
static Z_DefaultDiagFormat *sdiag(Z_APDU *z) { return z->which == Z_APDU_searchResponse && z->u.searchResponse->records && z->u.searchResponse->records->which == Z_Records_NSD ? z->u.searchResponse->records->u.nonSurrogateDiagnostic : 0; }
static Z_DefaultDiagFormat *cdiag(Z_APDU *z) { Z_ScanResponse *r = z->u.scanResponse; return r->entries && r->entries->num_nonsurrogateDiagnostics == 1 && r->entries->nonsurrogateDiagnostics[0]->which == Z_DiagRec_defaultFormat ? r->entries->nonsurrogateDiagnostics[0]->u.defaultFormat : 0; }
#if PROP == 3
void mp_main(void) {
    users = "u:p:db,X\n# no\nv::*\n\nw:p:q:y"; targets = "u:ta,Tb\nv:*\nw:"; struct { const char *u, *p; } reg[] = { {"u", "p"}, {"v", ""}, {"w", "p"} };
    static const char *dbs[3][3] = { {"db", "X", 0}, {"*", 0, 0}, {"q:y", 0, 0} }; static const char *tg[3][3] = { {"ta", "Tb", 0}, {"*", 0, 0}, {"", 0, 0} };
    int regs = mp_pick(0, 2, "registers"); bool hu = regs != 1, ht = regs != 0, discard = ht && mp_pick(0, 1, "discard"); mp::filter::AuthSimple *f = conf(hu, ht, discard); Chain ch(*f); mp::Session s; mp::Origin og; mp::odr o;
    Z_APDU *a = mk_req(o, Z_APDU_initRequest); const char *id = mp_pick(0, 1, "id") ? "r" : 0; set_ref(o, a, id); std::string user, pass;
    int how = mp_pick(0, 3, "credentials"), focus = mp_pick(0, 1, "focus");
    if (focus) { int k = mp_pick(0, 2, "user"); how = mp_pick(0, 1, "form"); user = reg[k].u; pass = reg[k].p; if (how == 0) { std::string t = user; if (!pass.empty()) t += "/" + pass; a->u.initRequest->idAuthentication = open_auth(o, t.c_str()); } else a->u.initRequest->idAuthentication = pw_auth(o, user.c_str(), pass.c_str()); }
    else if (how == 0) { char *t = sym_cstr(NB, "open"); a->u.initRequest->idAuthentication = open_auth(o, t); char *q = strchr(t, '/'); user = q ? std::string(t, q - t) : std::string(t); if (q) pass = q + 1; }
    else if (how == 1) { char *u = mp_pick(0, 1, "has user") ? sym_cstr(mp_pick(0, 2, "user length"), "user") : 0, *p = mp_pick(0, 1, "has password") ? sym_cstr(mp_pick(0, 2, "password length"), "password") : 0; a->u.initRequest->idAuthentication = pw_auth(o, u, p); if (u) user = u; if (p) pass = p; }
    else if (how == 2) { Z_IdAuthentication *x = (Z_IdAuthentication *)odr_malloc(o, sizeof *x); x->which = Z_IdAuthentication_anonymous; x->u.anonymous = (Odr_null *)odr_strdup(o, ""); a->u.initRequest->idAuthentication = x; }
    int nt = focus ? mp_pick(0, 2, "targets") : ht; std::list<std::string> vh; static const char *tv[] = { "ta", "TB", "tc", "" }; for (int i = 0; i < nt; i++) vh.push_back(tv[focus ? mp_pick(0, 3, "target") : 0]); if (nt) mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, o, vh);
    std::vector<std::string> all(vh.begin(), vh.end());
    int who = -1, tw = -1; for (int i = 0; i < 3; i++) { if (user == reg[i].u && pass == reg[i].p) who = i; if (user == reg[i].u) tw = i; }
    bool ok;
    {
        Run r(ch, s, og, a); ok = calls == 1; mp_assert(calls <= 1, "passed on once at most");
        if (hu && who < 0) { mp_assert(!ok && rejected(r, 1014, user.empty() ? "no credentials supplied" : "username/password combination rejected"), "wrong credentials are refused"); mp_cover("refused"); mp_assert(ref_is(r.z(Z_APDU_initResponse), id), "reference id"); }
        else if (ht) {
            std::vector<std::string> may; const char *bad = 0; for (size_t i = 0; i < all.size(); i++) { bool in = false; if (tw >= 0) for (int k = 0; k < 3 && tg[tw][k]; k++) if (seq(tg[tw][k], "*") || ieq(all[i], tg[tw][k])) in = true; if (in) may.push_back(all[i]); else if (!bad) bad = all[i].c_str(); }
            if (bad && !discard) { mp_assert(!ok && rejected(r, 236, bad), "a target the user may not access is refused"); mp_cover("target refused"); }
            else if (may.empty()) { mp_assert(!ok && rejected(r, 236, "all databases"), "no target left"); mp_cover("no target"); }
            else { mp_assert(ok && got == may, "the targets the user may access are passed on"); mp_cover("targets"); }
        } else { mp_assert(ok && got == all && !r.p.session().is_closed(), "right credentials are passed on"); mp_cover("accepted"); }
    }
    if (ok && hu && focus) {
        calls = 0; int scan = mp_pick(0, 1, "scan"), other = mp_pick(0, 3, "other"); Z_APDU *q = mk_req(o, other == 3 ? Z_APDU_presentRequest : scan ? Z_APDU_scanRequest : Z_APDU_searchRequest); set_ref(o, q, id); const char *bad = 0;
        if (other != 3) {
            std::vector<std::string> d; int n = mp_pick(0, 2, "databases"); static const char *dv[] = { "db", "x", "Q:Y", "*" }; for (int i = 0; i < n; i++) d.push_back(i == 0 ? std::string(sym_cstr(mp_pick(1, 2, "length"), "database")) : std::string(dv[mp_pick(0, 3, "second")]));
            if (scan) set_dbs(o, &q->u.scanRequest->num_databaseNames, &q->u.scanRequest->databaseNames, d); else set_dbs(o, &q->u.searchRequest->num_databaseNames, &q->u.searchRequest->databaseNames, d);
            char **nm = scan ? q->u.scanRequest->databaseNames : q->u.searchRequest->databaseNames;
            for (int i = 0; i < n && !bad; i++) { bool in = false; for (int k = 0; k < 3 && dbs[who][k]; k++) if (seq(dbs[who][k], "*") || ieq(d[i], dbs[who][k])) in = true; if (!in) bad = nm[i]; }
        }
        mp::Session t; bool fresh = other == 1; Run r(ch, fresh ? t : s, og, q);
        if (!bad || fresh) { mp_assert(calls == 1 && r.z(Z_APDU_close), "allowed databases are passed on"); mp_cover("search passed"); }
        else { Z_APDU *z = r.z(scan ? Z_APDU_scanResponse : Z_APDU_searchResponse); mp_assert(calls == 0 && z, "other databases are not"); Z_DefaultDiagFormat *g = scan ? cdiag(z) : sdiag(z); mp_assert(g && *g->condition == 236 && seq(g->u.v2Addinfo, bad) && ref_is(z, id), "access denied for that database"); mp_assert(r.p.session().is_closed(), "closed"); mp_cover("search refused"); }
        // the end of a session leaves nothing behind
        { Run e(ch, s, og, (Z_GDU *)0); }
    }
    mp_cover("done");
}
#elif PROP == 4
void mp_main(void) {   // registers: every line is user:password:databases
    bool tr = mp_pick(0, 1, "target register"); static const char *ctx[] = { "", "a:b:c\n", "#", "a:b:c,", "a:" }; std::string t = ctx[mp_pick(0, 4, "context")]; t += sym_cstr(NB, "text"); int tail = mp_pick(0, 3, "tail"); if (tail == 1) t += ":d"; if (tail == 2) t += "\n"; if (tail == 3) { t += "\nz:"; for (int i = 0; i < 1100; i++) t += 'y'; t += ":d\n"; }
    (tr ? targets : users) = t; bool bad = false; std::string u, p, d; int found = 0; size_t i = 0;
    while (i <= t.size() && !bad) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); std::string l = t.substr(i, e - i); i = e + 1; if (l.empty() || l[0] == '#') continue; size_t c = l.find(':'); if (c == std::string::npos) { bad = true; break; } std::string a = l.substr(0, c), r = l.substr(c + 1), pw; if (!tr) { c = r.find(':'); if (c == std::string::npos) { bad = true; break; } pw = r.substr(0, c); r = r.substr(c + 1); } if (a == "a") { u = a; p = pw; d = r; found++; } }
    bool threw = false; mp::filter::AuthSimple *f = 0; try { f = conf(!tr, tr, false); } catch (mp::filter::FilterException &) { threw = true; }
    if (tail == 3) { if (!bad) { mp_assert(threw || f, "a very long line is read or refused"); mp_cover("long line"); } if (threw) { mp_cover("done"); return; } }
    mp_assert(threw == bad, "a register is refused exactly when a line lacks a field"); if (bad) { mp_cover("bad register"); mp_cover("done"); return; }
    // user "a" as the register says
    Chain ch(*f); mp::Session s; mp::Origin og; mp::odr o; Z_APDU *a = mk_req(o, Z_APDU_initRequest); a->u.initRequest->idAuthentication = pw_auth(o, "a", p.c_str()); std::list<std::string> vh(1, "c"); mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, o, vh);
    bool in = false; for (size_t b = 0; b <= d.size();) { size_t e = d.find(',', b); if (e == std::string::npos) e = d.size(); std::string x = d.substr(b, e - b); b = e + 1; if (x == "*" || ieq(x, "c")) in = true; }
    { Run r(ch, s, og, a); mp_assert(calls == (tr ? found && in : found > 0), "the last entry of a user counts"); }
    if (!tr && found) { calls = 0; Run r(ch, s, og, mk_req(o, Z_APDU_searchRequest, "t", "c")); mp_assert(calls == in, "databases as listed"); if (in) mp_cover("listed"); else mp_cover("not listed"); }
    mp_cover("done");
}
#elif PROP == 5
#include <pthread.h>
static void *ini(void *p) { ((mp::Package *)p)->move(); return 0; }
void mp_main(void) {   // a restricted session stays restricted while others authenticate
    users = "u:p:db\n"; mp::filter::AuthSimple *f = conf(true, false, false); Chain ch(*f); mp::Session s[3]; mp::Origin og; mp::odr o; int k = mp_pick(0, 1, "asker");
    for (int i = 0; i < 2; i++) { Z_APDU *a = mk_req(o, Z_APDU_initRequest); a->u.initRequest->idAuthentication = open_auth(o, "u/p"); Run r(ch, s[i], og, a); }
    mp::Package n(s[2], og); { Z_APDU *a = mk_req(o, Z_APDU_initRequest); a->u.initRequest->idAuthentication = open_auth(o, "u/p"); n.request() = a; n.router(ch.r); } calls = 0; mp::Package p(s[k], og); bool scan = mp_pick(0, 1, "scan"); p.request() = mk_req(o, scan ? Z_APDU_scanRequest : Z_APDU_searchRequest, "t", "other"); p.router(ch.r);
    mp_preempt(1, PB); pthread_t t; bool swap = mp_pick(0, 1, "swap"); pthread_create(&t, 0, ini, swap ? &p : &n);
    (swap ? n : p).move(); mp_preempt(0, 0); pthread_join(t, 0); Z_GDU *g = p.response().get(); mp_assert(g && g->u.z3950->which == (scan ? Z_APDU_scanResponse : Z_APDU_searchResponse) && p.session().is_closed(), "a restricted session is restricted whatever others do");
    mp_assert(calls == 1, "the other session is let in"); mp_cover("done");
}
#endif
#endif
