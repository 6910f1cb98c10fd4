// Small filters. PROP 1: limit; 2: bounce; 3: present_chunk; 4: packages and their routes
#include "fx.h"
#if PROP == 1
#include "filter_limit.hpp"
static long now_s = 1000; static unsigned slept;
extern "C" { time_t time(time_t *t) { if (t) *t = now_s; return now_s; } unsigned sleep(unsigned n) { slept += n; return 0; } }
static int calls; static Odr_int asked; static bool closes; static int kind;
static void down(mp::Package &p) {
    calls++; Z_GDU *g = p.request().get(); mp::odr o; Z_APDU *a = 0;
    if (g && g->which == Z_GDU_Z3950) { a = g->u.z3950; if (a->which == Z_APDU_presentRequest) asked = *a->u.presentRequest->numberOfRecordsRequested; mp_assert(a->which == kind, "request passes"); a = o.create_APDU(Z_APDU_presentResponse, a); *a->u.presentResponse->numberOfRecordsReturned = 77; p.response() = a; }
    if (closes) p.session().close();
}
void mp_main(void) {
    mp::filter::Limit *f = new mp::filter::Limit; xmlNode *c = xb::el("filter"), *l = xb::el("limit"); xb::add(c, l);
    int retrieve = 0, pdu = 0, search = 0, bw = 0;
    static const char *nums[] = { 0, "1", "2", "0", "-1" }; static const int val[] = { 0, 1, 2, 0, -1 };
    int what = mp_pick(0, 3, "limit");
    if (what == 0) { int r = mp_pick(1, 4, "retrieve"); xb::attr(l, "retrieve", nums[r]); retrieve = val[r]; }
    if (what == 1 || what == 3) { int r = mp_pick(1, 2, "pdu"); xb::attr(l, "pdu", nums[r]); pdu = val[r]; }
    if (what == 2 || what == 3) { int r = mp_pick(1, 2, "search"); xb::attr(l, "search", nums[r]); search = val[r]; }
    if (what == 3) { static const char *b[] = { "100", "450", "3" }; static const int bv[] = { 100, 450, 3 }; int r = mp_pick(0, 2, "bandwidth"); xb::attr(l, "bandwidth", b[r]); bw = bv[r]; }
    f->configure(c, false, 0);
    Chain ch(*f); mp::Session s[2]; mp::Origin og; std::vector<long> pdus[2], searches[2];
    int gone[2] = { 0, 0 };
    for (int i = 0; i < STEPS; i++) {
        int w = what == 0 ? 0 : mp_pick(0, 1, "session"); now_s += what == 0 ? 0 : mp_pick(0, 2, "gap") * 35; closes = mp_pick(0, 1, "closes");
        mp::odr o; static const int kinds[] = { Z_APDU_presentRequest, Z_APDU_searchRequest, Z_APDU_scanRequest }; kind = kinds[what == 0 ? 0 : mp_pick(0, 2, "request")];
        Z_APDU *a = mk_req(o, kind); Odr_int n = 0; if (kind == Z_APDU_presentRequest && what == 0) { n = mp_i64("records"); *a->u.presentRequest->numberOfRecordsRequested = n; }
        long heap = mp_heap_live(); slept = 0; calls = 0; asked = -1;
        {
            Run r(ch, s[w], og, a); mp_assert(calls == 1, "the request is passed on once");
            Z_APDU *z = r.z(Z_APDU_presentResponse); mp_assert(z && *z->u.presentResponse->numberOfRecordsReturned == 77, "the response is passed back");
            mp_assert(r.p.session().is_closed() == (closes || s[w].is_closed()), "closing is passed back");
        }
        if (closes) mp_assert(mp_heap_live() <= heap, "nothing is kept of a closed session");
        if (what == 0) { if (retrieve > 0) { mp_assert(asked == (n > retrieve ? retrieve : n), "present requests are capped at the limit"); if (asked != n) mp_cover("capped"); else mp_cover("not capped"); } else if (retrieve == 0) mp_assert(asked == n, "no limit, no cap"); }
        if (gone[w]) { pdus[w].clear(); searches[w].clear(); gone[w] = 0; }
        pdus[w].push_back(now_s); if (kind == Z_APDU_searchRequest) searches[w].push_back(now_s);
        int np = 0, ns = 0; for (size_t k = 0; k < pdus[w].size(); k++) if (pdus[w][k] > now_s - 60) np++; for (size_t k = 0; k < searches[w].size(); k++) if (searches[w][k] > now_s - 60) ns++;
        bool over = (pdu && np > pdu) || (search && ns >= search) || (bw && np * 200 >= bw);
        int delay = (search ? ns / search : 0) + (bw ? np * 200 / bw : 0); if (pdu && np > pdu && delay < 60 / pdu) delay = 60 / pdu; mp_assert((int)slept == delay, "the delay follows from the traffic of the last minute"); mp_assert((slept > 0) == over, "a session is delayed exactly when it used up a limit in the last minute"); if (what) { if (over) mp_cover("delayed"); else mp_cover("not delayed"); }
        if (closes) { gone[w] = 1; mp_cover("closed"); }
    }
    mp_cover("done");
}
#elif PROP == 2
#include "filter_bounce.hpp"
static int calls; static void down(mp::Package &) { calls++; }
static const int reqs[] = { Z_APDU_initRequest, Z_APDU_searchRequest, Z_APDU_presentRequest, Z_APDU_scanRequest, Z_APDU_sortRequest, Z_APDU_deleteResultSetRequest, Z_APDU_close };
void mp_main(void) {
    mp::filter::Bounce f; xmlNode *c = xb::el("filter"); bool echo = false;
    if (mp_pick(0, 1, "configured")) { int e = mp_pick(0, 1, "echo"); xmlNode *n = xb::el("echo"); xb::add(c, n); xb::add(n, xb::text(e ? "true" : "false")); echo = e; }
    f.configure(c, false, 0); Chain ch(f); mp::Session s; mp::Origin og; mp::odr o;
    switch (mp_pick(0, 2, "kind")) {
    case 0: {
        Z_APDU *a = mk_req(o, reqs[mp_pick(0, (int)(sizeof reqs / sizeof *reqs) - 1, "request")]);
        const char *id = mp_pick(0, 1, "id") ? "ab" : 0; set_ref(o, a, id); Run r(ch, s, og, a); Z_APDU *z = r.z(Z_APDU_close);
        mp_assert(z != 0, "Z39.50 requests are answered with close"); mp_assert(ref_is(z, id), "reference id of the request"); mp_assert(z->u.close->diagnosticInformation && *z->u.close->diagnosticInformation, "the close says why"); mp_assert(r.p.session().is_closed(), "the connection is closed"); mp_cover("close"); break; }
    case 1: {
        Z_GDU *g = http_get(o, "GET", "/a"); if (mp_pick(0, 1, "keep")) z_HTTP_header_add(o, &g->u.HTTP_Request->headers, "Connection", "Keep-Alive");
        int n = mp_pick(0, 2, "content"); char b[3]; mp_sym(b, n, "content"); g->u.HTTP_Request->content_buf = b; g->u.HTTP_Request->content_len = n;
        Run r(ch, s, og, g); Z_GDU *x = r.g(); mp_assert(x && x->which == Z_GDU_HTTP_Response && x->u.HTTP_Response->code == 400, "HTTP requests are answered with 400"); mp_assert(r.p.session().is_closed(), "the connection is closed");
        if (echo) { Z_HTTP_Response *h = x->u.HTTP_Response; mp_assert(seq(z_HTTP_header_lookup(h->headers, "Content-Type"), "text/plain"), "the echo is plain text"); mp_assert(h->content_len >= n + 14 && !memcmp(h->content_buf, "GET /a HTTP/1.1", 15), "the echo holds the request line"); mp_assert(!n || !memcmp(h->content_buf + h->content_len - n, b, n), "the echo holds the content"); mp_cover("echo"); }
        mp_cover("400"); break; }
    case 2: { Run r(ch, s, og, (Z_GDU *)0); mp_assert(!r.g() && r.p.session().is_closed(), "a package without request closes the connection"); break; }
    }
    mp_assert(calls == 0, "nothing is sent further down"); mp_cover("done");
}
#elif PROP == 3
#include "filter_present_chunk.hpp"
static Odr_int set_size, chunk, want, first, served; static int calls, fault; static const char *refid; static bool overlong;
static void down(mp::Package &p) {
    Z_GDU *g = p.request().get(); mp::odr o; calls++; mp_assert(calls <= STEPS + 2, "presents terminate");
    mp_assert(g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_presentRequest, "present request is passed on"); Z_APDU *a = g->u.z3950; Odr_int n = *a->u.presentRequest->numberOfRecordsRequested, st = *a->u.presentRequest->resultSetStartPoint;
    mp_assert(ref_is(a, refid), "reference id is passed on"); mp_assert(seq(a->u.presentRequest->resultSetId, "S"), "result set is passed on");
    if (chunk > 0 && want > 0) { mp_assert(n <= chunk, "no chunk is larger than configured"); mp_assert(st == first + served, "chunks follow each other"); mp_assert(n <= want - served, "no more records are asked for than wanted"); mp_assert(n > 0, "no empty chunk is asked for"); }
    else { mp_assert(n == want && st == first, "request passes unchanged"); }
    switch (mp_pick(0, 4, "backend")) {
    case 0: case 3: { // records: as many as asked, or fewer
        int k = (int)mp_concretize(n); int give = mp_pick(0, k > 4 ? 4 : k, "records"); if (give < k) mp_cover("short"); if (!give) mp_cover("none");
        if (mp_pick(0, 1, "too many")) { give = k + 1; overlong = true; }
        a = o.create_APDU(Z_APDU_presentResponse, a); Z_Records *r = (Z_Records *)odr_malloc(o, sizeof *r); r->which = Z_Records_DBOSD; Z_NamePlusRecordList *l = (Z_NamePlusRecordList *)odr_malloc(o, sizeof *l); r->u.databaseOrSurDiagnostics = l; l->num_records = give; l->records = (Z_NamePlusRecord **)odr_malloc(o, sizeof(void *) * (give + 1));
        for (int i = 0; i < give; i++) l->records[i] = zget_surrogateDiagRec(o, "db", 1000 + (int)(st + i), 0);
        a->u.presentResponse->records = r; *a->u.presentResponse->numberOfRecordsReturned = give; *a->u.presentResponse->nextResultSetPosition = st + give; p.response() = a; served += give; if (!give) fault = 5; break; }
    case 1: a = o.create_presentResponse(a, 13, "x"); p.response() = a; fault = 1; break;
    case 2: a = o.create_close(a, 2, 0); p.response() = a; fault = 2; break;
    case 4: p.session().close(); fault = 3; break;
    }
}
void mp_main(void) {
    mp::filter::PresentChunk f; xmlNode *c = xb::el("filter"); static const char *nums[] = { "0", "1", "2", "-1" }; static const int val[] = { 0, 1, 2, -1 };
    if (mp_pick(0, 1, "configured")) { int k = mp_pick(0, 3, "chunk"); xmlNode *n = xb::el("chunk"); xb::add(c, n); xb::add(n, xb::text(nums[k])); chunk = val[k]; }
    f.configure(c, false, 0); Chain ch(f); mp::Session s; mp::Origin og; mp::odr o; Z_APDU *a = zget_APDU(o, Z_APDU_presentRequest);
    refid = mp_pick(0, 1, "id") ? "r" : 0; set_ref(o, a, refid); a->u.presentRequest->resultSetId = (char *)"S"; want = mp_pick(-1, STEPS, "wanted"); first = mp_pick(1, 2, "start"); *a->u.presentRequest->numberOfRecordsRequested = want; *a->u.presentRequest->resultSetStartPoint = first;
    long heap = mp_heap_live();
    { Run r(ch, s, og, a);
    Z_APDU *z = r.z(Z_APDU_presentResponse);
    if (chunk <= 0 || want <= 0) mp_assert(calls == 1, "passed on once"); 
    if (fault == 3) { mp_assert(r.p.session().is_closed(), "a closed backend closes the session"); mp_cover("closed"); }
    else if (fault == 2) { mp_assert(r.z(Z_APDU_close) != 0, "another response is passed back"); mp_cover("close"); }
    else if (fault == 1) { mp_assert(z && z->u.presentResponse->records && z->u.presentResponse->records->which == Z_Records_NSD, "a diagnostic is passed back"); mp_assert(ref_is(z, refid), "reference id of the request"); mp_cover("diagnostic"); }
    else {
        mp_assert(z != 0, "present is answered"); mp_assert(ref_is(z, refid), "reference id of the request");
        Odr_int total = chunk > 0 && served > want && want > 0 ? want : served;
        Z_PresentResponse *pr = z->u.presentResponse; Z_NamePlusRecordList *l = pr->records ? pr->records->u.databaseOrSurDiagnostics : 0; mp_assert(l && l->num_records == total, "all records the backend gave, no more than asked for"); mp_assert(*pr->numberOfRecordsReturned == total, "number of records is told");
        for (int i = 0; i < total; i++) mp_assert(l->records[i]->which == Z_NamePlusRecord_surrogateDiagnostic && *l->records[i]->u.surrogateDiagnostic->u.defaultFormat->condition == 1000 + first + i, "records come in result set order");
        mp_assert(*pr->nextResultSetPosition == first + total, "next position follows the records");
        mp_assert(!r.p.session().is_closed(), "session stays open"); if (calls > 1) mp_cover("several chunks"); mp_cover("records"); } }
    mp_assert(mp_heap_live() <= heap, "nothing is leaked"); mp_cover("done");
}
#elif PROP == 4
#include <list>
static int trace[64], nt; static bool recurse; static const mp::Session *want_s;
static void down(mp::Package &) {}
struct F : public mp::filter::Base { int i; mutable std::list<mp::Package *> subs;
    void configure(const xmlNode *, bool, const char *) {}
    void process(mp::Package &p) const {
        trace[nt++] = i; mp_assert(nt < 60, "moves end");
        p.log("m", 0, "%d", i);
        if (i == recurse_at) {   // sub-packages made by this filter go to the next one, the original too
            int k = mp_pick(0, 2, "subs");
            for (int j = 0; j < k; j++) { mp::Package q(p.session(), p.origin()); q.copy_filter(p); mp_assert(!q.request().get() && !q.response().get(), "a sub-package starts empty"); int at = nt; q.move(); mp_assert(nt - at == nf - 1 - i, "a sub-package visits the rest of the route"); for (int m = 0; m < nt - at; m++) mp_assert(trace[at + m] == i + 1 + m, "in order"); if (mp_pick(0, 1, "again")) { int b = nt; q.move(); mp_assert(nt == b, "and then nobody"); } mp_cover("sub-package"); }
        }
        int at = nt; p.move(); mp_assert(nt - at == nf - 1 - i || i != recurse_at, "the package itself visits the rest of the route");
        if (i == close_at) p.session().close();
    }
    static int nf, recurse_at, close_at;
};
int F::nf, F::recurse_at, F::close_at;
void mp_main(void) {
    F f[3]; F::nf = mp_pick(0, 3, "filters"); F::recurse_at = mp_pick(-1, F::nf - 1, "recurse"); F::close_at = mp_pick(-1, F::nf - 1, "close");
    mp::RouterChain r; for (int i = 0; i < 3; i++) f[i].i = i; for (int i = 0; i < F::nf; i++) r.append(f[i]);
    mp::Session s; mp::Origin og; og.set_tcpip_address("tcp:a b", s.id()); { mp::Package w(s, og); w.log_enable(); w.log("m", 0, "%d", 1); } long heap = mp_heap_live();
    {
        mp::Package p(s, og); p.move(); mp_assert(nt == 0, "a package without route goes nowhere");
        bool log = mp_pick(0, 1, "log"); if (log) p.log_enable(); p.log_write("x", 1);
        p.router(r); mp_assert(p.session() == s && !p.session().is_closed(), "session of the package"); p.move();
        std::string t = "-"; p.log_reset(t);
        if (!log) mp_assert(seq(t.c_str(), "-"), "no log without being asked for");
        else { std::string w = "x"; for (int i = 0; i < nt; i++) { w += "m "; w += (char)('0' + trace[i]); w += "\n"; } mp_assert(t == w, "the log holds what the package and its sub-packages logged, in order"); std::string u = "-"; p.log_reset(u); mp_assert(seq(u.c_str(), "-"), "the log is handed out once"); mp_cover("log"); }
        mp_assert(p.session().is_closed() == (F::close_at >= 0), "closing is seen in the package"); mp_assert(!s.is_closed(), "a package has its own session handle");
        for (int i = 0; i < F::nf; i++) { bool seen = false; for (int k = 0; k < nt; k++) if (trace[k] == i) seen = true; mp_assert(seen, "every filter is visited"); }
    }
    mp_assert(mp_heap_live() <= heap, "nothing is leaked"); mp_cover("done");
}
#endif
