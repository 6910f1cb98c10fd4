// The multi filter. PROP 1: order of merged records; 2: failing backends; 3: scan
#include <yaz/oid_db.h>
#include "fx.h"
#include <map>
#include "filter_multi.hpp"
static const char *hosts[] = { "h0", "h1/x", "h2" };
static std::map<unsigned long, int> idx; static bool closed[3]; static int nb, bad; static bool ups[3];
static int be_of(mp::Package &p) { mp_assert(idx.count(p.session().id()), "a backend's session"); return idx[p.session().id()]; }
static int be_init(mp::Package &p) { Z_APDU *a = p.request().get()->u.z3950; std::list<std::string> v; mp::util::get_vhost_otherinfo(a->u.initRequest->otherInfo, v); mp_assert(v.size() == 1, "a single target"); int i = 0; while (i < 3 && v.front() != hosts[i]) i++; mp_assert(i < nb && !ups[i], "each target is initialised once"); ups[i] = true; idx[p.session().id()] = i; return i; }
static Z_APDU *init_req(mp::odr &o) { Z_APDU *a = zget_APDU(o, Z_APDU_initRequest); std::list<std::string> v(hosts, hosts + nb); mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, o, v); set_ref(o, a, "r"); return a; }
static Z_NamePlusRecord *rec(mp::odr &o, int b, Odr_int pos) { Z_NamePlusRecord *n = (Z_NamePlusRecord *)odr_malloc(o, sizeof *n); n->databaseName = odr_strdup(o, "db"); n->which = Z_NamePlusRecord_surrogateDiagnostic; char s[2] = { (char)('0' + b), 0 }; n->u.surrogateDiagnostic = zget_DiagRec(o, 1, s); *n->u.surrogateDiagnostic->u.defaultFormat->condition = pos; return n; }
static Z_Records *recs(mp::odr &o, int b, Odr_int start, int num) { Z_Records *r = (Z_Records *)odr_malloc(o, sizeof *r); r->which = Z_Records_DBOSD; Z_NamePlusRecordList *l = (Z_NamePlusRecordList *)odr_malloc(o, sizeof *l); r->u.databaseOrSurDiagnostics = l; l->num_records = num; l->records = (Z_NamePlusRecord **)odr_malloc(o, sizeof(void *) * (num + 1)); for (int i = 0; i < num; i++) l->records[i] = rec(o, b, start + i); return r; }
static Z_Records *nsd(mp::odr &o, int code) { Z_Records *r = (Z_Records *)odr_malloc(o, sizeof *r); r->which = Z_Records_NSD; r->u.nonSurrogateDiagnostic = zget_DefaultDiagFormat(o, code, 0); return r; }
static Z_Records *mnsd(mp::odr &o, int c1, int c2) { Z_Records *r = (Z_Records *)odr_malloc(o, sizeof *r); r->which = Z_Records_multipleNSD; Z_DiagRecs *d = (Z_DiagRecs *)odr_malloc(o, sizeof *d); r->u.multipleNonSurDiagnostics = d; d->num_diagRecs = 2; d->diagRecs = (Z_DiagRec **)odr_malloc(o, 2 * sizeof(void *)); d->diagRecs[0] = zget_DiagRec(o, c1, 0); d->diagRecs[1] = zget_DiagRec(o, c2, 0); return r; }
#if PROP == 1
#ifdef WIDE
#define MAX2 0x7ffffff0
static Odr_int CNT(const char *n) { return mp_i64(n); }
#else
#define MAX2 1000
static Odr_int CNT(const char *n) { unsigned short v; mp_sym(&v, 2, n); return v; }
#endif
static Odr_int cnt[3]; static const char *want_esn;
static Z_ElementSetNames *esn(mp::odr &o, const char *n) { Z_ElementSetNames *e = (Z_ElementSetNames *)odr_malloc(o, sizeof *e); e->which = Z_ElementSetNames_generic; e->u.generic = odr_strdup(o, n); return e; }
static Odr_int mn(Odr_int a, Odr_int b) { return a < b ? a : b; }
static void down(mp::Package &p) {
    if (p.session().is_closed()) { closed[be_of(p)] = true; return; } Z_APDU *a = p.request().get()->u.z3950; mp::odr o;
    if (a->which == Z_APDU_initRequest) { be_init(p); p.response() = o.create_initResponse(a, 0, 0); return; } int i = be_of(p);
    if (a->which == Z_APDU_searchRequest) { mp_assert(*a->u.searchRequest->smallSetUpperBound == 0 && *a->u.searchRequest->largeSetLowerBound == 1, "no records with the search"); mp_assert(a->u.searchRequest->num_databaseNames == 1 && seq(a->u.searchRequest->databaseNames[0], i == 1 ? "x" : "Default"), "the target's database"); Z_APDU *r = o.create_searchResponse(a, 0, 0); *r->u.searchResponse->resultCount = cnt[i]; p.response() = r; return; }
    mp_assert(a->which == Z_APDU_presentRequest, "present"); Odr_int s = *a->u.presentRequest->resultSetStartPoint, n = *a->u.presentRequest->numberOfRecordsRequested; mp_assert(s >= 1 && n >= 1 && n <= 3 && s + n - 1 <= cnt[i], "records the backend has"); mp_assert(seq(a->u.presentRequest->resultSetId, "s"), "of the set"); Z_RecordComposition *rc = a->u.presentRequest->recordComposition; if (want_esn) mp_assert(rc && rc->which == Z_RecordComp_simple && rc->u.simple->which == Z_ElementSetNames_generic && seq(rc->u.simple->u.generic, want_esn), "the element set asked for"); else mp_assert(!rc, "no element set"); mp_assert(a->u.presentRequest->preferredRecordSyntax && !oid_oidcmp(a->u.presentRequest->preferredRecordSyntax, yaz_oid_recsyn_usmarc), "the syntax asked for"); n = mp_concretize(n);
    Z_APDU *r = o.create_presentResponse(a, 0, 0); r->u.presentResponse->records = recs(o, i, s, (int)n); p.response() = r;
}
void mp_main(void) { mp_preempt(0, -1);
    mp::filter::Multi *f = new mp::filter::Multi; xmlNode *c = xb::el("filter"), *e; int order = mp_pick(0, 2, "merge type"); if (order) { xb::add(c, e = xb::el("mergetype")); xb::add(e, xb::text(order == 2 ? "serveorder" : "roundrobin")); } f->configure(c, false, 0);
    nb = mp_pick(1, NBE, "backends"); NamedChain ch(*f); mp::Session s; mp::Origin og; mp::odr o; for (int i = 0; i < nb; i++) { cnt[i] = CNT("count"); mp_assume(cnt[i] >= 0 && cnt[i] <= (nb == 3 ? MAXC : MAX2)); }
    { Run r(ch, s, og, init_req(o)); Z_APDU *z = r.z(Z_APDU_initResponse); mp_assert(z && *z->u.initResponse->result && ref_is(z, "r"), "open"); }
    Odr_int total = 0; for (int i = 0; i < nb; i++) total += cnt[i]; int piggy = mp_pick(0, 2, "with the search"); int number = mp_pick(0, NUM, "number"); Odr_int start = 1; if (piggy == 2) mp_assume(number == total); bool named = number ? mp_pick(0, 1, "element set") : 0;
    Z_Records *rs = 0; Odr_int *ret, *next; Z_APDU *a = mk_req(o, Z_APDU_searchRequest); a->u.searchRequest->resultSetName = odr_strdup(o, "s"); a->u.searchRequest->preferredRecordSyntax = odr_oiddup(o, yaz_oid_recsyn_usmarc); want_esn = !named ? 0 : !piggy ? "P" : piggy == 1 ? "M" : "S"; if (named) { a->u.searchRequest->smallSetElementSetNames = esn(o, "S"); a->u.searchRequest->mediumSetElementSetNames = esn(o, "M"); } if (piggy) { *a->u.searchRequest->smallSetUpperBound = piggy == 2 ? NUM + 1 : 0; *a->u.searchRequest->largeSetLowerBound = 0x7fffffffffff; *a->u.searchRequest->mediumSetPresentNumber = number; }
    Run r(ch, s, og, a); Z_APDU *z = r.z(Z_APDU_searchResponse); mp_assert(z && *z->u.searchResponse->resultCount == total, "the sum of the counts"); rs = z->u.searchResponse->records; ret = z->u.searchResponse->numberOfRecordsReturned; next = z->u.searchResponse->nextResultSetPosition;
    if (piggy && number > total) number = (int)mp_concretize(total);
    mp::Package *q = 0; if (!piggy) {
        start = CNT("start"); mp_assume(start >= 1 && start <= 0x7ffffff0); Z_APDU *b = mk_req(o, Z_APDU_presentRequest); set_ref(o, b, "p"); b->u.presentRequest->resultSetId = odr_strdup(o, "s"); *b->u.presentRequest->resultSetStartPoint = start; *b->u.presentRequest->numberOfRecordsRequested = number; b->u.presentRequest->preferredRecordSyntax = odr_oiddup(o, yaz_oid_recsyn_usmarc); if (named) { Z_RecordComposition *rc = (Z_RecordComposition *)odr_malloc(o, sizeof *rc); rc->which = Z_RecordComp_simple; rc->u.simple = esn(o, "P"); b->u.presentRequest->recordComposition = rc; }
        q = new mp::Package(s, og); q->request() = b; q->router(ch.r).move(); Z_GDU *g = q->response().get(); mp_assert(g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_presentResponse && ref_is(g->u.z3950, "p"), "present is answered"); Z_PresentResponse *pr = g->u.z3950->u.presentResponse; rs = pr->records; ret = pr->numberOfRecordsReturned; next = pr->nextResultSetPosition;
        if (number && start + number - 1 > total) { mp_assert(rs && rs->which == Z_Records_NSD && *rs->u.nonSurrogateDiagnostic->condition == 13, "out of range"); mp_cover("out of range"); return; }
    }
    if (number) {
        mp_assert(rs && rs->which == Z_Records_DBOSD && rs->u.databaseOrSurDiagnostics->num_records == number && *ret == number && *next == start + number, "the records asked for");
        for (int k = 0; k < number; k++) {
            Z_NamePlusRecord *n = rs->u.databaseOrSurDiagnostics->records[k]; Z_DefaultDiagFormat *d = n->u.surrogateDiagnostic->u.defaultFormat; int b = d->u.v2Addinfo[0] - '0'; Odr_int pos = *d->condition, rank = 0; mp_assert(seq(n->databaseName, hosts[b]), "name of the target");
            if (order == 2) { for (int i = 0; i < b; i++) rank += cnt[i]; rank += pos; }
            else { for (int i = 0; i < nb; i++) rank += mn(cnt[i], pos - 1) + (i <= b && cnt[i] >= pos); }
            mp_assert(rank == start + k, "every record in its place, none twice, none left out");
        }
        mp_cover(piggy == 2 ? "small set" : piggy ? "piggyback" : "present");
    }
    mp::Session g(s); g.close(); Run rr(ch, g, og, (Z_GDU *)0); for (int i = 0; i < nb; i++) mp_assert(closed[i], "every backend is closed"); mp_cover("done");
}
#elif PROP == 2
static int io[2], so[2], po[2], phase, asked[2]; // outcomes
static void down(mp::Package &p) {
    if (p.session().is_closed()) { if (idx.count(p.session().id())) closed[be_of(p)] = true; return; } Z_APDU *a = p.request().get()->u.z3950; mp::odr o;
    if (a->which == Z_APDU_initRequest) { int i = be_init(p); mp_assert(moved_route == (i ? "R" : ""), "along the target's route"); mp_assert(*a->u.initRequest->preferredMessageSize == 100 && *a->u.initRequest->maximumRecordSize == 200, "sizes"); Z_IdAuthentication *t = a->u.initRequest->idAuthentication; mp_assert(t && t->which == Z_IdAuthentication_open && seq(t->u.open, i ? "tok" : "me"), "credentials");
        Z_APDU *r = o.create_initResponse(a, io[i] == 1 ? 1014 : 0, 0); ODR_MASK_SET(r->u.initResponse->options, Z_Options_search); ODR_MASK_SET(r->u.initResponse->options, Z_Options_present); if (i) ODR_MASK_SET(r->u.initResponse->options, Z_Options_scan); ODR_MASK_SET(r->u.initResponse->options, Z_Options_sort); *r->u.initResponse->preferredMessageSize = i ? 90 : 150; *r->u.initResponse->maximumRecordSize = i ? 300 : 180; if (io[i] == 1) *r->u.initResponse->result = 0; if (io[i] < 2) p.response() = r; if (io[i] == 2) p.session().close(); return; }
    int i = be_of(p); int w = phase == 1 ? so[i] : po[i]; asked[i]++; Z_APDU *r = 0; mp_assert(moved_route == (i ? "R" : ""), "along the target's route");
    if (phase == 1) { r = o.create_searchResponse(a, 0, 0); *r->u.searchResponse->resultCount = w ? 0 : 2; if (w == 1) r->u.searchResponse->records = nsd(o, 100 + i); if (w == 2) r->u.searchResponse->records = mnsd(o, 200 + i, 300 + i); }
    else { r = o.create_presentResponse(a, 0, 0); Odr_int n = *a->u.presentRequest->numberOfRecordsRequested; if (w == 6 && n) n--; r->u.presentResponse->records = w == 1 ? nsd(o, 100 + i) : w == 2 ? mnsd(o, 200 + i, 300 + i) : recs(o, i, *a->u.presentRequest->resultSetStartPoint, (int)n); }
    if (w == 3) { r = o.create_close(a, Z_Close_systemProblem, "x"); p.session().close(); } if (w == 5) r = o.create_initResponse(a, 0, 0);
    if (w != 4) p.response() = r;
    if (w == 7) p.session().close();
}
static void diags(Z_Records *r, int *w) {   // exactly the diagnostics of the backends, in order
    int want[4], n = 0; for (int i = 0; i < 2; i++) { if (w[i] == 1) want[n++] = 100 + i; if (w[i] == 2) { want[n++] = 200 + i; want[n++] = 300 + i; } }
    mp_assert(r && (n > 1 ? r->which == Z_Records_multipleNSD && r->u.multipleNonSurDiagnostics->num_diagRecs == n : r->which == Z_Records_NSD && *r->u.nonSurrogateDiagnostic->condition == want[0]), "the backends' diagnostics");
    if (n > 1) for (int i = 0; i < n; i++) mp_assert(*r->u.multipleNonSurDiagnostics->diagRecs[i]->u.defaultFormat->condition == want[i], "the backends' diagnostics"); mp_cover("diagnostics");
}
static void end(NamedChain &ch, mp::Session &s, mp::Origin &og) { mp::Session g(s); g.close(); Run rr(ch, g, og, (Z_GDU *)0); }
void mp_main(void) { mp_preempt(0, 0);
    bool hu = mp_pick(0, 1, "hide unavailable"), he = mp_pick(0, 1, "hide errors"); mp::filter::Multi *f = new mp::filter::Multi; xmlNode *c = xb::el("filter"), *e; if (hu) xb::add(c, xb::el("hideunavailable")); if (he) xb::add(c, xb::el("hideerrors")); e = xb::el("target"); xb::attr(e, "route", "R"); xb::attr(e, "auth", "tok"); xb::add(e, xb::text("h1*")); xb::add(c, e); f->configure(c, false, 0);
    nb = 2; NamedChain ch(*f); mp::Session s; mp::Origin og; mp::odr o; int ok = 0; for (int i = 0; i < 2; i++) { io[i] = mp_pick(0, 3, "init"); ok += io[i] == 0; }
    Z_APDU *a = init_req(o); *a->u.initRequest->preferredMessageSize = 100; *a->u.initRequest->maximumRecordSize = 200; Z_IdAuthentication *t = (Z_IdAuthentication *)odr_malloc(o, sizeof *t); t->which = Z_IdAuthentication_open; t->u.open = odr_strdup(o, "me"); a->u.initRequest->idAuthentication = t;
    { Run r(ch, s, og, a); Z_APDU *z = r.z(Z_APDU_initResponse); mp_assert(z && ref_is(z, "r"), "Init is answered"); Z_InitResponse *ir = z->u.initResponse; bool open = hu ? ok > 0 : ok == 2; mp_assert(!!*ir->result == open && r.p.session().is_closed() == !open, "open if all targets are, or any if others are hidden");
      if (!open) { for (int i = 0; i < 2; i++) mp_assert(io[i] == 2 || closed[i], "backends are closed with a refused session"); mp_cover("refused"); return; }
      if (ok == 2) { mp_assert(ODR_MASK_GET(ir->options, Z_Options_search) && ODR_MASK_GET(ir->options, Z_Options_present) && !ODR_MASK_GET(ir->options, Z_Options_scan) && !ODR_MASK_GET(ir->options, Z_Options_sort), "what all can"); mp_assert(*ir->preferredMessageSize == 90 && *ir->maximumRecordSize == 180, "the smallest sizes"); } }
    if (ok < 2) { mp_cover("hidden"); if (io[0] != 2 && io[1] != 2) { end(ch, s, og); return; } }
    bool in[2] = { io[0] == 0, io[1] == 0 }; phase = 1; bool anycl = false; int good = 0, nd = 0; for (int i = 0; i < 2; i++) if (in[i]) { so[i] = mp_pick(0, 3, "search"); if (so[i] == 3) anycl = true; else if (so[i]) nd++; else good++; }
    { a = mk_req(o, Z_APDU_searchRequest); set_ref(o, a, "s"); Run r(ch, s, og, a); for (int i = 0; i < 2; i++) mp_assert(asked[i] == (in[i] ? 1 : 0), "every target is searched once"); if (anycl && (!hu || !good)) { mp_assert(r.p.session().is_closed(), "a lost target ends the session"); for (int i = 0; i < 2; i++) mp_assert(!in[i] || closed[i], "all are closed"); mp_cover("lost"); return; }
      Z_APDU *z = r.z(Z_APDU_searchResponse); mp_assert(z && ref_is(z, "s") && !r.p.session().is_closed(), "answered"); if (nd && (!he || !good)) { diags(z->u.searchResponse->records, so); end(ch, s, og); return; } mp_assert(!z->u.searchResponse->records && *z->u.searchResponse->resultCount == 2 * good, "the result of those that work"); mp_cover("search"); }
    if (nd) { end(ch, s, og); return; }
    phase = 2; asked[0] = asked[1] = 0; anycl = false; int total = 2 * good, start = mp_pick(1, total, "start"), num = mp_pick(1, 3, "number"); nd = 0; int gp = 0; bool use[2], odd = false; int g0 = in[0] && !so[0] ? 0 : 1;
    for (int i = 0; i < 2; i++) { use[i] = false; if (in[i] && !so[i]) for (int k = start; k < start + num && k <= total; k++) if (good == 1 || (k - 1) % 2 == i) use[i] = true; if (use[i]) { po[i] = mp_pick(0, 7, "present"); if (po[i] == 3 || po[i] == 7) anycl = true; if (po[i] == 1 || po[i] == 2) nd++; else if (po[i] == 0 || po[i] == 6 || po[i] == 7) gp++; else if (po[i] != 3) odd = true; } }
    { a = mk_req(o, Z_APDU_presentRequest); set_ref(o, a, "p"); *a->u.presentRequest->resultSetStartPoint = start; *a->u.presentRequest->numberOfRecordsRequested = num; Run r(ch, s, og, a); for (int i = 0; i < 2; i++) mp_assert(asked[i] == use[i], "the targets that have the records are asked");
      if (anycl && (!he || !gp)) { mp_assert(r.p.session().is_closed(), "a lost target ends the session"); mp_cover("lost"); return; }
      Z_APDU *z = r.z(Z_APDU_presentResponse); mp_assert(z && ref_is(z, "p") && !r.p.session().is_closed(), "answered"); Z_Records *rs = z->u.presentResponse->records;
      if (nd && (!he || !gp)) diags(rs, po);
      else if (start + num - 1 > total) mp_assert(rs && rs->which == Z_Records_NSD && *rs->u.nonSurrogateDiagnostic->condition == 13, "out of range");
      else { int n = 0; mp_assert(rs && rs->which == Z_Records_DBOSD, "records"); Z_NamePlusRecordList *l = rs->u.databaseOrSurDiagnostics; int last[2] = { 0, 0 }; for (int k = start; k < start + num; k++) { int b = good == 1 ? g0 : (k - 1) % 2, pos = good == 1 ? k : (k - 1) / 2 + 1; last[b] = pos; }
        for (int k = start; k < start + num; k++) { int b = good == 1 ? g0 : (k - 1) % 2, pos = good == 1 ? k : (k - 1) / 2 + 1; if (po[b] == 0 || po[b] == 7 || (po[b] == 6 && pos < last[b])) { mp_assert(n < l->num_records, "all records"); Z_DefaultDiagFormat *d = l->records[n]->u.surrogateDiagnostic->u.defaultFormat; mp_assert(d->u.v2Addinfo[0] == '0' + b && *d->condition == pos, "in order"); n++; } }
        mp_assert(l->num_records == n && *z->u.presentResponse->numberOfRecordsReturned == n, "the records the targets gave"); if (odd) mp_cover("no answer"); else mp_cover("records"); } }
    { a = mk_req(o, Z_APDU_presentRequest); a->u.presentRequest->resultSetId = odr_strdup(o, "none"); asked[0] = asked[1] = 0; Run r(ch, s, og, a); Z_APDU *z = r.z(Z_APDU_presentResponse); mp_assert(z && !asked[0] && !asked[1] && z->u.presentResponse->records->which == Z_Records_NSD && *z->u.presentResponse->records->u.nonSurrogateDiagnostic->condition == 30, "no such set"); }
    end(ch, s, og); for (int i = 0; i < 2; i++) mp_assert(!in[i] || closed[i], "all are closed"); mp_cover("done");
}
#elif PROP == 3
static int ne[2], at[2], fail[2]; static char term[2][3]; static Odr_int occ[2][3];
static void down(mp::Package &p) {
    if (p.session().is_closed()) { closed[be_of(p)] = true; return; } Z_APDU *a = p.request().get()->u.z3950; mp::odr o;
    if (a->which == Z_APDU_initRequest) { be_init(p); p.response() = o.create_initResponse(a, 0, 0); return; } int i = be_of(p); mp_assert(a->which == Z_APDU_scanRequest && a->u.scanRequest->num_databaseNames == 1 && seq(a->u.scanRequest->databaseNames[0], i == 1 ? "x" : "Default"), "the target's database");
    if (fail[i] == 2) return; Z_APDU *r = o.create_scanResponse(a, fail[i] ? 114 : 0, 0); if (!fail[i]) { Z_ListEntries *l = r->u.scanResponse->entries; l->num_entries = ne[i]; l->entries = (Z_Entry **)odr_malloc(o, sizeof(void *) * (ne[i] + 1)); for (int k = 0; k < ne[i]; k++) { Z_Entry *e = (Z_Entry *)odr_malloc(o, sizeof *e); l->entries[k] = e; e->which = Z_Entry_termInfo; Z_TermInfo *t = (Z_TermInfo *)odr_malloc(o, sizeof *t); memset(t, 0, sizeof *t); e->u.termInfo = t; t->term = (Z_Term *)odr_malloc(o, sizeof *t->term); t->term->which = Z_Term_general; t->term->u.general = odr_create_Odr_oct(o, &term[i][k], 1); t->globalOccurrences = odr_intdup(o, occ[i][k]); } if (at[i] >= 0) r->u.scanResponse->positionOfTerm = odr_intdup(o, at[i]); }
    p.response() = r; if (fail[i] == 3) p.session().close();
}
void mp_main(void) { mp_preempt(0, -1);
    nb = 2; mp::filter::Multi *f = new mp::filter::Multi; f->configure(xb::el("filter"), false, 0); NamedChain ch(*f); mp::Session s; mp::Origin og; mp::odr o; { Run r(ch, s, og, init_req(o)); mp_assert(r.z(Z_APDU_initResponse) != 0, "open"); }
    Z_APDU *a = mk_req(o, Z_APDU_scanRequest); set_ref(o, a, "s"); int num = mp_pick(-1, 4, "number"), pref = mp_pick(-1, 5, "position"); if (num == 4) num = 0x7ffffff0; *a->u.scanRequest->numberOfTermsRequested = num; a->u.scanRequest->preferredPositionInResponse = pref >= 0 ? odr_intdup(o, pref) : 0; bool any = false, cl = false; int ff = -1;
    for (int i = 0; i < 2; i++) {
        fail[i] = i ? 0 : mp_pick(0, 3, "failure"); if (fail[i]) { if (ff < 0) ff = i; any = true; } if (fail[i] == 3) cl = true; ne[i] = fail[i] ? 0 : mp_pick(0, i ? 2 : 3, "entries"); at[i] = ne[i] ? mp_pick(-1, ne[i] + 1, "position") : -1; mp_sym(term[i], 3, "terms"); for (int k = 0; k < 3; k++) { occ[i][k] = 1 << (3 * i + k); mp_assume(term[i][k] >= 'a' && term[i][k] <= 'c'); if (k) mp_assume(term[i][k] > term[i][k - 1]); }
    }
    Run r(ch, s, og, a);
    if (any) { if (fail[ff] == 2) { mp_assert(!r.g(), "what the target says"); return; } Z_APDU *z = r.z(Z_APDU_scanResponse); mp_assert(z && ref_is(z, "s") && z->u.scanResponse->entries->num_nonsurrogateDiagnostics == 1 && *z->u.scanResponse->entries->nonsurrogateDiagnostics[0]->u.defaultFormat->condition == 114, "the target's diagnostic"); mp_assert(r.p.session().is_closed() == cl, "a lost target ends the session"); mp_cover("failure"); return; }
    Z_APDU *z = r.z(Z_APDU_scanResponse); mp_assert(z && ref_is(z, "s") && !r.p.session().is_closed(), "answered"); Z_ScanResponse *sr = z->u.scanResponse;
    Odr_int b[3] = { 0, 0, 0 }, af[3] = { 0, 0, 0 }; int nbf = 0, na = 0; for (int i = 0; i < 2; i++) for (int k = 0; k < ne[i]; k++) { int ps = at[i] >= 0 ? at[i] : pref >= 0 ? pref : 1; (k < ps - 1 ? b : af)[term[i][k] - 'a'] += occ[i][k]; } for (int k = 0; k < 3; k++) { nbf += b[k] != 0; na += af[k] != 0; }
    int want = num < 0 ? 0 : num, pos = pref >= 0 ? pref : 1; int nbef = pos - 1 < 0 ? 0 : pos - 1; if (nbef > nbf) nbef = nbf; if (nbef > want) nbef = want; int naf = want - nbef < na ? want - nbef : na;
    mp_assert(*sr->numberOfEntriesReturned == nbef + naf && sr->entries->num_entries == nbef + naf && sr->positionOfTerm && (pos < 1 || *sr->positionOfTerm == nbef + 1), "as many terms as asked for, if there are");
    int n = 0, skip = nbf - nbef; for (int h = 0; h < 2; h++) for (int k = 0; k < 3; k++) { Odr_int v = h ? af[k] : b[k]; if (!v) continue; if (!h && skip) { skip--; continue; } if (n >= nbef + naf) break; Z_TermInfo *t = sr->entries->entries[n]->u.termInfo; mp_assert(t->term->u.general->len == 1 && t->term->u.general->buf[0] == 'a' + k, "the terms of all targets in order"); mp_assert(*t->globalOccurrences == v, "each with all its occurrences"); n++; }
    if (nbef) mp_cover("before"); if (naf) mp_cover("after"); mp_cover("done");
}
#endif
