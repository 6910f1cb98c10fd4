#ifndef NSYN
#define NSYN 1
#endif
// sort: what a client is given, whatever it asks for and however the target behaves
#include "fx.h"
#include <map>
#include <yaz/diagbib1.h>
#include <yaz/oid_db.h>
#include "filter_sort.hpp"
static int hits, most, faults_left, asked, other_n; static bool gone, broken, no_set; static char keys[MAXH + 1]; static int shape;
static std::string elems(Z_RecordComposition *c) { return c && c->which == Z_RecordComp_simple && c->u.simple->which == Z_ElementSetNames_generic ? c->u.simple->u.generic : ""; }
static std::string key_of(int pos) { char k = keys[pos - 1]; return std::string(1, k); }
static std::string text_of(int pos, const std::string &el) {    // a record tells its position, element set and key
    std::string p(1, char('0' + pos)), k = key_of(pos);
    switch (shape) {
    case 0: return "<r p=\"" + p + el + "\"><t>" + k + "</t></r>";
    case 1: return "<r p=\"" + p + el + "\" a=\"" + k + "\"/>";
    case 2: return "<m:r xmlns:m=\"urn:m\" p=\"" + p + el + "\"><u/><m:t>" + k + "</m:t><m:t>z</m:t></m:r>";
    default: return "<r p=\"" + p + el + "\"><s><t></t><t>" + k + "</t></s>";     // not XML
    }
}
static const char *const exprs[] = { "/r/t", "/r/@a", "/n:r/n:t/text()", "//t" };
static bool xml(Odr_oid *s) { return s && !oid_oidcmp(s, yaz_oid_recsyn_xml); }
static Z_Records *records(mp::odr &o, int start, int n, Odr_oid *syn, const std::string &el) {
    Z_Records *r = (Z_Records *)odr_malloc(o, sizeof *r); r->which = Z_Records_DBOSD; Z_NamePlusRecordList *l = (Z_NamePlusRecordList *)odr_malloc(o, sizeof *l); r->u.databaseOrSurDiagnostics = l; l->num_records = n; l->records = (Z_NamePlusRecord **)odr_malloc(o, sizeof(void *) * (n + 1));
    for (int i = 0; i < n; i++) { Z_NamePlusRecord *q = (Z_NamePlusRecord *)odr_malloc(o, sizeof *q); l->records[i] = q; q->databaseName = odr_strdup(o, "d"); q->which = Z_NamePlusRecord_databaseRecord; Z_External *x = (Z_External *)odr_malloc(o, sizeof *x); memset(x, 0, sizeof *x); q->u.databaseRecord = x; x->direct_reference = odr_oiddup(o, syn ? syn : yaz_oid_recsyn_sutrs); x->which = Z_External_octet; std::string t = text_of(start + i, el); x->u.octet_aligned = odr_create_Odr_oct(o, t.c_str(), t.size()); }
    return r;
}
static std::string rec_text(Z_NamePlusRecord *q) { Odr_oct *x = q->u.databaseRecord->u.octet_aligned; return std::string(x->buf, x->len); }
static Z_Records *nsd(mp::odr &o, int code) { Z_Records *r = (Z_Records *)odr_malloc(o, sizeof *r); r->which = Z_Records_NSD; r->u.nonSurrogateDiagnostic = zget_DefaultDiagFormat(o, code, 0); return r; }
static int nsd_code(Z_Records *r) { return r && r->which == Z_Records_NSD ? (int)*r->u.nonSurrogateDiagnostic->condition : 0; }
static Odr_int last_start, last_n; static int piggy;
static void down(mp::Package &p) {
    if (p.session().is_closed()) return; mp_assert(!gone, "a target that is gone is not asked"); Z_GDU *g = p.request().get(); if (!g) return; Z_APDU *a = g->u.z3950; mp::odr o; asked++;
    if (a->which == Z_APDU_initRequest) { p.response() = o.create_initResponse(a, 0, 0); return; }
    int k = faults_left ? mp_pick(0, 2, "fault") : 0; if (k) { faults_left--; broken = true; } if (k == 1) { gone = true; p.session().close(); return; }
    if (a->which == Z_APDU_searchRequest) { Z_APDU *r = o.create_searchResponse(a, 0, 0); no_set = k != 0; if (k) { *r->u.searchResponse->resultCount = 0; r->u.searchResponse->records = nsd(o, 108); p.response() = r; return; } *r->u.searchResponse->resultCount = hits; int n = piggy < hits ? piggy : hits; if (n) { r->u.searchResponse->records = records(o, 1, n, a->u.searchRequest->preferredRecordSyntax, "B"); *r->u.searchResponse->numberOfRecordsReturned = n; } p.response() = r; return; }
    if (a->which == Z_APDU_presentRequest) {
        Z_PresentRequest *q = a->u.presentRequest; last_start = *q->resultSetStartPoint; last_n = *q->numberOfRecordsRequested; Z_APDU *r = o.create_presentResponse(a, 0, 0); mp_assert(seq(q->resultSetId, "a"), "the set"); Z_PresentResponse *w = r->u.presentResponse; if (k) { w->records = nsd(o, 2); p.response() = r; return; }
        if (no_set) w->records = nsd(o, YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST); else if (last_start < 1 || last_n < 0 || last_start > hits || last_n > hits || last_start + last_n - 1 > hits) w->records = nsd(o, YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE);
        else { int n = (int)last_n < most ? (int)last_n : most; w->records = records(o, (int)last_start, n, q->preferredRecordSyntax, elems(q->recordComposition)); *w->numberOfRecordsReturned = n; *w->nextResultSetPosition = last_start + n; } p.response() = r; return;
    }
    other_n++; p.response() = o.create_scanResponse(a, 0, 0);
}
static int lt(int a, int b) { return key_of(a) < key_of(b); }
// what of a sorted list the client has seen: position -> record
struct Seen { bool made; int n; int at[MAXH + 1]; Seen() : made(false), n(0) { for (int i = 0; i <= MAXH; i++) at[i] = 0; } };
static bool asc; static int prefetch; static const Odr_oid *const syns[] = { yaz_oid_recsyn_xml, yaz_oid_recsyn_usmarc, yaz_oid_recsyn_sutrs };   // the last one: none asked for
static void check(Seen &s, const std::string &el, int start, Z_NamePlusRecordList *l, bool sorted_, bool xm, int syn) {
    for (int i = 0; i < l->num_records; i++) {
        mp_assert(!oid_oidcmp(l->records[i]->u.databaseRecord->direct_reference, syns[syn]), "in the syntax asked for"); int pos = start + i; std::string t = rec_text(l->records[i]); int id = 0; for (int k = 1; k <= hits; k++) if (t == text_of(k, el)) { bool same_as_before = s.at[pos] == k; if (!id || same_as_before) id = k; }
        mp_assert(id != 0, "a record of the set in the form asked for"); if (!sorted_) { mp_assert(t == text_of(pos, el), "as the target gave it"); continue; }
        // records of different positions are different ones
        t = rec_text(l->records[i]); size_t p = t.find("p=\""); id = t[p + 3] - '0'; mp_assert(!s.at[pos] || s.at[pos] == id, "the same record in the same place"); for (int k = 1; k <= MAXH; k++) mp_assert(k == pos || s.at[k] != id, "each record once"); s.at[pos] = id; mp_assert(id <= s.n, "of those that were sorted");
        if (xm) { int less = 0, equal = 0; for (int k = 1; k <= s.n; k++) { if (asc ? lt(k, id) : lt(id, k)) less++; else if (!lt(k, id) && !lt(id, k)) equal++; } mp_assert(pos > less && pos <= less + equal, "in its place in the order"); }
    }
}
void mp_main(void) { mp_preempt(0, -1);
    mp::filter::Sort *f = new mp::filter::Sort; xmlNode *c = xb::el("filter"), *e; xb::add(c, e = xb::el("sort")); shape = mp_pick(0, SHAPES, "kind of record"); asc = NSYN == 2 || mp_pick(0, 1, "ascending") == 1; prefetch = mp_pick(0, 1, "prefetch") * MAXH; xb::attr(e, "xpath", exprs[shape]); if (shape == 2) xb::attr(e, "namespaces", " x=urn:x n=urn:m"); static const char *nums[] = { "0", "1", "2", "3", "4", "5" }; xb::attr(e, "prefetch", nums[prefetch]); if (!asc) xb::attr(e, "ascending", "false"); f->configure(c, false, 0);
    NamedChain ch(*f); mp::Session s; mp::Origin og; mp::odr o; hits = mp_pick(0, MAXH, "hits"); most = mp_pick(1, MAXH, "records in a response"); piggy = mp_pick(0, ORDER ? 2 : 1, "records with the search"); faults_left = NF; mp_sym(keys, MAXH, "keys"); for (int i = 0; i < MAXH; i++) mp_assume(keys[i] > ' ' && keys[i] < 127 && keys[i] != '<' && keys[i] != '&' && keys[i] != '"' && keys[i] != '>');
    { Z_APDU *a = mk_req(o, Z_APDU_initRequest); int save = faults_left; faults_left = 0; Run r(ch, s, og, a); mp_assert(r.z(Z_APDU_initResponse) != 0, "open"); faults_left = save; }
    Seen seen[3][3]; bool have = false, alive = true; static const char *els[] = { "B", "F", "" };
    for (int st = 0; st < STEPS && alive; st++) {
        int op = st == 0 ? 0 : ORDER ? 1 : mp_pick(0, 2, "request"); broken = false; asked = 0;
        if (op == 0) {
            int syn = mp_pick(0, NSYN, "syntax"); bool rep = st == 0 || mp_pick(0, 1, "replace") == 1; Z_APDU *a = mk_req(o, Z_APDU_searchRequest); set_ref(o, a, "s"); Z_SearchRequest *q = a->u.searchRequest; q->resultSetName = odr_strdup(o, "a"); *q->replaceIndicator = rep; q->preferredRecordSyntax = syn == 2 ? 0 : odr_oiddup(o, syns[syn]); *q->smallSetUpperBound = 0; *q->largeSetLowerBound = 100; *q->mediumSetPresentNumber = piggy; q->mediumSetElementSetNames = (Z_ElementSetNames *)odr_malloc(o, sizeof(Z_ElementSetNames)); q->mediumSetElementSetNames->which = Z_ElementSetNames_generic; q->mediumSetElementSetNames->u.generic = odr_strdup(o, "B");
            Run r(ch, s, og, a); mp_assert(r.p.session().is_closed() == gone, "closed with the target"); Z_APDU *z = r.z(Z_APDU_searchResponse);
            if (have && !rep) { mp_assert(z && ref_is(z, "s") && asked == 0 && nsd_code(z->u.searchResponse->records) == YAZ_BIB1_RESULT_SET_EXISTS_AND_REPLACE_INDICATOR_OFF, "kept"); mp_cover("kept"); continue; }
            for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) seen[i][k] = Seen(); have = true; alive = !gone; if (!z) { mp_assert(gone, "answered"); mp_cover("lost"); continue; } mp_assert(ref_is(z, "s"), "reference");
            Z_Records *w = z->u.searchResponse->records; int n = piggy < hits ? piggy : hits; if (nsd_code(w)) { mp_assert(broken, "fails only if the target does"); continue; } mp_assert(*z->u.searchResponse->resultCount == hits, "count");
            if (!n) { mp_assert(!w, "no records"); continue; } mp_assert(w && w->which == Z_Records_DBOSD && w->u.databaseOrSurDiagnostics->num_records == n, "all records"); Seen &v = seen[syn][0]; v.made = true; v.n = n; if (prefetch > n && !broken) v.n = prefetch < hits ? prefetch : hits; if (broken) { mp_cover("prefetch fails"); v.n = hits; }
            check(v, "B", 1, w->u.databaseOrSurDiagnostics, true, !syn && shape < 3 && !broken, syn); mp_cover("with the search"); if (broken) { alive = false; }
        }
        else if (op == 1) {
            int syn = mp_pick(0, NSYN, "syntax"), el = ORDER ? 0 : mp_pick(0, 2, "elements"), kind = mp_pick(0, ORDER ? 1 : 3, "range"); Odr_int start = kind == 0 ? 1 : kind == 3 ? 0 : kind, n = kind == 3 ? mp_i64("number") : mp_pick(1, ORDER ? MAXH : 2, "number"); if (kind == 3) start = mp_i64("start");
            if (kind == 3) { int bad = start < 1 || n < 0 || start > hits || n > hits; mp_assume(bad); }
            Z_APDU *a = mk_req(o, Z_APDU_presentRequest); set_ref(o, a, "p"); Z_PresentRequest *q = a->u.presentRequest; q->resultSetId = odr_strdup(o, "a"); q->preferredRecordSyntax = syn == 2 ? 0 : odr_oiddup(o, syns[syn]); *q->resultSetStartPoint = start; *q->numberOfRecordsRequested = n;
            if (el < 2) { Z_RecordComposition *k = (Z_RecordComposition *)odr_malloc(o, sizeof *k); k->which = Z_RecordComp_simple; k->u.simple = (Z_ElementSetNames *)odr_malloc(o, sizeof *k->u.simple); k->u.simple->which = Z_ElementSetNames_generic; k->u.simple->u.generic = odr_strdup(o, els[el]); q->recordComposition = k; }
            Run r(ch, s, og, a); mp_assert(r.p.session().is_closed() == gone, "closed with the target"); alive = !gone; Z_APDU *z = r.z(Z_APDU_presentResponse); if (!z) { mp_assert(gone, "answered"); mp_cover("lost"); continue; } mp_assert(ref_is(z, "p"), "reference"); Z_PresentResponse *w = z->u.presentResponse; Seen &v = seen[syn][el];
            if (no_set) { mp_assert(nsd_code(w->records) != 0 && (broken || nsd_code(w->records) == YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST), "the set is not there"); mp_cover("no set"); continue; }
            if (kind == 3) { mp_assert(broken || nsd_code(w->records) == YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE, "no such records"); mp_cover("no such records"); continue; }
            if (start + n - 1 > hits) { mp_assert(broken || nsd_code(w->records) == YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE, "out of range"); continue; }
            if (nsd_code(w->records)) { mp_assert(broken, "fails only if the target does"); continue; }
            mp_assert(w->records && w->records->which == Z_Records_DBOSD, "records"); Z_NamePlusRecordList *l = w->records->u.databaseOrSurDiagnostics; int given = (int)n < most ? (int)n : most;
            if (v.made && start + n - 1 <= v.n) { mp_assert(asked == 0 && l->num_records == n && *w->numberOfRecordsReturned == n && *w->nextResultSetPosition == start + n, "from what was sorted"); check(v, els[el], (int)start, l, true, !syn && shape < 3, syn); mp_cover("again"); continue; }
            mp_assert(l->num_records == given && *w->numberOfRecordsReturned == given, "all records");
            if (start != 1 || v.made) { mp_assert(asked == 1, "passed on"); check(v, els[el], (int)start, l, false, false, syn); mp_cover("passed on"); continue; }
            v.made = true; v.n = given; if (prefetch > given && !broken) v.n = prefetch < hits ? prefetch : hits; if (broken) { v.n = hits; mp_cover("prefetch fails"); alive = false; }
            check(v, els[el], 1, l, true, !syn && shape < 3 && !broken, syn); mp_cover("sorted");
        }
        else { other_n = 0; Z_APDU *a = mk_req(o, Z_APDU_scanRequest); set_ref(o, a, "x"); Run r(ch, s, og, a); mp_assert((other_n == 1 && r.z(Z_APDU_scanResponse) && ref_is(r.z(Z_APDU_scanResponse), "x")) || broken, "others are passed on"); alive = !gone; mp_cover("other"); }
    }
    if (alive && !gone) { mp::Session s2; { int save = faults_left; faults_left = 0; Run r(ch, s2, og, mk_req(o, Z_APDU_initRequest)); asked = 0; Z_APDU *a = mk_req(o, Z_APDU_presentRequest); a->u.presentRequest->resultSetId = odr_strdup(o, "a"); Run q(ch, s2, og, a); Z_APDU *z = q.z(Z_APDU_presentResponse); mp_assert(z && asked == 0 && nsd_code(z->u.presentResponse->records) == YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST, "sets of others are not there"); faults_left = save; } mp::Session g(s2); g.close(); Run r(ch, g, og, (Z_GDU *)0); }
    mp::Session g(s); g.close(); Run r(ch, g, og, (Z_GDU *)0); delete f; mp_cover("done");
}
