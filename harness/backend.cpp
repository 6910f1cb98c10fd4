// backend_test: a target of 42 records that behaves as one
#include "fx.h"
#include <yaz/diagbib1.h>
#include <yaz/oid_db.h>
#include "filter_backend_test.hpp"
static int passed; static void down(mp::Package &p) { passed++; }
static const int HITS = 42;
static const char *elsets[] = { 0, "F", "B", "FF", "FF1", "FF0", "FF-1", "FF2097152", "FF99999999999", "X", "f", "", "" };
static const Odr_oid *syns[] = { 0, yaz_oid_recsyn_usmarc, yaz_oid_recsyn_xml, yaz_oid_recsyn_sutrs };
static Z_ElementSetNames *esn(mp::odr &o, int k) { if (!k) return 0; Z_ElementSetNames *e = (Z_ElementSetNames *)odr_malloc(o, sizeof *e); e->which = Z_ElementSetNames_generic; e->u.generic = odr_strdup(o, elsets[k]); if (k == 12) { e->which = Z_ElementSetNames_databaseSpecific; Z_DatabaseSpecific *d = (Z_DatabaseSpecific *)odr_malloc(o, sizeof *d); d->num = 0; d->elements = (Z_DatabaseSpecificUnit **)odr_malloc(o, sizeof(void *)); e->u.databaseSpecific = d; } return e; }
static std::string octs(Odr_oct *x) { return std::string(x->buf, x->len); }
static int nsd(Z_Records *r) { return r && r->which == Z_Records_NSD ? (int)*r->u.nonSurrogateDiagnostic->condition : 0; }
// the form asked for: 0 can not be had, 1 MARC, 2 XML of any size, 3 XML of 1024 bytes, 4 XML of 10 bytes, 5 too big to insist on
static int form(int syn, int el) { if (syn == 3) return 0; bool marc = syn < 2; if (marc) return el <= 2 ? 1 : 0; return el == 3 || el == 4 ? 3 : el == 5 ? 4 : el == 6 || el == 7 || el == 8 ? 5 : 0; }
static std::string offset(int n) { char b[30]; int i, k = 9; b[0] = 0; for (i = 8; i >= 0; i--) { b[i] = char('0' + n % 10); n /= 10; } b[k] = 0; return std::string("test__") + b + "_"; }
static bool holds(Z_Records *r, int start, int n, int fm) {
    if (!r || r->which != Z_Records_DBOSD || r->u.databaseOrSurDiagnostics->num_records != n) return false; std::string first;
    for (int i = 0; i < n; i++) { Z_NamePlusRecord *q = r->u.databaseOrSurDiagnostics->records[i]; if (q->which != Z_NamePlusRecord_databaseRecord || q->u.databaseRecord->which != Z_External_octet) return false; std::string t = octs(q->u.databaseRecord->u.octet_aligned); bool marc = !oid_oidcmp(q->u.databaseRecord->direct_reference, yaz_oid_recsyn_usmarc), xml = !oid_oidcmp(q->u.databaseRecord->direct_reference, yaz_oid_recsyn_xml);
        if (fm == 1) { if (!marc || t.size() != 366 || t.substr(0, 5) != "00366" || t.find(offset(start + i)) == std::string::npos) return false; } else { if (!xml || t.substr(0, 3) != "<a>" || t.substr(t.size() - 4) != "</a>" || (fm == 3 && t.size() != 1024) || (fm == 4 && t.size() != 10)) return false; } }
    return true;
}
#if PROP == 1
void mp_main(void) { mp_preempt(0, -1);
    mp::filter::BackendTest *f = new mp::filter::BackendTest; xmlNode *c = xb::el("filter"); f->configure(c, false, 0); Chain ch(*f); mp::Session *s[2] = { new mp::Session, new mp::Session }; mp::Origin og; mp::odr o; bool up[2] = { false, false }, named[2] = { false, false }, over[2] = { false, false };
    for (int st = 0; st < STEPS; st++) {
        int who = st == STEPS - 1 ? mp_pick(0, 1, "session") : st & 1, op = st < STEPS - 1 ? mp_pick(0, 2, "start") : mp_pick(3, 7, "request"); if (op == 2) continue; if (over[who]) continue; static const char *refs[] = { "r1", "r2" };
        if (op < 2) { Z_APDU *a = mk_req(o, Z_APDU_initRequest); set_ref(o, a, refs[who]); Z_InitRequest *q = a->u.initRequest; ODR_MASK_ZERO(q->options); ODR_MASK_ZERO(q->protocolVersion); ODR_MASK_SET(q->options, Z_Options_search); if (op) ODR_MASK_SET(q->options, Z_Options_namedResultSets); ODR_MASK_SET(q->options, Z_Options_triggerResourceCtrl); ODR_MASK_SET(q->protocolVersion, Z_ProtocolVersion_1); if (op) ODR_MASK_SET(q->protocolVersion, Z_ProtocolVersion_2); *q->preferredMessageSize = 1234; *q->maximumRecordSize = 5678; Run r(ch, *s[who], og, a); Z_APDU *z = r.z(Z_APDU_initResponse); mp_assert(z && ref_is(z, refs[who]) && *z->u.initResponse->result, "accepted"); Z_InitResponse *w = z->u.initResponse; mp_assert(ODR_MASK_GET(w->options, Z_Options_search) && !ODR_MASK_GET(w->options, Z_Options_present) && !ODR_MASK_GET(w->options, Z_Options_triggerResourceCtrl) && (ODR_MASK_GET(w->options, Z_Options_namedResultSets) != 0) == (op == 1), "what was asked for and is offered"); mp_assert(ODR_MASK_GET(w->protocolVersion, Z_ProtocolVersion_1) && (ODR_MASK_GET(w->protocolVersion, Z_ProtocolVersion_2) != 0) == (op == 1) && !ODR_MASK_GET(w->protocolVersion, Z_ProtocolVersion_3), "version"); mp_assert(*w->preferredMessageSize == 1234 && *w->maximumRecordSize == 5678, "sizes"); up[who] = true; if (op == 1) named[who] = true; else if (!named[who]) named[who] = false; continue; }
        static const int kinds[] = { Z_APDU_searchRequest, Z_APDU_presentRequest, Z_APDU_close, Z_APDU_scanRequest }; Z_APDU *a; int set = 0, syn = 0, el = 0, el2 = 0, shape = 0; Odr_int start = 1, n = 0, ssub = 0, lslb = 1, mspn = 0;
        if (op == 7) { Run r(ch, *s[who], og, (Z_GDU *)0); mp_assert(passed == 1 && !r.g(), "not for this target"); mp_cover("passed on"); continue; }
        a = mk_req(o, kinds[op - 3]); set_ref(o, a, refs[who]);
        if (op == 3 && up[who]) { Z_SearchRequest *q = a->u.searchRequest; set = mp_pick(0, 1, "named"); mp_assume(!set || named[who] || !named[1 - who]); q->resultSetName = odr_strdup(o, set ? "s" : "default"); if (!set) { syn = mp_pick(0, 3, "syntax"); el = mp_pick(0, 12, "small set"); el2 = mp_pick(0, 2, "medium set"); q->preferredRecordSyntax = odr_oiddup(o, syns[syn]); q->smallSetElementSetNames = esn(o, el); q->mediumSetElementSetNames = esn(o, el2); ssub = mp_i64("small"); lslb = mp_i64("large"); mspn = mp_i64("medium"); mp_assume(ssub >= 0 && lslb >= 0 && mspn >= 0); int few = ssub > HITS || lslb < HITS || mspn <= 2 || mspn >= HITS; mp_assume(few); int same = el == el2 || ssub > HITS || lslb < HITS || (mspn > ssub && ssub < HITS); mp_assume(same); mp_assume(el < 6 || el > 8); } else lslb = 100; *q->smallSetUpperBound = ssub; *q->largeSetLowerBound = lslb; *q->mediumSetPresentNumber = mspn; }
        if (op == 4 && up[who]) { Z_PresentRequest *q = a->u.presentRequest; q->resultSetId = odr_strdup(o, "default"); shape = mp_pick(0, 2, "range"); syn = mp_pick(0, 3, "syntax"); el = mp_pick(0, 13, "element set"); mp_assume(el < 6 || el > 8); if (el == 13) { q->recordComposition = (Z_RecordComposition *)odr_malloc(o, sizeof(Z_RecordComposition)); q->recordComposition->which = Z_RecordComp_complex; Z_CompSpec *cs = (Z_CompSpec *)odr_malloc(o, sizeof *cs); memset(cs, 0, sizeof *cs); cs->selectAlternativeSyntax = odr_booldup(o, 0); q->recordComposition->u.complex = cs; } else if (el) { q->recordComposition = (Z_RecordComposition *)odr_malloc(o, sizeof(Z_RecordComposition)); q->recordComposition->which = Z_RecordComp_simple; q->recordComposition->u.simple = esn(o, el); }
            q->preferredRecordSyntax = odr_oiddup(o, syns[syn]); if (shape == 2) { start = mp_i64("start"); n = mp_i64("number"); int bad = start < 1 || n < 0 || start > HITS + 1 || n > HITS || start + n - 1 > HITS; mp_assume(bad); int in32 = n >= 0 && start >= -2147483647 && start <= 1000000000 && n <= 1000000000; mp_assume(in32); } else { static const int at[] = { 1, 2, 40, 42 }; start = at[mp_pick(0, 3, "at")]; n = shape ? mp_pick(0, 2, "number") : HITS - start + 1; if (start + n - 1 > HITS) n = 1; if (!shape && start < 40) { mp_assume(syn < 2); mp_assume(el < 3); } } *q->resultSetStartPoint = start; *q->numberOfRecordsRequested = n; }
        Run r(ch, *s[who], og, a); mp_assert(passed == 0, "nothing is passed on");
        if (!up[who] || op == 5 || op == 6) { Z_APDU *z = r.z(Z_APDU_close); mp_assert(z && ref_is(z, refs[who]) && r.p.session().is_closed(), "closed"); mp_assert(*z->u.close->closeReason == (up[who] && op == 5 ? Z_Close_finished : Z_Close_protocolError), "why"); over[who] = true; mp_cover(up[who] ? "closed" : "no init"); int other = 1 - who; if (up[other] && !over[other]) { Run r2(ch, *s[other], og, mk_req(o, Z_APDU_presentRequest)); mp_assert(r2.z(Z_APDU_presentResponse) != 0, "sessions of others go on"); mp_cover("others go on"); } continue; }
        mp_assert(!r.p.session().is_closed(), "stays open"); int fm = form(syn, el);
        if (op == 3) { Z_APDU *z = r.z(Z_APDU_searchResponse); mp_assert(z && ref_is(z, refs[who]), "answered"); Z_SearchResponse *w = z->u.searchResponse;
            if (set && !named[who]) { mp_assert(nsd(w->records) == YAZ_BIB1_RESULT_SET_NAMING_UNSUPP, "named result sets for those who asked for them"); mp_cover("not named"); continue; } mp_assert(*w->resultCount == HITS, "hits");
            Odr_int want = ssub > HITS ? HITS : lslb >= HITS ? (mspn < HITS ? mspn : HITS) : 0; int e = ssub > HITS ? el : el2; fm = form(syn, e); if (!want) { mp_assert(!w->records && *w->numberOfRecordsReturned == 0, "no records"); mp_cover("hits only"); continue; }
            if (!fm || (fm == 5 && nsd(w->records))) { mp_assert(nsd(w->records) == (syn == 3 ? YAZ_BIB1_RECORD_SYNTAX_UNSUPP : YAZ_BIB1_SPECIFIED_ELEMENT_SET_NAME_NOT_VALID_FOR_SPECIFIED_), "not in that form"); mp_cover("not in that form"); continue; } mp_assert(*w->numberOfRecordsReturned == want && holds(w->records, 1, (int)want, fm), "the records"); mp_assert(*w->nextResultSetPosition == (want == HITS ? 0 : want + 1), "next"); mp_cover("records with the search"); }
        else { Z_APDU *z = r.z(Z_APDU_presentResponse); mp_assert(z && ref_is(z, refs[who]), "answered"); Z_PresentResponse *w = z->u.presentResponse;
            if (el == 13) { mp_assert(nsd(w->records) == YAZ_BIB1_ONLY_A_SINGLE_ELEMENT_SET_NAME_SUPPORTED, "composition"); continue; } if (shape == 2) { mp_assert(nsd(w->records) == YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE, "out of range"); mp_cover("out of range"); continue; }
            if (!fm || (fm == 5 && nsd(w->records))) { mp_assert(nsd(w->records) == (syn == 3 ? YAZ_BIB1_RECORD_SYNTAX_UNSUPP : YAZ_BIB1_SPECIFIED_ELEMENT_SET_NAME_NOT_VALID_FOR_SPECIFIED_), "not in that form"); continue; }
            mp_assert(*w->numberOfRecordsReturned == n && holds(w->records, (int)start, (int)n, fm), "the records"); mp_assert(*w->nextResultSetPosition == (start + n > HITS ? 0 : start + n), "next"); mp_cover("records"); }
    }
    for (int i = 0; i < 2; i++) { mp::Session g(*s[i]); g.close(); Run r(ch, g, og, (Z_GDU *)0); } delete f; mp_cover("done");
}
#else
// the recorded findings, each with an input of its own (excluded above)
void mp_main(void) { mp_preempt(0, -1);
    mp::filter::BackendTest *f = new mp::filter::BackendTest; xmlNode *c = xb::el("filter"); f->configure(c, false, 0); Chain ch(*f); mp::Session s[2]; mp::Origin og; mp::odr o; int k = mp_pick(K0, K1, "finding");
    for (int i = 0; i < 2; i++) { Z_APDU *a = mk_req(o, Z_APDU_initRequest); ODR_MASK_ZERO(a->u.initRequest->options); ODR_MASK_SET(a->u.initRequest->options, Z_Options_search); if (i) ODR_MASK_SET(a->u.initRequest->options, Z_Options_namedResultSets); Run r(ch, s[i], og, a); mp_assert(r.z(Z_APDU_initResponse) != 0, "accepted"); }
    Z_APDU *a = mk_req(o, k == 3 || k == 4 ? Z_APDU_searchRequest : Z_APDU_presentRequest);
    if (k == 1 || k == 2 || k == 5) { Z_PresentRequest *q = a->u.presentRequest; q->resultSetId = odr_strdup(o, "default"); *q->resultSetStartPoint = k == 2 ? 4294967297LL : 1; *q->numberOfRecordsRequested = k == 1 ? -1 : 1; if (k == 5) { q->preferredRecordSyntax = odr_oiddup(o, yaz_oid_recsyn_xml); q->recordComposition = (Z_RecordComposition *)odr_malloc(o, sizeof(Z_RecordComposition)); q->recordComposition->which = Z_RecordComp_simple; q->recordComposition->u.simple = esn(o, 6); } }
    else { Z_SearchRequest *q = a->u.searchRequest; q->resultSetName = odr_strdup(o, k == 4 ? "s" : "default"); *q->smallSetUpperBound = 5; *q->largeSetLowerBound = 100; *q->mediumSetPresentNumber = k == 3 ? 2 : 0; q->smallSetElementSetNames = esn(o, 9); q->mediumSetElementSetNames = esn(o, 1); }
    Run r(ch, s[0], og, a); Z_APDU *z = r.z(k == 3 || k == 4 ? Z_APDU_searchResponse : Z_APDU_presentResponse); mp_assert(z != 0, "answered"); Z_Records *w = k == 3 || k == 4 ? z->u.searchResponse->records : z->u.presentResponse->records;
    if (k == 1) mp_assert(nsd(w) == YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE, "a present of a negative number of records is refused"); if (k == 2) mp_assert(nsd(w) == YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE, "a present from a position beyond 32 bits is refused");
    if (k == 3) mp_assert(holds(w, 1, 2, 1), "a medium set has the element set for medium sets"); if (k == 4) mp_assert(nsd(w) == YAZ_BIB1_RESULT_SET_NAMING_UNSUPP, "named result sets of another session are of no avail"); if (k == 5) mp_assert(nsd(w) != 0, "a record of negative size is refused");
    for (int i = 0; i < 2; i++) { mp::Session g(s[i]); g.close(); Run q(ch, g, og, (Z_GDU *)0); } delete f; mp_cover("done");
}
#endif
