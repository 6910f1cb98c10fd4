// Filter harness: the filter under test, then a harness-defined filter, in one route.
#pragma once
#include "xmlb.h"
#include <metaproxy/filter.hpp>
#include <metaproxy/package.hpp>
#include <metaproxy/router_chain.hpp>
#include <metaproxy/util.hpp>
#include <yaz/proto.h>
#include <yaz/zgdu.h>
#include <string>
#include <vector>
namespace mp = metaproxy_1;
static bool seq(const char *a, const char *b) { if (!a || !b) return a == b; size_t n = strlen(a); return n == strlen(b) && !memcmp(a, b, n); }
static void down(mp::Package &p);    // what the rest of the route does
struct Down : public mp::filter::Base {
    void process(mp::Package &p) const { down(p); }
    void configure(const xmlNode *, bool, const char *) {}
};
struct Chain { mp::RouterChain r; Down d; Chain(const mp::filter::Base &f) { r.append(f); r.append(d); } };
// the same route, recording the route name given with each move
static std::string moved_route;
struct NamedChain { struct R : public mp::Router {
        const mp::filter::Base *f; Down d;
        struct Pos : public mp::RoutePos { const R *r; int at; const mp::filter::Base *move(const char *n) { moved_route = n ? n : ""; return at == 0 ? (at++, r->f) : at == 1 ? (at++, &r->d) : 0; } mp::RoutePos *clone() { Pos *p = new Pos; p->r = r; p->at = at; return p; } };
        mp::RoutePos *createpos() const { Pos *p = new Pos; p->r = this; p->at = 0; return p; } void start() {} void stop(int) {}
    } r; NamedChain(const mp::filter::Base &f) { r.f = &f; } };
// one request of a session through the route
struct Run {
    mp::Package p;
    Run(NamedChain &c, mp::Session &s, mp::Origin &o, Z_APDU *a) : p(s, o) { p.request() = a; p.router(c.r).move(); }
    Run(NamedChain &c, mp::Session &s, mp::Origin &o, Z_GDU *g) : p(s, o) { p.request() = g; p.router(c.r).move(); }
    Run(Chain &c, mp::Session &s, mp::Origin &o, Z_APDU *a) : p(s, o) { p.request() = a; p.router(c.r).move(); }
    Run(Chain &c, mp::Session &s, mp::Origin &o, Z_GDU *g) : p(s, o) { p.request() = g; p.router(c.r).move(); }
    Z_GDU *g() { return p.response().get(); }
    Z_APDU *z(int which) { Z_GDU *x = g(); return x && x->which == Z_GDU_Z3950 && x->u.z3950->which == which ? x->u.z3950 : 0; }
};
static Z_GDU *http_get(mp::odr &o, const char *method, const char *path) {
    Z_GDU *g = (Z_GDU *)odr_malloc(o, sizeof *g); Z_HTTP_Request *r = (Z_HTTP_Request *)odr_malloc(o, sizeof *r); memset(r, 0, sizeof *r);
    r->method = odr_strdup(o, method); r->path = odr_strdup(o, path); r->version = odr_strdup(o, "1.1"); g->which = Z_GDU_HTTP_Request; g->u.HTTP_Request = r; return g;
}
static void set_ref(mp::odr &o, Z_APDU *a, const char *id) { *(Odr_oct **)a->u.initRequest = id ? odr_create_Odr_oct(o, id, strlen(id)) : 0; }
static bool ref_is(Z_APDU *a, const char *id) { Odr_oct *r = *(Odr_oct **)a->u.initRequest; if (!r || !id) return !r && !id; return (size_t)r->len == strlen(id) && !memcmp(r->buf, id, r->len); }
static Z_AttributesPlusTerm *apt(mp::odr &o, const char *term) {
    Z_AttributesPlusTerm *t = (Z_AttributesPlusTerm *)odr_malloc(o, sizeof *t); t->attributes = (Z_AttributeList *)odr_malloc(o, sizeof *t->attributes); t->attributes->num_attributes = 0; t->attributes->attributes = (Z_AttributeElement **)odr_malloc(o, sizeof(Z_AttributeElement *));
    t->term = (Z_Term *)odr_malloc(o, sizeof *t->term); t->term->which = Z_Term_general; t->term->u.general = odr_create_Odr_oct(o, term, strlen(term)); return t;
}
static Z_RPNStructure *rpn_leaf(mp::odr &o, const char *term) {
    Z_RPNStructure *r = (Z_RPNStructure *)odr_malloc(o, sizeof *r); r->which = Z_RPNStructure_simple; r->u.simple = (Z_Operand *)odr_malloc(o, sizeof *r->u.simple); r->u.simple->which = Z_Operand_APT; r->u.simple->u.attributesPlusTerm = apt(o, term); return r;
}
static Z_Query *rpn_query(mp::odr &o, Z_RPNStructure *s) {
    Z_Query *q = (Z_Query *)odr_malloc(o, sizeof *q); q->which = Z_Query_type_1; q->u.type_1 = (Z_RPNQuery *)odr_malloc(o, sizeof(Z_RPNQuery)); static Odr_oid bib1[] = { 1, 2, 840, 10003, 3, 1, -1 }; q->u.type_1->attributeSetId = odr_oiddup(o, bib1); q->u.type_1->RPNStructure = s; return q;
}
static Z_Query *rpn_term(mp::odr &o, const char *term) { return rpn_query(o, rpn_leaf(o, term)); }
static void set_dbs(mp::odr &o, int *num, char ***names, const std::vector<std::string> &v) { *num = (int)v.size(); *names = (char **)odr_malloc(o, sizeof(char *) * (v.size() + 1)); for (size_t i = 0; i < v.size(); i++) (*names)[i] = odr_strdup(o, v[i].c_str()); }
// a request of the given kind with everything mandatory in it
static Z_APDU *mk_req(mp::odr &o, int which, const char *term = "t", const char *db = "Default") {
    Z_APDU *a = zget_APDU(o, which); std::vector<std::string> dbs(1, db);
    if (which == Z_APDU_searchRequest) { set_dbs(o, &a->u.searchRequest->num_databaseNames, &a->u.searchRequest->databaseNames, dbs); a->u.searchRequest->query = rpn_term(o, term); }
    if (which == Z_APDU_scanRequest) { set_dbs(o, &a->u.scanRequest->num_databaseNames, &a->u.scanRequest->databaseNames, dbs); a->u.scanRequest->termListAndStartPoint = apt(o, term); }
    if (which == Z_APDU_sortRequest) { Z_SortRequest *q = a->u.sortRequest; q->num_inputResultSetNames = 1; q->inputResultSetNames = (char **)odr_malloc(o, sizeof(char *)); q->inputResultSetNames[0] = odr_strdup(o, "default"); q->sortedResultSetName = odr_strdup(o, "sorted"); q->sortSequence = (Z_SortKeySpecList *)odr_malloc(o, sizeof(Z_SortKeySpecList)); q->sortSequence->num_specs = 0; q->sortSequence->specs = (Z_SortKeySpec **)odr_malloc(o, sizeof(void *)); }
    return a;
}
