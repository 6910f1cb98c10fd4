// Builds libxml2 node trees by hand (same layout natively and under the engine).
#pragma once
#include <libxml/tree.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include "mp.h"
namespace xb {
static const char *MPNS = "http://indexdata.com/metaproxy";
static inline char *dup(const char *s) { char *p = (char *)malloc(strlen(s) + 1); strcpy(p, s); return p; }
static inline xmlNs *ns(const char *href) { if (!href) return 0; xmlNs *n = (xmlNs *)calloc(1, sizeof *n); n->type = XML_NAMESPACE_DECL; n->href = (xmlChar *)dup(href); return n; }
static inline xmlNode *node(xmlElementType t, const char *name, const char *content) {
    xmlNode *n = (xmlNode *)calloc(1, sizeof *n); n->type = t;
    if (name) n->name = (xmlChar *)dup(name);
    if (content) n->content = (xmlChar *)dup(content);
    return n;
}
static inline xmlNode *text(const char *s) { return node(XML_TEXT_NODE, "text", s); }
static inline xmlNode *comment(const char *s) { return node(XML_COMMENT_NODE, "comment", s); }
static inline xmlNode *el(const char *name, const char *nsh = MPNS) { xmlNode *n = node(XML_ELEMENT_NODE, name, 0); n->ns = ns(nsh); return n; }
static inline xmlNode *add(xmlNode *p, xmlNode *c) {
    c->parent = p;
    if (!p->children) p->children = c; else { p->last->next = c; c->prev = p->last; }
    p->last = c; return c;
}
static inline xmlAttr *attr(xmlNode *e, const char *name, const char *value, const char *nsh = 0) {
    xmlAttr *a = (xmlAttr *)calloc(1, sizeof *a); a->type = XML_ATTRIBUTE_NODE; a->name = (xmlChar *)dup(name); a->parent = e; a->ns = ns(nsh);
    if (value) { a->children = a->last = text(value); a->children->parent = (xmlNode *)a; }
    if (!e->properties) e->properties = a; else { xmlAttr *l = e->properties; while (l->next) l = l->next; l->next = a; a->prev = l; }
    return a;
}
static inline xmlDoc *doc(xmlNode *root) { xmlDoc *d = (xmlDoc *)calloc(1, sizeof *d); d->type = XML_DOCUMENT_NODE; d->children = d->last = root; root->parent = (xmlNode *)d; return d; }
}
// n arbitrary bytes as a C string (may contain an early NUL unless nonul)
static inline char *sym_cstr(int n, const char *name, bool nonul = true) {
    char *p = (char *)malloc(n + 1); if (n) mp_sym(p, n, name); p[n] = 0;
    if (nonul) for (int i = 0; i < n; i++) mp_assume(p[i] != 0);
    return p;
}
