// Model of the part of libxml2 that makes, reads and searches documents: elements, attributes, text, comments and
// the five entities; XPath of child, attribute, text() and // steps. Replays run against the real library.
#include <libxml/tree.h>
#include <libxml/parser.h>
#include <libxml/xpath.h>
#include <libxml/xpathInternals.h>
#include <string.h>
#include <stdlib.h>
static xmlChar *xdup(const char *s, int n) { xmlChar *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
static xmlNode *mk(xmlElementType t, xmlChar *name, xmlChar *content) { xmlNode *n = calloc(1, sizeof *n); n->type = t; n->name = name; n->content = content; return n; }
xmlChar *xmlStrdup(const xmlChar *s) { return s ? xdup((const char *)s, strlen((const char *)s)) : 0; }
const xmlChar *xmlStrchr(const xmlChar *s, xmlChar c) { if (!s) return 0; for (; *s; s++) if (*s == c) return s; return 0; }
static void mp_xmlfree(void *p) { free(p); }
xmlFreeFunc xmlFree = mp_xmlfree;
xmlNode *xmlNewText(const xmlChar *c) { return mk(XML_TEXT_NODE, xdup("text", 4), c ? xmlStrdup(c) : 0); }
xmlNode *xmlNewNode(xmlNs *ns, const xmlChar *name) { xmlNode *n = mk(XML_ELEMENT_NODE, xmlStrdup(name), 0); n->ns = ns; return n; }
static void setdoc(xmlNode *n, xmlDoc *d) { n->doc = d; for (xmlNode *c = n->type == XML_ELEMENT_NODE ? n->children : 0; c; c = c->next) setdoc(c, d); }
xmlNode *xmlAddChild(xmlNode *p, xmlNode *c) { c->parent = p; if (c->doc != p->doc) setdoc(c, p->doc); if (p->last) { p->last->next = c; c->prev = p->last; } else p->children = c; p->last = c; return c; }
xmlNode *xmlNewChild(xmlNode *p, xmlNs *ns, const xmlChar *name, const xmlChar *content) { xmlNode *n = xmlNewNode(ns ? ns : p->ns, name); xmlAddChild(p, n); if (content) xmlAddChild(n, xmlNewText(content)); return n; }
xmlAttr *xmlNewProp(xmlNode *e, const xmlChar *name, const xmlChar *value) {
    xmlAttr *a = calloc(1, sizeof *a); a->type = XML_ATTRIBUTE_NODE; a->name = xmlStrdup(name); a->parent = e; a->doc = e->doc;
    if (value) { a->children = a->last = xmlNewText(value); a->children->parent = (xmlNode *)a; }
    if (!e->properties) e->properties = a; else { xmlAttr *l = e->properties; while (l->next) l = l->next; l->next = a; a->prev = l; }
    return a;
}
void xmlFreeNode(xmlNode *n) {
    if (!n) return;
    if (n->type == XML_ELEMENT_NODE) {
        for (xmlNode *c = n->children, *x; c; c = x) { x = c->next; xmlFreeNode(c); }
        for (xmlAttr *a = n->properties, *x; a; a = x) { x = a->next; if (a->children) xmlFreeNode(a->children); free((void *)a->name); free(a); }
        for (xmlNs *s = n->nsDef, *x; s; s = x) { x = s->next; free((void *)s->href); free((void *)s->prefix); free(s); }
    }
    else free(n->content);
    free((void *)n->name); free(n);
}
xmlDoc *xmlNewDoc(const xmlChar *v) { xmlDoc *d = calloc(1, sizeof *d); d->type = XML_DOCUMENT_NODE; d->doc = d; return d; }
xmlNode *xmlDocSetRootElement(xmlDoc *d, xmlNode *r) { d->children = d->last = r; r->parent = (xmlNode *)d; setdoc(r, d); return 0; }
void xmlFreeDoc(xmlDoc *d) { if (!d) return; for (xmlNode *c = d->children, *x; c; c = x) { x = c->next; xmlFreeNode(c); } free(d); }
// ---- parser
typedef struct { const char *p, *e; int bad; } P;
static int sp(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
static int nm(char c, int first) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == ':' || (!first && ((c >= '0' && c <= '9') || c == '-' || c == '.')); }
static int at(P *s, const char *t) { int n = strlen(t); return s->e - s->p >= n && !memcmp(s->p, t, n); }
static void skip(P *s) { while (s->p < s->e && sp(*s->p)) s->p++; }
static xmlChar *name_(P *s) { const char *b = s->p; if (s->p >= s->e || !nm(*s->p, 1)) { s->bad = 1; return 0; } while (s->p < s->e && nm(*s->p, 0)) s->p++; return xdup(b, s->p - b); }
static xmlChar *text_(P *s, char end) {      // up to end, not included
    const char *b = s->p; xmlChar *o = malloc(s->e - b + 1); int n = 0;
    while (s->p < s->e && *s->p != end) {
        char c = *s->p;
        if (c == '<' || c == 0) { s->bad = 1; break; }
        if (c == '&') {
            static const char *k[] = { "&amp;", "&lt;", "&gt;", "&quot;", "&apos;" }; int i = 0; while (i < 5 && !at(s, k[i])) i++;
            if (i == 5) { s->bad = 1; break; } o[n++] = "&<>\"'"[i]; s->p += strlen(k[i]); continue;
        }
        o[n++] = c; s->p++;
    }
    o[n] = 0; return o;
}
static xmlNs *find_ns(xmlNode *n, const char *pre, int len) {
    for (; n && n->type == XML_ELEMENT_NODE; n = n->parent) for (xmlNs *s = n->nsDef; s; s = s->next) if (s->prefix ? len == (int)strlen((const char *)s->prefix) && !memcmp(s->prefix, pre, len) : !len) return s;
    return 0;
}
static xmlNode *element(P *s, xmlDoc *d, xmlNode *parent);
static void misc(P *s) { for (;;) { skip(s); const char *t = at(s, "<?") ? "?>" : at(s, "<!--") ? "-->" : 0; if (!t) return; while (s->p < s->e && !at(s, t)) s->p++; if (s->p >= s->e) { s->bad = 1; return; } s->p += strlen(t); } }
static void local(xmlChar *q, xmlChar **l, int *plen) { const xmlChar *c = xmlStrchr(q, ':'); *plen = c ? c - q : 0; *l = c ? xmlStrdup(c + 1) : xmlStrdup(q); }
static xmlNode *element(P *s, xmlDoc *d, xmlNode *parent) {
    s->p++; xmlChar *q = name_(s); if (s->bad) return 0; int plen; xmlChar *l; local(q, &l, &plen);
    xmlNode *n = mk(XML_ELEMENT_NODE, l, 0); n->doc = d; if (parent) xmlAddChild(parent, n);
    for (;;) {
        int had = s->p < s->e && sp(*s->p); skip(s); if (s->p >= s->e) { s->bad = 1; break; }
        if (*s->p == '>' || *s->p == '/') break;
        xmlChar *an = had ? name_(s) : 0; if (!an) { s->bad = 1; break; }
        skip(s); if (s->p >= s->e || *s->p != '=') { s->bad = 1; free(an); break; } s->p++; skip(s);
        if (s->p >= s->e || (*s->p != '"' && *s->p != '\'')) { s->bad = 1; free(an); break; }
        char qc = *s->p++; xmlChar *v = text_(s, qc); if (s->p >= s->e) s->bad = 1; else s->p++;
        if (!s->bad) {
            if (!strcmp((char *)an, "xmlns") || !strncmp((char *)an, "xmlns:", 6)) { xmlNs *x = calloc(1, sizeof *x); x->type = XML_NAMESPACE_DECL; x->href = xmlStrdup(v); x->prefix = an[5] ? xmlStrdup(an + 6) : 0; x->next = n->nsDef; n->nsDef = x; }
            else xmlNewProp(n, an, v);
        }
        free(an); free(v); if (s->bad) break;
    }
    n->ns = find_ns(n, (char *)q, plen);
    if (!s->bad) {
        if (*s->p == '/') { s->p++; if (s->p < s->e && *s->p == '>') s->p++; else s->bad = 1; }
        else {
            s->p++;
            for (;;) {
                if (s->p >= s->e) { s->bad = 1; break; }
                if (*s->p != '<') { xmlChar *t = text_(s, '<'); xmlNode *x = mk(XML_TEXT_NODE, xdup("text", 4), t); x->doc = d; xmlAddChild(n, x); if (s->bad) break; continue; }
                if (at(s, "</")) { s->p += 2; xmlChar *c = name_(s); if (!s->bad) { if (strcmp((char *)c, (char *)q)) s->bad = 1; skip(s); if (s->p >= s->e || *s->p != '>') s->bad = 1; else s->p++; } free(c); break; }
                if (at(s, "<!--")) { const char *b = s->p + 4; while (s->p < s->e && !at(s, "-->")) s->p++; if (s->p >= s->e) { s->bad = 1; break; } xmlNode *x = mk(XML_COMMENT_NODE, xdup("comment", 7), xdup(b, s->p - b)); x->doc = d; xmlAddChild(n, x); s->p += 3; continue; }
                element(s, d, n); if (s->bad) break;
            }
        }
    }
    free(q); if (!parent) { n->parent = (xmlNode *)d; d->children = d->last = n; } return n;
}
xmlDoc *xmlParseMemory(const char *buf, int size) {
    P s = { buf, buf + size, 0 }; if (!buf || size <= 0) return 0; xmlDoc *d = xmlNewDoc(0); d->parent = 0;
    misc(&s); if (!s.bad) { if (s.p >= s.e || *s.p != '<') s.bad = 1; else element(&s, d, 0); } if (!s.bad) { misc(&s); if (s.p < s.e) s.bad = 1; }
    if (s.bad) { xmlFreeDoc(d); return 0; } return d;
}
// ---- XPath
typedef struct mpns { struct mpns *next; xmlChar *pre, *href; } mpns;
xmlXPathContext *xmlXPathNewContext(xmlDoc *d) { xmlXPathContext *c = calloc(1, sizeof *c); c->doc = d; return c; }
int xmlXPathRegisterNs(xmlXPathContext *c, const xmlChar *p, const xmlChar *h) { mpns *n = calloc(1, sizeof *n); n->pre = xmlStrdup(p); n->href = xmlStrdup(h); n->next = (mpns *)c->user; c->user = n; return 0; }
void xmlXPathFreeContext(xmlXPathContext *c) { for (mpns *n = (mpns *)c->user, *x; n; n = x) { x = n->next; free(n->pre); free(n->href); free(n); } free(c); }
void xmlXPathFreeObject(xmlXPathObject *o) { if (o->nodesetval) { free(o->nodesetval->nodeTab); free(o->nodesetval); } free(o); }
static void addn(xmlNodeSet *s, xmlNode *n) { s->nodeTab = realloc(s->nodeTab, (s->nodeNr + 1) * sizeof *s->nodeTab); s->nodeTab[s->nodeNr++] = n; }
static void steps(xmlXPathContext *c, xmlNode *n, const char *e, xmlNodeSet *r) {     // n: node or document; e: "/..." or ""
    if (!*e) { addn(r, n); return; }
    if (n->type != XML_ELEMENT_NODE && n->type != XML_DOCUMENT_NODE) return;
    int deep = e[0] == '/' && e[1] == '/'; const char *b = e + (deep ? 2 : 1), *f = b; while (*f && *f != '/') f++; int len = f - b;
    if (*b == '@') { if (n->type == XML_ELEMENT_NODE) for (xmlAttr *a = n->properties; a; a = a->next) if ((int)strlen((char *)a->name) == len - 1 && !memcmp(a->name, b + 1, len - 1)) steps(c, (xmlNode *)a, f, r); }
    else for (xmlNode *k = n->children; k; k = k->next) {
        const char *l = b; int ll = len; const xmlChar *href = 0; for (int i = 0; i < len; i++) if (b[i] == ':') { for (mpns *x = (mpns *)c->user; x; x = x->next) if ((int)strlen((char *)x->pre) == i && !memcmp(x->pre, b, i)) href = x->href; l = b + i + 1; ll = len - i - 1; }
        int ok; if (len == 6 && !memcmp(b, "text()", 6)) ok = k->type == XML_TEXT_NODE; else ok = k->type == XML_ELEMENT_NODE && ((ll == 1 && *l == '*') || ((int)strlen((char *)k->name) == ll && !memcmp(k->name, l, ll) && (href ? k->ns && !strcmp((char *)k->ns->href, (char *)href) : !k->ns)));
        if (ok) steps(c, k, f, r);
    }
    if (deep) for (xmlNode *k = n->children; k; k = k->next) if (k->type == XML_ELEMENT_NODE) steps(c, k, e, r);
}
xmlXPathObject *xmlXPathEvalExpression(const xmlChar *e, xmlXPathContext *c) {
    if (!e || *e != '/') return 0; xmlXPathObject *o = calloc(1, sizeof *o); o->type = XPATH_NODESET; o->nodesetval = calloc(1, sizeof *o->nodesetval);
    steps(c, (xmlNode *)c->doc, (const char *)e, o->nodesetval); return o;
}
// ---- copies and serialisation
xmlNode *xmlCopyNode(xmlNode *n, int ext) {
    xmlNode *r = mk(n->type, n->name ? xmlStrdup(n->name) : 0, n->content ? xmlStrdup(n->content) : 0);
    if (n->type == XML_ELEMENT_NODE && ext) { for (xmlAttr *a = n->properties; a; a = a->next) xmlNewProp(r, a->name, a->children ? a->children->content : (const xmlChar *)""); if (ext == 1) for (xmlNode *k = n->children; k; k = k->next) xmlAddChild(r, xmlCopyNode(k, 1)); }
    return r;
}
xmlBuffer *xmlBufferCreate(void) { xmlBuffer *b = calloc(1, sizeof *b); b->content = calloc(1, 1); return b; }
void xmlBufferFree(xmlBuffer *b) { if (b) { free(b->content); free(b); } }
static void put(xmlBuffer *b, const char *s, size_t n) { b->content = realloc(b->content, b->use + n + 1); memcpy(b->content + b->use, s, n); b->use += n; b->content[b->use] = 0; }
static void puts_(xmlBuffer *b, const char *s) { put(b, s, strlen(s)); }
static void esc(xmlBuffer *b, const char *s, int attr) { for (; *s; s++) if (*s == '<') puts_(b, "&lt;"); else if (*s == '>') puts_(b, "&gt;"); else if (*s == '&') puts_(b, "&amp;"); else if (attr && *s == '"') puts_(b, "&quot;"); else put(b, s, 1); }
int xmlNodeDump(xmlBuffer *b, xmlDoc *d, xmlNode *n, int level, int format) {
    unsigned u = b->use;
    if (n->type == XML_TEXT_NODE) esc(b, (char *)n->content, 0);
    else if (n->type == XML_COMMENT_NODE) { puts_(b, "<!--"); puts_(b, (char *)n->content); puts_(b, "-->"); }
    else if (n->type == XML_ELEMENT_NODE) { puts_(b, "<"); puts_(b, (char *)n->name); for (xmlAttr *a = n->properties; a; a = a->next) { puts_(b, " "); puts_(b, (char *)a->name); puts_(b, "=\""); if (a->children) esc(b, (char *)a->children->content, 1); puts_(b, "\""); }
        if (!n->children) puts_(b, "/>"); else { puts_(b, ">"); for (xmlNode *k = n->children; k; k = k->next) xmlNodeDump(b, d, k, level + 1, format); puts_(b, "</"); puts_(b, (char *)n->name); puts_(b, ">"); } }
    return b->use - u;
}
