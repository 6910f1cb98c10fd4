// Models of the libxml2 functions used by the code under test.
#include <libxml/tree.h>
#include <string.h>
int xmlStrcmp(const xmlChar *a, const xmlChar *b) { if (a == b) return 0; if (!a) return -1; if (!b) return 1; return strcmp((const char *)a, (const char *)b); }
int xmlStrEqual(const xmlChar *a, const xmlChar *b) { if (a == b) return 1; if (!a || !b) return 0; return !strcmp((const char *)a, (const char *)b); }
xmlNode *xmlDocGetRootElement(const xmlDoc *d) { if (!d) return 0; xmlNode *n = d->children; while (n && n->type != XML_ELEMENT_NODE) n = n->next; return n; }
