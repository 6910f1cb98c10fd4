// Models of YAZ SRU package functions (engine side only).
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <yaz/srw.h>
#include <yaz/pquery.h>
#include <yaz/diagsrw.h>
#include <yaz/facet.h>
static void *zero(ODR o, size_t n) { void *p = odr_malloc(o, n); memset(p, 0, n); return p; }
Z_SRW_PDU *yaz_srw_get_pdu(ODR o, int which, const char *version) {
    Z_SRW_PDU *p = zero(o, sizeof *p); p->which = which; p->srw_version = odr_strdup(o, version);
    switch (which) {
    case Z_SRW_searchRetrieve_request: p->u.request = zero(o, sizeof *p->u.request); p->u.request->sort_type = Z_SRW_sort_type_none; break;
    case Z_SRW_searchRetrieve_response: p->u.response = zero(o, sizeof *p->u.response); break;
    case Z_SRW_explain_request: p->u.explain_request = zero(o, sizeof *p->u.explain_request); break;
    case Z_SRW_explain_response: p->u.explain_response = zero(o, sizeof *p->u.explain_response); break;
    case Z_SRW_scan_request: p->u.scan_request = zero(o, sizeof *p->u.scan_request); break;
    case Z_SRW_scan_response: p->u.scan_response = zero(o, sizeof *p->u.scan_response); break;
    case Z_SRW_update_request: p->u.update_request = zero(o, sizeof *p->u.update_request); break;
    case Z_SRW_update_response: p->u.update_response = zero(o, sizeof *p->u.update_response); break;
    }
    return p;
}
Z_SRW_PDU *yaz_srw_get(ODR o, int which) { return yaz_srw_get_pdu(o, which, "2.0"); }
Z_SRW_PDU *yaz_srw_get_pdu_e(ODR o, int which, Z_SRW_PDU *req) { Z_SRW_PDU *p = yaz_srw_get_pdu(o, which, req->srw_version); p->extra_args = req->extra_args; return p; }
void yaz_mk_srw_diagnostic(ODR o, Z_SRW_diagnostic *d, const char *uri, const char *m, const char *a) { d->uri = odr_strdup(o, uri); d->message = m ? odr_strdup(o, m) : 0; d->details = a ? odr_strdup(o, a) : 0; }
static char *uri_of(ODR o, int c) { char *u = odr_malloc(o, 40); sprintf(u, "info:srw/diagnostic/1/%d", c); return u; }
void yaz_mk_std_diagnostic(ODR o, Z_SRW_diagnostic *d, int c, const char *a) { yaz_mk_srw_diagnostic(o, d, uri_of(o, c), 0, a); }
void yaz_add_srw_diagnostic(ODR o, Z_SRW_diagnostic **d, int *num, int c, const char *a) {
    Z_SRW_diagnostic *n = odr_malloc(o, (*num + 1) * sizeof *n); if (*num) memcpy(n, *d, *num * sizeof *n); yaz_mk_std_diagnostic(o, n + *num, c, a); *d = n; (*num)++;
}
static const short b2s[][2] = { {2,2},{3,48},{13,61},{14,63},{15,68},{108,10},{109,235},{114,16},{235,235},{238,67},{1014,3},{1011,3},{0,0} };
int yaz_diag_bib1_to_srw(int c) { for (int i = 0; b2s[i][0]; i++) if (b2s[i][0] == c) return b2s[i][1]; return 1; }
void yaz_mk_sru_surrogate(ODR o, Z_SRW_record *r, int pos, int c, const char *a) {
    const char *f = "<diagnostic xmlns=\"http://www.loc.gov/zing/srw/diagnostic/\">\n <uri>info:srw/diagnostic/1/%d</uri>\n%s%s%s</diagnostic>\n"; size_t n = strlen(f) + (a ? strlen(a) : 0) + 60; char *b = odr_malloc(o, n);
    sprintf(b, f, c, a ? " <details>" : "", a ? a : "", a ? "</details>\n" : ""); r->recordData_buf = b; r->recordData_len = strlen(b); r->recordPosition = odr_intdup(o, pos); r->recordSchema = odr_strdup(o, "info:srw/schema/1/diagnostics-v1.1");
}
void yaz_oi_set_facetlist(Z_OtherInformation **oi, ODR o, Z_FacetList *l) {}
Z_FacetList *yaz_oi_get_facetlist(Z_OtherInformation **oi) { return 0; }
int yaz_srw_codec(ODR o, void *p, Z_SRW_PDU **h, void *c, const char *ns) { return -1; }
int yaz_ucp_codec(ODR o, void *p, Z_SRW_PDU **h, void *c, const char *ns) { return -1; }
YAZ_PQF_Parser yaz_pqf_create(void) { return malloc(1); }
void yaz_pqf_destroy(YAZ_PQF_Parser p) { free(p); }
