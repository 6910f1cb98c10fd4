// Stand-in for yaz++ (not installed here): the conversion itself is YAZ's.
#pragma once
#include <yaz/proto.h>
#include <yaz/cql.h>
namespace yazpp_1 {
    class Yaz_cql2rpn {
    public:
        Yaz_cql2rpn() : m_transform(0) {}
        ~Yaz_cql2rpn() { if (m_transform) cql_transform_close(m_transform); }
        void set_pqf_file(const char *fname) { parse_spec_file(fname, 0); }
        bool parse_spec_file(const char *fname, int *error) { if (m_transform) return true; m_transform = cql_transform_open_fname(fname); if (!m_transform) { if (error) *error = 1; return false; } return true; }
        int query_transform(const char *cql, Z_RPNQuery **rpn, ODR o, char **addinfop);   // defined by the harness
        int rpn2cql_transform(Z_RPNQuery *q, WRBUF cql, ODR o, char **addinfop);
        cql_transform_t m_transform;
    };
}
