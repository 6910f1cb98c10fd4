// Stand-in for yaz++ (not installed here).
#pragma once
#include <string>
#include <yaz/proto.h>
#include <yaz/querytowrbuf.h>
extern "C" Z_Query *mp_query_copy(ODR o, const Z_Query *q);
namespace yazpp_1 {
    class Yaz_Z_Query {
    public:
        Yaz_Z_Query() : q(0), o(odr_createmem(ODR_ENCODE)) {}
        Yaz_Z_Query(const Yaz_Z_Query &x) : q(0), o(odr_createmem(ODR_ENCODE)) { set_Z_Query(x.q); }
        ~Yaz_Z_Query() { odr_destroy(o); }
        Yaz_Z_Query &operator=(const Yaz_Z_Query &x) { if (this != &x) set_Z_Query(x.q); return *this; }
        int set_rpn(const char *rpn);
        void set_Z_Query(Z_Query *x) { ODR n = odr_createmem(ODR_ENCODE); Z_Query *c = x ? mp_query_copy(n, x) : 0; odr_destroy(o); o = n; q = c; }
        Z_Query *get_Z_Query() const { return q; }
        bool match(const Yaz_Z_Query *other) const { return str() == other->str(); }
        std::string str() const { WRBUF w = wrbuf_alloc(); if (q) yaz_query_to_wrbuf(w, q); std::string s(wrbuf_buf(w), wrbuf_len(w)); wrbuf_destroy(w); return s; }
    private:
        Z_Query *q; ODR o;
    };
}
