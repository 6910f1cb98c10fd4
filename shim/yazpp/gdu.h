// Stand-in for yaz++ (not installed here): a GDU owns a deep copy of what it is given.
#ifndef YAZ_PP_GDU_INCLUDED
#define YAZ_PP_GDU_INCLUDED
#include <yaz/proto.h>
#include <yaz/zgdu.h>
#include <yaz/odr.h>
#include <yaz/wrbuf.h>
#include <yaz/nmem.h>
extern "C" Z_GDU *mp_gdu_copy(ODR o, const Z_GDU *g);   // native: encode + decode; engine: field by field
namespace yazpp_1 {
    class GDU {
    public:
        GDU() : m_gdu(0), m_decode(odr_createmem(ODR_DECODE)) {}
        GDU(Z_APDU *apdu) : m_gdu(0), m_decode(odr_createmem(ODR_DECODE)) { set(apdu); }
        GDU(Z_GDU *gdu) : m_gdu(0), m_decode(odr_createmem(ODR_DECODE)) { set(gdu); }
        GDU(const GDU &g) : m_gdu(0), m_decode(odr_createmem(ODR_DECODE)) { set(g.m_gdu); }
        ~GDU() { odr_destroy(m_decode); }
        Z_GDU *get() const { return m_gdu; }
        GDU &operator=(const GDU &g) { if (this != &g) set(g.m_gdu); return *this; }
        GDU &operator=(Z_APDU *apdu) { set(apdu); return *this; }
        GDU &operator=(Z_GDU *gdu) { set(gdu); return *this; }
        int get_size() { return m_gdu ? 100 : 0; }   // every PDU counts 100 octets
    private:
        void set(Z_APDU *a) { if (!a) { set((Z_GDU *)0); return; } Z_GDU g; g.which = Z_GDU_Z3950; g.u.z3950 = a; set(&g); }
        void set(const Z_GDU *g) {
            ODR n = odr_createmem(ODR_DECODE);
            Z_GDU *c = g ? mp_gdu_copy(n, g) : 0;
            odr_destroy(m_decode); m_decode = n; m_gdu = c;
        }
        Z_GDU *m_gdu;
        ODR m_decode;
    };
}
#endif
