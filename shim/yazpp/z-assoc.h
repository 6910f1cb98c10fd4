// Stand-in for yaz++ (not installed here): what is sent goes to the harness.
#pragma once
#include <yaz/proto.h>
#include <yaz/zgdu.h>
#include <yazpp/pdu-observer.h>
namespace yazpp_1 {
    class Z_Assoc : public IPDU_Observer {
    public:
        Z_Assoc(IPDU_Observable *o) : m_pdu(o) {}
        virtual ~Z_Assoc() { if (m_pdu) { m_pdu->destroy(); delete m_pdu; } }
        void recv_PDU(const char *buf, int len) {}
        void connectNotify() {}
        void failNotify() {}
        void timeoutNotify() {}
        void timeout(int t) { if (m_pdu) m_pdu->idleTime(t); }
        void close() { if (m_pdu) m_pdu->close_session(); }
        int client(const char *addr);       // defined by the harness
        int server(const char *addr);       // defined by the harness
        virtual void recv_GDU(Z_GDU *gdu, int len) = 0;
        int send_GDU(Z_GDU *gdu, int *len);
        int send_Z_PDU(Z_APDU *a, int *len) { Z_GDU g; g.which = Z_GDU_Z3950; g.u.z3950 = a; return send_GDU(&g, len); } // defined by the harness
        const char *get_hostname() { return "host"; }
        const char *getpeername() { return m_pdu->getpeername(); }
        void set_APDU_log(const char *) {}
        IPDU_Observable *m_pdu;
    };
}
