// Stand-in for yaz++ (not installed here): an association that has no socket of its own.
#pragma once
#include <yazpp/socket-observer.h>
#include <yazpp/pdu-observer.h>
namespace yazpp_1 {
    extern int live_pdu_assoc;
    class PDU_Assoc : public IPDU_Observable, ISocketObserver {
    public:
        PDU_Assoc(ISocketObservable *o) : m_o(o), closed(0), peer(0), cert(0) { live_pdu_assoc++; }
        ~PDU_Assoc() { live_pdu_assoc--; }
        void socketNotify(int event) {}
        void set_cert_fname(const char *fname) { cert = fname; }
        COMSTACK get_comstack() { return 0; }
        void shutdown() { closed = 1; }
        void close_session() { closed = 1; }
        const char *getpeername() { return peer; }
        ISocketObservable *m_o; int closed; const char *peer; const char *cert;
    };
}
