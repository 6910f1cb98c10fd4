// Stand-in for yaz++ (not installed here): the harness decides which events happen.
#pragma once
#include <yazpp/socket-observer.h>
namespace yazpp_1 {
    class SocketManager : public ISocketObservable {
    public:
        SocketManager() : n(0) { live++; }
        ~SocketManager() { live--; }
        void addObserver(int fd, ISocketObserver *observer) { n++; last() = observer; }
        static ISocketObserver *&last() { static ISocketObserver *p; return p; }
        void deleteObserver(ISocketObserver *observer) { n--; }
        void deleteObservers() { n = 0; }
        void maskObserver(ISocketObserver *observer, int mask) {}
        void timeoutObserver(ISocketObserver *observer, int timeout) {}
        int processEvent();                 // defined by the harness
        int getNumberOfObservers() { return n; }
        int n;
        static int live;
    };
}
