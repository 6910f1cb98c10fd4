// Worker pool: every message is handled once and its result delivered once by the event loop, whatever the schedule.
#include "mp.h"
#include <pthread.h>
#include "thread_pool_observer.hpp"
#include <yazpp/socket-manager.h>
namespace mp = metaproxy_1;
int yazpp_1::SocketManager::live = 0; int yazpp_1::SocketManager::processEvent() { return 0; }
static pthread_mutex_t hm; static pthread_cond_t hc; static int in_pipe, started, busy, max_busy; static bool bcl;
extern "C" {
int pipe(int *fd) { fd[0] = 50; fd[1] = 51; return 0; }
int close(int fd) { return 0; }
int fcntl(int fd, int c, ...) { return 0; }
ssize_t read(int fd, void *b, size_t n) { pthread_mutex_lock(&hm); mp_assert(fd == 50 && in_pipe > 0, "the event loop never blocks on the pipe"); in_pipe--; pthread_mutex_unlock(&hm); *(char *)b = 0; return 1; }
ssize_t write(int fd, const void *b, size_t n) { pthread_mutex_lock(&hm); in_pipe++; pthread_cond_signal(&hc); pthread_mutex_unlock(&hm); return 1; }
}
#ifndef NM
#define NM 2
#endif
static int handled[NM], results[NM], gone[NM], cleaned[NM]; static pthread_t main_th;
struct Msg : public mp::IThreadPoolMsg {
    int i; Msg *nx; Msg(int k) : i(k), nx(0) {}
    ~Msg() { gone[i]++; }
    IThreadPoolMsg *handle() { handled[i]++; mp_assert(!pthread_equal(pthread_self(), main_th), "handled by a worker"); return this; }
    void result(const char *) { results[i]++; mp_assert(handled[i] == 1, "result after handling"); mp_assert(pthread_equal(pthread_self(), main_th), "delivered by the event loop"); delete this; }
    bool cleanup(void *info) { bool m = (long)info == (i & 1); if (m) cleaned[i]++; return m; }
};
static void pump(mp::ThreadPoolSocketObserver &p) { pthread_mutex_lock(&hm); while (!in_pipe) pthread_cond_wait(&hc, &hm); pthread_mutex_unlock(&hm); static_cast<yazpp_1::ISocketObserver &>(p).socketNotify(yazpp_1::SOCKET_OBSERVE_READ); }
void mp_main(void) {
    main_th = pthread_self(); yazpp_1::SocketManager sm; int min = mp_pick(MINLO, MINHI, "min"), max = mp_pick(min, MAXHI, "max");
    int mode = mp_pick(0, MODES - 1, "mode"); // 0 drain; 1 stop at once; 2 remove the odd ones
    mp_preempt(MEM, PB);
    {
        mp::ThreadPoolSocketObserver p(&sm, min, max, 0);
        for (int i = 0; i < NM; i++) p.put(new Msg(i));
        if (mode == 2) { p.cleanup(0, (void *)1); mp_cover("cleaned"); }
        if (mode != 1) { for (;;) { int left = 0; for (int i = 0; i < NM; i++) if (!results[i] && !cleaned[i]) left++; if (!left) break; pump(p); } }
        int busy, total; p.get_thread_info(busy, total); mp_assert(total >= min && total <= (max > min ? max : min), "number of workers within the limits"); if (total > min) mp_cover("worker added");
    }
    for (int i = 0; i < NM; i++) {
        mp_assert(handled[i] <= 1 && results[i] <= 1 && gone[i] <= 1, "nothing is done twice");
        if (cleaned[i]) { mp_assert(!handled[i] && !results[i] && gone[i] == 1, "a removed message is never handled"); mp_cover("removed"); }
        else if (mode != 1) mp_assert(handled[i] == 1 && results[i] == 1 && gone[i] == 1, "every message is handled and delivered");
    }
    if (mode == 1 && !handled[NM - 1]) mp_cover("stopped early");
    mp_assert(sm.getNumberOfObservers() == 0, "observer removed"); mp_cover("done");
}
