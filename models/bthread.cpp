// The part of boost::thread that lives in its library, on pthreads.
#include <boost/thread/thread.hpp>
#include <pthread.h>
namespace boost {
namespace detail {
thread_data_base::~thread_data_base() {}
thread_data_base *get_current_thread_data() { return 0; }
}
static void *proxy(void *a) { detail::thread_data_ptr p = static_cast<detail::thread_data_base *>(a)->self; p->self.reset(); p->run(); return 0; }
bool thread::start_thread_noexcept() { thread_info->self = thread_info; if (pthread_create(&thread_info->thread_handle, 0, proxy, thread_info.get())) { thread_info->self.reset(); return false; } return true; }
bool thread::start_thread_noexcept(const attributes &) { return start_thread_noexcept(); }
detail::thread_data_ptr thread::get_thread_info BOOST_PREVENT_MACRO_SUBSTITUTION () const { return thread_info; }
bool thread::joinable() const BOOST_NOEXCEPT { return thread_info ? true : false; }
void thread::detach() { thread_info.reset(); }
bool thread::join_noexcept() { if (!thread_info) return false; if (!thread_info->joined) { thread_info->joined = true; pthread_join(thread_info->thread_handle, 0); } thread_info.reset(); return true; }
thread::native_handle_type thread::native_handle() { return thread_info ? thread_info->thread_handle : 0; }
namespace this_thread {
void interruption_point() {}
disable_interruption::disable_interruption() BOOST_NOEXCEPT : interruption_was_enabled(false) {}
disable_interruption::~disable_interruption() BOOST_NOEXCEPT {}
}
}
extern "C" { long sysconf(int) { return 4096; } long __sysconf(int) { return 4096; } int pthread_attr_getstacksize(const pthread_attr_t *, size_t *s) { *s = 65536; return 0; } }
// a timed wait may end at any moment, when nothing happened; the clock is then at least at its end
extern "C" { extern long mp_clock_sec, mp_clock_usec; int mp_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
__attribute__((weak)) int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { int r = mp_cond_timedwait(c, m, t); if (r == 110 && mp_clock_sec * 1000000 + mp_clock_usec < t->tv_sec * 1000000 + t->tv_nsec / 1000 + 1) { mp_clock_sec = t->tv_sec; mp_clock_usec = t->tv_nsec / 1000 + 1; } return r; }
struct tm *gmtime_r(const time_t *t, struct tm *r) {
    long d = *t / 86400, s = *t % 86400; r->tm_hour = s / 3600; r->tm_min = s / 60 % 60; r->tm_sec = s % 60; r->tm_wday = (d + 4) % 7; int y = 1970; for (;;) { int n = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 ? 366 : 365; if (d < n) break; d -= n; y++; }
    static const int ml[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; r->tm_year = y - 1900; r->tm_yday = d; int m = 0; for (;; m++) { int n = ml[m] + (m == 1 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0)); if (d < n) break; d -= n; } r->tm_mon = m; r->tm_mday = d + 1; r->tm_isdst = 0; return r;
} }
