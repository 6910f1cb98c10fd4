// C09: client address bookkeeping.
#include "xmlb.h"
#include <metaproxy/origin.hpp>
#include <sstream>
namespace mp = metaproxy_1;
#ifndef N
#define N 3
#endif
static bool streq(const std::string &a, const std::string &b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); }
static char *word(int lo, int n, const char *nm) { char *s = sym_cstr(mp_pick(lo, n, "len"), nm); for (int i = 0; s[i]; i++) mp_assume(s[i] != ' '); return s; }
void mp_main(void) {
    mp::Origin o;
    static const unsigned ids[] = { 0, 7, 4294967295u };
    unsigned id = 0; std::string fwd, custom, peer, bind; bool set = false;
    if (mp_pick(0, 1, "connected")) {
        peer = word(1, N, "peer"); bind = word(1, N, "bind"); id = ids[mp_pick(1, 2, "id")]; set = true;
        o.set_tcpip_address(peer + " " + bind, id); fwd = peer;
        int n = mp_pick(0, 2, "forwarded");
        for (int i = 0; i < n; i++) {
            char *f = sym_cstr(mp_pick(0, N, "len"), "fwd"); id = ids[mp_pick(0, 1, "id")];
            o.set_tcpip_address(f, id);
            fwd.clear(); for (int k = 0; f[k] && f[k] != ' '; k++) fwd += f[k];
            mp_cover("forwarded");
        }
        mp_assert(streq(o.get_bind_address(), bind), "bind address survives forwarding");
        mp_assert(streq(o.get_address(), peer), "peer address survives forwarding");
    }
    if (mp_pick(0, 1, "custom")) { custom = sym_cstr(mp_pick(0, 2, "len"), "session"); o.set_custom_session(custom); }
    int ms = mp_i32("sockets"); o.set_max_sockets(ms); mp_assert(o.get_max_sockets() == ms, "socket limit is kept");
    std::ostringstream os; os << o;
    char num[16]; snprintf(num, sizeof num, "%u", id);
    std::string want = (fwd.size() ? fwd : std::string("0")) + ":" + num + (custom.size() ? ":" + custom : std::string());
    mp_assert(streq(os.str(), want), "log text");
    if (custom.size()) mp_cover("custom session");
    if (!set) mp_cover("no address");
    mp_cover("done");
}
