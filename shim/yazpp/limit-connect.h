// Stand-in for yaz++ (not installed here): connections per peer in the last minute.
#pragma once
#include <yazpp/timestat.h>
#include <string>
#include <map>
namespace yazpp_1 {
    class LimitConnect {
    public:
        void add_connect(const char *peer) { m[peer].add_bytes(1); }
        int get_total(const char *peer) { std::map<std::string, TimeStat>::iterator i = m.find(peer); return i == m.end() ? 0 : i->second.get_bytes(60); }
        void cleanup(bool all) { if (all) { m.clear(); return; } for (std::map<std::string, TimeStat>::iterator i = m.begin(); i != m.end(); ) if (!i->second.get_bytes(60)) m.erase(i++); else ++i; }
        void set_period(int) {}
        std::map<std::string, TimeStat> m;
    };
}
