// Stand-in for yaz++ (not installed here).
#pragma once
#include <time.h>
namespace yazpp_1 {
    // counts events over a sliding window of sz seconds
    class TimeStat {
    public:
        TimeStat(int sz = 60) : ptr(0), sec(0), size(sz) { for (int i = 0; i < 60; i++) bucket[i] = 0; }
        int get_total() { cleanup(time(0)); int t = 0; for (int i = 0; i < size; i++) t += bucket[i]; return t; }
        void cleanup(long now) { if (sec < now) { long d = now - sec; if (d > size) d = size; while (d--) { ptr = (ptr + 1) % size; bucket[ptr] = 0; } sec = now; } }
        void add_bytes(int n) { cleanup(time(0)); bucket[ptr] += n; }
        int get_bytes(int seconds) { cleanup(time(0)); int t = 0, j = ptr; for (int i = 0; i < seconds && i < size; i++) { t += bucket[j]; j = j ? j - 1 : size - 1; } return t; }
    private:
        int ptr; long sec; int size; int bucket[60];
    };
}
