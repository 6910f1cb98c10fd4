// Native replay: feeds the counterexample file named by MP_REPLAY to the same harness.
#include "mp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>
static std::vector<std::pair<std::string, std::string>> in;
static size_t pos;
static std::string next(const char *name) {
    while (pos < in.size() && (in[pos].first == "sched" || in[pos].first == "wake")) pos++;
    if (pos >= in.size()) return "";
    std::string nm(name); for (auto &c : nm) if (c == ' ') c = '_';
    if (in[pos].first != nm) {
        fprintf(stderr, "MP-REPLAY-DIVERGED: expected %s, harness asked for %s\n", in[pos].first.c_str(), name);
        _Exit(3);
    }
    return in[pos++].second;
}
extern "C" {
void mp_sym(void *p, size_t n, const char *name) {
    if (!n) return;
    std::string v = next(name);
    for (size_t i = 0; i < n; i++) {
        unsigned x = 0;
        if (2 * i + 1 < v.size()) sscanf(v.substr(2 * i, 2).c_str(), "%x", &x);
        ((unsigned char *)p)[i] = (unsigned char)x;
    }
}
static long long val(const char *name) { std::string v = next(name); return v.empty() ? 0 : atoll(v.c_str() + 1); }
int mp_range(int lo, int hi, const char *name) {
    if (lo == hi) return lo;
    std::string v = next(name);
    long long x = v.empty() ? lo : atoll(v.c_str() + 1);
    return (int)x;
}
int32_t mp_i32(const char *name) { return (int32_t)val(name); }
int64_t mp_i64(const char *name) { return val(name); }
void mp_assume(int c) { if (!c) { fprintf(stderr, "MP-REPLAY-ASSUME-FALSE\n"); _Exit(0); } }
void mp_assert(int c, const char *label) {
    if (!c) { fprintf(stderr, "MP-VIOLATION assert %s\n", label); fflush(stderr); _Exit(77); }
}
void mp_cover(const char *) {}
void mp_note(const char *s, long v) { fprintf(stderr, "note %s %ld\n", s, v); }
void mp_notes(const char *s, const char *v) { fprintf(stderr, "note %s '%s'\n", s, v); }
void mp_end(void) { _Exit(0); }
long mp_concretize(long v) { return v; }
int mp_in_engine(void) { return 0; }
void mp_preempt(int, int) {}
void mp_wait_idle(void) {}
int mp_readable(const void *, size_t) { return 1; }
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
long mp_heap_live(void) { return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0; }
}
int main(int argc, char **argv) {
    const char *f = getenv("MP_REPLAY");
    if (f) {
        std::ifstream s(f); std::string l;
        while (std::getline(s, l)) {
            if (l.empty() || l[0] == '#') continue;
            size_t p = l.find(' ');
            in.push_back({l.substr(0, p), p == std::string::npos ? "" : l.substr(p + 1)});
        }
    }
    mp_main();
    return 0;
}
