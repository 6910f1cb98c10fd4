// Stand-in for std::ifstream over file contents given by the harness (same text natively and under the engine).
#pragma once
#include <fstream>
#include <string.h>
#include <string>
extern "C" const char *mp_file(const char *name);   // content of the file or 0
namespace std {
struct mp_ifstream {
    const char *p, *b; bool e, f;
    mp_ifstream() : p(0), b(0), e(false), f(false) {}
    explicit mp_ifstream(const char *n, ios_base::openmode = ios_base::in) : p(0), b(0), e(false), f(false) { open(n); }
    explicit mp_ifstream(const std::string &n, ios_base::openmode = ios_base::in) : p(0), b(0), e(false), f(false) { open(n.c_str()); }
    void open(const char *n, ios_base::openmode = ios_base::in) { p = b = mp_file(n); if (!p) f = true; }
    void open(const std::string &n, ios_base::openmode = ios_base::in) { open(n.c_str()); }
    bool is_open() const { return b != 0; }
    void close() { p = b = 0; }
    bool eof() const { return e; } bool fail() const { return f; } bool bad() const { return false; } bool good() const { return !e && !f; }
    bool operator!() const { return f; } explicit operator bool() const { return !f; }
    void clear() { e = f = false; }
    int get() { if (!good()) { f = true; return -1; } if (!p || !*p) { e = f = true; return -1; } return (unsigned char)*p++; }
    mp_ifstream &get(char &c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
    int peek() { if (!good()) { f = true; return -1; } if (!p || !*p) { e = true; return -1; } return (unsigned char)*p; }
    mp_ifstream &getline(char *o, long n, char d = '\n') {
        long k = 0, got = 0;
        if (!good()) f = true;
        else for (;;) {
            if (!p || !*p) { e = true; break; }
            if (*p == d) { p++; got++; break; }
            if (k >= n - 1) { f = true; break; }
            o[k++] = *p++; got++;
        }
        if (!got) f = true;
        if (n > 0) o[k] = 0;
        return *this;
    }
};
inline mp_ifstream &getline(mp_ifstream &s, std::string &o, char d = '\n') {
    bool got = false;
    if (!s.good()) { s.f = true; return s; }
    o.clear();
    for (;;) { if (!s.p || !*s.p) { s.e = true; break; } got = true; if (*s.p == d) { s.p++; break; } o += *s.p++; }
    if (!got) s.f = true;
    return s;
}
inline mp_ifstream &operator>>(mp_ifstream &s, std::string &o) {
    if (!s.good()) { s.f = true; return s; }
    while (s.p && *s.p && strchr(" \t\n\r\f\v", *s.p)) s.p++;
    o.clear(); while (s.p && *s.p && !strchr(" \t\n\r\f\v", *s.p)) o += *s.p++;
    if (!s.p || !*s.p) s.e = true; if (o.empty()) s.f = true; return s;
}
}
