// Definitions of the libstdc++ pieces that normally live in libstdc++.so, for
// symbolic execution: template classes are instantiated from the installed
// headers, the rest is written out here (equivalent to the library's contract).
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <sstream>
#include <iostream>
#include <map>
#include <list>
#include <unordered_map>
#include <vector>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>

extern "C" void mp_debug(const char *);

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }

// copy-on-write string used by the standard exceptions: plain duplicate here
static char *mpdup(const char *s, size_t n) { char *p = (char *)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(mpdup("", 0)) {}
__cow_string::__cow_string(const std::string &s) : _M_p(mpdup(s.data(), s.size())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(mpdup(s, n)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(mpdup(o._M_p, strlen(o._M_p))) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { char *p = mpdup(o._M_p, strlen(o._M_p)); free((void *)_M_p); _M_p = p; return *this; }
__cow_string::~__cow_string() { free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) { o._M_p = mpdup("", 0); }

logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return *(const char *const *)&_M_msg; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return *(const char *const *)&_M_msg; }
#define MPERR(C, B) C::C(const string &s) : B(s) {} C::C(const char *s) : B(s) {} C::~C() noexcept {}
MPERR(domain_error, logic_error)
MPERR(invalid_argument, logic_error)
MPERR(length_error, logic_error)
MPERR(out_of_range, logic_error)
MPERR(range_error, runtime_error)
MPERR(overflow_error, runtime_error)
MPERR(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw logic_error("bad_function_call"); }
const nothrow_t nothrow{};

// ---------------------------------------------------------------- containers
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else {
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void rotL(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
    _Rb_tree_node_base *y = x->_M_right;
    x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
    _Rb_tree_node_base *y = x->_M_left;
    x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    _Rb_tree_node_base *&root = h._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        _Rb_tree_node_base *g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) {
            _Rb_tree_node_base *u = g->_M_right;
            if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotR(g, root); }
        } else {
            _Rb_tree_node_base *u = g->_M_left;
            if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotL(g, root); }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
    _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
        else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        _Rb_tree_color t = y->_M_color; y->_M_color = z->_M_color; z->_M_color = t;
        y = z;
    } else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { _Rb_tree_node_base *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
        if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { _Rb_tree_node_base *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black)) {
            if (x == xp->_M_left) {
                _Rb_tree_node_base *w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break;
                }
            } else {
                _Rb_tree_node_base *w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break;
                }
            }
        }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
    if (this != last) {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
        _List_node_base *const tmp = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
    }
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
// hash tables
const unsigned long mp_primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (unsigned long p : mp_primes) if (p >= n) { _M_next_resize = p; return p; } return n | 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > nb) return {true, _M_next_bkt(ne + ni > 2 * nb ? ne + ni : 2 * nb)};
    return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + c[i]; return h; }

// ---------------------------------------------------------------- streams
// Only what the code under test uses: string streams, integers, characters, strings.
static char mp_impl_store[256];
locale::~locale() throw() {}
const locale &locale::operator=(const locale &) throw() { return *this; }
bool locale::operator==(const locale &) const throw() { return true; }
const locale &locale::classic() { static locale l; return l; }
locale locale::global(const locale &) { return locale(); }
std::string locale::name() const { return "C"; }
locale::facet::~facet() {}
size_t locale::id::_M_id() const throw() { return 0; }

ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_zero(), _M_word_size(8), _M_word(_M_local_word) {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
void ios_base_library_init() {}

const size_t ctype<char>::table_size;
locale::id ctype<char>::id;
ctype<char>::ctype(const mask *t, bool, size_t r) : facet(r), _M_c_locale_ctype(0), _M_del(false), _M_toupper(0), _M_tolower(0), _M_table(t) {
    _M_widen_ok = 1; _M_narrow_ok = 1;
    for (int i = 0; i < 256; i++) _M_widen[i] = _M_narrow[i] = (char)i;
}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
const char *ctype<char>::do_toupper(char *p, const char *e) const { for (; p < e; p++) *p = do_toupper(*p); return e; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
const char *ctype<char>::do_tolower(char *p, const char *e) const { for (; p < e; p++) *p = do_tolower(*p); return e; }
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}
static ctype<char> *mp_ctype() {
    static char store[sizeof(ctype<char>)] __attribute__((aligned(16))); static bool done; static ctype_base::mask tab[256];
    if (!done) {
        done = true;
        for (int c = 0; c < 128; c++) {
            ctype_base::mask m = 0; bool u = c >= 'A' && c <= 'Z', l = c >= 'a' && c <= 'z', d = c >= '0' && c <= '9';
            if (u) m |= ctype_base::upper; if (l) m |= ctype_base::lower; if (u || l) m |= ctype_base::alpha; if (d) m |= ctype_base::digit;
            if (d || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= ctype_base::xdigit;
            if (c == ' ' || (c >= 9 && c <= 13)) m |= ctype_base::space;
            if (c >= 32 && c < 127) m |= ctype_base::print; else m |= ctype_base::cntrl;
            if (c > 32 && c < 127 && !u && !l && !d) m |= ctype_base::punct;
            if (c == ' ' || c == 9) m |= ctype_base::blank;
            tab[c] = m;
        }
        new (store) ctype<char>(tab, false, 1);
    }
    return (ctype<char> *)store;
}
static const locale::facet *mp_facets[1];
static char *mp_impl() { mp_facets[0] = mp_ctype(); ((const locale::facet ***)mp_impl_store)[1] = mp_facets; return mp_impl_store; }   // every facet has id 0: only ctype<char> is modelled
locale::locale() throw() : _M_impl((_Impl *)mp_impl()) {}
locale::locale(const locale &) throw() : _M_impl((_Impl *)mp_impl()) {}
locale::locale(const char *) : _M_impl((_Impl *)mp_impl()) {}
template <> const ctype<char> &use_facet<ctype<char>>(const locale &) { return *mp_ctype(); }
template <> bool has_facet<ctype<char>>(const locale &) throw() { return true; }
template <> void basic_ios<char>::_M_cache_locale(const locale &) { _M_ctype = mp_ctype(); _M_num_put = 0; _M_num_get = 0; }
template <> char basic_ios<char>::fill() const { return ' '; }
template <> char basic_ios<char>::fill(char) { return ' '; }
template <> char basic_ios<char>::widen(char c) const { return c; }
template <> char basic_ios<char>::narrow(char c, char) const { return c; }
template <> void basic_ios<char>::clear(iostate s) { _M_streambuf_state = rdbuf() ? s : iostate(s | badbit); }
template <> void basic_ios<char>::init(basic_streambuf<char> *sb) { _M_tie = 0; _M_ctype = mp_ctype(); _M_num_put = 0; _M_num_get = 0; _M_fill = ' '; _M_fill_init = true; _M_exception = goodbit; _M_streambuf = sb; _M_streambuf_state = sb ? goodbit : badbit; ios_base::_M_init(); }

template <typename T> static ostream &mpnum(ostream &o, T v, bool neg, unsigned base) {
    char b[72]; int n = 72;
    do { b[--n] = "0123456789abcdef"[v % base]; v /= base; } while (v);
    if (neg) b[--n] = '-';
    streamsize w = o.width();
    if (w > 72 - n) { char f = o.fill(); for (streamsize i = w - (72 - n); i > 0; i--) o.rdbuf()->sputc(f); }
    o.width(0);
    o.rdbuf()->sputn(b + n, 72 - n);
    return o;
}
static unsigned mpbase(ostream &o) { ios_base::fmtflags f = o.flags() & ios_base::basefield; return f == ios_base::hex ? 16 : f == ios_base::oct ? 8 : 10; }
template <> template <> ostream &ostream::_M_insert(long v) { unsigned b = mpbase(*this); if (b == 10 && v < 0) return mpnum(*this, 0ul - (unsigned long)v, true, b); return mpnum(*this, (unsigned long)v, false, b); }
template <> template <> ostream &ostream::_M_insert(unsigned long v) { return mpnum(*this, v, false, mpbase(*this)); }
template <> template <> ostream &ostream::_M_insert(long long v) { return _M_insert((long)v); }
template <> template <> ostream &ostream::_M_insert(unsigned long long v) { return _M_insert((unsigned long)v); }
template <> template <> ostream &ostream::_M_insert(bool v) { return _M_insert((unsigned long)v); }
template <> template <> ostream &ostream::_M_insert(double v) { char b[64]; extern int mp_fmtd(char *, double, int); int n = mp_fmtd(b, v, (flags() & ios_base::floatfield) == ios_base::fixed ? (int)precision() : -1); rdbuf()->sputn(b, n); return *this; }
int mp_fmtd(char *b, double v, int prec) { if (prec == 6) { long m = (long)(v * 1000000.0 + 0.5); return snprintf(b, 64, "%ld.%06ld", m / 1000000, m % 1000000); } return snprintf(b, 64, "%g", v); }
template <> template <> ostream &ostream::_M_insert(const void *v) { rdbuf()->sputn("0x", 2); return mpnum(*this, (unsigned long)v, false, 16); }
template <> ostream &ostream::operator<<(int v) { ios_base::fmtflags f = flags() & ios_base::basefield; if (f == ios_base::hex || f == ios_base::oct) return _M_insert((unsigned long)(unsigned)v); return _M_insert((long)v); }
template <> ostream &ostream::operator<<(short v) { return *this << (int)v; }
template <> ostream &ostream::flush() { return *this; }
template <> ostream &ostream::put(char c) { rdbuf()->sputc(c); return *this; }
template <> ostream &ostream::write(const char *s, streamsize n) { rdbuf()->sputn(s, n); return *this; }
template <> ostream::sentry::sentry(ostream &o) : _M_ok(true), _M_os(o) {}
template <> ostream &__ostream_insert(ostream &o, const char *s, streamsize n) {
    streamsize w = o.width(); bool left = (o.flags() & ios_base::adjustfield) == ios_base::left;
    char f = o.fill();
    if (w > n && !left) for (streamsize i = w - n; i > 0; i--) o.rdbuf()->sputc(f);
    o.rdbuf()->sputn(s, n);
    if (w > n && left) for (streamsize i = w - n; i > 0; i--) o.rdbuf()->sputc(f);
    o.width(0);
    return o;
}
template <> istream::sentry::sentry(istream &i, bool noskip) : _M_ok(i.good()) {}
template <> istream &istream::operator>>(int &v) {
    streambuf *b = rdbuf(); int c = b->sgetc();
    while (c == ' ' || (c >= 9 && c <= 13)) c = b->snextc();
    bool neg = false, any = false; long r = 0;
    if (c == '-' || c == '+') { neg = c == '-'; c = b->snextc(); }
    while (c >= '0' && c <= '9') { r = r * 10 + (c - '0'); any = true; c = b->snextc(); }
    if (c == EOF) setstate(any ? eofbit : ios_base::iostate(eofbit | failbit)); else if (!any) setstate(failbit);
    v = neg ? -(int)r : (int)r;
    return *this;
}
// std::cout / cerr: an output that is dropped
struct mp_nullbuf : streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } streamsize xsputn(const char *, streamsize n) override { return n; } };
static char mp_nb_store[sizeof(mp_nullbuf)] __attribute__((aligned(16)));
__attribute__((constructor(101))) static void mp_init_io() {
    streambuf *b = new (mp_nb_store) mp_nullbuf;
    new ((void *)&cout) ostream(b); new ((void *)&cerr) ostream(b); new ((void *)&clog) ostream(b);
}
} // namespace std

template class std::basic_string<char>;
template class std::basic_streambuf<char>;
template class std::basic_stringbuf<char>;
template class std::basic_ios<char>;
template class std::basic_ostream<char>;
template class std::basic_istream<char>;
template class std::basic_iostream<char>;
template class std::basic_ostringstream<char>;
template class std::basic_istringstream<char>;
template class std::basic_stringstream<char>;
template std::ostream &std::operator<<(std::ostream &, char);
template std::ostream &std::operator<<(std::ostream &, const char *);
template std::ostream &std::operator<<(std::ostream &, const unsigned char *);
template std::ostream &std::endl(std::ostream &);
template std::ostream &std::flush(std::ostream &);
template std::istream &std::operator>>(std::istream &, std::string &);
namespace std {
template <> istream &getline(istream &i, string &s, char d) {
    s.erase(); streambuf *b = i.rdbuf(); int c = b->sgetc(); bool any = false;
    for (;;) { if (c == EOF) { i.setstate(any ? ios_base::eofbit : ios_base::iostate(ios_base::eofbit | ios_base::failbit)); break; } any = true; if ((char)c == d) { b->sbumpc(); break; } s.push_back((char)c); c = b->snextc(); }
    return i;
}
}
