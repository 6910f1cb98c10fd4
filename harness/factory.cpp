// C08: filter factory, every history of K operations over names of up to 2 bytes.
#include "xmlb.h"
#include <metaproxy/filter.hpp>
#include "factory_filter.hpp"
namespace mp = metaproxy_1;
#ifndef K
#define K 4
#endif
static int made;
class F : public mp::filter::Base { public: void process(mp::Package &) const {} void configure(const xmlNode *, bool, const char *) {} };
template <int I> static mp::filter::Base *mk() { made = I; return new F; }
static mp::filter::Base *(*const creators[])() = { mk<1>, mk<2>, mk<3> };
void mp_main(void) {
    mp::FactoryFilter fac;
    std::string names[K]; int cr[K]; int n = 0;     // what is registered
    for (int s = 0; s < K; s++) {
        std::string nm(sym_cstr(mp_pick(0, 2, "len"), "name"));
        for (size_t i = 0; i < nm.size(); i++) mp_assume(nm[i] >= 'a' && nm[i] <= 'b');
        int at = -1; for (int i = 0; i < n; i++) if (names[i] == nm) at = i;
        switch (mp_pick(0, 4, "op")) {
        case 0: { int k = s % 3; bool r = fac.add_creator(nm, creators[k]); mp_assert(r == (at < 0), "a type is registered once"); if (at < 0) { names[n] = nm; cr[n++] = k + 1; } else mp_cover("registered twice"); break; }
        case 1: { bool r = fac.drop_creator(nm); mp_assert(r == (at >= 0), "removal tells whether the type was registered"); if (at >= 0) { for (int i = at; i + 1 < n; i++) { names[i] = names[i + 1]; cr[i] = cr[i + 1]; } n--; mp_cover("removed"); } break; }
        case 2: mp_assert(fac.exist(nm) == (at >= 0), "a type exists exactly when registered"); break;
        case 3: {
            made = 0; bool threw = false; mp::filter::Base *b = 0;
            try { b = fac.create(nm); } catch (mp::FactoryFilter::NotFound &) { threw = true; }
            mp_assert(threw == (at < 0), "an unknown type is not found");
            if (at >= 0) { mp_assert(b && made == cr[at], "the registered creator is called"); mp_cover("created"); } else { mp_assert(made == 0, "no creator is called for an unknown type"); mp_cover("not found"); }
            delete b; break; }
        case 4: { bool r = fac.add_creator_dl(nm, "/nonexistent"); mp_assert(r == (at >= 0), "a module that cannot be loaded registers nothing"); mp_cover("dl"); break; }
        }
    }
    for (int i = 0; i < n; i++) mp_assert(fac.exist(names[i]), "a registered type stays registered");
    mp_cover("done");
}
