// C10: session identity. PROP 1: concurrent creation; 2: copies and closing; 3: session_map histories; 4: session_map under concurrency
#include "mp.h"
#include <metaproxy/session.hpp>
#include <pthread.h>
#include <vector>
namespace mp = metaproxy_1;
#ifndef NT
#define NT 2
#endif
#ifndef PER
#define PER 2
#endif
static unsigned long ids[NT + 1][PER];
static void *run(void *a) { int t = (int)(long)a; for (int i = 0; i < PER; i++) { mp::Session s; ids[t][i] = s.id(); } return 0; }
struct Item { int v; };
static mp::session_map<Item> *sm; static mp::Session *A, *B, *C;
static void *ins(void *) { Item i = {2}; sm->create(i, *B); sm->create(i, *C); return 0; }
static void *rel(void *) { sm->release(*B); return 0; }
void mp_main(void) {
#if PROP == 1
    mp_preempt(1, PB);
    pthread_t th[NT];
    for (long t = 0; t < NT; t++) pthread_create(&th[t], 0, run, (void *)t);
    run((void *)(long)NT);
    for (int t = 0; t < NT; t++) pthread_join(th[t], 0);
    unsigned long *f = &ids[0][0];
    for (int i = 0; i < (NT + 1) * PER; i++) for (int j = 0; j < i; j++) mp_assert(f[i] != f[j], "every session has an id of its own");
    if (ids[0][0] > ids[1][0]) mp_cover("overtaken");
#elif PROP == 2
    mp::Session s[4]; unsigned long id[4]; bool cl[4] = {0, 0, 0, 0};
    for (int i = 0; i < 4; i++) { id[i] = s[i].id(); for (int j = 0; j < i; j++) mp_assert(id[i] != id[j], "every session has an id of its own"); mp_assert(!s[i].is_closed(), "a new session is open"); }
    for (int k = 0; k < OPS; k++) {
        int i = mp_pick(0, 3, "i"), j = mp_pick(0, 3, "j");
        switch (mp_pick(0, 2, "op")) {
        case 0: s[i] = s[j]; id[i] = id[j]; cl[i] = cl[j]; mp_cover("assigned"); break;
        case 1: { mp::Session c(s[j]); mp_assert(c.id() == id[j] && c.is_closed() == cl[j], "a copy keeps id and closed state"); mp_assert(c == s[j], "a copy is the same session"); c.close(); break; }
        case 2: s[i].close(); cl[i] = true; mp_cover("closed"); break;
        }
        for (int m = 0; m < 4; m++) mp_assert(s[m].id() == id[m] && s[m].is_closed() == cl[m], "only the named session changes");
        mp_assert((s[i] < s[j]) == (id[i] < id[j]) && (s[i] == s[j]) == (id[i] == id[j]), "comparison follows the id");
    }
#elif PROP == 3
    mp::Session s[4]; bool in[4] = {0, 0, 0, 0}; mp::session_map<Item> m;
    for (int k = 0; k < OPS; k++) {
        int i = mp_pick(0, 3, "i"); Item it = {i};
        if (mp_pick(0, 1, "op")) { m.create(it, s[i]); in[i] = true; mp_cover("created"); } else { m.release(s[i]); in[i] = false; mp_cover("released"); }
        for (int q = 0; q < 4; q++) mp_assert(m.exist(s[q]) == in[q], "storage holds exactly the live sessions");
    }
#else
    mp::Session b, x, c; A = &x; B = &b; C = &c; mp::session_map<Item> m; sm = &m;
    Item i = {1}; m.create(i, x); int mode = mp_pick(0, 1, "mode"); if (mode) { m.create(i, b); m.create(i, c); }
    mp_preempt(1, PB);
    pthread_t t; pthread_create(&t, 0, mode ? rel : ins, 0);
    mp_assert(m.exist(x), "a stored session is found whatever others do");
    pthread_join(t, 0);
    mp_assert(m.exist(b) == !mode, "storage reflects the other thread's change");
    mp_cover(mode ? "released" : "created");
#endif
    mp_cover("done");
}
