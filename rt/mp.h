// Harness interface: symbolic under mpsym, concrete (replay) when compiled natively.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void mp_sym(void *p, size_t n, const char *name);          // n arbitrary bytes
int mp_range(int lo, int hi, const char *name);            // arbitrary value lo..hi
int32_t mp_i32(const char *name);
int64_t mp_i64(const char *name);
void mp_assume(int c);
void mp_assert(int c, const char *label);
void mp_cover(const char *label);
void mp_note(const char *s, long v);
void mp_notes(const char *s, const char *v);
void mp_end(void) __attribute__((noreturn));
long mp_concretize(long v);
int mp_in_engine(void);
void mp_preempt(int mem, int bound);   // mem: also at shared memory; bound < 0: a single schedule
void mp_wait_idle(void);   // until all other threads are blocked
int mp_readable(const void *p, size_t n);
long mp_heap_live(void);
void mp_main(void);
#ifdef __cplusplus
}
// case split: pick one concrete value of lo..hi (each explored)
static inline int mp_pick(int lo, int hi, const char *name) { return (int)mp_concretize(mp_range(lo, hi, name)); }
#endif
