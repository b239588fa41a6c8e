/* Contract layer shared by all proof units.
 *
 * Compiled by goto-cc (VP_CBMC) the macros are verifier primitives.  Compiled
 * by gcc (VP_NATIVE) the same unit replays a recorded counterexample: nondet
 * draws are read back in order from a file, requirements that do not hold stop
 * the replay with status 77, obligations that do not hold stop it with 1. */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

#ifdef VP_CBMC

unsigned char nondet_vp_u8(void);
unsigned short nondet_vp_u16(void);
unsigned nondet_vp_u32(void);
unsigned long nondet_vp_u64(void);
_Bool nondet_vp_bool(void);
double nondet_vp_double(void);

unsigned long long vp_draw;  /* every draw is recorded here for replay */
static inline uint8_t nd_u8(void) { uint8_t v = nondet_vp_u8(); vp_draw = v; return v; }
static inline uint16_t nd_u16(void) { uint16_t v = nondet_vp_u16(); vp_draw = v; return v; }
static inline uint32_t nd_u32(void) { uint32_t v = nondet_vp_u32(); vp_draw = v; return v; }
static inline uint64_t nd_u64(void) { uint64_t v = nondet_vp_u64(); vp_draw = v; return v; }
static inline bool nd_bool(void) { bool v = nondet_vp_bool(); vp_draw = v; return v; }
static inline double nd_double(void) { union { double d; uint64_t u; } x; x.d = nondet_vp_double(); vp_draw = x.u; return x.d; }

#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, label) __CPROVER_assert((c), label)
/* must be reachable: reported "failed" by the verifier on every run, else the
 * precondition in front of it is unsatisfiable and the unit is vacuous */
#define REACH(label) __CPROVER_assert(0, "VPREACH " label)
#define STOP() __CPROVER_assume(0)
#define HAVOC_OBJ(p) __CPROVER_havoc_object(p)

#else /* VP_NATIVE */

#include <unistd.h>
extern unsigned long long vp_next(void);
static inline uint8_t nd_u8(void) { return (uint8_t)vp_next(); }
static inline uint16_t nd_u16(void) { return (uint16_t)vp_next(); }
static inline uint32_t nd_u32(void) { return (uint32_t)vp_next(); }
static inline uint64_t nd_u64(void) { return (uint64_t)vp_next(); }
static inline bool nd_bool(void) { return vp_next() & 1; }
static inline double nd_double(void) { union { double d; uint64_t u; } x; x.u = vp_next(); return x.d; }

extern void vp_assume_failed(const char *what, int line);
extern void vp_check_failed(const char *label, const char *what, int line);
#define ASSUME(c) do { if (!(c)) vp_assume_failed(#c, __LINE__); } while (0)
#define CHECK(c, label) do { if (!(c)) vp_check_failed(label, #c, __LINE__); } while (0)
extern void vp_reached(void);
extern long vp_pick(long lo, long hi);
#define REACH(label) vp_reached()
#define STOP() vp_assume_failed("end of path", __LINE__)
#define HAVOC_OBJ(p) ((void)0)

#endif

static inline int nd_int(void) { return (int)nd_u32(); }
static inline long nd_long(void) { return (long)nd_u64(); }

#ifdef VP_CBMC
#define vp_pick(lo, hi) nd_long()
#endif
/* signed value within [lo, hi] */
static inline long nd_range(long lo, long hi) { long v = vp_pick(lo, hi); ASSUME(v >= lo && v <= hi); return v; }
#ifdef VP_CBMC
static inline int nd_irange(int lo, int hi) { int v = nd_int(); ASSUME(v >= lo && v <= hi); return v; }
static inline uint32_t nd_below(uint32_t n) { uint32_t v = nd_u32(); ASSUME(v < n); return v; }
#else
static inline int nd_irange(int lo, int hi) { int v = (int)vp_pick(lo, hi); ASSUME(v >= lo && v <= hi); return v; }
static inline uint32_t nd_below(uint32_t n) { ASSUME(n > 0); uint32_t v = (uint32_t)vp_pick(0, (long)n - 1); ASSUME(v < n); return v; }
#endif

/* proved here, used afterwards */
#define LEMMA(c, label) do { bool vp_l = (c); CHECK(vp_l, label); ASSUME(vp_l); } while (0)

/* process exit inside verified code is a violation unless the unit allows it */
static int vp_exit_allowed;
static inline void vp_exit(int code) { (void)code; CHECK(vp_exit_allowed, "no unexpected process exit"); STOP(); }

#endif
