// Registry of library operations, as uniform thunks. Only the op_*.cpp files include library headers.
#pragma once
#include <stdint.h>
#include <string.h>
#include <new>
#include <ostream>
typedef void (*OpFn)(const uint64_t *a, uint64_t *r);       // up to 6 argument words, 4 result words
typedef void (*PrFn)(const uint64_t *a, std::ostream &o);
enum {
  F_TAB = 1,       // type with lookup tables (P08)
  F_TPL = 2,       // template / computed type (P09)
  F_TBLOP = 4,     // answered from a table (P15)
  F_FP = 8,        // computes with native floating point (excluded from P12)
  F_PRINT = 16,
  F_UPD = 32,      // updates a value in place (P28)
  F_LONG = 64      // too long for anything but P26
};
extern "C" {
// memory for a value that others can see: a value updated in it is watched between watch and unwatch (which returns its bytes)
void *opsim_slot();
void opsim_watch(const void *p, unsigned n);
uint64_t opsim_unwatch(unsigned n);
// a value that every caller asking for it shares
const void *opsim_shared(const void *type, uint64_t w, void (*make)(void *, uint64_t));
}
#define UPD(P, init, stmt) { P &x = *new (opsim_slot()) P(init); opsim_watch(&x, sizeof x); stmt; r[0] = opsim_unwatch(sizeof x); }
// with OPSHARED operands are references to values shared between all threads, else values of the caller's own
#ifdef OPSHARED
#define OPERAND(P, name, expr) \
  static void name##_make(void *p, uint64_t w) { new (p) P(expr); } \
  static const P &name(uint64_t w) { static const char type = 0; return *(const P *)opsim_shared(&type, w, name##_make); }
#else
#define OPERAND(P, name, expr) static P name(uint64_t w) { return expr; }
#endif
// sig: one letter per argument: p = value word of `bits` significant bits, f = float bits, d = double bits, i = int, n = small count, u = raw 32-bit word, h = raw 16-bit
void reg_op(const char *type, const char *op, OpFn fn, const char *sig, int bits, int es, unsigned flags);
void reg_pr(const char *type, PrFn fn, const char *sig, int bits, int es, unsigned flags);

static inline float f_of(uint64_t w) { uint32_t i = (uint32_t)w; float f; memcpy(&f, &i, 4); return f; }
static inline double d_of(uint64_t w) { double d; memcpy(&d, &w, 8); return d; }
static inline uint64_t of_f(float f) { uint32_t i; memcpy(&i, &f, 4); return i; }
static inline uint64_t of_d(double d) { uint64_t i; memcpy(&i, &d, 8); return i; }
