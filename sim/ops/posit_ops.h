// thunks for Posit<T,totalbits,esbits,FT,spec>
#pragma once
#include "unpk.h"
#include "posit.h"
template <class P> struct PositOps {
  typedef typename P::value_t T;
  typedef typename P::UnpackedT U;
  OPERAND(P, mk, P(typename P::DeepInit(), (T)w))
  static uint64_t rv(const P &p) { return (uint64_t)(int64_t)p.v; }
#define OP(n) static void n(const uint64_t *a, uint64_t *r)
  OP(add) { r[0] = rv(mk(a[0]) + mk(a[1])); }
  OP(sub) { r[0] = rv(mk(a[0]) - mk(a[1])); }
  OP(mul) { P m = mk(a[0]) * mk(a[1]); r[0] = rv(m); }
  OP(div) { r[0] = rv(mk(a[0]) / mk(a[1])); }
  OP(fma_) { r[0] = rv(fma(mk(a[0]), mk(a[1]), mk(a[2]))); }
  OP(muladd) { r[0] = rv(mk(a[0]) * mk(a[1]) + mk(a[2])); }
  OP(addeq) { P x = mk(a[0]); x += mk(a[1]); r[0] = rv(x); }
  OP(muleq) { P x = mk(a[0]); x *= mk(a[1]); r[0] = rv(x); }
  OP(diveq) { P x = mk(a[0]); x /= mk(a[1]); r[0] = rv(x); }
  OP(neg_) { r[0] = rv(-mk(a[0])); r[1] = rv(neg(mk(a[0]))); }
  OP(abs_) { r[0] = rv(mk(a[0]).abs()); }
  OP(inv_) { r[0] = rv(mk(a[0]).inv()); r[1] = rv(~mk(a[0])); }
  OP(half) { r[0] = rv(mk(a[0]).half()); }
  OP(twice) { r[0] = rv(mk(a[0]).twice()); }
  OP(prevnext) { r[0] = rv(mk(a[0]).prev()); r[1] = rv(mk(a[0]).next()); }
  OP(cmp) { P x = mk(a[0]), y = mk(a[1]); r[0] = (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5; }
  OP(cls) { P x = mk(a[0]); r[0] = x.isNaN() | x.isnegative() << 1 | x.isinfinity() << 2 | x.iszero() << 3 | x.isone() << 4 | x.hasNaN() << 5 | x.isUnitRange() << 6; }
  OP(minmax) { r[0] = rv(std::min(mk(a[0]), mk(a[1]))); r[1] = rv(std::max(mk(a[0]), mk(a[1]))); }
  OP(sigm) { r[0] = rv(mk(a[0]).pseudosigmoid()); r[1] = rv(mk(a[0]).pseudosoftplus()); }
  OP(urom) { r[0] = rv(mk(a[0]).urOneMinus()); }
  OP(urdp) { r[0] = rv(mk(a[0]).urDeltaPs()); }
  OP(fromf) { r[0] = rv(P(f_of(a[0]))); }
  OP(fromd) { r[0] = rv(P(d_of(a[0]))); }
  OP(fromi) { r[0] = rv(P((int)a[0])); }
  OP(fromsingle) { r[0] = rv(P(typename P::single_tag(), (uint32_t)a[0])); }
  OP(tof) { r[0] = of_f((float)mk(a[0])); }
  OP(tod) { r[0] = of_d((double)mk(a[0])); }
  OP(toi) { r[0] = (uint64_t)(int64_t)(int)mk(a[0]); }
  OP(asbin) { r[0] = mk(a[0]).as_float_bin(); }
  OP(unpack) { putu(mk(a[0]).unpack(), r); }
  OP(repack) { r[0] = rv(P(mk(a[0]).unpack())); }
  OP(unlow) { auto q = mk(a[0]).unpack_low(); r[0] = (uint64_t)q.type | (uint64_t)(q.negativeSign ? 1 : 0) << 8; r[1] = (uint64_t)(int64_t)q.regime; r[2] = q.exp; r[3] = q.fraction; }
  OP(relow) { r[0] = rv(P(mk(a[0]).unpack_low())); }
  OP(dot) { P x[4] = {mk(a[0]), mk(a[1]), mk(a[2]), mk(a[0])}, y[4] = {mk(a[3]), mk(a[4]), mk(a[0]), mk(a[3])}; r[0] = rv(P::dot(x, y, 1 + (int)(a[1] & 3))); }
  OP(dotlong) { enum { N = 48 }; P x[N], y[N]; uint64_t s = a[4] ^ a[0] * 31; int n = 5 + (int)((a[1] ^ a[3]) % 44); for (int i = 0; i < n; i++) { x[i] = mk(a[i % 4]); y[i] = mk(a[(i * 3 + (s >> (i % 13) & 1)) % 5]); } r[0] = rv(P::dot(x, y, n)); r[1] = rv(P::dot(x, y, 0)); }
  OP(dotint) { int x[6]; P y[6]; for (int i = 0; i < 6; i++) { x[i] = (int)(a[0] >> (i * 5)) & 31; y[i] = mk(a[1 + i % 2]); } r[0] = rv(P::dot(x, y, 6)); }
  // a long accumulation over operands that are not stored anywhere
  struct Walk { const uint64_t *a; unsigned i; P operator*() const { return mk(a[i % 3]); } Walk &operator++() { i++; return *this; } Walk operator++(int) { Walk w = *this; i++; return w; } bool operator!=(const Walk &w) const { return i != w.i; } bool operator==(const Walk &w) const { return i == w.i; } };
  OP(dotwalk) { Walk x = {a, 0}, y = {a, 1}; r[0] = rv(P::dot(x, y, 100 + (int)(a[3] & 255))); }
  OP(uadd) UPD(P, mk(a[0]), x += mk(a[1]))
  OP(umul) UPD(P, mk(a[0]), x *= mk(a[1]))
  OP(udiv) UPD(P, mk(a[0]), x /= mk(a[1]))
  OP(uself) { switch (a[1] % 3) { case 0: UPD(P, mk(a[0]), x += x) break; case 1: UPD(P, mk(a[0]), x *= x) break; default: UPD(P, mk(a[0]), x /= x) } }
  OP(uset) { switch (a[2] % 4) { case 0: UPD(P, mk(a[0]), x = mk(a[1])) break; case 1: UPD(P, mk(a[0]), x = -x) break; case 2: UPD(P, mk(a[0]), x = x * mk(a[1])) break; default: UPD(P, mk(a[0]), x = P(f_of(a[1]))) } }
#ifdef POSITMUL
  OP(pmconv) { auto m = mk(a[0]) * mk(a[1]); r[0] = of_f((float)m); r[1] = of_d((double)m); r[2] = (uint64_t)(int64_t)(int)m; r[3] = rv(m.asPosit()); }
  OP(pmadd) { r[0] = rv(mk(a[0]) * mk(a[1]) + mk(a[2]) * mk(a[3])); r[1] = rv(mk(a[0]) * mk(a[1]) - mk(a[2]) * mk(a[3])); r[2] = rv(mk(a[2]) + mk(a[0]) * mk(a[1])); }
#endif
  OP(ana) { P x = mk(a[0]); auto i = x.analyze(); r[0] = i.infinity | i.nan << 1 | i.sign << 2; r[1] = (uint64_t)(uint16_t)i.k | (uint64_t)(uint16_t)i.rs << 16 | (uint64_t)(uint16_t)i.es << 32 | (uint64_t)(uint16_t)i.fs << 48; r[2] = (uint64_t)(uint32_t)i.exp | (uint64_t)(uint32_t)i.exponent << 32; r[3] = (uint64_t)i.ifraction; }
  OP(consts) { r[0] = rv(P::one()) ^ rv(P::two()) << 8 ^ rv(P::onehalf()) << 16 ^ rv(P::mone()) << 24; r[1] = rv(P::max()); r[2] = rv(P::lowest()) ^ rv(P::min()) << 32; r[3] = rv(P::nan()) ^ rv(P::infinity()) << 7; }
  OP(limits) { r[0] = rv(std::numeric_limits<P>::epsilon()); r[1] = rv(std::numeric_limits<P>::max()); r[2] = rv(std::numeric_limits<P>::min()); r[3] = rv(std::numeric_limits<P>::infinity()); }
  OP(horner) { P x = mk(a[0]), s = mk(a[1]); for (int i = 0; i < 3; i++) { P m = s * x; s = m + mk(a[2]); } r[0] = rv(s); }
#undef OP
  static void print(const uint64_t *a, std::ostream &o) { o << mk(a[0]); }
  static void reg(const char *t, unsigned fl = F_TPL)
  {
    const int n = P::vtotalbits, e = P::vesbits;
#define R(f, s) reg_op(t, #f, f, s, n, e, fl)
    R(add, "pp"); R(sub, "pp"); R(mul, "pp"); R(div, "pp"); R(fma_, "ppp"); R(muladd, "ppp"); R(addeq, "pp"); R(muleq, "pp"); R(diveq, "pp");
    R(neg_, "p"); R(abs_, "p"); R(inv_, "p"); R(half, "p"); R(twice, "p"); R(prevnext, "p"); R(cmp, "pp"); R(cls, "p"); R(minmax, "pp");
    R(sigm, "p"); R(urom, "p"); R(urdp, "p"); R(fromf, "f"); R(fromd, "d"); R(fromi, "i"); R(fromsingle, "f"); R(tof, "p"); R(tod, "p");
    R(toi, "p"); R(asbin, "p"); R(unpack, "p"); R(repack, "p"); R(unlow, "p"); R(relow, "p"); R(dot, "ppppp"); R(dotlong, "ppppp"); R(dotint, "upp"); reg_op(t, "dotwalk", dotwalk, "pppu", n, e, fl | F_LONG); R(ana, "p"); R(consts, "");
    reg_op(t, "uadd", uadd, "pp", n, e, fl | F_UPD); reg_op(t, "umul", umul, "pp", n, e, fl | F_UPD); reg_op(t, "udiv", udiv, "pp", n, e, fl | F_UPD); reg_op(t, "uself", uself, "pu", n, e, fl | F_UPD); reg_op(t, "uset", uset, "ppu", n, e, fl | F_UPD);
    R(limits, "");
    R(horner, "ppp");
#ifdef POSITMUL
    R(pmconv, "pp"); R(pmadd, "pppp");
#endif
#undef R
    reg_pr(t, print, "p", n, e, fl);
  }
};
