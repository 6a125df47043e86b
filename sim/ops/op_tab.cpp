// the tabulated posits
#include "unpk.h"
#include "posit8.hpp"
#include "posit10.hpp"
#include "posit12.hpp"
template <class P> struct TabOps {
  typedef typename P::value_t T;
  typedef typename P::FPT FPT;
  OPERAND(P, mk, P(typename P::DeepInit(), (T)w))
  static uint64_t rv(const P &p) { return (uint64_t)(int64_t)p.v; }
#define OP(n) static void n(const uint64_t *a, uint64_t *r)
  OP(add) { r[0] = rv(mk(a[0]) + mk(a[1])); }
  OP(sub) { r[0] = rv(mk(a[0]) - mk(a[1])); }
  OP(mul) { r[0] = rv(mk(a[0]) * mk(a[1])); }
  OP(div) { r[0] = rv(mk(a[0]) / mk(a[1])); }
  OP(addeq) { P x = mk(a[0]); x += mk(a[1]); r[0] = rv(x); }
  OP(muleq) { P x = mk(a[0]); x *= mk(a[1]); r[0] = rv(x); }
  OP(neg_) { r[0] = rv(-mk(a[0])); r[1] = rv(neg(mk(a[0]))); }
  OP(abs_) { r[0] = rv(std::abs(mk(a[0]))); }
  OP(inv_) { r[0] = rv(mk(a[0]).inv()); r[1] = rv(inv(mk(a[0]))); }
  OP(half_) { r[0] = rv(mk(a[0]).half()); r[1] = rv(half(mk(a[0]))); }
  OP(twice_) { r[0] = rv(mk(a[0]).twice()); r[1] = rv(twice(mk(a[0]))); }
  OP(exp2_) { r[0] = rv(mk(a[0]).exp2()); r[1] = rv(exp2(mk(a[0]))); }
  OP(square_) { r[0] = rv(mk(a[0]).square()); r[1] = rv(square(mk(a[0]))); }
  OP(cmp) { P x = mk(a[0]), y = mk(a[1]); r[0] = (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5; }
  OP(cls) { P x = mk(a[0]); r[0] = x.is_nan() | x.is_negative() << 1 | x.is_infinity() << 2 | x.has_neg_exponent() << 3; }
  OP(minmax) { r[0] = rv(std::min(mk(a[0]), mk(a[1]))); r[1] = rv(std::max(mk(a[0]), mk(a[1]))); }
  OP(fromf) { r[0] = rv(P(f_of(a[0]))); }
  OP(fromd) { r[0] = rv(P(d_of(a[0]))); }
  OP(fromi) { r[0] = rv(P((int)a[0])); }
  OP(tof) { r[0] = of_f((float)mk(a[0])); }
  OP(tod) { r[0] = of_d((double)mk(a[0])); }
  OP(toi) { r[0] = (uint64_t)(int64_t)(int)mk(a[0]); }
  OP(unpack) { putu(mk(a[0]).unpack(), r); }
  OP(repack) { r[0] = rv(P(mk(a[0]).unpack())); r[1] = rv(P(mk(a[0]).unpack_low())); }
  OP(toposit) { FPT q = mk(a[0]); r[0] = (uint64_t)(int64_t)q.v; r[1] = rv(P(mk(a[0]).as_posit())); }
  OP(ana) { auto i = mk(a[0]).analyze(); r[0] = i.infinity | i.nan << 1 | i.sign << 2; r[1] = (uint64_t)(uint16_t)i.k | (uint64_t)(uint16_t)i.rs << 16 | (uint64_t)(uint16_t)i.es << 32 | (uint64_t)(uint16_t)i.fs << 48; }
  OP(consts) { r[0] = rv(P::one()); r[1] = rv(P::max()); r[2] = rv(P::min()) ^ rv(P::afterone()) << 32; r[3] = rv(P::nan()) ^ rv(P::pinfinity()) << 7 ^ rv(P::ninfinity()) << 23; }
  OP(limits) { r[0] = rv(std::numeric_limits<P>::epsilon()); r[1] = rv(std::numeric_limits<P>::max()); r[2] = rv(std::numeric_limits<P>::min()); }
  OP(horner) { P x = mk(a[0]), s = mk(a[1]); for (int i = 0; i < 3; i++) s = s * x + mk(a[2]); r[0] = rv(s); }
  OP(gauss) { P x = mk(a[0]), m = mk(a[1]), s = mk(a[2]); r[0] = rv(exp2(-half(square((x - m) / s)))); }
  OP(uadd) UPD(P, mk(a[0]), x += mk(a[1]))
  OP(umul) UPD(P, mk(a[0]), x *= mk(a[1]))
  OP(uself) { switch (a[1] % 2) { case 0: UPD(P, mk(a[0]), x += x) break; default: UPD(P, mk(a[0]), x *= x) } }
  OP(uset) { switch (a[2] % 4) { case 0: UPD(P, mk(a[0]), x = mk(a[1])) break; case 1: UPD(P, mk(a[0]), x = -x) break; case 2: UPD(P, mk(a[0]), x = x / mk(a[1])) break; default: UPD(P, mk(a[0]), x = x.square()) } }
#undef OP
  static void print(const uint64_t *a, std::ostream &o) { o << mk(a[0]); }
  static void reg(const char *t, bool full)
  {
    const int n = P::vtotalbits, e = P::vesbits;
    const unsigned fl = F_TAB, tb = F_TAB | F_TBLOP, tf = full ? tb : fl;
#define R(f, s, x) reg_op(t, #f, f, s, n, e, x)
    R(add, "pp", tf); R(sub, "pp", tf); R(mul, "pp", tf); R(div, "pp", tf); R(addeq, "pp", tf); R(muleq, "pp", tf);
    R(neg_, "p", fl); R(abs_, "p", fl); R(inv_, "p", tb); R(half_, "p", tf); R(twice_, "p", fl); R(exp2_, "p", tb); R(square_, "p", tb);
    R(cmp, "pp", fl); R(cls, "p", fl); R(minmax, "pp", fl); R(fromf, "f", fl); R(fromd, "d", fl); R(fromi, "i", fl);
    R(tof, "p", tb); R(tod, "p", tb); R(toi, "p", tb); R(unpack, "p", fl); R(repack, "p", fl); R(toposit, "p", fl); R(ana, "p", fl); R(consts, "", fl); R(limits, "", fl);
    R(horner, "ppp", fl); R(gauss, "ppp", fl);
#undef R
    reg_op(t, "uadd", uadd, "pp", n, e, fl | F_UPD); reg_op(t, "umul", umul, "pp", n, e, fl | F_UPD); reg_op(t, "uself", uself, "pu", n, e, fl | F_UPD); reg_op(t, "uset", uset, "ppu", n, e, fl | F_UPD);
    reg_pr(t, print, "p", n, e, fl);
  }
};
void init_tab()
{
  TabOps<posit8>::reg("posit8", true);
  TabOps<posit10>::reg("posit10", true);
  TabOps<posit12>::reg("posit12", false);
}
