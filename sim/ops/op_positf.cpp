// float-backed posits
#include "unpk.h"
#include "positf.h"
template <class P> struct PFOps {
  typedef typename P::value_t T;
  OPERAND(P, mk, P(typename P::DeepInit(), (T)w))
  static uint64_t rv(const P &p) { return (uint64_t)(int64_t)p.v; }
#define OP(n) static void n(const uint64_t *a, uint64_t *r)
  OP(add) { r[0] = rv(mk(a[0]) + mk(a[1])); }
  OP(sub) { r[0] = rv(mk(a[0]) - mk(a[1])); }
  OP(mul) { r[0] = rv(mk(a[0]) * mk(a[1])); }
  OP(div) { r[0] = rv(mk(a[0]) / mk(a[1])); }
  OP(addeq) { P x = mk(a[0]); x += mk(a[1]); r[0] = rv(x); }
  OP(neg_) { r[0] = rv(-mk(a[0])); r[1] = rv(neg(mk(a[0]))); }
  OP(abs_) { r[0] = rv(mk(a[0]).abs()); }
  OP(inv_) { r[0] = rv(mk(a[0]).inv()); r[1] = rv(~mk(a[0])); }
  OP(half) { r[0] = rv(mk(a[0]).half()); }
  OP(twice) { r[0] = rv(mk(a[0]).twice()); }
  OP(prevnext) { r[0] = rv(mk(a[0]).prev()); r[1] = rv(mk(a[0]).next()); }
  OP(cmp) { P x = mk(a[0]), y = mk(a[1]); r[0] = (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5; }
  OP(cls) { P x = mk(a[0]); r[0] = x.isNaN() | x.isnegative() << 1 | x.isinfinity() << 2 | x.iszero() << 3 | x.isone() << 4 | x.hasNaN() << 5 | x.isUnitRange() << 6; }
  OP(minmax) { r[0] = rv(std::min(mk(a[0]), mk(a[1]))); r[1] = rv(std::max(mk(a[0]), mk(a[1]))); }
  OP(sigm) { r[0] = rv(mk(a[0]).pseudosigmoid()); r[1] = rv(mk(a[0]).pseudosoftplus()); r[2] = rv(mk(a[0]).urOneMinus()); }
  OP(urdp) { r[0] = rv(mk(a[0]).urDeltaPs()); }
  OP(fromf) { r[0] = rv(P(f_of(a[0]))); }
  OP(fromd) { r[0] = rv(P(d_of(a[0]))); }
  OP(fromi) { r[0] = rv(P((int)a[0])); }
  OP(tof) { r[0] = of_f((float)mk(a[0])); }
  OP(tod) { r[0] = of_d((double)mk(a[0])); }
  OP(toi) { r[0] = (uint64_t)(int64_t)(int)mk(a[0]); }
  OP(unpack) { putu(mk(a[0]).unpack(), r); }
  OP(repack) { r[0] = rv(P(mk(a[0]).unpack())); }
  OP(consts) { r[0] = rv(P::one()) ^ rv(P::two()) << 8 ^ rv(P::onehalf()) << 16 ^ rv(P::mone()) << 24; r[1] = rv(P::max()); r[2] = rv(P::lowest()) ^ rv(P::min()) << 32; r[3] = rv(P::nan()) ^ rv(P::infinity()) << 7; }
  OP(limits) { r[0] = rv(std::numeric_limits<P>::epsilon()); r[1] = rv(std::numeric_limits<P>::max()); r[2] = rv(std::numeric_limits<P>::min()); }
  OP(uadd) UPD(P, mk(a[0]), x += mk(a[1]))
  OP(uset) { switch (a[2] % 4) { case 0: UPD(P, mk(a[0]), x = mk(a[1])) break; case 1: UPD(P, mk(a[0]), x = -x) break; case 2: UPD(P, mk(a[0]), x = x * mk(a[1])) break; default: UPD(P, mk(a[0]), x += x) } }
#undef OP
  static void print(const uint64_t *a, std::ostream &o) { o << mk(a[0]); }
  static void reg(const char *t)
  {
    const int n = P::vtotalbits, e = P::vesbits;
    const unsigned fl = F_TPL | F_FP;
#define R(f, s) reg_op(t, #f, f, s, n, e, fl)
    R(add, "pp"); R(sub, "pp"); R(mul, "pp"); R(div, "pp"); R(addeq, "pp"); R(neg_, "p"); R(abs_, "p"); R(inv_, "p"); R(half, "p"); R(twice, "p");
    R(prevnext, "p"); R(cmp, "pp"); R(cls, "p"); R(minmax, "pp"); R(sigm, "p"); R(urdp, "p"); R(fromf, "f"); R(fromd, "d"); R(fromi, "i"); R(tof, "p"); R(tod, "p"); R(toi, "p");
    R(unpack, "p"); R(repack, "p"); R(consts, ""); R(limits, "");
#undef R
    reg_op(t, "uadd", uadd, "pp", n, e, fl | F_UPD); reg_op(t, "uset", uset, "ppu", n, e, fl | F_UPD);
    reg_pr(t, print, "p", n, e, fl);
  }
};
void init_positf()
{
  PFOps<PositF<int8_t, 8, 0, float, PositSpec::WithNan>>::reg("PositF8_0_float_Nan");
  PFOps<PositF<int16_t, 16, 1, float, PositSpec::WithInf>>::reg("PositF16_1_float_Inf");
  PFOps<PositF<int16_t, 12, 2, double, PositSpec::WithNanInf>>::reg("PositF12_2_double_NanInf");
}
