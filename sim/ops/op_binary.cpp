// binary8tab and the emulated small floats (binary8.hpp and posit.h cannot share a translation unit)
#include "unpk.h"
#include "binary8.hpp"
#include "anyfloat.hpp"
#include "float16native32.hpp"
struct B8 {
  typedef binary8tab P;
  OPERAND(P, mk, P(P::DeepInit(), (int8_t)w))
  static uint64_t rv(const P &p) { return (uint64_t)(int64_t)p.v; }
#define OP(n) static void n(const uint64_t *a, uint64_t *r)
  OP(add) { r[0] = rv(mk(a[0]) + mk(a[1])); }
  OP(sub) { r[0] = rv(mk(a[0]) - mk(a[1])); }
  OP(mul) { r[0] = rv(mk(a[0]) * mk(a[1])); }
  OP(div) { r[0] = rv(mk(a[0]) / mk(a[1])); }
  OP(addeq) { P x = mk(a[0]); x += mk(a[1]); r[0] = rv(x); }
  OP(muleq) { P x = mk(a[0]); x *= mk(a[1]); r[0] = rv(x); }
  OP(neg_) { r[0] = rv(-mk(a[0])); r[1] = rv(neg(mk(a[0]))); }
  OP(abs_) { r[0] = rv(std::abs(mk(a[0]))); }
  OP(inv_) { r[0] = rv(mk(a[0]).inv()); r[1] = rv(inv(mk(a[0]))); }
  OP(half_) { r[0] = rv(mk(a[0]).half()); r[1] = rv(half(mk(a[0]))); }
  OP(exp2_) { r[0] = rv(mk(a[0]).exp2()); r[1] = rv(exp2(mk(a[0]))); }
  OP(square_) { r[0] = rv(mk(a[0]).square()); r[1] = rv(square(mk(a[0]))); }
  OP(cmp) { P x = mk(a[0]), y = mk(a[1]); r[0] = (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5 | x.is_negative() << 6; }
  OP(minmax) { r[0] = rv(std::min(mk(a[0]), mk(a[1]))); r[1] = rv(std::max(mk(a[0]), mk(a[1]))); }
  OP(fromf) { r[0] = rv(P(f_of(a[0]))); }
  OP(fromd) { r[0] = rv(P(d_of(a[0]))); }
  OP(fromi) { r[0] = rv(P((int)a[0])); }
  OP(tof) { r[0] = of_f((float)mk(a[0])); }
  OP(tod) { r[0] = of_d((double)mk(a[0])); }
  OP(toi) { r[0] = (uint64_t)(int64_t)(int)mk(a[0]); }
  OP(consts) { r[0] = rv(P::one()); r[1] = rv(P::max()); r[2] = rv(P::min()) ^ rv(P::afterone()) << 32; r[3] = rv(std::numeric_limits<P>::epsilon()); }
  OP(horner) { P x = mk(a[0]), s = mk(a[1]); for (int i = 0; i < 3; i++) s = s * x + mk(a[2]); r[0] = rv(s); }
  OP(uadd) UPD(P, mk(a[0]), x += mk(a[1]))
  OP(umul) UPD(P, mk(a[0]), x *= mk(a[1]))
  OP(uset) { switch (a[2] % 4) { case 0: UPD(P, mk(a[0]), x = mk(a[1])) break; case 1: UPD(P, mk(a[0]), x = -x) break; case 2: UPD(P, mk(a[0]), x = x / mk(a[1])) break; default: UPD(P, mk(a[0]), x += x) } }
#undef OP
  static void print(const uint64_t *a, std::ostream &o) { o << mk(a[0]); }
  static void reg()
  {
    const unsigned fl = F_TAB | F_FP, tb = F_TAB | F_TBLOP | F_FP;
#define R(f, s, x) reg_op("binary8tab", #f, f, s, 8, 5, x)
    R(add, "pp", tb); R(sub, "pp", tb); R(mul, "pp", tb); R(div, "pp", tb); R(addeq, "pp", tb); R(muleq, "pp", tb); R(neg_, "p", fl); R(abs_, "p", fl); R(inv_, "p", tb); R(half_, "p", tb);
    R(exp2_, "p", tb); R(square_, "p", tb); R(cmp, "pp", fl); R(minmax, "pp", fl); R(fromf, "f", fl); R(fromd, "d", fl); R(uadd, "pp", fl | F_UPD); R(umul, "pp", fl | F_UPD); R(uset, "ppu", fl | F_UPD); R(fromi, "i", fl); R(tof, "p", tb); R(tod, "p", tb); R(toi, "p", tb);
    R(consts, "", fl); R(horner, "ppp", fl);
#undef R
    reg_pr("binary8tab", print, "p", 8, 5, fl);
  }
};
template <class P> struct EmuOps {
  typedef typename P::FFT FFT;
  OPERAND(P, mk, P(typename P::DeepInit(), (typename P::T)w))
  static uint64_t rv(const P &p) { return (uint64_t)p.v; }
#define OP(n) static void n(const uint64_t *a, uint64_t *r)
  OP(add) { r[0] = rv(mk(a[0]) + mk(a[1])); }
  OP(sub) { r[0] = rv(mk(a[0]) - mk(a[1])); }
  OP(mul) { r[0] = rv(mk(a[0]) * mk(a[1])); }
  OP(div) { r[0] = rv(mk(a[0]) / mk(a[1])); }
  OP(fma_) { r[0] = rv(fma(mk(a[0]), mk(a[1]), mk(a[2]))); }
  OP(addeq) { P x = mk(a[0]); x += mk(a[1]); r[0] = rv(x); }
  OP(muleq) { P x = mk(a[0]); x *= mk(a[1]); r[0] = rv(x); }
  OP(neg_) { r[0] = rv(-mk(a[0])); }
  OP(abs_) { r[0] = rv(mk(a[0]).abs()); }
  OP(inv_) { r[0] = rv(mk(a[0]).inv()); }
  OP(half) { r[0] = rv(mk(a[0]).half()); }
  OP(twice) { r[0] = rv(mk(a[0]).twice()); }
  OP(cmp) { P x = mk(a[0]), y = mk(a[1]); r[0] = (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5 | x.isnegative() << 6 | x.iszero() << 7; }
  OP(fromf) { r[0] = rv(P(f_of(a[0]))); }
  OP(fromd) { r[0] = rv(P(d_of(a[0]))); }
  OP(fromi) { r[0] = rv(P((int)a[0])); }
  OP(tof) { const P x = mk(a[0]); r[0] = of_f((float)x); }
  OP(tod) { const P x = mk(a[0]); r[0] = of_d((double)x); }
  OP(toi) { const P x = mk(a[0]); r[0] = (uint64_t)(int64_t)(int)x; }
  OP(unpack) { putu(mk(a[0]).unpack(), r); }
  OP(consts) { r[0] = rv(P::one()); r[1] = rv(P::max()) ^ rv(P::lowest()) << 16; r[2] = rv(P::min()) ^ rv(P::two()) << 32; r[3] = rv(P::nan()) ^ rv(P::inf()) << 7 ^ rv(P::ninf()) << 23; }
  OP(uadd) UPD(P, mk(a[0]), x += mk(a[1]))
  OP(umul) UPD(P, mk(a[0]), x *= mk(a[1]))
  OP(uset) { switch (a[2] % 4) { case 0: UPD(P, mk(a[0]), x = mk(a[1])) break; case 1: UPD(P, mk(a[0]), x = -x) break; case 2: UPD(P, mk(a[0]), x = x / mk(a[1])) break; default: UPD(P, mk(a[0]), x += x) } }
#undef OP
  static void reg(const char *t)
  {
#define R(f, s) reg_op(t, #f, f, s, P::vtotalbits, P::vexpbits, F_TPL | F_FP)
    reg_op(t, "uadd", uadd, "qq", P::vtotalbits, P::vexpbits, F_TPL | F_FP | F_UPD); reg_op(t, "umul", umul, "qq", P::vtotalbits, P::vexpbits, F_TPL | F_FP | F_UPD); reg_op(t, "uset", uset, "qqu", P::vtotalbits, P::vexpbits, F_TPL | F_FP | F_UPD);
    R(add, "qq"); R(sub, "qq"); R(mul, "qq"); R(div, "qq"); R(fma_, "qqq"); R(addeq, "qq"); R(muleq, "qq"); R(neg_, "q"); R(abs_, "q"); R(inv_, "q"); R(half, "q"); R(twice, "q"); R(cmp, "qq");
    R(fromf, "f"); R(fromd, "d"); R(fromi, "i"); R(tof, "q"); R(tod, "q"); R(toi, "q"); R(unpack, "q"); R(consts, "");
#undef R
  }
};
struct H16 {
  typedef float16n32 P;
  OPERAND(P, mk, P(false, (uint16_t)w))
  static uint64_t rv(const P &p) { return p.raw(); }
#define OP(n) static void n(const uint64_t *a, uint64_t *r)
  OP(add) { r[0] = rv(mk(a[0]) + mk(a[1])); }
  OP(sub) { r[0] = rv(mk(a[0]) - mk(a[1])); }
  OP(mul) { r[0] = rv(mk(a[0]) * mk(a[1])); }
  OP(div) { r[0] = rv(mk(a[0]) / mk(a[1])); }
  OP(muladd) { r[0] = rv(mulAdd(mk(a[0]), mk(a[1]), mk(a[2]))); }
  OP(addeq) { P x = mk(a[0]); x += mk(a[1]); r[0] = rv(x); }
  OP(muleq) { P x = mk(a[0]); x *= mk(a[1]); r[0] = rv(x); }
  OP(neg_) { r[0] = rv(-mk(a[0])); r[1] = rv(mk(a[0]).abs()); }
  OP(misc) { r[0] = rv(half(mk(a[0]))); r[1] = rv(square(mk(a[0]))); r[2] = rv(inv(mk(a[0]))); }
  OP(rootrem) { r[0] = rv(sqrt(mk(a[0]))); r[1] = rv(rem(mk(a[0]), mk(a[1]))); }
  OP(cmp) { P x = mk(a[0]), y = mk(a[1]); r[0] = (x == y) | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5; }
  OP(fromf) { r[0] = rv(P(f_of(a[0]))); }
  OP(tof) { r[0] = of_f((float)mk(a[0])); r[1] = of_d((double)mk(a[0])); }
  OP(uadd) UPD(P, mk(a[0]), x += mk(a[1]))
  OP(umul) UPD(P, mk(a[0]), x *= mk(a[1]))
  OP(uset) { switch (a[2] % 4) { case 0: UPD(P, mk(a[0]), x = mk(a[1])) break; case 1: UPD(P, mk(a[0]), x = -x) break; case 2: UPD(P, mk(a[0]), x = x / mk(a[1])) break; default: UPD(P, mk(a[0]), x += x) } }
#undef OP
  static void print(const uint64_t *a, std::ostream &o) { o << mk(a[0]); }
  static void reg()
  {
#define R(f, s) reg_op("float16n32", #f, f, s, 16, 5, F_TPL | F_FP)
    reg_op("float16n32", "uadd", uadd, "qq", 16, 5, F_TPL | F_FP | F_UPD); reg_op("float16n32", "umul", umul, "qq", 16, 5, F_TPL | F_FP | F_UPD); reg_op("float16n32", "uset", uset, "qqu", 16, 5, F_TPL | F_FP | F_UPD);
    R(add, "qq"); R(sub, "qq"); R(mul, "qq"); R(div, "qq"); R(muladd, "qqq"); R(addeq, "qq"); R(muleq, "qq"); R(neg_, "q"); R(misc, "q"); R(rootrem, "qq"); R(cmp, "qq"); R(fromf, "f"); R(tof, "q");
#undef R
    reg_pr("float16n32", print, "q", 16, 5, F_TPL | F_FP);
  }
};
void init_binary()
{
  B8::reg();
  EmuOps<binary8_emu>::reg("binary8_emu");
  EmuOps<binary16_emu>::reg("binary16_emu");
  EmuOps<binary16alt_emu>::reg("binary16alt_emu");
  EmuOps<binary32_emu>::reg("binary32_emu");
  EmuOps<binary64_emu>::reg("binary64_emu");
  H16::reg();
}
