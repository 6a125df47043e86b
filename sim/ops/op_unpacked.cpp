// the unpacked form on its own
#include "unpk.h"
#include "unpacked.h"
template <class U, class UI> struct UOps {
  OPERAND(U, mk, U(d_of(w)))
#define OP(n) static void n(const uint64_t *a, uint64_t *r)
  OP(add) { putu(mk(a[0]) + mk(a[1]), r); }
  OP(sub) { putu(mk(a[0]) - mk(a[1]), r); }
  OP(mul) { putu(mk(a[0]) * mk(a[1]), r); }
  OP(div) { putu(mk(a[0]) / mk(a[1]), r); }
  OP(addeq) { U x = mk(a[0]); x += mk(a[1]); putu(x, r); }
  OP(subeq) { U x = mk(a[0]); x -= mk(a[1]); putu(x, r); }
  OP(neg_) { putu(-mk(a[0]), r); }
  OP(inv) { putu(mk(a[0]).inv(), r); }
  OP(cmp) { U x = mk(a[0]), y = mk(a[1]); r[0] = (x == y) | (x != y) << 1 | x.isInfinity() << 2 | x.isRegular() << 3 | x.isNaN() << 4 | x.isZero() << 5 | x.isPositive() << 6; }
  OP(fromf) { putu(U(f_of(a[0])), r); }
  OP(fromd) { putu(U(d_of(a[0])), r); }
  OP(fromi) { putu(U((int)a[0]), r); }
  OP(fromh) { putu(U::template make_floati<half_trait>((uint16_t)a[0]), r); }
  OP(fromsingle) { putu(U(typename U::single_tag(), (uint32_t)a[0]), r); }
  OP(tof) { r[0] = of_f((float)mk(a[0])); }
  OP(tod) { r[0] = of_d((double)mk(a[0])); }
  OP(toh) { r[0] = mk(a[0]).template pack_xfloati<half_trait>(); }
  OP(toi) { r[0] = (uint64_t)(int64_t)(int)mk(a[0]); }
  OP(micro) { r[0] = mk(a[0]).template pack_xfloati<microfloat_trait>(); U u = U::template make_floati<microfloat_trait>((uint8_t)r[0]); uint64_t q[3]; putu(u, q); r[1] = q[0]; r[2] = q[1]; r[3] = q[2]; }
  OP(bf16) { r[0] = mk(a[0]).template pack_xfloati<half_traitalt>(); uint64_t q[3]; putu(U::template make_floati<half_traitalt>((uint16_t)r[0]), q); r[1] = q[0]; r[2] = q[1]; r[3] = q[2]; }
  OP(fixed) { typedef fixedtrait<int32_t, 32, 16> FX; r[0] = (uint64_t)(int64_t)mk(a[0]).template pack_xfixed<FX>(); uint64_t q[3]; putu(U::template make_fixed<FX>((int32_t)a[1]), q); r[1] = q[0]; r[2] = q[1]; r[3] = q[2]; }
  OP(poly) { U x = mk(a[0]), s = mk(a[1]); for (int i = 0; i < 3; i++) s = s * x + mk(a[2]); putu(s, r); }
  OP(consts) { putu(U::one(), r); r[3] = (uint64_t)U::infinity().type | (uint64_t)U::ninfinity().negativeSign << 4 | (uint64_t)U::nan().type << 8 | (uint64_t)U::zero().type << 16; }
#undef OP
  static void print(const uint64_t *a, std::ostream &o) { o << mk(a[0]); }
  static void reg(const char *t)
  {
#define R(f, s) reg_op(t, #f, f, s, 64, 0, F_TPL)
    R(add, "dd"); R(sub, "dd"); R(mul, "dd"); R(div, "dd"); R(addeq, "dd"); R(subeq, "dd"); R(neg_, "d"); R(inv, "d"); R(cmp, "dd"); R(fromf, "f"); R(fromd, "d");
    R(fromi, "i"); R(fromh, "h"); R(fromsingle, "f"); R(tof, "d"); R(tod, "d"); R(toh, "d"); R(toi, "d"); R(micro, "d"); R(bf16, "d"); R(fixed, "di"); R(poly, "ddd"); R(consts, "");
#undef R
    reg_pr(t, print, "d", 64, 0, F_TPL);
  }
};
void init_unpacked()
{
  UOps<Unpacked<uint64_t, int32_t>, uint64_t>::reg("Unpacked_u64");
  UOps<Unpacked<uint32_t, int32_t>, uint32_t>::reg("Unpacked_u32");
  UOps<Unpacked<uint16_t, int16_t>, uint16_t>::reg("Unpacked_u16_i16");
  UOps<Unpacked<uint8_t, int32_t>, uint8_t>::reg("Unpacked_u8");
}
