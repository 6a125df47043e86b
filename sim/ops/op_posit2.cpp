#include "posit_ops.h"
void init_posit2()
{
  PositOps<Posit<int16_t, 10, 2, uint16_t, PositSpec::WithNan>>::reg("Posit10_2_u16_Nan");
  PositOps<Posit<int16_t, 12, 2, uint32_t, PositSpec::WithNanInf>>::reg("Posit12_2_u32_NanInf");
  PositOps<Posit<int16_t, 16, 1, uint32_t, PositSpec::WithNan>>::reg("Posit16_1_u32_Nan");
  PositOps<Posit<int16_t, 16, 2, uint64_t, PositSpec::WithInf>>::reg("Posit16_2_u64_Inf");
}
