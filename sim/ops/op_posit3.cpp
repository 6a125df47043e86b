#include "posit_ops.h"
void init_posit3()
{
  PositOps<Posit<int32_t, 32, 2, uint64_t, PositSpec::WithNanInf>>::reg("Posit32_2_u64_NanInf");
  PositOps<Posit<int32_t, 32, 2, uint32_t, PositSpec::WithNan>>::reg("Posit32_2_u32_Nan");
  PositOps<Posit<int32_t, 16, 3, uint32_t, PositSpec::WithInf>>::reg("Posit16_3_i32_u32_Inf");
  PositOps<Posit<int32_t, 20, 1, uint64_t, PositSpec::WithNan>>::reg("Posit20_1_u64_Nan");
}
