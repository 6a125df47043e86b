#include "posit_ops.h"
void init_posit1()
{
  PositOps<Posit<int8_t, 8, 0, uint8_t, PositSpec::WithNan>>::reg("Posit8_0_u8_Nan");
  PositOps<Posit<int8_t, 8, 1, uint16_t, PositSpec::WithInf>>::reg("Posit8_1_u16_Inf");
  PositOps<Posit<int8_t, 8, 2, uint32_t, PositSpec::WithNanInf>>::reg("Posit8_2_u32_NanInf");
  PositOps<Posit<int32_t, 4, 0, uint32_t, PositSpec::WithInf>>::reg("Posit4_0_u32_Inf");
}
