// the deferred-product variant; configurations used in no other file
#define POSITMUL
#include "posit_ops.h"
void init_positmul()
{
  PositOps<Posit<int8_t, 8, 1, uint32_t, PositSpec::WithNan>>::reg("PositMul8_1_u32_Nan");
  PositOps<Posit<int16_t, 16, 2, uint32_t, PositSpec::WithNanInf>>::reg("PositMul16_2_u32_NanInf");
}
