#pragma once
#include "ops.h"
template <class U> static inline void putu(const U &u, uint64_t *r)
{
  r[0] = (uint64_t)u.type | ((uint64_t)(u.negativeSign ? 1 : 0) << 8);
  r[1] = u.isRegular() ? (uint64_t)(int64_t)u.exponent : 0;
  r[2] = u.isRegular() ? (uint64_t)u.fraction : 0;
}
