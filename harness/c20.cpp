#include "math.hpp"
ACC(sqrt32, fixed32, eirin::sqrt)
ACC(sqrt64, fixed64, eirin::sqrt)
typedef fixed_num<int32_t, int64_t, 8> q24_8;
ACC(sqrt_8, q24_8, eirin::sqrt)
// the largest representable number whose square does not exceed the argument
template <class FX, FX (*F)(FX)> static inline int root(VT<FX> x)
{
    i128 q = F(raw<FX>(x)).internal_value(), v = i128(x) << FX::precision;
    return q >= 0 && q * q <= v && v < (q + 1) * (q + 1) ? 1 : 2;
}
H root32(int32_t x) { return root<fixed32, sqrt32_f>(x); }
template <class FX, FX (*F)(FX)> static inline int negative(VT<FX> x) { return F(raw<FX>(x)) == FX(-1) ? 1 : 2; }
H neg32(int32_t x) { return negative<fixed32, sqrt32_f>(x); }
H neg64(int64_t x) { return negative<fixed64, sqrt64_f>(x); }
H neg_8(int32_t x) { return negative<q24_8, sqrt_8_f>(x); }
H zero32(int32_t x) { return sqrt32_f(raw<fixed32>(x)).internal_value() == 0 ? 1 : 2; }
H zero64(int64_t x) { return sqrt64_f(raw<fixed64>(x)).internal_value() == 0 ? 1 : 2; }
H zero_8(int32_t x) { return sqrt_8_f(raw<q24_8>(x)).internal_value() == 0 ? 1 : 2; }
__attribute__((noinline)) static fixed32 hyp2(fixed32 x, fixed32 y) { return eirin::hypot(x, y); }
__attribute__((noinline)) static fixed32 hyp3(fixed32 x, fixed32 y, fixed32 z) { return eirin::hypot(x, y, z); }
// hypot of numbers whose squares add up within the format: the root of that sum, each square cut to the format
H hypot2(int32_t x, int32_t y)
{
    int64_t s = (int64_t(x) * x >> 16) + (int64_t(y) * y >> 16);
    if(s > INT32_MAX)
        return 0;
    int64_t q = hyp2(raw<fixed32>(x), raw<fixed32>(y)).internal_value(), v = s << 16;
    return q >= 0 && q * q <= v && v < (q + 1) * (q + 1) ? 1 : 2;
}
H hypot3(int32_t x, int32_t y, int32_t z)
{
    int64_t s = (int64_t(x) * x >> 16) + (int64_t(y) * y >> 16) + (int64_t(z) * z >> 16);
    if(s > INT32_MAX)
        return 0;
    int64_t q = hyp3(raw<fixed32>(x), raw<fixed32>(y), raw<fixed32>(z)).internal_value(), v = s << 16;
    return q >= 0 && q * q <= v && v < (q + 1) * (q + 1) ? 1 : 2;
}
