#include "math.hpp"
ACC(sin32, fixed32, eirin::sin)
ACC(cos32, fixed32, eirin::cos)
ACC(sin64, fixed64, eirin::sin)
ACC(cos64, fixed64, eirin::cos)
// beyond one period: the argument is reduced modulo the format's own 2*pi, except that arguments below 0.00015 map to themselves
template <class FX, FX (*F)(FX)> static inline int periodic(VT<FX> x)
{
    VT<FX> p = FX::double_pi().internal_value();
    VT<FX> r = x % p;
    if(raw<FX>(x) != raw<FX>(r) && raw<FX>(r) < FX(0.00015) && raw<FX>(r) > -FX(0.00015))
        return 0;
    return F(raw<FX>(x)).internal_value() == F(raw<FX>(r)).internal_value() ? 1 : 2;
}
H per32(int32_t x) { return periodic<fixed32, sin32_f>(x); }
H per64(int64_t x) { return periodic<fixed64, sin64_f>(x); }
H small32(int32_t x) { return sin32_f(raw<fixed32>(x)).internal_value() == x ? 1 : 2; }
H small64(int64_t x) { return sin64_f(raw<fixed64>(x)).internal_value() == x ? 1 : 2; }
