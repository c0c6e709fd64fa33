#include "math.hpp"
#include <eirin/ext/cordic.hpp>
ACC(cordic32, fixed32, eirin::cordic_sine)
ACC(cordic64, fixed64, eirin::cordic_sine)
template <class FX, FX (*F)(FX)> static inline int odd(VT<FX> x)
{
    return F(raw<FX>(-x)).internal_value() == -F(raw<FX>(x)).internal_value() ? 1 : 2;
}
template <class FX, FX (*F)(FX)> static inline int periodic(VT<FX> x)
{
    FX p = eirin::numbers::pi_v<FX>() * 2;
    return F(raw<FX>(x)).internal_value() == F(raw<FX>(x) % p).internal_value() ? 1 : 2;
}
#define LAWS(n, FX) \
    H odd##n(VT<FX> x) { return odd<FX, cordic##n##_f>(x); } \
    H per##n(VT<FX> x) { return periodic<FX, cordic##n##_f>(x); }
LAWS(32, fixed32)
LAWS(64, fixed64)
