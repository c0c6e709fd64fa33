#include "math.hpp"
#include <stdexcept>
ACC(tan32, fixed32, eirin::tan)
ACC(tan64, fixed64, eirin::tan)
template <class FX> __attribute__((noinline)) static FX sine(FX v) { return eirin::sin(v); }
template <class FX> __attribute__((noinline)) static FX cosine(FX v) { return eirin::cos(v); }
// tan = sin / cos, domain_error exactly where the cosine is indistinguishable from zero
template <class FX, FX (*F)(FX)> static inline int quotient(VT<FX> x)
{
    FX s = sine<FX>(raw<FX>(x)), c = cosine<FX>(raw<FX>(x));
    bool pole = c.internal_value() >= -1 && c.internal_value() <= 1;
    FX t;
    try
    {
        t = F(raw<FX>(x));
    }
    catch(const std::domain_error&)
    {
        return pole ? 1 : 2;
    }
    catch(...)
    {
        return 3;
    }
    if(pole)
        return 4;
    return t == s / c ? 1 : 5;
}
H quot32(int32_t x) { return quotient<fixed32, tan32_f>(x); }
H quot64(int64_t x) { return quotient<fixed64, tan64_f>(x); }
