#include "math.hpp"
#include <stdexcept>
ACC(atan32, fixed32, eirin::atan)
ACC(atan64, fixed64, eirin::atan)
ACC(asin32, fixed32, eirin::asin)
ACC(asin64, fixed64, eirin::asin)
ACC(acos32, fixed32, eirin::acos)
ACC(acos64, fixed64, eirin::acos)
// asin and acos reject arguments outside [-1,1] with domain_error, and only those; values at -1, 0, 1
template <class FX, FX (*A)(FX), FX (*C)(FX)> static inline int domain(VT<FX> x)
{
    VT<FX> one = VT<FX>(1) << FX::precision;
    bool in = x >= -one && x <= one;
    if(in)
        return 0;
    try
    {
        (void)A(raw<FX>(x));
        return 2;
    }
    catch(const std::domain_error&)
    {
    }
    catch(...)
    {
        return 3;
    }
    try
    {
        (void)C(raw<FX>(x));
        return 4;
    }
    catch(const std::domain_error&)
    {
        return 1;
    }
    catch(...)
    {
        return 5;
    }
}
H dom32(int32_t x) { return domain<fixed32, asin32_f, acos32_f>(x); }
H dom64(int64_t x) { return domain<fixed64, asin64_f, acos64_f>(x); }
// oddness of atan, exact; the minimum behaves as the maximum
template <class FX, FX (*F)(FX)> static inline int odd(VT<FX> x)
{
    if(x < 0)
        return 0;
    return F(raw<FX>(-x)).internal_value() == -F(raw<FX>(x)).internal_value() ? 1 : 2;
}
H odd32(int32_t x) { return odd<fixed32, atan32_f>(x); }
H odd64(int64_t x) { return odd<fixed64, atan64_f>(x); }
template <class FX, FX (*A)(FX), FX (*C)(FX)> static inline int oddasin(VT<FX> x)
{
    return A(raw<FX>(-x)).internal_value() == -A(raw<FX>(x)).internal_value() ? 1 : 2;
}
// acos(x) = pi/2 - asin(x) strictly inside the domain
template <class FX, FX (*A)(FX), FX (*C)(FX)> static inline int complement(VT<FX> x)
{
    FX half = eirin::numbers::pi_v<FX>() / FX(2);
    return C(raw<FX>(x)) == half - A(raw<FX>(x)) ? 1 : 2;
}
// the ends and the middle
template <class FX, FX (*A)(FX), FX (*C)(FX)> static inline int ends(VT<FX> x)
{
    FX pi = eirin::numbers::pi_v<FX>();
    VT<FX> a = A(raw<FX>(x)).internal_value(), c = C(raw<FX>(x)).internal_value();
    if(x == 0)
        return a == 0 && c == pi.internal_value() / 2 ? 1 : 2;
    if(x > 0)
        return a == pi.internal_value() / 2 && c == 0 ? 1 : 3;
    return a == -(pi.internal_value() / 2) && c == pi.internal_value() ? 1 : 4;
}
#define LAWS(n, FX) \
    H oddas##n(VT<FX> x) { return oddasin<FX, asin##n##_f, acos##n##_f>(x); } \
    H compl##n(VT<FX> x) { return complement<FX, asin##n##_f, acos##n##_f>(x); } \
    H ends##n(VT<FX> x) { return ends<FX, asin##n##_f, acos##n##_f>(x); }
LAWS(32, fixed32)
LAWS(64, fixed64)
