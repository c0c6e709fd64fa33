#include "math.hpp"
#include <stdexcept>
ACC(log2_32, fixed32, eirin::log2)
ACC(log2_64, fixed64, eirin::log2)
ACC(log_32, fixed32, eirin::log)
ACC(log_64, fixed64, eirin::log)
ACC(log10_32, fixed32, eirin::log10)
ACC(log10_64, fixed64, eirin::log10)
typedef eirin::fixed_num<int32_t, int64_t, 8> q24_8;
ACC(log2_8, q24_8, eirin::log2)
// no logarithm of zero or of negative numbers
template <class FX, FX (*F)(FX)> static inline int rejects(VT<FX> x)
{
    try
    {
        (void)F(raw<FX>(x));
        return x > 0 ? 1 : 2;
    }
    catch(const std::domain_error&)
    {
        return x > 0 ? 3 : 1;
    }
    catch(...)
    {
        return 4;
    }
}
#define DOM(n, FX) \
    H dom_log2_##n(VT<FX> x) { return rejects<FX, log2_##n##_f>(x); } \
    H dom_log_##n(VT<FX> x) { return rejects<FX, log_##n##_f>(x); } \
    H dom_log10_##n(VT<FX> x) { return rejects<FX, log10_##n##_f>(x); }
DOM(32, fixed32)
DOM(64, fixed64)
// doubling adds one: exactly below one, and exactly above up to the bit that falls off the mantissa
template <class FX, FX (*F)(FX)> static inline int doubles(VT<FX> x)
{
    VT<FX> one = VT<FX>(1) << FX::precision;
    if(x <= 0)
        return 0;
    VT<FX> l = F(raw<FX>(x)).internal_value();
    if(x < one)
        return F(raw<FX>(2 * x)).internal_value() == l + one ? 1 : 2;
    if(x < 2 * one)
        return 0;
    return F(raw<FX>(x >> 1)).internal_value() + one == l ? 1 : 3;
}
H dbl_32(int32_t x) { return doubles<fixed32, log2_32_f>(x); }
H dbl_64(int64_t x) { return doubles<fixed64, log2_64_f>(x); }
H dbl_8(int32_t x) { return doubles<q24_8, log2_8_f>(x); }
// the natural and common logarithms are the binary one divided by log2(e) and log2(10) (c, in units of 2^-(precision+16)), to n
// units in the last place
template <class FX, FX (*F)(FX), FX (*G)(FX)> static inline int scaled(VT<FX> x, int64_t c, int n)
{
    i128 g = G(raw<FX>(x)).internal_value(), l = F(raw<FX>(x)).internal_value();
    i128 d = g * c - (l << (FX::precision + 16));
    return d <= n * i128(c) && d >= -n * i128(c) ? 1 : 2;
}
H ln_32(int32_t x, int64_t c, int n) { return scaled<fixed32, log2_32_f, log_32_f>(x, c, n); }
H ln_64(int64_t x, int64_t c, int n) { return scaled<fixed64, log2_64_f, log_64_f>(x, c, n); }
H lg_32(int32_t x, int64_t c, int n) { return scaled<fixed32, log2_32_f, log10_32_f>(x, c, n); }
H lg_64(int64_t x, int64_t c, int n) { return scaled<fixed64, log2_64_f, log10_64_f>(x, c, n); }
