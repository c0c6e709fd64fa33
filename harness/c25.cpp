#include "math.hpp"
#include <stdexcept>
ACC(exp32, fixed32, eirin::exp)
ACC(exp64, fixed64, eirin::exp)
template <class FX, FX (*F)(FX)> static inline int tiny(VT<FX> x) { return F(raw<FX>(x)).internal_value() == 0 ? 1 : 2; }
template <class FX, FX (*F)(FX)> static inline int zero(VT<FX> x) { return F(raw<FX>(x)) == FX(1) ? 1 : 2; }
template <class FX> __attribute__((noinline)) static FX powi(FX b, int e) { return eirin::pow(b, e); }
template <class FX> __attribute__((noinline)) static FX powf(FX b, FX e) { return eirin::pow(b, e); }
// powers of zero
template <class FX> static inline int base0(VT<FX> e) { return powf<FX>(FX(0), raw<FX>(e)) == FX(e == 0 ? 1 : 0) ? 1 : 2; }
template <class FX> static inline int base0i(int e) { return powi<FX>(FX(0), e) == FX(e == 0 ? 1 : 0) ? 1 : 2; }
// exponents 0, 1, 2 and -1
template <class FX> static inline int law(VT<FX> b, int e)
{
    constexpr int f = FX::precision;
    const i128 mx = std::numeric_limits<VT<FX>>::max();
    i128 want;
    switch(e)
    {
    case 0: want = i128(1) << f; break;
    case 1: want = b; break;
    case 2: want = i128(b) * b >> f; break;
    default:
        if(b == 0)
            return 0;
        want = (i128(1) << 2 * f) / b;
    }
    if(want > mx || want < -mx - 1)
        return 0;
    return powi<FX>(raw<FX>(b), e).internal_value() == want ? 1 : 2;
}
// whole numbers: exact
template <class FX> static inline int whole(int n, int e)
{
    i128 want = 1;
    for(int i = 0; i < e; i++)
        want *= n;
    return powi<FX>(FX(n), e).internal_value() == want << FX::precision ? 1 : 2;
}
// reciprocals of powers of whole numbers, to two units in the last place: |got * n^e - 2^f| <= 2 * n^e, where n^e may be huge
template <class FX> static inline int inverse(int n, int e)
{
    i128 got = powi<FX>(FX(n), -e).internal_value(), p = 1, one = i128(1) << FX::precision;
    if(got < 0)
        return 2;
    for(int i = 0; i < e; i++)
    {
        p *= n;
        if(p > one)
            return got <= 2 ? 1 : 3;
    }
    i128 d = got * p - one;
    return d <= 2 * p && d >= -2 * p ? 1 : 4;
}
// a whole exponent of fixed point type is a whole exponent
template <class FX> static inline int same(VT<FX> b, int e)
{
    // the result of a negative exponent has to be representable
    if(b == 0 || (e < 0 && b < (VT<FX>(1) << FX::precision) && b > -(VT<FX>(1) << FX::precision)))
        return 0;
    return powf<FX>(raw<FX>(b), FX(e)) == powi<FX>(raw<FX>(b), e) ? 1 : 2;
}
// negative numbers have no fractional powers
template <class FX> static inline int reject(VT<FX> b, VT<FX> e)
{
    try
    {
        (void)powf<FX>(raw<FX>(b), raw<FX>(e));
        return 2;
    }
    catch(const std::domain_error&)
    {
        return 1;
    }
    catch(...)
    {
        return 3;
    }
}
#define D(n, FX) \
    H tiny##n(VT<FX> x) { return tiny<FX, exp##n##_f>(x); } \
    H zero##n(VT<FX> x) { return zero<FX, exp##n##_f>(x); } \
    H base0##n(VT<FX> e) { return base0<FX>(e); } \
    H base0i##n(int e) { return base0i<FX>(e); } \
    H law##n(VT<FX> b, int e) { return law<FX>(b, e); } \
    H whole##n(int b, int e) { return whole<FX>(b, e); } \
    H inverse##n(int b, int e) { return inverse<FX>(b, e); } \
    H same##n(VT<FX> b, int e) { return same<FX>(b, e); } \
    H reject##n(VT<FX> b, VT<FX> e) { return reject<FX>(b, e); }
D(32, fixed32)
D(64, fixed64)
// fractional powers near a line, the way math.hpp's onto does it
template <class FX> static inline int power(LINE(VT<FX>), VT<FX> e)
{
    i128 got;
    try
    {
        got = powf<FX>(raw<FX>(x), raw<FX>(e)).internal_value();
    }
    catch(...)
    {
        return 3;
    }
    i128 d = (got << S) - i128(c0) - i128(c1) * i128(x - a);
    return d <= i128(tol) && d >= -i128(tol) ? 1 : 2;
}
H pow32(LINE(int32_t), int32_t e) { return power<fixed32>(x, a, c0, c1, tol, S, e); }
H pow64(LINE(int64_t), int64_t e) { return power<fixed64>(x, a, c0, c1, tol, S, e); }
