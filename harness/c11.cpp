#include "fmt.hpp"
#include <eirin/math.hpp>
NI FX fm(FX a, FX b) { return eirin::fmod(a, b); }
// non-negative dividend, positive divisor, representable quotient: the exact remainder
template <class FX> int c_fmod(VT<FX> a, VT<FX> b)
{
    if(a < 0 || b <= 0) return 0;
    WT<FX> q = ((WT<FX>)a << FX::precision) / b;
    if(!fits<FX>(q)) return 0;
    ST<FX> A = a, B = b, n = (ST<FX>)(q >> FX::precision);
    return (ST<FX>)fm<FX>(raw<FX>(a), raw<FX>(b)).internal_value() == A - n * B ? 1 : 2;
}
// any sign: the result differs from the dividend by a whole multiple of the divisor and is smaller than it
template <class FX> int c_any(VT<FX> a, VT<FX> b)
{
    if(b == 0) return 0;
    WT<FX> q = ((WT<FX>)a * ((WT<FX>)1 << FX::precision)) / b;
    if(!fits<FX>(q)) return 0;
    ST<FX> n = (ST<FX>)(q >> FX::precision), A = a, B = b, p = n * B; // floor of the quotient as division rounds it
    if(!fits<FX>(p)) return 0;
    ST<FX> e = A - p;
    if(!fits<FX>(e)) return 0;
    return (ST<FX>)fm<FX>(raw<FX>(a), raw<FX>(b)).internal_value() == e ? 1 : 2;
}
#define ALL(name, T, I, F, R) \
    H fmod_##name(T a, T b) { return c_fmod<name>(a, b); } \
    H any_##name(T a, T b) { return c_any<name>(a, b); }
SIGNED_PLAIN(ALL)
