#include "fmt.hpp"
#include <eirin/math.hpp>
NI bool sb(FX a) { return signbit(a); }
NI VT<FX> ip(FX a) { return a.integral_part(); }
NI VT<FX> rip(FX a) { return a.raw_integral_part(); }
NI VT<FX> fp(FX a) { return a.fractional_part(); }
NI FX ab(FX a) { return eirin::abs(a); }
NI FX mn(FX a, FX b) { return eirin::min(a, b); }
NI FX mx(FX a, FX b) { return eirin::max(a, b); }
template <class FX> int c_parts(VT<FX> a)
{
    FX x = raw<FX>(a);
    if(x.internal_value() != a) return 2;
    if(sb<FX>(x) != (a < 0)) return 3;
    __int128 A = a, m = A < 0 ? -A : A, one = (__int128)1 << FX::precision;
    __int128 i = ip<FX>(x), f = fp<FX>(x);
    if(i != (m >> FX::precision)) return 4;           // whole part of the magnitude
    __int128 g = f < 0 ? -f : f;
    if(g >= one) return 5;
    if(f != 0 && (f < 0) != (A < 0)) return 6;
    if(i * one + g != m) return 7;
    __int128 r = rip<FX>(x); // storage bits above the fraction, sign bit cleared
    __int128 bits = A & (((__int128)1 << (sizeof(VT<FX>) * 8 - 1)) - 1);
    return r == (bits >> FX::precision) ? 1 : 8;
}
template <class FX> int c_abs(VT<FX> a)
{
    if(std::is_signed_v<VT<FX>> && a == std::numeric_limits<VT<FX>>::min()) return 0;
    VT<FX> r = ab<FX>(raw<FX>(a)).internal_value();
    return r >= 0 && (r == a || (__int128)r == -(__int128)a) ? 1 : 2;
}
template <class FX> int c_mm(VT<FX> a, VT<FX> b)
{
    if(mn<FX>(raw<FX>(a), raw<FX>(b)).internal_value() != (a < b ? a : b)) return 2;
    if(mx<FX>(raw<FX>(a), raw<FX>(b)).internal_value() != (a < b ? b : a)) return 3;
    return 1;
}
#define ALL(name, T, I, F, R) \
    H parts_##name(T a) { return c_parts<name>(a); } \
    H abs_##name(T a) { return c_abs<name>(a); } \
    H mm_##name(T a, T b) { return c_mm<name>(a, b); }
SIGNED_FORMATS(ALL)
