#include "fmt.hpp"
#include <bit>
template <class FX, class D> __attribute__((noinline)) static FX from(D d) { return FX(d); }
template <class FX, class D> __attribute__((noinline)) static D to(FX a) { return static_cast<D>(a); }
// integer reading of an IEEE value: sign, mantissa, exponent (value = +-m * 2^e)
struct Dec { bool neg, fin; uint64_t m; int e; };
template <class D> static inline Dec dec(std::conditional_t<sizeof(D) == 8, uint64_t, uint32_t> b)
{
    constexpr int MB = sizeof(D) == 8 ? 52 : 23, EB = sizeof(D) == 8 ? 11 : 8, BIAS = sizeof(D) == 8 ? 1023 : 127;
    Dec r;
    r.neg = b >> (MB + EB);
    int ex = (int)((b >> MB) & ((1u << EB) - 1));
    uint64_t fr = b & (((uint64_t)1 << MB) - 1);
    r.fin = ex != (1 << EB) - 1;
    r.m = ex ? fr | ((uint64_t)1 << MB) : fr;
    r.e = (ex ? ex : 1) - BIAS - MB;
    return r;
}
// value * 2^F for |value*2^F| < 2^63, as truncation toward zero plus the next bit below
template <int F> __attribute__((noinline)) static bool scaled(Dec d, __int128& t, bool& half)
{
    int s = d.e + F;
    t = 0;
    half = false;
    if(d.m == 0) return true;
    if(s >= 64) return false;
    if(s >= 0)
        t = (__int128)d.m << s;
    else if(s > -64)
    {
        t = d.m >> -s;
        half = (d.m >> (-s - 1)) & 1;
    }
    if(t >= ((__int128)1 << 64)) return false;
    return true;
}
template <class FX, class D, bool R> int c_from(std::conditional_t<sizeof(D) == 8, uint64_t, uint32_t> b)
{
    Dec d = dec<D>(b);
    if(!d.fin) return 0;
    __int128 t;
    bool half;
    if(!scaled<FX::precision>(d, t, half)) return 0;
    if(R)
    {
        // adding one half is exact up to 2^(digits-1) units, except for the value just below one half unit
        if(t >= ((__int128)1 << (sizeof(D) == 8 ? 52 : 23)) - 1) return 0;
        if(d.m == ((uint64_t)1 << (sizeof(D) == 8 ? 53 : 24)) - 1 && t == 0) return 0;
        if(half) t += 1; // nearest, ties away from zero
    }
    if(d.neg) t = -t;
    if(!fits<FX>(t)) return 0;
    return (__int128)from<FX, D>(std::bit_cast<D>(b)).internal_value() == t ? 1 : 2;
}
template <class FX, class D> int c_to(VT<FX> a)
{
    constexpr int P = sizeof(D) == 8 ? 53 : 24;
    D r = to<FX, D>(raw<FX>(a));
    Dec d = dec<D>(std::bit_cast<std::conditional_t<sizeof(D) == 8, uint64_t, uint32_t>>(r));
    if(!d.fin) return 2;
    __int128 A = a, m = A < 0 ? -A : A;
    if(a == 0) return d.m == 0 ? 1 : 3;
    if(d.neg != (a < 0)) return 4;
    int s = d.e + (int)FX::precision; // value * 2^F = m * 2^s must be the raw value, up to half a unit in the last place
    if(s < -P || s > 40) return 5;
    if(s <= 0)
    {
        // no rounding needed
        return (m << -s) == (__int128)d.m ? 1 : 6;
    }
    __int128 v = (__int128)d.m << s, df = v - m;
    if(df < 0) df = -df;
    return df <= ((__int128)1 << (s - 1)) ? 1 : 7;
}
#define FROM(name, D, t, R) H from##t##_##name(std::conditional_t<sizeof(D) == 8, uint64_t, uint32_t> b) { return c_from<name, D, R>(b); }
#define TO(name, D, t, T) H to##t##_##name(T a) { return c_to<name, D>(a); }
#define ALL(name, T, I, F, R) FROM(name, double, d, R) TO(name, double, d, T)
SIGNED_FORMATS(ALL)
#define FL(name, T, I, F, R) FROM(name, float, f, R) TO(name, float, f, T)
SIGNED_PLAIN(FL)
// float and back is the identity wherever the float type has enough digits
template <class FX, class D> int c_rt(VT<FX> a)
{
    FX x = from<FX, D>(to<FX, D>(raw<FX>(a)));
    return x.internal_value() == a ? 1 : 2;
}
#define RT(name, T, I, F, R) H rt_##name(T a) { constexpr int64_t L = (int64_t)1 << (R ? 52 : 53); if(sizeof(T) == 8 && (a >= L || a <= -L)) return 0; return c_rt<name, double>(a); }
SIGNED_FORMATS(RT)
