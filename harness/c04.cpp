#include "fmt.hpp"
NI FX mod(FX a, FX b) { return a % b; }
NI FX modeq(FX a, FX b) { a %= b; return a; }
NI FX modself(FX a) { a %= a; return a; }
template <class FX> int c_self(VT<FX> a)
{
    if(a == 0) return 0;
    return modself<FX>(raw<FX>(a)).internal_value() == 0 ? 1 : 2;
}
template <class FX> int c_mod(VT<FX> a, VT<FX> b)
{
    if(b == 0) return 0;
    ST<FX> e = (ST<FX>)a % (ST<FX>)b;
    if((ST<FX>)mod<FX>(raw<FX>(a), raw<FX>(b)).internal_value() != e) return 2;
    if((ST<FX>)modeq<FX>(raw<FX>(a), raw<FX>(b)).internal_value() != e) return 3;
    return 1;
}
// the laws themselves, without naming the remainder: |r| < |b|, sign of the dividend, congruent
template <class FX> int c_law(VT<FX> a, VT<FX> b)
{
    if(b == 0) return 0;
    ST<FX> r = mod<FX>(raw<FX>(a), raw<FX>(b)).internal_value(), A = a, B = b;
    if((r < 0 ? -r : r) >= (B < 0 ? -B : B)) return 2;
    if(r != 0 && (r < 0) != (A < 0)) return 3;
    if((A - r) % B != 0) return 4;
    return 1;
}
template <class FX, class N> __attribute__((noinline)) static FX modi(FX a, N n) { return a % n; }
template <class FX, class N> __attribute__((noinline)) static FX imod(FX a, N n) { return n % a; }
template <class FX, class N> int c_int(VT<FX> a, N n)
{
    __int128 m = (__int128)n * ((__int128)1 << FX::precision);
    if(!fits<FX>(m)) return 0;
    ST<FX> A = a, M = (VT<FX>)m;
    if(n != 0 && (ST<FX>)modi<FX, N>(raw<FX>(a), n).internal_value() != A % M) return 2;
    if(a != 0 && (ST<FX>)imod<FX, N>(raw<FX>(a), n).internal_value() != M % A) return 3;
    return 1;
}
#define ALL(name, T, I, F, R) \
    H mod_##name(T a, T b) { return c_mod<name>(a, b); } \
    H self_##name(T a) { return c_self<name>(a); } \
    H law_##name(T a, T b) { return c_law<name>(a, b); } \
    H modi32_##name(T a, int32_t n) { return c_int<name, int32_t>(a, n); } \
    H modu32_##name(T a, uint32_t n) { return c_int<name, uint32_t>(a, n); }
ALL_FORMATS(ALL)
