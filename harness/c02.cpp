#include "fmt.hpp"
NI FX mul(FX a, FX b) { return a * b; }
NI FX muleq(FX a, FX b) { a *= b; return a; }
NI FX mulself(FX a) { a *= a; return a; }
// the exact product has 2*precision fraction bits; plain formats round toward minus infinity, rounding formats to
// nearest with ties away from zero
template <class FX, bool R> static inline WT<FX> expect(VT<FX> a, VT<FX> b)
{
    WT<FX> p = (WT<FX>)a * b;
    if constexpr(R)
    {
        WT<FX> m = p < 0 ? -p : p;
        m = (m + ((WT<FX>)1 << (FX::precision - 1))) >> FX::precision;
        return p < 0 ? -m : m;
    }
    else
        return p >> FX::precision;
}
template <class FX, bool R> int c_mul(VT<FX> a, VT<FX> b)
{
    WT<FX> e = expect<FX, R>(a, b);
    if(!fits<FX>(e)) return 0;
    if((WT<FX>)mul<FX>(raw<FX>(a), raw<FX>(b)).internal_value() != e) return 2;
    if((WT<FX>)muleq<FX>(raw<FX>(a), raw<FX>(b)).internal_value() != e) return 3;
    return 1;
}
template <class FX, bool R> int c_self(VT<FX> a)
{
    WT<FX> e = expect<FX, R>(a, a);
    if(!fits<FX>(e)) return 0;
    return (WT<FX>)mulself<FX>(raw<FX>(a)).internal_value() == e ? 1 : 2;
}
template <class FX, class N> __attribute__((noinline)) static FX muli(FX a, N n) { return a * n; }
template <class FX, class N> __attribute__((noinline)) static FX imul(FX a, N n) { return n * a; }
template <class FX, class N> __attribute__((noinline)) static FX mulieq(FX a, N n) { a *= n; return a; }
template <class FX, class N> int c_int(VT<FX> a, N n)
{
    __int128 e = (__int128)a * (__int128)n;
    if(!fits<FX>(e)) return 0;
    if((__int128)muli<FX, N>(raw<FX>(a), n).internal_value() != e) return 2;
    if((__int128)imul<FX, N>(raw<FX>(a), n).internal_value() != e) return 3;
    if((__int128)mulieq<FX, N>(raw<FX>(a), n).internal_value() != e) return 4;
    return 1;
}
#define ALL(name, T, I, F, R) \
    H mul_##name(T a, T b) { return c_mul<name, R>(a, b); } \
    H self_##name(T a) { return c_self<name, R>(a); } \
    H muli8_##name(T a, int8_t n) { return c_int<name, int8_t>(a, n); } \
    H muli32_##name(T a, int32_t n) { return c_int<name, int32_t>(a, n); } \
    H mulu32_##name(T a, uint32_t n) { return c_int<name, uint32_t>(a, n); } \
    H muli64_##name(T a, int64_t n) { return c_int<name, int64_t>(a, n); }
ALL_FORMATS(ALL)
