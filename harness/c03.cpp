#include "fmt.hpp"
NI FX div_(FX a, FX b) { return a / b; }
NI FX diveq(FX a, FX b) { a /= b; return a; }
NI FX divide_(FX a, FX b) { return a.divide(b); }
NI FX divideby(FX a, FX b) { a.divide_by(b); return a; }
// plain formats truncate toward zero; rounding formats round to nearest, ties away from zero
template <class FX, bool R> static inline WT<FX> expect(VT<FX> a, VT<FX> b)
{
    WT<FX> n = (WT<FX>)a * ((WT<FX>)1 << FX::precision);
    if constexpr(R)
    {
        WT<FX> t = n * 2 / b; // twice the quotient, truncated: enough to decide the rounding
        return t < 0 ? -((1 - t) / 2) : (t + 1) / 2;
    }
    else
        return n / b;
}
template <class FX, bool R> int c_div(VT<FX> a, VT<FX> b)
{
    if(b == 0) return 0;
    WT<FX> e = expect<FX, R>(a, b);
    if(!fits<FX>(e)) return 0;
    if((WT<FX>)div_<FX>(raw<FX>(a), raw<FX>(b)).internal_value() != e) return 2;
    if((WT<FX>)diveq<FX>(raw<FX>(a), raw<FX>(b)).internal_value() != e) return 3;
    try
    {
        if((WT<FX>)divide_<FX>(raw<FX>(a), raw<FX>(b)).internal_value() != e) return 4;
        if((WT<FX>)divideby<FX>(raw<FX>(a), raw<FX>(b)).internal_value() != e) return 5;
    }
    catch(...)
    {
        return 6;
    }
    return 1;
}
// the checked forms report a zero divisor and leave the operand alone
template <class FX> __attribute__((noinline)) static void divideby_ref(FX& a, FX b) { a.divide_by(b); }
template <class FX, class N> __attribute__((noinline)) static void divideby_iref(FX& a, N b) { a.divide_by(b); }
template <class FX, class N> __attribute__((noinline)) static FX idivide(FX a, N n) { return a.divide(n); }
NI FX divself(FX a) { a /= a; return a; }
NI FX dividebyself(FX a) { a.divide_by(a); return a; }
template <class FX> int c_self(VT<FX> a)
{
    if(a == 0) return 0;
    if(!fits<FX>((WT<FX>)1 << FX::precision)) return 0;
    WT<FX> e = (WT<FX>)1 << FX::precision;
    if((WT<FX>)divself<FX>(raw<FX>(a)).internal_value() != e) return 2;
    return (WT<FX>)dividebyself<FX>(raw<FX>(a)).internal_value() == e ? 1 : 3;
}
template <class FX> int c_zero(VT<FX> a)
{
    bool t1 = false, t2 = false, t3 = false, t4 = false;
    FX x = raw<FX>(a);
    try { divide_<FX>(x, raw<FX>(0)); } catch(const eirin::divide_by_zero&) { t1 = true; }
    try { divideby_ref<FX>(x, raw<FX>(0)); } catch(const std::domain_error&) { t2 = true; }
    try { idivide<FX, int>(x, 0); } catch(const eirin::divide_by_zero&) { t3 = true; }
    try { divideby_iref<FX, int>(x, 0); } catch(const eirin::divide_by_zero&) { t4 = true; }
    if(!t1) return 2;
    if(!t2) return 3;
    if(!t3) return 4;
    if(!t4) return 5;
    return x.internal_value() == a ? 1 : 6;
}
template <class FX, class N> __attribute__((noinline)) static FX divi(FX a, N n) { return a / n; }
template <class FX, class N> __attribute__((noinline)) static FX idiv(FX a, N n) { return n / a; }
template <class FX, class N> __attribute__((noinline)) static FX divieq(FX a, N n) { a /= n; return a; }
template <class FX, class N> __attribute__((noinline)) static FX dividebyi(FX a, N n) { a.divide_by(n); return a; }
template <class FX, class N> int c_int(VT<FX> a, N n)
{
    typedef std::conditional_t<(sizeof(VT<FX>) == 8), __int128, int64_t> W;
    if(n == 0) return 0;
    W e = (W)a / (W)n;
    if(!fits<FX>(e)) return 0;
    if((W)divi<FX, N>(raw<FX>(a), n).internal_value() != e) return 2;
    if((W)divieq<FX, N>(raw<FX>(a), n).internal_value() != e) return 3;
    try
    {
        if((W)idivide<FX, N>(raw<FX>(a), n).internal_value() != e) return 4;
        if((W)dividebyi<FX, N>(raw<FX>(a), n).internal_value() != e) return 5;
    }
    catch(...)
    {
        return 6;
    }
    return 1;
}
// integer / fixed is the division of the converted integer
template <class FX, class N, bool R> int c_idiv(VT<FX> a, N n)
{
    __int128 m = (__int128)n * ((__int128)1 << FX::precision);
    if(a == 0 || !fits<FX>(m)) return 0;
    WT<FX> e = expect<FX, R>((VT<FX>)m, a);
    if(!fits<FX>(e)) return 0;
    return (WT<FX>)idiv<FX, N>(raw<FX>(a), n).internal_value() == e ? 1 : 2;
}
#define ALL(name, T, I, F, R) \
    H div_##name(T a, T b) { return c_div<name, R>(a, b); } \
    H self_##name(T a) { return c_self<name>(a); } \
    H zero_##name(T a) { return c_zero<name>(a); } \
    H idiv_##name(T a, int32_t n) { return c_idiv<name, int32_t, R>(a, n); } \
    H divi8_##name(T a, int8_t n) { return c_int<name, int8_t>(a, n); } \
    H divi32_##name(T a, int32_t n) { return c_int<name, int32_t>(a, n); } \
    H divu32_##name(T a, uint32_t n) { return c_int<name, uint32_t>(a, n); } \
    H divi64_##name(T a, int64_t n) { return c_int<name, int64_t>(a, n); }
ALL_FORMATS(ALL)
