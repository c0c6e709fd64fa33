#include "fmt.hpp"
NI FX add(FX a, FX b) { return a + b; }
NI FX addeq(FX a, FX b) { a += b; return a; }
NI FX addself(FX a) { a += a; return a; }
NI FX subself(FX a) { a -= a; return a; }
NI FX sub(FX a, FX b) { return a - b; }
NI FX subeq(FX a, FX b) { a -= b; return a; }
NI FX neg(FX a) { return -a; }
template <class FX> int c_add(VT<FX> a, VT<FX> b)
{
    ST<FX> e = (ST<FX>)a + (ST<FX>)b;
    if(!fits<FX>(e)) return 0;
    if((ST<FX>)add<FX>(raw<FX>(a), raw<FX>(b)).internal_value() != e) return 2;
    if((ST<FX>)addeq<FX>(raw<FX>(a), raw<FX>(b)).internal_value() != e) return 3;
    return 1;
}
template <class FX> int c_sub(VT<FX> a, VT<FX> b)
{
    ST<FX> e = (ST<FX>)a - (ST<FX>)b;
    if(!fits<FX>(e)) return 0;
    if((ST<FX>)sub<FX>(raw<FX>(a), raw<FX>(b)).internal_value() != e) return 2;
    if((ST<FX>)subeq<FX>(raw<FX>(a), raw<FX>(b)).internal_value() != e) return 3;
    return 1;
}
template <class FX> int c_self(VT<FX> a)
{
    if(subself<FX>(raw<FX>(a)).internal_value() != 0) return 2;
    ST<FX> e = 2 * (ST<FX>)a;
    if(!fits<FX>(e)) return 1;
    return (ST<FX>)addself<FX>(raw<FX>(a)).internal_value() == e ? 1 : 3;
}
template <class FX> int c_neg(VT<FX> a)
{
    ST<FX> e = -(ST<FX>)a;
    if(!fits<FX>(e)) return 0;
    return (ST<FX>)neg<FX>(raw<FX>(a)).internal_value() == e ? 1 : 2;
}
// ++ / --: prefix and postfix; the value returned and the value left behind
NI FX preinc(FX& a) { return ++a; }
NI FX postinc(FX& a) { return a++; }
NI FX predec(FX& a) { return --a; }
NI FX postdec(FX& a) { return a--; }
template <class FX> int c_inc(VT<FX> a)
{
    ST<FX> e = (ST<FX>)a + ((ST<FX>)1 << FX::precision);
    if(!fits<FX>(e)) return 0;
    FX x = raw<FX>(a);
    FX r = preinc<FX>(x);
    if((ST<FX>)x.internal_value() != e || (ST<FX>)r.internal_value() != e) return 2;
    x = raw<FX>(a);
    r = postinc<FX>(x);
    if((ST<FX>)x.internal_value() != e || r.internal_value() != a) return 3;
    return 1;
}
template <class FX> int c_dec(VT<FX> a)
{
    ST<FX> e = (ST<FX>)a - ((ST<FX>)1 << FX::precision);
    if(!fits<FX>(e)) return 0;
    FX x = raw<FX>(a);
    FX r = predec<FX>(x);
    if((ST<FX>)x.internal_value() != e || (ST<FX>)r.internal_value() != e) return 2;
    x = raw<FX>(a);
    r = postdec<FX>(x);
    if((ST<FX>)x.internal_value() != e || r.internal_value() != a) return 3;
    return 1;
}
// mixed with plain integers of type N
template <class FX, class N> __attribute__((noinline)) static FX addi(FX a, N n) { return a + n; }
template <class FX, class N> __attribute__((noinline)) static FX iadd(FX a, N n) { return n + a; }
template <class FX, class N> __attribute__((noinline)) static FX addieq(FX a, N n) { a += n; return a; }
template <class FX, class N> __attribute__((noinline)) static FX subi(FX a, N n) { return a - n; }
template <class FX, class N> __attribute__((noinline)) static FX isub(FX a, N n) { return n - a; }
template <class FX, class N> __attribute__((noinline)) static FX subieq(FX a, N n) { a -= n; return a; }
template <class FX, class N> int c_int(VT<FX> a, N n)
{
    typedef __int128 W;
    W m = (W)n * ((W)1 << FX::precision);
    if(!fits<FX>(m)) return 0;
    W s = (W)a + m, d = (W)a - m, e = m - (W)a;
    if(fits<FX>(s))
    {
        if((W)addi<FX, N>(raw<FX>(a), n).internal_value() != s) return 2;
        if((W)iadd<FX, N>(raw<FX>(a), n).internal_value() != s) return 3;
        if((W)addieq<FX, N>(raw<FX>(a), n).internal_value() != s) return 4;
    }
    if(fits<FX>(d))
    {
        if((W)subi<FX, N>(raw<FX>(a), n).internal_value() != d) return 5;
        if((W)subieq<FX, N>(raw<FX>(a), n).internal_value() != d) return 6;
    }
    if(fits<FX>(e) && (W)isub<FX, N>(raw<FX>(a), n).internal_value() != e) return 7;
    return 1;
}
#define ALL(name, T, I, F, R) \
    H add_##name(T a, T b) { return c_add<name>(a, b); } \
    H sub_##name(T a, T b) { return c_sub<name>(a, b); } \
    H self_##name(T a) { return c_self<name>(a); } \
    H inc_##name(T a) { return c_inc<name>(a); } \
    H dec_##name(T a) { return c_dec<name>(a); } \
    H addi8_##name(T a, int8_t n) { return c_int<name, int8_t>(a, n); } \
    H addi32_##name(T a, int32_t n) { return c_int<name, int32_t>(a, n); } \
    H addu32_##name(T a, uint32_t n) { return c_int<name, uint32_t>(a, n); } \
    H addi64_##name(T a, int64_t n) { return c_int<name, int64_t>(a, n); } \
    H addu64_##name(T a, uint64_t n) { return c_int<name, uint64_t>(a, n); }
ALL_FORMATS(ALL)
#define NEG(name, T, I, F, R) H neg_##name(T a) { return c_neg<name>(a); }
SIGNED_FORMATS(NEG)
