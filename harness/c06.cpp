#include "fmt.hpp"
template <class FX, class N> __attribute__((noinline)) static FX from(N n) { return FX(n); }
template <class FX, class N> __attribute__((noinline)) static N to(FX a) { return static_cast<N>(a); }
template <class N> __attribute__((noinline)) static bool fitsn(__int128 v) { return (__int128)(N)v == v; }
template <class FX, class N> int c_from(N n)
{
    __int128 e = (__int128)n * ((__int128)1 << FX::precision);
    if(!fits<FX>(e)) return 0;
    FX x = from<FX, N>(n);
    if((__int128)x.internal_value() != e) return 2;
    if(to<FX, N>(x) != n) return 3;
    return 1;
}
template <class FX, class N> int c_to(VT<FX> a)
{
    // greatest integer not above the value
    __int128 e = (__int128)a >> FX::precision;
    if(!fitsn<N>(e)) return 0;
    return (__int128)to<FX, N>(raw<FX>(a)) == e ? 1 : 2;
}
#define ONE(name, T, t, N) \
    H from##t##_##name(N n) { return c_from<name, N>(n); } \
    H to##t##_##name(T a) { return c_to<name, N>(a); }
#define ALL(name, T, I, F, R) \
    ONE(name, T, i8, int8_t) ONE(name, T, u8, uint8_t) ONE(name, T, i16, int16_t) ONE(name, T, i32, int32_t) ONE(name, T, u32, uint32_t) ONE(name, T, i64, int64_t) ONE(name, T, u64, uint64_t)
ALL_FORMATS(ALL)
IMPL fixed32 lit(unsigned long long v) { return eirin::operator""_f32(v); }
H literal(uint64_t v)
{
    if(v > 32767) return 0;
    return lit(v).internal_value() == (int32_t)(v * 65536) ? 1 : 2;
}
