#include "fmt.hpp"
#include <eirin/math.hpp>
NI FX fl(FX a) { return eirin::floor(a); }
NI FX ce(FX a) { return eirin::ceil(a); }
NI FX tr(FX a) { return eirin::trunc(a); }
NI FX ro(FX a) { return eirin::round(a); }
NI FX mf(FX a, FX& i) { return eirin::modf(a, i); }
template <class FX> int c_floor(VT<FX> a)
{
    __int128 f = ((__int128)a >> FX::precision) << FX::precision;
    if((__int128)fl<FX>(raw<FX>(a)).internal_value() != f) return 2;
    FX i;
    FX r = mf<FX>(raw<FX>(a), i);
    if((__int128)i.internal_value() != f) return 3;
    return (__int128)r.internal_value() == (__int128)a - f ? 1 : 4;
}
template <class FX> int c_ceil(VT<FX> a)
{
    __int128 one = (__int128)1 << FX::precision, c = (((__int128)a + one - 1) >> FX::precision) << FX::precision;
    if(!fits<FX>(c)) // no integer at or above it is representable: the largest value
        return ce<FX>(raw<FX>(a)).internal_value() == std::numeric_limits<VT<FX>>::max() ? 1 : 3;
    return (__int128)ce<FX>(raw<FX>(a)).internal_value() == c ? 1 : 2;
}
template <class FX> int c_trunc(VT<FX> a)
{
    __int128 A = a, m = A < 0 ? -A : A, t = (m >> FX::precision) << FX::precision;
    if(A < 0) t = -t;
    return (__int128)tr<FX>(raw<FX>(a)).internal_value() == t ? 1 : 2;
}
template <class FX> int c_round(VT<FX> a)
{
    __int128 A = a, m = A < 0 ? -A : A, t = ((m + ((__int128)1 << (FX::precision - 1))) >> FX::precision) << FX::precision;
    if(A < 0) t = -t;
    if(!fits<FX>(t)) return 0;
    return (__int128)ro<FX>(raw<FX>(a)).internal_value() == t ? 1 : 2;
}
#define ALL(name, T, I, F, R) \
    H floor_##name(T a) { return c_floor<name>(a); } \
    H ceil_##name(T a) { return c_ceil<name>(a); } \
    H trunc_##name(T a) { return c_trunc<name>(a); } \
    H round_##name(T a) { return c_round<name>(a); }
SIGNED_FORMATS(ALL)
