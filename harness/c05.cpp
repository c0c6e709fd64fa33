#include "fmt.hpp"
template <class FX> struct Cmp { bool eq, ne, lt, le, gt, ge; int so; };
NI bool eq(FX a, FX b) { return a == b; }
NI bool ne(FX a, FX b) { return a != b; }
NI bool lt(FX a, FX b) { return a < b; }
NI bool le(FX a, FX b) { return a <= b; }
NI bool gt(FX a, FX b) { return a > b; }
NI bool ge(FX a, FX b) { return a >= b; }
NI int so(FX a, FX b) { auto o = a <=> b; return o < 0 ? -1 : o > 0 ? 1 : 0; }
NI size_t hsh(FX a) { return eirin::fixed_hash<FX>()(a); }
template <class FX> int c_cmp(VT<FX> a, VT<FX> b)
{
    FX x = raw<FX>(a), y = raw<FX>(b);
    int c = a < b ? -1 : a > b ? 1 : 0;
    if(eq<FX>(x, y) != (c == 0)) return 2;
    if(ne<FX>(x, y) != (c != 0)) return 3;
    if(lt<FX>(x, y) != (c < 0)) return 4;
    if(le<FX>(x, y) != (c <= 0)) return 5;
    if(gt<FX>(x, y) != (c > 0)) return 6;
    if(ge<FX>(x, y) != (c >= 0)) return 7;
    if(so<FX>(x, y) != c) return 8;
    if(c == 0 && hsh<FX>(x) != hsh<FX>(y)) return 9;
    return 1;
}
NI bool neq(FX a, FX b) { return a.nearly_eq(b); }
NI bool nne(FX a, FX b) { return a.nearly_ne(b); }
NI bool ngt(FX a, FX b) { return a.nearly_gt(b); }
NI bool nlt(FX a, FX b) { return a.nearly_lt(b); }
NI bool nge(FX a, FX b) { return a.nearly_gt_eq(b); }
NI bool nle(FX a, FX b) { return a.nearly_lt_eq(b); }
// the tolerance is 5/65536
template <class FX> int c_near(VT<FX> a, VT<FX> b)
{
    FX x = raw<FX>(a), y = raw<FX>(b);
    typedef __int128 W;
    const W eps = FX::precision >= 16 ? (W)5 << (FX::precision >= 16 ? FX::precision - 16 : 0) : (W)5 >> (FX::precision >= 16 ? 0 : 16 - FX::precision);
    W d = (W)a - (W)b;
    if(neq<FX>(x, y) != (d <= eps && d >= -eps)) return 2;
    if(nne<FX>(x, y) != (d > eps || d < -eps)) return 3;
    if(ngt<FX>(x, y) != (d > eps)) return 4;
    if(nlt<FX>(x, y) != (d < -eps)) return 5;
    if(nge<FX>(x, y) != (d >= -eps)) return 6;
    if(nle<FX>(x, y) != (d <= eps)) return 7;
    return 1;
}
#define ALL(name, T, I, F, R) H cmp_##name(T a, T b) { return c_cmp<name>(a, b); }
ALL_FORMATS(ALL)
#define NEAR(name, T, I, F, R) H near_##name(T a, T b) { return c_near<name>(a, b); }
SIGNED_PLAIN(NEAR)
NEAR(q32_16r, int32_t, int64_t, 16, true)
NEAR(q64_32r, int64_t, __int128, 32, true)
