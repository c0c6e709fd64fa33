#include "fmt.hpp"
#include <eirin/math.hpp>
NI FX deg(FX v) { return eirin::degrees(v); }
NI FX rad(FX v) { return eirin::radians(v); }
// pi as the format holds it; every format considered has at least 4 integer bits
template <class FX> constexpr bool isr = false;
template <class T, class I, unsigned f> constexpr bool isr<eirin::fixed_num<T, I, f, true>> = true;
template <class FX> static inline i128 PI() { return i128(eirin::numbers::pi_v<FX>().internal_value()); }
template <class FX> static inline int degrees(VT<FX> v)
{
    constexpr int f = FX::precision;
    // the conversion fits the format
    i128 most = i128(std::numeric_limits<VT<FX>>::max() / 180 - 4) * PI<FX>();
    if((i128(v) << f) > most || (i128(v) << f) < -most)
        return 0;
    i128 got = deg<FX>(raw<FX>(v)).internal_value();
    // within 183 units (365 when rounding) of the exact conversion with the format's pi: |got*pi - v*180*2^f| <= 183*pi
    i128 d = got * PI<FX>() - (i128(v) << f) * 180;
    i128 lim = (isr<FX> ? 365 : 183) * PI<FX>();
    return d <= lim && d >= -lim ? 1 : 2;
}
template <class FX> static inline int radians(VT<FX> v)
{
    constexpr int f = FX::precision;
    i128 got = rad<FX>(raw<FX>(v)).internal_value();
    // within pi + 2 units of v*pi/180: |got*180*2^f - v*pi| <= 180*(pi + 2*2^f)
    i128 d = ((got * 180) << f) - i128(v) * PI<FX>();
    i128 lim = 180 * (PI<FX>() + (i128(2) << f));
    return d <= lim && d >= -lim ? 1 : 2;
}
#define D(n) \
    H deg_##n(VT<n> v) { return degrees<n>(v); } \
    H rad_##n(VT<n> v) { return radians<n>(v); }
D(q32_16) D(q32_16r) D(q64_32) D(q32_8) D(q64_16) D(q64_48)
