#include "fmt.hpp"
#include <array>
#include <utility>
#include <eirin/math.hpp>
using namespace eirin;
constexpr int N = 18;
// the constants as a format holds them
template <class FX> constexpr std::array<VT<FX>, N> row()
{
    return {
        eirin::numbers::e_v<FX>().internal_value(),
        eirin::numbers::pi_v<FX>().internal_value(),
        eirin::numbers::log2e_v<FX>().internal_value(),
        eirin::numbers::log10e_v<FX>().internal_value(),
        eirin::numbers::inv_pi_v<FX>().internal_value(),
        eirin::numbers::inv_sqrtpi_v<FX>().internal_value(),
        eirin::numbers::ln2_v<FX>().internal_value(),
        eirin::numbers::ln10_v<FX>().internal_value(),
        eirin::numbers::sqrt2_v<FX>().internal_value(),
        eirin::numbers::sqrt3_v<FX>().internal_value(),
        eirin::numbers::inv_sqrt3_v<FX>().internal_value(),
        eirin::numbers::egamma_v<FX>().internal_value(),
        eirin::numbers::phi_v<FX>().internal_value(),
        FX::e().internal_value(),
        FX::pi().internal_value(),
        FX::pi_2().internal_value(),
        FX::pi_4().internal_value(),
        FX::double_pi().internal_value()
    };
}
// the constants in units of 2^-100
#define C(h, l) (i128((u128(h) << 64) | u128(l)))
static constexpr i128 truth[N] = {
    C(0x2b7e151628ull, 0xaed2a6abf715880aull),
    C(0x3243f6a888ull, 0x5a308d313198a2e0ull),
    C(0x171547652bull, 0x82fe1777d0ffda0dull),
    C(0x6f2dec549ull, 0xb9438ca9aadd557dull),
    C(0x517cc1b72ull, 0x7220a94fe13abe90ull),
    C(0x906eba821ull, 0x4db688d71d48a7f7ull),
    C(0xb17217f7dull, 0x1cf79abc9e3b3980ull),
    C(0x24d763776aull, 0xaa2b05ba95b58ae1ull),
    C(0x16a09e667full, 0x3bcc908b2fb1366full),
    C(0x1bb67ae858ull, 0x4caa73b25742d708ull),
    C(0x93cd3a2c8ull, 0x198e2690c7c0f258ull),
    C(0x93c467e37ull, 0xdb0c7a4d1be3f810ull),
    C(0x19e3779b97ull, 0xf4a7c15f39cc0606ull),
    C(0x2b7e151628ull, 0xaed2a6abf715880aull),
    C(0x3243f6a888ull, 0x5a308d313198a2e0ull),
    C(0x1921fb5444ull, 0x2d18469898cc5170ull),
    C(0xc90fdaa22ull, 0x168c234c4c6628b8ull),
    C(0x6487ed5110ull, 0xb4611a62633145c0ull)
};
template <class T, class I, bool r, unsigned... f> constexpr std::array<std::array<T, N>, sizeof...(f)> rows(std::integer_sequence<unsigned, f...>)
{
    return {row<fixed_num<T, I, f + 1, r>>()...};
}
// formats with 1 .. n fraction bits; three integer bits hold every constant
#define TAB(name, T, I, r, n) static constexpr auto name = rows<T, I, r>(std::make_integer_sequence<unsigned, n>());
TAB(t32, int32_t, int64_t, false, 28)
TAB(t32r, int32_t, int64_t, true, 28)
TAB(t64, int64_t, i128, false, 60)
TAB(t64r, int64_t, i128, true, 60)
TAB(t16, int16_t, int32_t, false, 12)
// within one unit in the last place (and the 2^-52 to which the library states them)
template <class A> static inline int check(const A& t, int f, int k)
{
    if(f < 1 || f > int(t.size()) || k < 0 || k >= N)
        return 0;
    i128 d = (i128(t[f - 1][k]) << (100 - f)) - truth[k];
    i128 lim = (i128(1) << (100 - f)) + (i128(1) << 48);
    return d <= lim && d >= -lim ? 1 : 2;
}
#define D(n) H c##n(int f, int k) { return check(t##n, f, k); }
D(32) D(32r) D(64) D(64r) D(16)
// the named constants are the fixed32 and fixed64 ones
H named(int k)
{
    using namespace eirin::numbers;
    const int32_t a[] = {e.internal_value(), pi.internal_value(), log2e.internal_value(), log10e.internal_value(), inv_pi.internal_value(), inv_sqrtpi.internal_value(), ln2.internal_value(),
        ln10.internal_value(), sqrt2.internal_value(), sqrt3.internal_value(), inv_sqrt3.internal_value(), egamma.internal_value(), phi.internal_value()};
    const int64_t b[] = {e_f64.internal_value(), pi_f64.internal_value(), log2e_f64.internal_value(), log10e_f64.internal_value(), inv_pi_f64.internal_value(), inv_sqrtpi_f64.internal_value(), ln2_f64.internal_value(),
        ln10_f64.internal_value(), sqrt2_f64.internal_value(), sqrt3_f64.internal_value(), inv_sqrt3_f64.internal_value(), egamma_f64.internal_value(), phi_f64.internal_value()};
    if(k < 0 || k >= 13)
        return 0;
    return a[k] == t32[15][k] && b[k] == t64[31][k] ? 1 : 2;
}
// limits: every value lies between min = lowest and max, which are the ends of the raw range; epsilon is 5/65536 cut to the format
template <class FX> static inline int limits(VT<FX> x)
{
    typedef std::numeric_limits<FX> L;
    typedef std::numeric_limits<VT<FX>> R;
    FX v = raw<FX>(x);
    if(!(L::lowest() <= v) || !(v <= L::max()) || !(L::min() <= v))
        return 2;
    if(L::min().internal_value() != R::min() || L::lowest().internal_value() != R::min() || L::max().internal_value() != R::max())
        return 3;
    i128 eps = (i128(5) << FX::precision) >> 16;
    if(L::epsilon().internal_value() != eps || FX::epsilon().internal_value() != eps || FX::nearly_compare_epsilon().internal_value() != eps)
        return 4;
    if(!L::is_specialized || L::is_integer || !L::is_exact || L::has_infinity || L::has_quiet_NaN || L::has_signaling_NaN || !L::is_bounded || L::is_modulo || L::is_iec559)
        return 5;
    if(L::radix != FX(2) || L::digits != FX(sizeof(VT<FX>) * 8 - 1) || !L::is_signed)
        return 6;
    return 1;
}
#define L(n) H lim_##n(VT<n> x) { return limits<n>(x); }
L(q32_16) L(q32_8) L(q64_32) L(q64_16)
