#include "fmt.hpp"
#include <array>
#include <iostream>
#include <eirin/math.hpp>
#include <eirin/ext/simd_math.hpp>
// x minus a whole number of turns; the number is the quotient rounded towards zero, give or take one
static inline bool reduced(int64_t x, int64_t r)
{
    const uint64_t turn = (eirin::numbers::pi_f64 * eirin::fixed64(2)).internal_value(), inv = 683565275; // inv: 2^32/2pi
    uint64_t a = x < 0 ? 0 - uint64_t(x) : uint64_t(x), b = x < 0 ? 0 - uint64_t(r) : uint64_t(r);
    // k = a * inv >> 64, in halves
    uint64_t k = ((a & 0xffffffffu) * inv >> 32) + (a >> 32) * inv;
    k >>= 32;
    uint64_t m = a - ((k * (turn >> 32) << 32) + k * (turn & 0xffffffffu)); // exact: k * turn <= a
    return b == m || b == m + turn || b == m - turn;
}
__attribute__((noinline)) static std::array<fixed64, 4> four(const std::array<fixed64, 4>& v) { return eirin::simd::simd_reduce_angle(v); }
__attribute__((noinline)) static std::array<fixed64, 2> two(const std::array<fixed64, 2>& v) { return eirin::simd::simd_reduce_angle_2(v); }
H turn4(int64_t a, int64_t b, int64_t c, int64_t d, int32_t lane)
{
    auto r = four({raw<fixed64>(a), raw<fixed64>(b), raw<fixed64>(c), raw<fixed64>(d)});
    int64_t x[4] = {a, b, c, d};
    return reduced(x[lane & 3], r[lane & 3].internal_value()) ? 1 : 2;
}
H turn2(int64_t a, int64_t b, int32_t lane)
{
    auto r = two({raw<fixed64>(a), raw<fixed64>(b)});
    int64_t x[2] = {a, b};
    return reduced(x[lane & 1], r[lane & 1].internal_value()) ? 1 : 2;
}
