// Formats the generic properties are decided for: storage type, intermediate type, fraction bits, rounding flag.
#pragma once
#include "h.hpp"
#include <eirin/fixed.hpp>
using eirin::fixed_num;
using eirin::fixed32;
using eirin::fixed64;
template <class FX> using VT = typename FX::value_type;
template <class FX> using WT = typename FX::intermediate_type;
#define SIGNED_PLAIN(X) \
    X(q8_4, int8_t, int16_t, 4, false) X(q16_8, int16_t, int32_t, 8, false) X(q16_13, int16_t, int64_t, 13, false) \
    X(q32_16, int32_t, int64_t, 16, false) X(q32_8, int32_t, int64_t, 8, false) X(q32_24, int32_t, int64_t, 24, false) \
    X(q64_32, int64_t, __int128, 32, false) X(q64_48, int64_t, __int128, 48, false) X(q64_16, int64_t, __int128, 16, false)
#define SIGNED_ROUND(X) \
    X(q8_4r, int8_t, int16_t, 4, true) X(q16_8r, int16_t, int32_t, 8, true) X(q32_16r, int32_t, int64_t, 16, true) X(q32_24r, int32_t, int64_t, 24, true) X(q64_32r, int64_t, __int128, 32, true)
#define UNSIGNED_PLAIN(X) X(u16_8, uint16_t, uint32_t, 8, false) X(u32_16, uint32_t, uint64_t, 16, false) X(u64_32, uint64_t, unsigned __int128, 32, false)
#define ALL_FORMATS(X) SIGNED_PLAIN(X) SIGNED_ROUND(X) UNSIGNED_PLAIN(X)
#define SIGNED_FORMATS(X) SIGNED_PLAIN(X) SIGNED_ROUND(X)
#define DECL_FMT(name, T, I, F, R) typedef fixed_num<T, I, F, R> name;
ALL_FORMATS(DECL_FMT)
template <class FX> static inline FX raw(VT<FX> v) { return FX::from_internal_value(v); }
// value fits the storage type
template <class FX, class W> __attribute__((noinline)) static bool fits(W v)
{
    return (W)(VT<FX>)v == v;
}
// a type wide enough for sums and differences of raw values (two more bits than needed)
template <class FX> using ST = std::conditional_t<(sizeof(VT<FX>) < 8), int64_t, __int128>;
#define NI template <class FX> __attribute__((noinline)) static
