// Harness conventions: extern "C" functions returning
//   0  the inputs are outside the property's precondition
//   1  the property holds for these inputs
//   >=2 the property is violated (the number tells which clause)
// The calls into the library go through noinline wrappers (IMPL) so that the optimiser cannot fold the
// implementation and the specification into each other.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <limits>
#include <type_traits>
#define H extern "C" __attribute__((noinline)) int
#define IMPL __attribute__((noinline)) static
typedef __int128 i128;
typedef unsigned __int128 u128;
// floor division by 2^k and helpers on wide integers
template <typename T> static inline T fdiv2(T v, int k) { return v >> k; }
static inline i128 iabs(i128 v) { return v < 0 ? -v : v; }
