#include "math.hpp"
ACC(cbrt32, fixed32, eirin::cbrt)
ACC(cbrt64, fixed64, eirin::cbrt)
// odd, and numbers below epsilon give zero
template <class FX, FX (*F)(FX)> static inline int odd(VT<FX> x) { return F(raw<FX>(-x)).internal_value() == -F(raw<FX>(x)).internal_value() ? 1 : 2; }
template <class FX, FX (*F)(FX)> static inline int tiny(VT<FX> x) { return F(raw<FX>(x)).internal_value() == 0 ? 1 : 2; }
H odd32(int32_t x) { return odd<fixed32, cbrt32_f>(x); }
H odd64(int64_t x) { return odd<fixed64, cbrt64_f>(x); }
H tiny32(int32_t x) { return tiny<fixed32, cbrt32_f>(x); }
H tiny64(int64_t x) { return tiny<fixed64, cbrt64_f>(x); }
