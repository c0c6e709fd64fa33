#include "fmt.hpp"
#include <eirin/math.hpp>
// The true function near the input is the line c0 + c1*(x-a), in units of 2^-S of the last place, up to an error that the
// tolerance already accounts for: |got*2^S - (c0 + c1*(x-a))| <= tol.
#define LINE(T) T x, int64_t a, int64_t c0, int64_t c1, int64_t tol, int S
template <class FX, FX (*F)(FX)> static inline int onto(LINE(VT<FX>))
{
    i128 got;
    try
    {
        got = F(raw<FX>(x)).internal_value();
    }
    catch(...)
    {
        return 3;
    }
    i128 d = (got << S) - i128(c0) - i128(c1) * i128(x - a);
    return d <= i128(tol) && d >= -i128(tol) ? 1 : 2;
}
#define ACC(name, FX, F) \
    __attribute__((noinline)) static FX name##_f(FX v) { return F(v); } \
    H name(LINE(VT<FX>)) { return onto<FX, name##_f>(x, a, c0, c1, tol, S); }
