#include "fmt.hpp"
template <class D, class S> __attribute__((noinline)) static D conv(S s) { return D(s); }
template <class D, bool R, class S> int c_conv(VT<S> a)
{
    __int128 e;
    constexpr int FD = D::precision, FS = S::precision;
    if constexpr(FD >= FS)
        e = (__int128)a << (FD - FS);
    else
    {
        __int128 m = a < 0 ? -(__int128)a : (__int128)a;
        if(R) m += (__int128)1 << (FS - FD - 1);
        m >>= FS - FD;
        e = a < 0 ? -m : m;
    }
    if(!fits<D>(e)) return 0;
    return (__int128)conv<D, S>(raw<S>(a)).internal_value() == e ? 1 : 2;
}
#define C(d, s, R) H cv_##s##_##d(VT<s> a) { return c_conv<d, R, s>(a); }
C(q64_32, q32_16, false) C(q32_16, q64_32, false) C(q32_24, q8_4, false) C(q16_8, q32_24, false) C(q32_8, q64_48, false) C(q32_24, q32_16, false) C(q32_16, q32_24, false)
C(q8_4, q16_13, false) C(q64_48, q16_13, false) C(q32_16r, q64_32, true) C(q16_8r, q32_16, true) C(q64_32r, q32_16r, true) C(q32_16r, q64_32r, true) C(q64_32, q32_16r, false) C(q8_4r, q32_24r, true)
C(q32_16, q16_8, false) C(q64_32, q8_4, false) C(q64_16, q64_32, false) C(q64_32, q64_16, false) C(q16_8, q64_32, false) C(q32_16r, q32_16, true) C(q32_16, q32_16r, false) C(u32_16, u16_8, false) C(u16_8, u32_16, false) C(u64_32, u32_16, false) C(u32_16, u64_32, false)
// widening and narrowing back is the identity
template <class D, class S> int c_rt(VT<S> a)
{
    return conv<S, D>(conv<D, S>(raw<S>(a))).internal_value() == a ? 1 : 2;
}
#define T(d, s) H rt_##s##_##d(VT<s> a) { return c_rt<d, s>(a); }
T(q64_32, q32_16) T(q32_24, q8_4) T(q64_48, q16_13) T(q64_32r, q32_16r) T(u64_32, u32_16)
