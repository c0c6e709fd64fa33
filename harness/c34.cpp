#include "h.hpp"
#include <cassert>
#include <eirin/ext/builtin_ints.hpp>
using eirin::ext::int128;
static inline i128 val(int128 x) { return (i128)(((u128)(uint64_t)x.high_bits() << 64) | (uint64_t)x.low_bits()); }
IMPL int128 add(const int128& a, const int128& b) { return a + b; }
IMPL int64_t cast(const int128& a) { return static_cast<int64_t>(a); }
template <class T> __attribute__((noinline)) static int128 from(T v) { return int128(v); }
IMPL int128 parts(int64_t h, int64_t l) { return int128(h, l); }
H sum(int64_t ah, int64_t al, int64_t bh, int64_t bl)
{
    int128 a = parts(ah, al), b = parts(bh, bl);
    u128 want = (((u128)(uint64_t)ah << 64) | (uint64_t)al) + (((u128)(uint64_t)bh << 64) | (uint64_t)bl);
    return (u128)val(add(a, b)) == want ? 1 : 2;
}
H saturate(int64_t h, int64_t l)
{
    int128 a = parts(h, l);
    i128 v = val(a);
    const i128 mx = std::numeric_limits<int64_t>::max(), mn = std::numeric_limits<int64_t>::min();
    i128 want = v > mx ? mx : v < mn ? mn : v;
    return (i128)cast(a) == want ? 1 : 2;
}
H bits(int64_t h, int64_t l)
{
    int128 a = parts(h, l);
    return a.high_bits() == h && a.low_bits() == l ? 1 : 2;
}
#define D(n, T) H from_##n(T v) { int128 a = from<T>(v); return val(a) == (i128)v ? 1 : 2; }
D(i8, int8_t) D(u8, uint8_t) D(i16, int16_t) D(u16, uint16_t) D(i32, int32_t) D(u32, uint32_t) D(i64, int64_t) D(u64, uint64_t)
// sums of 64-bit numbers never overflow and cast back exactly when they fit
H sum64(int64_t a, int64_t b)
{
    int128 s = add(from<int64_t>(a), from<int64_t>(b));
    i128 want = (i128)a + b;
    if(val(s) != want)
        return 2;
    if(want == (i128)(int64_t)want && cast(s) != (int64_t)want)
        return 3;
    return 1;
}
H from_f64(int64_t k, int e)
{
    // doubles with an exact value k * 2^e below 2^63 in magnitude
    double d = double(k);
    if(e)
        d *= 0.00390625;
    int128 a = from<double>(d);
    i128 want = e ? (i128)(k / 256) : (i128)k;
    return val(a) == want ? 1 : 2;
}
