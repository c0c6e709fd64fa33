#include "text.hpp"
#include <ostream>
// ---- the character sink: every character the library writes ends up here
static char sink[256];
static unsigned sunk;
// The stream members that operator<< reaches are replaced by ones that record the characters (same mangled names, so the
// library's inline code calls them); the stream object itself only carries the formatting flags.
extern "C" void* _ZNSo3putEc(void* os, char c)
{
    if(sunk < 256)
        sink[sunk] = c;
    sunk++;
    return os;
}
extern "C" void* _ZNSo5flushEv(void* os) { return os; }
extern "C" void* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* os, const char* s, long n)
{
    for(long i = 0; i < n; i++)
        _ZNSo3putEc(os, s[i]);
    return os;
}
// does the text s[0..n) denote raw value v exactly, without superfluous digits
template <class FX> static inline int denotes(const char* s, unsigned n, VT<FX> v, int base, bool upper)
{
    constexpr int f = FX::precision;
    typedef ST<FX> S;
    S x = S(v);
    unsigned p = 0;
    if(x < 0)
    {
        if(n == 0 || s[0] != '-')
            return 2;
        p = 1;
        x = -x;
    }
    S ip = x >> f, rem = x & ((S(1) << f) - 1);
    const char* tab = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    // integer digits, compared from the last one
    unsigned e = p;
    while(e < n && s[e] != '.')
        e++;
    unsigned k = e;
    do
    {
        if(k == p)
            return 3;
        k--;
        if(s[k] != tab[size_t(ip % base)])
            return 5;
        ip /= base;
    } while(ip != 0);
    if(k != p)
        return 4;
    p = e;
    // fraction digits
    if(rem == 0)
        return p == n ? 1 : 6;
    if(p >= n || s[p] != '.')
        return 7;
    p++;
    while(p < n)
    {
        if(rem == 0)
            return 8;
        rem *= base;
        if(s[p] != tab[size_t(rem >> f)])
            return 9;
        rem &= (S(1) << f) - 1;
        p++;
    }
    return rem == 0 ? 1 : 10;
}
NI char* print(FX v, char* o, int base, bool upper) { return FX::copy_as_chars_to(v, o, base, upper); }
template <class FX> static inline int chars(VT<FX> v, int base, bool upper)
{
    char buf[128];
    char* e = print<FX>(raw<FX>(v), buf, base, upper);
    return denotes<FX>(buf, unsigned(e - buf), v, base, upper);
}
struct fake_stream
{
    long vtable[8];
    // the ostream: vptr, then the virtual base ios_base with its flags
    long obj[48];
};
NI void stream(std::ostream& os, FX v) { os << v; }
template <class FX> static inline int out(VT<FX> v, int flags)
{
    fake_stream b;
    std::memset(&b, 0, sizeof b);
    b.vtable[0] = 8;                       // offset of the virtual base
    b.obj[0] = (long)(b.vtable + 3);
    std::ios_base::fmtflags fl = std::ios_base::fmtflags(flags);
    std::memcpy(&b.obj[1 + 3], &fl, sizeof fl);
    sunk = 0;
    stream<FX>(*(std::ostream*)(void*)b.obj, raw<FX>(v));
    if(sunk > 256)
        return 20;
    const int H_ = int(std::ios_base::hex), D_ = int(std::ios_base::dec), O_ = int(std::ios_base::oct);
    int base = flags & H_ ? 16 : flags & D_ ? 10 : flags & O_ ? 8 : 2;
    return denotes<FX>(sink, sunk, v, base, (flags & int(std::ios_base::uppercase)) != 0);
}
// the number (-1)^neg * (ip + (2y+1)/2^(f-t)); t = f means no fraction. Every number but the most negative one is of this form
template <class FX> static inline bool compose(int64_t ip, int64_t y, int neg, int t, VT<FX>& v)
{
    constexpr int f = FX::precision;
    typedef ST<FX> S;
    if(ip < 0 || y < 0 || t < 0 || t > f || (t == f && y != 0) || (t < f && y > (int64_t(1) << (f - t - 1)) - 1) || (neg && !std::is_signed_v<VT<FX>>))
        return false;
    S x = (S(ip) << f) + (t < f ? (S(y) << (t + 1)) + (S(1) << t) : S(0));
    if(x > S(std::numeric_limits<VT<FX>>::max()))
        return false;
    v = VT<FX>(neg ? -x : x);
    return true;
}
template <class FX> static inline int chars(int64_t ip, int64_t y, int neg, int t, int base, bool upper)
{
    VT<FX> v;
    return compose<FX>(ip, y, neg, t, v) ? chars<FX>(v, base, upper) : 0;
}
template <class FX> static inline int out(int64_t ip, int64_t y, int neg, int t, int flags)
{
    VT<FX> v;
    return compose<FX>(ip, y, neg, t, v) ? out<FX>(v, flags) : 0;
}
#define D(name, T, I, F, R) \
    H chars_##name(int64_t ip, int64_t y, int neg, int t) { return chars<name>(ip, y, neg, t, 10, false); } \
    H hexl_##name(int64_t ip, int64_t y, int neg, int t) { return chars<name>(ip, y, neg, t, 16, false); } \
    H hexu_##name(int64_t ip, int64_t y, int neg, int t) { return chars<name>(ip, y, neg, t, 16, true); } \
    H octal_##name(int64_t ip, int64_t y, int neg, int t) { return chars<name>(ip, y, neg, t, 8, false); } \
    H binary_##name(int64_t ip, int64_t y, int neg, int t) { return chars<name>(ip, y, neg, t, 2, false); } \
    H min_##name(int base, int upper) { return chars<name>(std::numeric_limits<T>::min(), base, upper != 0); }
ALL_FORMATS(D)
#define D2(name) \
    H dec_##name(int64_t ip, int64_t y, int neg, int t) { return out<name>(ip, y, neg, t, int(std::ios_base::dec)); } \
    H hex_##name(int64_t ip, int64_t y, int neg, int t) { return out<name>(ip, y, neg, t, int(std::ios_base::hex)); } \
    H hexup_##name(int64_t ip, int64_t y, int neg, int t) { return out<name>(ip, y, neg, t, int(std::ios_base::hex) | int(std::ios_base::uppercase)); } \
    H oct_##name(int64_t ip, int64_t y, int neg, int t) { return out<name>(ip, y, neg, t, int(std::ios_base::oct)); } \
    H bin_##name(int64_t ip, int64_t y, int neg, int t) { return out<name>(ip, y, neg, t, 0); }
D2(q32_16) D2(q64_32) D2(u32_16) D2(q16_8)
