#include "format.hpp"
// (-1)^neg * (ip + (2y+1)/2^(f-t)); t = f means no fraction
template <class FX> static inline bool compose(int64_t ip, int64_t y, int neg, int t, VT<FX>& v)
{
    constexpr int f = FX::precision;
    typedef ST<FX> S;
    if(ip < 0 || y < 0 || t < 0 || t > f || (t == f && y != 0) || (t < f && y > (int64_t(1) << (f - t - 1)) - 1) || (neg && !std::is_signed_v<VT<FX>>))
        return false;
    S x = (S(ip) << f) + (t < f ? (S(y) << (t + 1)) + (S(1) << t) : S(0));
    if(x > S(std::numeric_limits<VT<FX>>::max()))
        return false;
    v = VT<FX>(neg ? -x : x);
    return true;
}
template <class FX> static inline int formats(VT<FX> v, const spec& sp)
{
    char text[32], want[ROOM];
    unsigned n = write(sp, text);
    outcome o;
    run<FX>(text, n, raw<FX>(v), o);
    if(o.threw || o.wrong || o.stop != n)
        return 2;
    spec q = sp;
    if(!q.type)
        q.type = 'g';
    unsigned m = expect<FX>(v, q, want);
    if(o.n != m)
        return 3;
    for(unsigned i = 0; i < m; i++)
        if(o.s[i] != want[i])
            return 4;
    return 1;
}
template <class FX> static inline int go(int64_t ip, int64_t y, int neg, int t, int type, int sign, int alt, int zero, int width, int prec, int align, char fill)
{
    VT<FX> v;
    if(!compose<FX>(ip, y, neg, t, v) || fill == '{' || fill == '}')
        return 0;
    spec sp;
    sp.type = char(type);
    sp.sign = char(sign);
    sp.alt = alt;
    sp.zero = zero;
    sp.width = width;
    sp.prec = prec;
    sp.align = char(align);
    sp.fill = align ? fill : ' ';
    return formats<FX>(v, sp);
}
template <class FX> static inline int least(int type, int width)
{
    spec sp;
    sp.type = char(type);
    sp.width = width;
    return formats<FX>(std::numeric_limits<VT<FX>>::min(), sp);
}
#define D(n) \
    H fmt_##n(int64_t ip, int64_t y, int neg, int t, int type, int sign, int alt, int zero, int width, int prec, int align, char fill) \
    { return go<n>(ip, y, neg, t, type, sign, alt, zero, width, prec, align, fill); } \
    H min_##n(int type, int width) { return least<n>(type, width); }
D(q32_16) D(q64_32) D(q16_8) D(u32_16) D(q32_16r) D(q64_16)
