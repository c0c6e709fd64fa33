// Reference semantics of decimal text, shared by the parsing properties.
#pragma once
#include "fmt.hpp"
// result of reading a text
struct ref
{
    bool ok;      // well formed and representable
    bool malformed;
    i128 value;   // raw value when ok
    size_t used;  // characters that belong to the number
};
// -?digits*[.digits*]: the integer digits, the leading fraction digits that count, truncation, sign, range.
// lenient: the number ends at the first character that does not belong to it; otherwise such a character is an error.
// A fraction digit counts while the digits before it form a number not above (2^f - 1)/10.
template <class FX, class C> static inline ref read_text(const C* s, size_t n, bool lenient)
{
    constexpr int f = FX::precision;
    const i128 top = (i128(std::numeric_limits<VT<FX>>::max()) >> f) + 1;
    constexpr i128 frac = ((i128(1) << f) - 1) / 10;
    ref r{false, false, 0, 0};
    size_t p = 0;
    bool neg = false;
    if(p < n && s[p] == '-')
    {
        neg = true;
        p++;
    }
    WT<FX> ip = 0;
    bool big = false;
    for(; p < n && s[p] >= '0' && s[p] <= '9'; p++)
    {
        if(!big)
            ip = ip * 10 + (s[p] - '0');
        if(i128(ip) > top)
            big = true;
    }
    WT<FX> dec = 0, div = 1;
    if(p < n && s[p] == '.')
    {
        p++;
        for(; p < n && s[p] >= '0' && s[p] <= '9'; p++)
            if(i128(dec) <= frac && i128(div) <= (i128(1) << (sizeof(WT<FX>) * 8 - 5)))
            {
                dec = dec * 10 + (s[p] - '0');
                div *= 10;
            }
    }
    r.used = p;
    if(p < n && !lenient)
    {
        r.malformed = true;
        return r;
    }
    if(big)
        return r;
    WT<FX> v = (WT<FX>(ip) << f) + (WT<FX>(dec) << f) / WT<FX>(div);
    i128 x = i128(v);
    if(neg)
        x = -x;
    r.value = x;
    r.ok = x <= i128(std::numeric_limits<VT<FX>>::max()) && x >= i128(std::numeric_limits<VT<FX>>::min());
    return r;
}
