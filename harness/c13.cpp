#include "text.hpp"
NI bool p_parse(const char* s, size_t n, FX& o) { return eirin::detail::parse(s, n, o); }
NI bool p_cstr(const char* s, size_t n, FX& o) { return eirin::fixed_from_cstring(s, n, o); }
IMPL bool p_f32(const char* s, size_t n, fixed32& o) { return eirin::f32_from_cstring(s, n, o); }
// any n bytes, of which none beyond the n-th may be read
template <class FX, class P> static inline int judge(const char* s, size_t n, bool lenient, P parse)
{
    FX o = raw<FX>(77);
    bool got = parse(s, n, o);
    ref r = read_text<FX>(s, n, lenient);
    if(got != r.ok)
        return 2;
    if(r.ok && o.internal_value() != VT<FX>(r.value))
        return 3;
    if(!r.ok && o.internal_value() != VT<FX>(77))
        return 4;
    return 1;
}
#define D(name, T, I, F, R) \
    H parse_##name(const char* s, int64_t n) { return judge<name>(s, size_t(n), false, [](auto s, auto n, auto& o) { return p_parse<name>(s, n, o); }); } \
    H cstr_##name(const char* s, int64_t n) { return judge<name>(s, size_t(n), true, [](auto s, auto n, auto& o) { return p_cstr<name>(s, n, o); }); }
ALL_FORMATS(D)
H f32(const char* s, int64_t n) { return judge<fixed32>(s, size_t(n), false, [](auto s, auto n, auto& o) { return p_f32(s, n, o); }); }
