#include "text.hpp"
#include <eirin/io/parse.hpp>
NI bool p_parse(const char* s, size_t n, FX& o) { return eirin::detail::parse(s, n, o); }
NI bool p_cstr(const char* s, size_t n, FX& o) { return eirin::fixed_from_cstring(s, n, o); }
IMPL bool p_f32(const char* s, size_t n, fixed32& o) { return eirin::f32_from_cstring(s, n, o); }
IMPL fixed32 p_lit32(const char* s, size_t n) { return eirin::operator""_f32(s, n); }
IMPL fixed64 p_lit64(const char* s, size_t n) { return eirin::operator""_f64(s, n); }
template <class FX> static VT<FX> marker() { return VT<FX>(77); }
// n characters, the shape (sign, digits, point) fixed by the obligation's alphabets
template <class FX, class P> static inline int judge(const char* s, size_t n, P parse)
{
    FX o = raw<FX>(marker<FX>());
    bool got = parse(s, n, o);
    ref r = read_text<FX>(s, n, false);
    if(r.malformed)
        return 0;
    if(got != r.ok)
        return 2;
    if(r.ok && o.internal_value() != VT<FX>(r.value))
        return 3;
    if(!r.ok && o.internal_value() != marker<FX>())
        return 4;
    return 1;
}
#define D(name, T, I, F, R) \
    H parse_##name(const char* s, int64_t n) { return judge<name>(s, size_t(n), [](auto s, auto n, auto& o) { return p_parse<name>(s, n, o); }); } \
    H cstr_##name(const char* s, int64_t n) { return judge<name>(s, size_t(n), [](auto s, auto n, auto& o) { return p_cstr<name>(s, n, o); }); }
ALL_FORMATS(D)
H f32(const char* s, int64_t n) { return judge<fixed32>(s, size_t(n), [](auto s, auto n, auto& o) { return p_f32(s, n, o); }); }
H lit32(const char* s, int64_t n)
{
    ref r = read_text<fixed32>(s, size_t(n), false);
    if(!r.ok)
        return 0;
    return p_lit32(s, size_t(n)).internal_value() == r.value ? 1 : 2;
}
H lit64(const char* s, int64_t n)
{
    ref r = read_text<fixed64>(s, size_t(n), false);
    if(!r.ok)
        return 0;
    return p_lit64(s, size_t(n)).internal_value() == r.value ? 1 : 2;
}
