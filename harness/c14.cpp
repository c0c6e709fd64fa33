#include "text.hpp"
#include <eirin/io/parse.hpp>
IMPL const char* p_view(const char* s, size_t n, fixed32& o) { return eirin::io::parse(std::string_view(s, n), o); }
IMPL const char* p_ptr(const char* s, const char* e, fixed32& o) { return eirin::io::parse(s, e, o); }
static inline int judge(const char* s, size_t n, const char* got, const fixed32& o)
{
    ref r = read_text<fixed32>(s, n, false);
    if(got != (r.ok ? s + n : s))
        return 2;
    if(o.internal_value() != (r.ok ? int32_t(r.value) : 77))
        return 3;
    return 1;
}
// a view of n bytes; its end may not be read
H view(const char* s, int64_t n)
{
    fixed32 o = raw<fixed32>(77);
    const char* e = p_view(s, size_t(n), o);
    return judge(s, size_t(n), e, o);
}
// n bytes and a terminator: the number is what stands before the first character equal to the terminator
H ptrs(const char* s, int64_t n)
{
    fixed32 o = raw<fixed32>(77);
    const char* e = p_ptr(s, s + n, o);
    size_t k = 0;
    while(s[k] != s[n])
        k++;
    return judge(s, k, e, o);
}
