#include "format.hpp"
// [digits*:]? [[fill]align] [sign] [#] [0] [width] [.precision] [type], up to a closing brace or the end.
// A colon right before an alignment is a fill character; a brace never is.
static inline bool al(char c) { return c == '<' || c == '>' || c == '^'; }
static inline bool dg(char c) { return c >= '0' && c <= '9'; }
struct parsed
{
    spec sp;
    bool bad = false, edge = false;  // edge: the last few numbers an int can hold may be refused
    unsigned stop = 0;
};
static inline parsed read_spec(const char* s, unsigned n)
{
    parsed r;
    unsigned i = 0;
    unsigned p = 0;
    while(p < n && dg(s[p]))
        p++;
    if(p < n && s[p] == ':' && !(p == 0 && n > 1 && al(s[1])))
        i = p + 1;
    if(i + 1 < n && s[i] != '{' && s[i] != '}' && al(s[i + 1]))
    {
        r.sp.fill = s[i];
        r.sp.align = s[i + 1];
        i += 2;
    }
    else if(i < n && al(s[i]))
        r.sp.align = s[i++];
    if(i < n && (s[i] == '+' || s[i] == '-' || s[i] == ' '))
        r.sp.sign = s[i++];
    if(i < n && s[i] == '#')
    {
        r.sp.alt = true;
        i++;
    }
    if(i < n && s[i] == '0')
    {
        r.sp.zero = true;
        i++;
    }
    i128 w = 0;
    for(; i < n && dg(s[i]); i++)
    {
        w = w * 10 + (s[i] - '0');
        if(w > 2147483647)
        {
            r.bad = true;
            return r;
        }
    }
    r.edge = w >= 2147483640;
    r.sp.width = int(w);
    if(i < n && s[i] == '.')
    {
        i++;
        i128 q = 0;
        for(; i < n && dg(s[i]); i++)
        {
            q = q * 10 + (s[i] - '0');
            if(q > 2147483647)
            {
                r.bad = true;
                return r;
            }
        }
        r.edge = r.edge || q >= 2147483640;
        r.sp.prec = int(q);
    }
    if(i < n && s[i] != '}')
    {
        const char* t = "gGfFdxXobB?";
        bool ok = false;
        for(int k = 0; k < 11; k++)
            ok = ok || s[i] == t[k];
        if(!ok)
        {
            r.bad = true;
            return r;
        }
        r.sp.type = s[i++];
    }
    r.stop = i;
    return r;
}
// the identity; makes the engine follow each digit on a path of its own, so that widths are concrete there
extern "C" __attribute__((noinline, optnone)) char apart(char c)
{
    switch(c)
    {
    case '0': return '0';
    case '1': return '1';
    case '2': return '2';
    case '3': return '3';
    case '4': return '4';
    case '5': return '5';
    case '6': return '6';
    case '7': return '7';
    case '8': return '8';
    case '9': return '9';
    default: return c;
    }
}
template <class FX> static inline int obeys(const char* s, unsigned n, VT<FX> v)
{
    parsed r = read_spec(s, n);
    if(r.edge)
        return 0;
    // very wide output is left to the specifications with few digits
    if(!r.bad && (r.sp.width > 60 || r.sp.prec > 60))
        return 0;
    outcome o;
    run<FX>(s, n, raw<FX>(v), o);
    if(o.wrong)
        return 2;
    if(o.threw != r.bad)
        return 3;
    if(r.bad)
        return 1;
    if(o.stop != r.stop)
        return 4;
    char want[ROOM];
    if(r.sp.zero && r.sp.align)
        return 1;
    unsigned m = expect<FX>(v, r.sp, want);
    if(o.n != m)
        return 5;
    for(unsigned i = 0; i < m; i++)
        if(o.s[i] != want[i])
            return 6;
    return 1;
}
#define BYTES char a, char b, char c, char d, char e, char f, char g, char h, char i, char j, char k, char l
#define TEXT \
    char s[12] = {a, b, c, d, e, f, g, h, i, j, k, l}; \
    for(int x = 0; x < n; x++) \
        s[x] = apart(s[x]);
H any(int n, BYTES)
{
    TEXT
    return obeys<q32_16>(s, n, -376832);  // -5.75
}
H pos(int n, BYTES)
{
    TEXT
    return obeys<q64_32>(s, n, 114890375168);  // 26.75
}
// parsing alone: where it stops, and what it refuses
template <class FX> __attribute__((noinline)) static void only(const char* s, size_t n, outcome& o)
{
    try
    {
        std::formatter<FX, char> fm;
        std::basic_format_parse_context<char> pc(std::string_view(s, n));
        o.stop = unsigned(fm.parse(pc) - pc.begin());
    }
    catch(const std::format_error&)
    {
        o.threw = true;
    }
    catch(...)
    {
        o.wrong = true;
    }
}
H grammar(int n, BYTES)
{
    const char s[12] = {a, b, c, d, e, f, g, h, i, j, k, l};
    parsed r = read_spec(s, n);
    if(r.edge)
        return 0;
    outcome o;
    only<q32_16>(s, n, o);
    if(o.wrong)
        return 2;
    if(o.threw != r.bad)
        return 3;
    return r.bad || o.stop == r.stop ? 1 : 4;
}
