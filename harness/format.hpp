// Reference for the format specifications, and the library's formatter driven through its public interface.
#pragma once
#include "text.hpp"
#include <eirin/io/format.hpp>
constexpr unsigned ROOM = 192;
struct outcome
{
    char s[ROOM];
    unsigned n = 0;
    bool threw = false, wrong = false;
    unsigned stop = 0;  // where parsing the specification stopped
};
struct recorder
{
    typedef std::output_iterator_tag iterator_category;
    typedef void value_type;
    typedef std::ptrdiff_t difference_type;
    typedef void pointer;
    typedef void reference;
    outcome* o;
    recorder& operator*() { return *this; }
    recorder& operator++() { return *this; }
    recorder operator++(int) { return *this; }
    recorder& operator=(char c)
    {
        if(o->n < ROOM)
            o->s[o->n] = c;
        o->n++;
        return *this;
    }
};
struct context
{
    typedef recorder iterator;
    outcome* o;
    recorder out() { return recorder{o}; }
};
struct spec
{
    char fill = ' ', align = 0, sign = '-', type = 'g';
    bool alt = false, zero = false;
    int width = 0, prec = -1;
};
template <class FX> __attribute__((noinline)) static void run(const char* s, size_t n, FX v, outcome& o)
{
    try
    {
        std::formatter<FX, char> fm;
        std::basic_format_parse_context<char> pc(std::string_view(s, n));
        auto it = fm.parse(pc);
        o.stop = unsigned(it - pc.begin());
        context c{&o};
        fm.format(v, c);
    }
    catch(const std::format_error&)
    {
        o.threw = true;
    }
    catch(...)
    {
        o.wrong = true;
    }
}
// what the specification asks for
template <class FX> static inline unsigned expect(VT<FX> v, const spec& sp, char* o)
{
    constexpr int f = FX::precision;
    typedef ST<FX> S;
    char body[ROOM], pre[4];
    unsigned n = 0, np = 0;
    S x = S(v);
    bool neg = x < 0;
    if(neg)
        x = -x;
    if(neg)
        pre[np++] = '-';
    else if(sp.sign != '-')
        pre[np++] = sp.sign;
    char t = sp.type;
    bool upper = t == 'X' || t == 'B';
    int base = t == 'x' || t == 'X' || t == '?' ? 16 : t == 'o' ? 8 : t == 'b' || t == 'B' ? 2 : 10;
    bool whole = base != 10 || t == 'd';
    if(sp.alt && base != 10)
    {
        pre[np++] = '0';
        if(base != 8)
            pre[np++] = base == 2 ? (upper ? 'B' : 'b') : (upper ? 'X' : 'x');
    }
    const char* tab = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    S ip = t == '?' ? x : x >> f, rem = x & ((S(1) << f) - 1);
    char rev[72];
    unsigned k = 0;
    do
    {
        rev[k++] = tab[size_t(ip % base)];
        ip /= base;
    } while(ip != 0);
    while(k)
        body[n++] = rev[--k];
    if(!whole)
    {
        int want = sp.prec < 0 ? 6 : sp.prec, got = 0;
        bool fix = t == 'f' || t == 'F';
        if(want > 0 && (rem != 0 || fix))
            body[n++] = '.';
        while(got < want && (rem != 0 || fix))
        {
            rem *= 10;
            body[n++] = tab[size_t(rem >> f)];
            rem &= (S(1) << f) - 1;
            got++;
        }
    }
    unsigned w = sp.width > 0 ? unsigned(sp.width) : 0, m = 0, pad = 0, left = 0;
    unsigned zeros = sp.zero && w > np + n ? w - np - n : 0;
    if(w > np + zeros + n)
        pad = w - np - zeros - n;
    left = sp.align == '<' ? 0 : sp.align == '^' ? pad / 2 : pad;
    for(unsigned i = 0; i < left; i++)
        o[m++] = sp.fill;
    for(unsigned i = 0; i < np; i++)
        o[m++] = pre[i];
    for(unsigned i = 0; i < zeros; i++)
        o[m++] = '0';
    for(unsigned i = 0; i < n; i++)
        o[m++] = body[i];
    for(unsigned i = left; i < pad; i++)
        o[m++] = sp.fill;
    return m;
}
// the specification as text
static inline unsigned write(const spec& sp, char* o)
{
    unsigned n = 0;
    auto number = [&](int x) {
        if(x >= 100)
            o[n++] = char('0' + x / 100);
        if(x >= 10)
            o[n++] = char('0' + x / 10 % 10);
        o[n++] = char('0' + x % 10);
    };
    if(sp.align)
    {
        if(sp.fill != ' ')
            o[n++] = sp.fill;
        o[n++] = sp.align;
    }
    if(sp.sign != '-')
        o[n++] = sp.sign;
    if(sp.alt)
        o[n++] = '#';
    if(sp.zero)
        o[n++] = '0';
    if(sp.width > 0)
        number(sp.width);
    if(sp.prec >= 0)
    {
        o[n++] = '.';
        number(sp.prec);
    }
    if(sp.type)
        o[n++] = sp.type;
    return n;
}
