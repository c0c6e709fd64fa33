#include "text.hpp"
#include <istream>
// A model of a character source with the state rules of std::basic_istream (eofbit on reaching the end, failbit on
// reading from a stream that is not good), so that the whole extraction is in the encoded program.
struct model_traits : std::char_traits<char>
{};
struct stream_failure
{};
namespace std
{
template <> class basic_istream<char, model_traits>
{
public:
    const char* s;
    size_t n, pos;
    ios_base::iostate st;
    bool throws;
    typedef int int_type;
    bool good() const { return st == ios_base::goodbit; }
    bool eof() const { return (st & ios_base::eofbit) != 0; }
    bool fail() const { return (st & (ios_base::failbit | ios_base::badbit)) != 0; }
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    ios_base::iostate rdstate() const { return st; }
    void setstate(ios_base::iostate x)
    {
        st = ios_base::iostate(int(st) | int(x));
        if(throws && fail())
            throw stream_failure();
    }
    bool sentry_ok()
    {
        if(good())
            return true;
        setstate(ios_base::failbit);
        return false;
    }
    int peek()
    {
        if(!sentry_ok())
            return -1;
        if(pos == n)
        {
            setstate(ios_base::eofbit);
            return -1;
        }
        return (unsigned char)s[pos];
    }
    int get()
    {
        if(!sentry_ok())
            return -1;
        if(pos == n)
        {
            setstate(ios_base::iostate(int(ios_base::eofbit) | int(ios_base::failbit)));
            return -1;
        }
        return (unsigned char)s[pos++];
    }
};
} // namespace std
typedef std::basic_istream<char, model_traits> source;
NI void extract(source& is, FX& o) { is >> o; }
template <class FX> static inline int judge(const char* s, size_t n, int state, bool throws)
{
    source is;
    is.s = s;
    is.n = n;
    is.pos = 0;
    is.st = std::ios_base::iostate(state & 7);
    is.throws = throws;
    FX o = raw<FX>(77);
    bool thrown = false;
    try
    {
        extract<FX>(is, o);
    }
    catch(const stream_failure&)
    {
        thrown = true;
    }
    ref r = read_text<FX>(s, n, true);
    if(state & 7)
    {
        // nothing is read from a stream that is not good
        return o.internal_value() == VT<FX>(77) && is.pos == 0 ? 1 : 2;
    }
    if(n == 0)
        return o.internal_value() == VT<FX>(77) && is.eof() ? 1 : 3;
    if(is.fail() != !r.ok || thrown != (throws && !r.ok))
        return 4;
    if(o.internal_value() != (r.ok ? VT<FX>(r.value) : VT<FX>(77)))
        return 5;
    if(r.ok && (is.pos != r.used || is.eof() != (r.used == n)))
        return 6;
    return 1;
}
#define D(name, T, I, F, R) H ext_##name(const char* s, int64_t n, int32_t state, int32_t th) { return judge<name>(s, size_t(n), state, th != 0); }
ALL_FORMATS(D)
