#include "fmt.hpp"
#include <cassert>
#include <random>
#include <ostream>
#include <eirin/random.hpp>
// a generator that delivers arbitrary words (the inputs of the obligation), and remembers how many were taken
template <class U> struct gen
{
    typedef U result_type;
    U v[4];
    unsigned taken = 0;
    static constexpr U min() { return 0; }
    static constexpr U max() { return std::numeric_limits<U>::max(); }
    U operator()() { return v[taken++ & 3]; }
    gen& __underlying_engine() { return *this; }
};
// a distribution that may return anything in its range
template <class T> struct anydist
{
    typedef T result_type;
    struct param_type
    {
        typedef anydist distribution_type;
        T a_, b_;
        explicit param_type(T a = 0, T b = 0) : a_(a), b_(b) {}
    };
    param_type p;
    anydist(T a, T b) : p(a, b) {}
    template <class G> T operator()(G& g) { return (*this)(g, p); }
    template <class G> T operator()(G& g, const param_type& q)
    {
        typedef std::make_unsigned_t<T> U;
        U span = U(q.b_) - U(q.a_);
        U x = U(g());
        return T(U(q.a_) + (x <= span ? x : span));
    }
};
template <class A, class G, class FX> __attribute__((noinline)) static FX draw(A& d, G& g) { return d(g); }
template <class A, class G, class FX> __attribute__((noinline)) static FX drawp(A& d, G& g, const typename A::param_type& p) { return d(g, p); }
template <class A, class FX, class U> static inline int laws(VT<FX> a, VT<FX> b, VT<FX> a2, VT<FX> b2, U x, U y, unsigned limit)
{
    typedef gen<U> G;
    typedef typename A::param_type P;
    if(a > b || a2 > b2)
        return 0;
    FX fa = raw<FX>(a), fb = raw<FX>(b);
    A d(fa, fb);
    G g{{x, y, 0x12345678u, 0x9abcdef0u}};
    if(d.a() != fa || d.b() != fb || d.min() != fa || d.max() != fb || d.param().a() != fa || d.param().b() != fb)
        return 2;
    FX r = draw<A, G, FX>(d, g);
    if(g.taken > limit)
        return 0;
    if(r < fa || r > fb)
        return 3;
    // the distribution's own parameters are used
    G h{{x, y, 0x12345678u, 0x9abcdef0u}};
    typename A::underlying_type u(a, b);
    if(VT<FX>(u(h)) != r.internal_value() || h.taken != g.taken)
        return 4;
    // parameters given with the call hold for that call only
    P p2(raw<FX>(a2), raw<FX>(b2));
    g.taken = h.taken = 0;
    FX r2 = drawp<A, G, FX>(d, g, p2);
    if(g.taken > limit)
        return 0;
    if(r2 < p2.a() || r2 > p2.b())
        return 5;
    if(d.a() != fa || d.b() != fb)
        return 6;
    g.taken = 0;
    d.reset();
    if(draw<A, G, FX>(d, g) != r)
        return 7;
    // param(p) replaces them
    d.param(p2);
    if(d.a() != p2.a() || d.b() != p2.b() || d.param() != p2 || !(d.param() == p2))
        return 8;
    g.taken = 0;
    if(draw<A, G, FX>(d, g) != r2)
        return 9;
    A d3(p2);
    g.taken = 0;
    if(draw<A, G, FX>(d3, g) != r2)
        return 10;
    bool eq = a == a2 && b == b2;
    if((P(fa, fb) == p2) != eq || (P(fa, fb) != p2) == eq)
        return 11;
    return 1;
}
typedef eirin::fixed_int_distribution_adapter<fixed32, anydist<int32_t>> IA32;
typedef eirin::fixed_distribution_adapter<fixed32, anydist<int32_t>> FA32;
typedef eirin::fixed_int_distribution_adapter<fixed64, anydist<int64_t>> IA64;
typedef eirin::fixed_distribution_adapter<fixed64, anydist<int64_t>> FA64;
H any_int32(int32_t a, int32_t b, int32_t c, int32_t d, uint32_t x, uint32_t y) { return laws<IA32, fixed32, uint32_t>(a, b, c, d, x, y, 4); }
H any_fix32(int32_t a, int32_t b, int32_t c, int32_t d, uint32_t x, uint32_t y) { return laws<FA32, fixed32, uint32_t>(a, b, c, d, x, y, 4); }
H any_int64(int64_t a, int64_t b, int64_t c, int64_t d, uint64_t x, uint64_t y) { return laws<IA64, fixed64, uint64_t>(a, b, c, d, x, y, 4); }
H any_fix64(int64_t a, int64_t b, int64_t c, int64_t d, uint64_t x, uint64_t y) { return laws<FA64, fixed64, uint64_t>(a, b, c, d, x, y, 4); }
