#include "fmt.hpp"
#include <ostream>
#include <eirin/random.hpp>
using eirin::pcg2014;
using eirin::pcg2014_64;
template <class E> using RT = typename E::result_type;
template <class E> __attribute__((noinline)) static E make(RT<E> s) { return E(s); }
template <class E> __attribute__((noinline)) static RT<E> next(E& e) { return e(); }
template <class E> __attribute__((noinline)) static void skip(E& e, unsigned long long n) { e.discard(n); }
template <class E> __attribute__((noinline)) static void reseed(E& e, RT<E> s) { e.seed(s); }
template <class E> __attribute__((noinline)) static bool same(const E& a, const E& b) { return a == b; }
template <class E> __attribute__((noinline)) static bool differ(const E& a, const E& b) { return a != b; }
// the documented generator: output number k for seed s
template <class E> static inline RT<E> ref(RT<E> s, RT<E> k)
{
    typedef RT<E> U;
    U x = U(E::init_state + k) * E::multiplier_size + s;
    x ^= x >> 8;
    x += E::increment_size;
    x = (x << 8) ^ x;
    x *= E::xor_multiplier_size;
    x ^= x >> 8;
    x *= E::mix_multiplier_size;
    return (x & U(0x7FFFFFFE)) ^ (x >> 8);
}
// outputs k, k+1, k+2 of seed s
template <class E> static inline int value(RT<E> s, uint64_t k)
{
    E e = make<E>(s);
    skip(e, k);
    for(unsigned i = 0; i < 3; i++)
        if(next(e) != ref<E>(s, RT<E>(k + i)))
            return 2 + i;
    return 1;
}
// discard(n) = n calls, from any position
template <class E> static inline int discards(RT<E> s, uint64_t k, int n)
{
    E a = make<E>(s), b = make<E>(s);
    skip(a, k);
    skip(b, k);
    skip(a, n);
    for(int i = 0; i < n; i++)
        next(b);
    if(!same(a, b) || differ(a, b))
        return 2;
    return next(a) == next(b) ? 1 : 3;
}
template <class E> static inline int splits(RT<E> s, uint64_t p, uint64_t q)
{
    E a = make<E>(s), b = make<E>(s);
    skip(a, p);
    skip(a, q);
    skip(b, p + q);
    if(!same(a, b))
        return 2;
    return next(a) == next(b) ? 1 : 3;
}
// seeding forgets the history; the default arguments agree
template <class E> static inline int seeds(RT<E> s, uint64_t k, RT<E> s2)
{
    E a = make<E>(s), b = make<E>(s2);
    skip(a, k);
    next(a);
    reseed(a, s2);
    if(!same(a, b))
        return 2;
    if(next(a) != next(b))
        return 3;
    E c;
    E d = make<E>(E::default_seed);
    if(!same(c, d))
        return 4;
    a.seed();
    if(!same(a, d))
        return 5;
    return next(c) == next(d) ? 1 : 6;
}
// engines are equal exactly when they are at the same position of the same sequence; copies do not disturb each other
template <class E> static inline int equal(RT<E> s, RT<E> t, uint64_t k, uint64_t l)
{
    E a = make<E>(s), b = make<E>(t);
    skip(a, k);
    skip(b, l);
    bool want = s == t && RT<E>(k) == RT<E>(l);
    if(same(a, b) != want)
        return 2;
    if(differ(a, b) != !want)
        return 3;
    E c = a;
    RT<E> x = next(c);
    if(same(c, a))
        return 4;
    return next(a) == x ? 1 : 5;
}
// the adapters reinterpret the bits of the engine's outputs
template <class E, class FX> static inline int adapts(RT<E> s, uint64_t k)
{
    eirin::fixed_random_engine_adapter<FX, E> g, g2;
    E e = make<E>(s);
    g.seed(s);
    g.discard(k);
    skip(e, k);
    if(g().internal_value() != VT<FX>(next(e)))
        return 2;
    if(g().internal_value() != VT<FX>(next(e)))
        return 3;
    if(!same(g.__underlying_engine(), e))
        return 4;
    g2.seed(s);
    g2.discard(k + 2);
    if(!(g == g2) || g != g2)
        return 5;
    if(g.min() != std::numeric_limits<FX>::min() || g.max() != std::numeric_limits<FX>::max())
        return 6;
    return 1;
}
#define D(n, E, U) \
    H value_##n(U s, uint64_t k) { return value<E>(s, k); } \
    H discard_##n(U s, uint64_t k, int m) { return discards<E>(s, k, m); } \
    H split_##n(U s, uint64_t p, uint64_t q) { return splits<E>(s, p, q); } \
    H seed_##n(U s, uint64_t k, U s2) { return seeds<E>(s, k, s2); } \
    H equal_##n(U s, U t, uint64_t k, uint64_t l) { return equal<E>(s, t, k, l); }
D(32, pcg2014, uint32_t)
D(64, pcg2014_64, uint64_t)
H adapt_32(uint32_t s, uint64_t k) { return adapts<pcg2014, fixed32>(s, k); }
H adapt_64(uint64_t s, uint64_t k) { return adapts<pcg2014_64, fixed64>(s, k); }
H adapt_64_32(uint64_t s, uint64_t k) { return adapts<pcg2014_64, fixed32>(s, k); }
