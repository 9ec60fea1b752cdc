// Enumeration of the words a key switch decomposes: all values of adjacent
// digit pairs (or all words of the kept digits), carries and low bits.
#pragma once
#include "lv.hpp"
namespace vf {
// f(word) for every word in the family of a (t, basebit) decomposition
template <class T, class F>
void ks_words(int t, int bb, bool full, F f)
{
    constexpr int w = ref::W<T>;
    const int kept = std::min(w, t * bb), low = w - kept;
    std::vector<T> lows{0};
    if (low > 0) { lows = {0, T((T(1) << (low - 1)) - 1), T(T(1) << (low - 1)), T((T(1) << low) - 1)}; }
    if (full && kept <= 16) {
        for (uint64_t x = 0; x < (1ull << kept); x++)
            for (T l : lows) f(T(T(x) << low | l));
        return;
    }
    const T B = T(1) << bb;
    std::set<T> es{0, T(B >> 1), T((B >> 1) - (bb > 1)), T(B - 1), 1};
    std::vector<T> edges(es.begin(), es.end());
    for (int p = 0; p < t; p++)
        for (T v = 0; v < B; v++)          // digit p: every value
            for (T nx : edges)             // the next digit: at a carry boundary
                for (T rest : {T(0), T(B - 1), T(B >> 1)}) {
                    if (!full && rest) break;
                    for (T l : lows) {
                        T x = l;
                        for (int q = 0; q < t; q++) {
                            const int sh = w - (q + 1) * bb;
                            if (sh < 0) continue;
                            x |= T((q == p ? v : q == p + 1 ? nx : rest) << sh);
                        }
                        f(x);
                    }
                }
}
// torus value of a word, in fractions of the torus
template <class T>
double frac(T x) { return double(ref::sgn<T>(x)) / std::pow(2.0, ref::W<T>); }
// distance on the torus between a (domain word) and b (target word)
template <class A, class B>
double tdist(A a, B b)
{
    long double d = (long double)ref::sgn<A>(a) / std::pow(2.0L, ref::W<A>) - (long double)ref::sgn<B>(b) / std::pow(2.0L, ref::W<B>);
    d -= std::round(d);
    return double(std::fabs(d));
}
template <class K>
double keyl1(const K &k)
{
    double s = 0;
    for (auto x : k) s += std::fabs(double(ref::sgn(x)));
    return s;
}
// Explore LWE samples of level P: each coordinate takes every word of the
// family while the others sit at `base` values; body at edges.
template <class P, class F>
void ks_samples(int t, int bb, bool full, const std::vector<size_t> &coords, F f)
{
    using T = typename P::T;
    constexpr size_t n = P::k * P::n;
    for (size_t i : coords)
        for (int bp = 0; bp < (full ? 3 : 2); bp++) {
            if (!vf::next_case()) continue;
            TFHEpp::TLWE<P> c;
            for (size_t j = 0; j <= n; j++) c[j] = bp == 0 ? T(0) : T(vf::prng(900 + bp, j));
            const auto be = ref::edges<T>();
            size_t nb = 0;
            ks_words<T>(t, bb, full && bp == 0, [&](T x) {
                c[n] = be[nb++ % be.size()];
                c[i] = x;   // i == n: the body itself is decomposed
                f(c, i);
            });
            vf::state(vf::mix(i * 4 + bp) ^ (uint64_t(bb) << 50) ^ (uint64_t(t) << 40));
        }
}
// Large dimensions: every coordinate runs through the digit edges at once,
// each sample pairing them differently.
template <class P, class F>
void ks_rotations(int t, int bb, int count, F f)
{
    using T = typename P::T;
    constexpr size_t n = P::k * P::n;
    constexpr int w = ref::W<T>;
    std::vector<T> fam;
    const T B = T(1) << bb;
    const T es[5] = {0, T(B >> 1), T((B >> 1) - (bb > 1)), T(B - 1), 1};
    for (int p = 0; p < t; p++)
        for (T v : es) for (T nx : es) for (T rest : {T(0), T(B - 1)}) {
            T x = 0;
            for (int q = 0; q < t; q++) {
                const int sh = w - (q + 1) * bb;
                if (sh >= 0) x |= T((q == p ? v : q == p + 1 ? nx : rest) << sh);
            }
            const int low = w - t * bb;
            if (low > 0 && fam.size() % 2) x |= T((T(1) << (low - 1)) - fam.size() % 3 / 2);
            fam.push_back(x);
        }
    const auto be = ref::edges<T>();
    for (int s = 0; s < count; s++) {
        if (!vf::next_case()) continue;
        TFHEpp::TLWE<P> c;
        for (size_t i = 0; i < n; i++) c[i] = s == 0 ? T(0) : fam[(i * (2 * s + 1) + s) % fam.size()];
        c[n] = be[s % be.size()];
        vf::state(vf::hash(c.data(), sizeof c));
        f(c, size_t(s));
    }
}
inline std::vector<size_t> coords(size_t n)
{
    std::vector<size_t> v;
    if (n > 40 && !vf::thorough) { for (size_t i = 0; i < n; i++) if (i % 32 == 0 || i % 32 == 31 || i == 1) v.push_back(i); }
    else if (n <= 256) for (size_t i = 0; i < n; i++) v.push_back(i);
    else for (size_t i = 0; i < n; i++) if (i < 2 || i >= n - 2 || i % 128 == 0 || i % 128 == 127 || i % 512 == 1) v.push_back(i);
    return v;
}
// worst-case rounding of a switch whose digits cover t*bb bits
template <class P, class K>
double ks_bound(const K &domainkey, int t, int bb)
{
    using DT = typename P::domainP::T;
    using TT = typename P::targetP::T;
    const int kept = t * bb;
    double e = kept < ref::W<DT> ? keyl1(domainkey) * std::pow(2.0, -(kept + 1)) : 0;
    if (ref::W<DT> > ref::W<TT>) e += std::pow(2.0, -(ref::W<TT> + 1));
    return e;
}
}  // namespace vf
