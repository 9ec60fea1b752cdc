// Reference model: plain integer definitions of LWE/RLWE objects, written
// without any of the library's arithmetic.
#pragma once
#include "vf.hpp"
#include <limits>
#include <type_traits>

namespace ref {
using TFHEpp::Key;
using TFHEpp::Polynomial;
using TFHEpp::TLWE;
using TFHEpp::TRLWE;

template <class T> constexpr int W = std::numeric_limits<T>::digits;
template <class T> using S = std::make_signed_t<T>;
template <class T> inline int64_t sgn(T x) { return static_cast<S<T>>(x); }
// |a-b| on the torus, in units of the last place
template <class T>
inline uint64_t dist(T a, T b)
{
    T d = static_cast<T>(a - b), e = static_cast<T>(b - a);
    return d < e ? d : e;
}
template <class P>
typename P::T phase(const TLWE<P> &c, const Key<P> &key)
{
    using T = typename P::T;
    uint64_t acc = c[P::k * P::n];
    for (size_t i = 0; i < P::k * P::n; i++) acc -= uint64_t(c[i]) * uint64_t(sgn<T>(key[i]));
    return static_cast<T>(acc);
}
// negacyclic product, 2^w torus by small integers
template <class T, size_t N>
std::array<T, N> negmul(const std::array<T, N> &a, const std::array<T, N> &b)
{
    std::array<uint64_t, N> r{};
    for (size_t j = 0; j < N; j++) {
        const uint64_t bj = uint64_t(sgn<T>(b[j]));
        if (!bj) continue;
        for (size_t i = 0; i < N; i++) {
            const uint64_t v = uint64_t(a[i]) * bj;
            if (i + j < N) r[i + j] += v;
            else r[i + j - N] -= v;
        }
    }
    std::array<T, N> o;
    for (size_t i = 0; i < N; i++) o[i] = static_cast<T>(r[i]);
    return o;
}
template <class T, size_t N>
std::array<T, N> monomul(const std::array<T, N> &a, uint64_t e)  // X^e * a
{
    std::array<T, N> o;
    for (size_t i = 0; i < N; i++) {
        uint64_t j = (i + e) % (2 * N);
        if (j < N) o[j] = a[i];
        else o[j - N] = static_cast<T>(0 - a[i]);
    }
    return o;
}
template <class P>
Polynomial<P> phase(const TRLWE<P> &c, const Key<P> &key)
{
    using T = typename P::T;
    Polynomial<P> r = c[P::k];
    for (size_t k = 0; k < P::k; k++) {
        std::array<T, P::n> s;
        for (size_t i = 0; i < P::n; i++) s[i] = key[k * P::n + i];
        auto m = negmul<T, P::n>(c[k], s);
        for (size_t i = 0; i < P::n; i++) r[i] -= m[i];
    }
    return r;
}
template <class T, size_t N>
uint64_t maxdist(const std::array<T, N> &a, const std::array<T, N> &b)
{
    uint64_t m = 0;
    for (size_t i = 0; i < N; i++) m = std::max(m, dist<T>(a[i], b[i]));
    return m;
}
// A set of interesting secret keys for a level: all-min, all-max, single
// non-zero entries, alternating, pseudo-random.
template <class P>
std::vector<Key<P>> keys(int nrand = 2, bool singles = true)
{
    std::vector<Key<P>> v;
    const int lo = P::key_value_min, hi = P::key_value_max;
    const size_t n = P::k * P::n;
    auto mk = [&](auto f) { Key<P> k; for (size_t i = 0; i < n; i++) k[i] = static_cast<typename P::T>(static_cast<int64_t>(f(i))); v.push_back(k); };
    mk([&](size_t) { return hi; });
    if (lo) mk([&](size_t) { return lo; });
    mk([&](size_t i) { return i & 1 ? lo : hi; });
    for (int r = 0; r < nrand; r++)
        mk([&](size_t i) { return lo + int(vf::prng(77 + r + vf::vseed, i) % uint64_t(hi - lo + 1)); });
    if (singles) {
        mk([&](size_t i) { return i == 0 ? hi : 0; });
        mk([&](size_t i) { return i == n - 1 ? (lo ? lo : hi) : 0; });
    }
    return v;
}
// every key of a small level
template <class P>
std::vector<Key<P>> allkeys()
{
    std::vector<Key<P>> v;
    const int lo = P::key_value_min, hi = P::key_value_max, d = hi - lo + 1;
    uint64_t tot = 1;
    for (size_t i = 0; i < P::k * P::n; i++) tot *= d;
    for (uint64_t c = 0; c < tot; c++) {
        Key<P> k;
        uint64_t x = c;
        for (auto &e : k) { e = static_cast<typename P::T>(static_cast<int64_t>(lo + int(x % d))); x /= d; }
        v.push_back(k);
    }
    return v;
}
// edge values of a w-bit word
template <class T>
std::vector<T> edges()
{
    const T h = T(T(1) << (W<T> - 1));
    return {0, 1, T(h - 1), h, T(h + 1), T(~T(0)), T(h >> 1), T(0x5555555555555555ull), T(0xb504f333f9de6484ull)};
}
// Install `k` as the level's key of a SecretKey.
template <class P>
void setkey(TFHEpp::SecretKey &sk, const Key<P> &k)
{
    if constexpr (std::is_same_v<P, TFHEpp::lvl0param>) sk.key.lvl0 = k;
    else if constexpr (std::is_same_v<P, TFHEpp::lvlhalfparam>) sk.key.lvlhalf = k;
    else if constexpr (std::is_same_v<P, TFHEpp::lvl1param>) sk.key.lvl1 = k;
    else if constexpr (std::is_same_v<P, TFHEpp::lvl2param>) sk.key.lvl2 = k;
    else sk.key.lvl3 = k;
}
}  // namespace ref

#ifdef TFHEPP_VERIF_PARAMS
// Noise-free exploration: a standard deviation that rounds to zero.
namespace vf {
inline void set_noise(double a)
{
    using namespace TFHEpp;
    lvl0param::α = lvlhalfparam::α = lvl1param::α = lvl2param::α = lvl3param::α = a;
    lvl10param::α = lvl1hparam::α = lvl11param::α = lvl20param::α = lvl2hparam::α = lvl21param::α = lvl22param::α = lvl31param::α = a;
}
}
#endif
