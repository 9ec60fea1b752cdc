// Gate-level helpers: contexts with chosen keys, samples of exact phase, bounds.
#pragma once
#include "xp.hpp"
namespace vf {
// LWE sample of exact phase `ph` with mask pattern q
template <class P>
TFHEpp::TLWE<P> exact(typename P::T ph, const TFHEpp::Key<P> &key, uint64_t q)
{
    using T = typename P::T;
    constexpr int w = ref::W<T>;
    constexpr size_t n = P::k * P::n;
    TFHEpp::TLWE<P> c;
    for (size_t i = 0; i < n; i++) {
        const uint64_t h = prng(q * 131 + 17, i);
        switch (q % 8) {
        case 0: c[i] = 0; break;                                  // trivial
        case 1: c[i] = T(h >> (64 - w)); break;
        case 2: c[i] = T(T(h % 64) << (w - 6)) + (T(1) << (w - 7)); break;      // rounding ties
        case 3: c[i] = T(T(h % 64) << (w - 6)) + (T(1) << (w - 7)) - 1; break;
        case 4: c[i] = T(T(h % 128) << (w - 7)); break;
        case 5: c[i] = T(~T(0)); break;
        case 6: c[i] = T(T(1) << (w - 1)) - T(h & 1); break;
        default: c[i] = i % 2 ? T(h >> (64 - w)) : T(0); break;
        }
    }
    c[n] = 0;
    c[n] = T(ph - ref::phase<P>(c, key));
    return c;
}
template <class T>
T torus(double x) { return T(int64_t(std::llround((x - std::round(x)) * std::pow(2.0, ref::W<T>)))); }
template <class BK>
double boot_bound(const TFHEpp::Key<typename BK::targetP> &tk)
{
    using D = typename BK::domainP;
    double fac = 2.0 * D::n * D::k * (D::key_value_max - D::key_value_min);
#if defined(USE_KEY_BUNDLE) || defined(USE_TERNARY_CMUX)
    fac *= 4;
#endif
    if (!tiny) fac = 2.0 * std::sqrt(double(D::n)) * (D::key_value_max - D::key_value_min) * 1.5;
    return fac * xp_bound<typename BK::targetP>(1, tk);
}
// how far a bootstrap may misplace its input phase
template <class BK>
double rot_bound(const TFHEpp::Key<typename BK::domainP> &dk)
{
    const double l1 = keyl1(dk);
    return (1 + (tiny ? l1 / 2 : 8 * std::sqrt(l1 / 12))) / (2.0 * BK::targetP::n);
}
}  // namespace vf
