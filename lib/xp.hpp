// Sound error bound of an external product (fraction of the torus).
#pragma once
#include "ks.hpp"
namespace vf {
#ifdef TFHEPP_VERIF_PARAMS
inline constexpr bool tiny = true;
#else
inline constexpr bool tiny = false;
#endif
enum Engine { FFT, NTT, RAIN };
template <class P>
double noise_sd()
{
    if constexpr (tiny && !TFHEpp::hasq<P>) return 0;
    if constexpr (P::errordist == TFHEpp::ErrorDistribution::ModularGaussian) return P::α;
    else return std::sqrt(P::η / 2.0) / double(P::q);
}
// product by a GSW sample of a plaintext of l1 norm m1
template <class P>
double xp_bound(double m1, const TFHEpp::Key<P> &key, Engine e = FFT, bool half = false)
{
    constexpr int w = ref::W<typename P::T>;
    constexpr int L = P::l, B = P::Bgbit;
    constexpr double N = P::n;
    const double rows = double(half ? 1 : P::k + 1) * L, cols = rows * N;
    double r = m1 * ((half ? 0 : keyl1(key)) + 1) * std::pow(2.0, -double(L * B + 1));
    const double digit = std::pow(2.0, B - 1);
    r += 8 * noise_sd<P>() * digit * std::sqrt(cols);
    const double enc = w == 64 ? std::pow(2.0, -48) * std::sqrt(N) : std::pow(2.0, -32);
    const double av = tiny ? 1 : std::min(1.0, 8 / std::sqrt(cols));
    r += enc * digit * cols * av;
    r += std::pow(2.0, -53) * 3 * P::nbit * digit * N * rows;
    r += std::pow(2.0, -w) * (N + 2) * rows;
    if (e == RAIN) r += std::pow(2.0, -(TFHEpp::hasq<P> ? 26 : 30)) * digit * cols * av;
    return r;
}
}  // namespace vf
