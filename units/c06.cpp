// C06: LWE-to-LWE key switching: every digit value at every coordinate, for
// full, concatenating and subset switching keys.
#define VF_MAIN
#include "tlwe.hpp"
#include "trlwe.hpp"
#include "trgsw.hpp"
#include "key.hpp"
#include "cloudkey.hpp"
#include "keyswitch.hpp"
#include "ks.hpp"
using namespace TFHEpp;

#ifdef TFHEPP_VERIF_PARAMS
static constexpr bool tiny = true;
#else
static constexpr bool tiny = false;
#endif
// noise of a switching key element, standard deviations of the torus
template <class P>
double noise()
{
    if constexpr (tiny && !hasq<typename P::targetP>) return 0;
    if constexpr (P::targetP::errordist == ErrorDistribution::ModularGaussian) return P::targetP::α;
    else return std::sqrt(P::targetP::η / 2.0) / double(P::targetP::q);
}
template <class P>
double nbound(size_t rows)
{
    // the largest |noise| the generator can answer with is about 9 deviations;
    // sums of `rows` independent elements stay within 8 of their own
    return noise<P>() * 8 * std::sqrt(double(rows)) + (noise<P>() > 0 ? double(rows) : 0) * std::pow(2.0, -(ref::W<typename P::targetP::T> + 1));
}
template <class P, class F>
void explore(F f)
{
    using D = typename P::domainP;
    if (tiny) vf::ks_samples<D>(P::t, P::basebit, vf::thorough, vf::coords(D::k * D::n), f);
    else vf::ks_rotations<D>(P::t, P::basebit, vf::thorough ? 1000 : 32, f);
}
template <class P>
void level(const char *name)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    if constexpr (P::t > 0) {
        auto dk = ref::keys<D>(1);
    auto tk = ref::keys<G>(1, false);
        if (!tiny) { dk = {dk[dk.size() - 3], dk[0]}; tk = {tk.back()}; }
        auto ksk = std::make_unique<KeySwitchingKey<P>>();
        if (tiny && !vf::thorough && D::k * D::n > 40) dk.resize(4);
        for (size_t a = 0; a < dk.size(); a++) {
            const size_t b = a % tk.size();
            vf::free_rng(a * 31 + 7);
            ikskgen<P>(*ksk, dk[a], tk[b]);
            const double bound = vf::ks_bound<P>(dk[a], P::t, P::basebit) + nbound<P>(D::k * D::n * P::t) + 1e-12;
            auto judge = [&](const char *what, const TLWE<D> &c, const TLWE<G> &r, size_t i) {
                const auto pin = ref::phase<D>(c, dk[a]);
                const auto pout = ref::phase<G>(r, tk[b]);
                const double d = vf::tdist(pin, pout);
                vf::transitions++; vf::evaluations++;
                if (!(d <= bound)) vf::fail(vf::fmt("%s/%s", name, what), vf::fmt("keys %zu,%zu coordinate %zu word %llx: phase moved by %.3g of the torus, allowed %.3g", a, b, i, (unsigned long long)c[i], d, bound));
            };
            // the remaining ciphertexts of a concatenation: fixed, checked alongside
            std::array<TLWE<D>, 3> cat;
            for (int q = 0; q < 3; q++) for (size_t j = 0; j <= D::k * D::n; j++) cat[q][j] = typename D::T(vf::prng(700 + q, j));
            uint64_t cnt = 0;
            explore<P>([&](const TLWE<D> &c, size_t i) {
                TLWE<G> r;
                r.fill(typename G::T(0x5a5a));
                IdentityKeySwitch<P>(r, c, *ksk);
                judge("identity", c, r, i);
                if (cnt++ % 7 == 0) {
                    cat[cnt % 3] = c;
                    std::array<TLWE<G>, 3> rc;
                    CatIdentityKeySwitch<P, 3>(rc, cat, *ksk);
                    for (int q = 0; q < 3; q++) judge("concatenated", cat[q], rc[q], i);
                    std::array<TLWE<G>, 1> r1;
                    CatIdentityKeySwitch<P, 1>(r1, {c}, *ksk);
                    judge("concatenated", c, r1[0], i);
                    std::array<TLWE<G>, 2> r2;
                    CatIdentityKeySwitch<P, 2>(r2, {cat[0], c}, *ksk);
                    judge("concatenated", cat[0], r2[0], i);
                    judge("concatenated", c, r2[1], i);
                }
            });
        }
        vf::sample(vf::fmt("%s: t=%u basebit=%u, %zu key pairs, %u coordinates", name, unsigned(P::t), unsigned(P::basebit), dk.size(), unsigned(D::k * D::n)));
    }
}
// target key is a prefix of the domain key
template <class P>
void subset(const char *name)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    if constexpr (P::t > 0 && D::k * D::n >= G::k * G::n) {
        auto dk = ref::keys<D>(2);
        if (!tiny) dk = {dk.back(), dk[dk.size() - 3]};
        auto ksk = std::make_unique<SubsetKeySwitchingKey<P>>();
        for (size_t a = 0; a < dk.size(); a++) {
            // the common values only: both levels must be able to hold the subset
            bool ok = true;
            for (size_t i = 0; i < G::k * G::n; i++) { const int64_t v = ref::sgn(dk[a][i]); ok &= v >= G::key_value_min && v <= G::key_value_max; }
            if (!ok) continue;
            Key<G> tk;
            for (size_t i = 0; i < G::k * G::n; i++) tk[i] = typename G::T(dk[a][i]);
            vf::free_rng(a * 17 + 3);
            subikskgen<P>(*ksk, dk[a]);
            double bound = vf::ks_bound<P>(dk[a], P::t, P::basebit) + nbound<P>(D::k * D::n * P::t) + 1e-12;
            if (ref::W<typename D::T> > ref::W<typename G::T>) bound += vf::keyl1(tk) * std::pow(2.0, -(ref::W<typename G::T> + 1));
            explore<P>([&](const TLWE<D> &c, size_t i) {
                TLWE<G> r;
                r.fill(typename G::T(0x5a5a));
                SubsetIdentityKeySwitch<P>(r, c, *ksk);
                const double d = vf::tdist(ref::phase<D>(c, dk[a]), ref::phase<G>(r, tk));
                vf::transitions++; vf::evaluations++;
                if (!(d <= bound)) vf::fail(vf::fmt("%s/subset", name), vf::fmt("key %zu coordinate %zu word %llx: phase moved by %.3g, allowed %.3g", a, i, (unsigned long long)c[i], d, bound));
            });
        }
    }
}
int main(int argc, char **argv)
{
    vf::init(argc, argv);
#ifdef TFHEPP_VERIF_PARAMS
    vf::set_noise(0);
#endif
    level<lvl10param>("lvl10");
    level<lvl1hparam>("lvl1h");
    level<lvl20param>("lvl20");
    level<lvl21param>("lvl21");
#ifdef TFHEPP_VERIF_PARAMS
    level<lvl2hparam>("lvl2h");
    level<lvl11param>("lvl11");
    level<lvl22param>("lvl22");
    level<lvl31param>("lvl31");
#endif
    subset<lvl21param>("lvl21");
    vf::finish();
}
