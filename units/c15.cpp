// C15: circuit bootstrapping.  Every variant x bit x position in the margin x
// mask family x keys; every row and column of the resulting GSW sample is
// checked against its definition, and the sample is used as a selector.
#define VF_MAIN
#include "tlwe.hpp"
#include "circuitbootstrapping.hpp"
#include "detwfa.hpp"
#include "gates.hpp"
using namespace TFHEpp;

// largest phase error over all rows and coefficients of a GSW sample of bit m
template <class G>
double gsw_error(const TRGSW<G> &g, const Key<G> &key, int m, std::string &where)
{
    using T = typename G::T;
    double worst = 0;
    for (size_t k = 0; k <= G::k; k++)
        for (size_t i = 0; i < G::l; i++) {
            const auto ph = ref::phase<G>(g[k * G::l + i], key);
            const T h = T(T(1) << (ref::W<T> - (i + 1) * G::Bgbit));
            for (size_t j = 0; j < G::n; j++) {
                T want = 0;
                if (m) want = k == G::k ? (j == 0 ? h : T(0)) : T(T(0) - h * T(ref::sgn(key[k * G::n + j])));
                const double d = double(ref::dist<T>(ph[j], want)) * std::pow(2.0, -ref::W<T>);
                if (d > worst) { worst = d; where = vf::fmt("row %zu digit %zu coefficient %zu", k, i, j); }
            }
        }
    return worst;
}
template <class G>
TRGSW<G> back(const TRGSWFFT<G> &f)
{
    TRGSW<G> g;
    for (size_t r = 0; r < f.size(); r++)
        for (size_t j = 0; j <= G::k; j++) {
            alignas(64) PolynomialInFD<G> t = f[r][j];
            if constexpr (std::is_same_v<typename G::T, uint32_t>) TwistFFT<G>(g[r][j], t);
            else TwistFFT<G>(g[r][j], t);
        }
    return g;
}
template <class G, class I>
void judge(const std::string &name, const TRGSW<G> &g, const Key<G> &key, int m, double lim, I info)
{
    std::string where;
    const double e = gsw_error<G>(g, key, m, where);
    vf::transitions++; vf::evaluations += (G::k + 1) * G::l * G::n;
    auto &ctr = vf::counters["max:" + name + "/percent-of-bound"];
    ctr = std::max(ctr, uint64_t(100 * e / lim));
    VF_CHECK(e <= lim, name, "%s of the GSW sample of %d is off by %.3g (allowed %.3g); %s", where.c_str(), m, e, lim, info().c_str());
}
// f(bit, sample, info): bit x position in the margin x mask family
template <class P, class F>
void inputs(const std::string &form, const Key<P> &key, double margin, uint64_t kid, F f)
{
    using T = typename P::T;
    const double pos[] = {0.125, margin + 1e-3, 0.25, 0.5 - margin - 1e-3, 0.375};
    if (margin > 0.11) { vf::fail(form + "/harness", vf::fmt("no margin %g", margin)); return; }
    for (int b = 0; b < 2; b++)
        for (int p = 0; p < 5; p++)
            for (uint64_t q = 0; q < (vf::thorough ? 24u : 8u); q++) {
                if (!vf::next_case()) continue;
                if (!vf::thorough && (p + q + kid) % 2 && p) continue;
                vf::state(vf::hash(form.data(), form.size(), kid * 1000 + b * 500 + p * 50 + q));
                const double ph = (b ? 1 : -1) * pos[p];
                f(b, vf::exact<P>(vf::torus<T>(ph), key, q), [=] { return vf::fmt("bit %d input phase %.4f masks %llu keys %llu", b, ph, (unsigned long long)q, (unsigned long long)kid); });
            }
}
// the sample selects: CMUX on packed data at edge values
template <class G, class I>
void selects(const std::string &name, const TRGSWFFT<G> &g, const Key<G> &key, int m, double gswerr, I info)
{
    using T = typename G::T;
    alignas(64) TRLWE<G> a, b, r;
    for (size_t k = 0; k <= G::k; k++)
        for (size_t i = 0; i < G::n; i++) {
            a[k][i] = T(vf::prng(31 + k, i) >> (64 - ref::W<T>));
            b[k][i] = ref::edges<T>()[(i + k) % 9];
        }
    CMUXFFT<G>(r, g, a, b);
    const auto want = ref::phase<G>(m ? a : b, key);
    const double d = double(ref::maxdist<T, G::n>(ref::phase<G>(r, key), want)) * std::pow(2.0, -ref::W<T>);
    // every digit meets a row whose phase is off by at most gswerr
    const double lim = vf::xp_bound<G>(1, key) + gswerr * std::pow(2.0, G::Bgbit - 1) * (G::k + 1) * G::l * G::n;
    vf::evaluations += G::n;
    VF_CHECK(d <= lim, name + "/select", "selection by the result off by %.3g (allowed %.3g); %s", d, lim, info().c_str());
}
template <class PK, class BK, class IK>
void run(const char *nm, uint64_t kid, const SecretKey &sk, const EvalKey &ek, bool sub)
{
    using D = typename BK::domainP;
    using M = typename BK::targetP;
    using G = typename PK::targetP;
    using I = typename IK::domainP;
    const auto k0 = sk.key.get<D>();
    const auto km = sk.key.get<M>();
    const auto kg = sk.key.get<G>();
    const auto ki = sk.key.get<I>();
    constexpr uint32_t bw = bits_needed<G::l - 1>();
    const double l1 = vf::keyl1(k0);
    const double margin = (1 + l1 / 2) * (1 << bw) / (2.0 * M::n) + 1e-9;
    const double ikb = vf::ks_bound<IK>(ki, IK::t, IK::basebit);
    const double boot = vf::boot_bound<BK>(km);
    const double eng = ref::W<typename G::T> == 64 ? std::pow(2.0, -46) : std::pow(2.0, -31);
    const double priv = (vf::keyl1(km) + 1) * std::pow(2.0, -double(PK::t * PK::basebit + 1)) + double(PK::domainP::k * PK::domainP::n + 1) * PK::t * eng;
    double lim = boot + priv;
    const double last = std::pow(2.0, -double(G::l * G::Bgbit));
    if (lim > (PK::targetP::nbit == BK::targetP::nbit ? last * std::pow(2.0, 2.0 * G::Bgbit) * 0.05 : last * 0.25)) vf::fail(std::string(nm) + "/harness", vf::fmt("bound %g against last digit %g (boot %g, private %g)", lim, last, boot, priv));
    const double flim = lim + std::pow(2.0, ref::W<typename G::T> == 64 ? -44 : -31) * 4;
    auto g = std::make_unique<TRGSW<G>>();
    auto f = std::make_unique<TRGSWFFT<G>>(), fi = std::make_unique<TRGSWFFT<G>>();
    auto dirty = [&] { for (auto &r : *g) for (auto &p : r) p.fill(typename G::T(0x55aa55aa)); for (auto *x : {f.get(), fi.get()}) for (auto &r : *x) for (auto &p : r) p.fill(1e5); };
    const std::string n = nm;
    if (!sub) {
        inputs<D>(n + "/domain", k0, margin, kid, [&](int b, const TLWE<D> &c, auto info) {
            dirty();
            CircuitBootstrapping<BK, PK>(*g, c, ek);
            judge<G>(n + "/plain", *g, kg, b, lim, info);
            CircuitBootstrappingFFT<BK, PK>(*f, c, ek);
            judge<G>(n + "/fft", back<G>(*f), kg, b, flim, info);
            selects<G>(n + "/fft", *f, kg, b, flim, info);
            CircuitBootstrappingFFTInv<BK, PK>(*fi, c, ek);
            judge<G>(n + "/inverse", back<G>(*fi), kg, !b, flim, info);
            selects<G>(n + "/inverse", *fi, kg, !b, flim, info);
            dirty();
            CircuitBootstrappingFFTwithInv<BK, PK>(*f, *fi, c, ek);
            judge<G>(n + "/with-inverse", back<G>(*f), kg, b, flim, info);
            judge<G>(n + "/with-inverse-neg", back<G>(*fi), kg, !b, flim, info);
            selects<G>(n + "/with-inverse-neg", *fi, kg, !b, flim, info);
        });
        inputs<I>(n + "/switched", ki, margin + ikb, kid, [&](int b, const TLWE<I> &c, auto info) {
            dirty();
            CircuitBootstrapping<IK, BK, PK>(*g, c, ek);
            judge<G>(n + "/ks-plain", *g, kg, b, lim, info);
            CircuitBootstrappingFFT<IK, BK, PK>(*f, c, ek);
            judge<G>(n + "/ks-fft", back<G>(*f), kg, b, flim, info);
            CircuitBootstrappingFFTInv<IK, BK, PK>(*fi, c, ek);
            judge<G>(n + "/ks-inverse", back<G>(*fi), kg, !b, flim, info);
            dirty();
            CircuitBootstrappingFFTwithInv<IK, BK, PK>(*f, *fi, c, ek);
            judge<G>(n + "/ks-with-inverse", back<G>(*f), kg, b, flim, info);
            judge<G>(n + "/ks-with-inverse-neg", back<G>(*fi), kg, !b, flim, info);
        });
    }
    else if constexpr (std::is_same_v<PK, lvl21param>) {
        // lvl1 key is a prefix of the lvl2 key here; two more switches
        const double slim = boot + vf::keyl1(km) * std::pow(2.0, -double(PK::t * PK::basebit + 1)) + (vf::keyl1(kg) + 1) * std::pow(2.0, -double(PK::t * PK::basebit + 1)) + (vf::keyl1(kg) + 1) * std::pow(2.0, -double(ref::W<typename G::T> + 1)) + double(M::k * M::n + G::k * G::n + 1) * PK::t * eng;
        if (slim > last * 0.3) vf::fail(n + "/harness", vf::fmt("subset bound %g against last digit %g", slim, last));
        inputs<I>(n + "/subset", ki, margin + ikb, kid, [&](int b, const TLWE<I> &c, auto info) {
            dirty();
            CircuitBootstrappingSub<IK, BK, PK>(*g, c, ek);
            judge<G>(n + "/subset", *g, kg, b, slim, info);
            CircuitBootstrappingSubFFT<IK, BK, PK>(*f, c, ek);
            judge<G>(n + "/subset-fft", back<G>(*f), kg, b, slim + flim - lim, info);
            selects<G>(n + "/subset-fft", *f, kg, b, slim + flim - lim, info);
        });
    }
}
int main(int argc, char **argv)
{
    vf::init(argc, argv);
    vf::set_noise(0);
    const auto k0 = ref::allkeys<lvl0param>();
    const auto k1 = ref::keys<lvl1param>(1);
    const auto k2 = ref::keys<lvl2param>(1);
    const size_t st = k0.size() > 16 ? 7 : k0.size() > 4 ? 3 : 1;
    size_t kid = 0;
    for (size_t i = 0; i < k0.size(); i += st, kid++)
        for (int sub = 0; sub < 2; sub++) {
            if (sub && lvl1param::k * lvl1param::n > lvl2param::k * lvl2param::n) continue;
            vf::free_rng(i * 13 + 5);
            auto sk = std::make_unique<SecretKey>();
            ref::setkey<lvl0param>(*sk, k0[i]);
            ref::setkey<lvl1param>(*sk, k1[(i + 3) % k1.size()]);
            ref::setkey<lvl2param>(*sk, k2[(i + 3) % k2.size()]);
            if (sub) for (size_t j = 0; j < lvl1param::k * lvl1param::n; j++) sk->key.lvl1[j] = lvl1param::T(int64_t(sk->key.lvl2[j]));
            if constexpr (lvl1param::key_value_min == 0) if (sub) for (auto &x : sk->key.lvl2) x &= 1;
            if constexpr (lvl1param::key_value_min == 0) if (sub) for (size_t j = 0; j < lvl1param::k * lvl1param::n; j++) sk->key.lvl1[j] = lvl1param::T(sk->key.lvl2[j]);
            auto ek = std::make_unique<EvalKey>(*sk);
            ek->emplacebkfft<lvl02param>(*sk);
            ek->emplaceiksk<lvl10param>(*sk);
            if (sub) {
                ek->emplacesubiksk<lvl21param>(*sk);
                ek->emplacesubprivksk4cb<lvl21param>(*sk);
                run<lvl21param, lvl02param, lvl10param>("21sub", kid, *sk, *ek, true);
            }
            else {
                ek->emplaceprivksk4cb<lvl21param>(*sk);
                run<lvl21param, lvl02param, lvl10param>("21", kid, *sk, *ek, false);
                ek->emplaceprivksk4cb<lvl22param>(*sk);
                run<lvl22param, lvl02param, lvl10param>("22", kid, *sk, *ek, false);
            }
        }
    vf::sample(vf::fmt("%zu domain keys x {21, 22, 21 subset} x 2 bits x 5 phases x 8 masks, all rows and coefficients", kid));
    vf::finish();
}
