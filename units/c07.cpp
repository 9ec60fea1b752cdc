// C07: private functional key switching and TLWE-to-TRLWE switching: every
// digit value at every coordinate (body included), per-coefficient verdict.
#define VF_MAIN
#include "tlwe.hpp"
#include "trlwe.hpp"
#include "trgsw.hpp"
#include "key.hpp"
#include "cloudkey.hpp"
#include "keyswitch.hpp"
#include "ks.hpp"
using namespace TFHEpp;

#ifdef TFHEPP_VERIF_PARAMS
static constexpr bool tiny = true;
#else
static constexpr bool tiny = false;
#endif
template <class G>
double noise()
{
    if constexpr (tiny && !hasq<G>) return 0;
    if constexpr (G::errordist == ErrorDistribution::ModularGaussian) return G::α;
    else return std::sqrt(G::η / 2.0) / double(G::q);
}
// rounding of the product that made each element, and of its noise
template <class G>
double ebound(double rows)
{
    const double eng = ref::W<typename G::T> == 64 ? std::pow(2.0, -46) : std::pow(2.0, -31);
    return rows * eng + noise<G>() * 8 * std::sqrt(rows);
}
template <class G>
struct Func { std::string name; Polynomial<G> f; };
template <class G>
std::vector<Func<G>> funcs(const Key<G> &key)
{
    using T = typename G::T;
    std::vector<Func<G>> v;
    auto mk = [&](std::string n, auto f) { Func<G> r; r.name = n; for (size_t i = 0; i < G::n; i++) r.f[i] = T(int64_t(f(i))); v.push_back(r); };
    mk("1", [](size_t i) { return i == 0; });
    mk("-key0", [&](size_t i) { return -int64_t(ref::sgn(key[i])); });
    mk("mixed", [](size_t i) { return int(vf::prng(61, i) % 7) - 3; });
    mk("keyk", [&](size_t i) { return int64_t(ref::sgn(key[(G::k - 1) * G::n + i])); });
    mk("-X^(n-1)", [](size_t i) { return i == G::n - 1 ? -1 : 0; });
    return v;
}
// out must be f * phase, coefficient by coefficient
template <class G, class DT>
void judge(const std::string &key, const TRLWE<G> &r, const Key<G> &tk, DT pin, const Polynomial<G> &f, double round, double extra, const std::string &info)
{
    const auto ph = ref::phase<G>(r, tk);
    vf::transitions++; vf::evaluations += G::n;
    const long double x = (long double)ref::sgn<DT>(pin) / std::pow(2.0L, ref::W<DT>);
    for (size_t i = 0; i < G::n; i++) {
        const long double fi = ref::sgn(f[i]);
        long double d = x * fi - (long double)ref::sgn(ph[i]) / std::pow(2.0L, ref::W<typename G::T>);
        d -= std::round(d);
        const double lim = double(std::fabs(fi)) * round + extra;
        if (!(std::fabs(d) <= lim)) {
            vf::fail(key, vf::fmt("coefficient %zu off by %.3Lg of the torus (allowed %.3g) %s", i, d, lim, info.c_str()));
            return;
        }
    }
}
template <class P, class F>
void explore(F f)
{
    using D = typename P::domainP;
    if (tiny) {
        auto c = vf::coords(D::k * D::n);
        if (!vf::thorough && c.size() > 12) { std::vector<size_t> d; for (size_t i = 0; i < c.size(); i++) if (i < 2 || i % (1 + c.size() / 8) == 0 || i + 2 > c.size()) d.push_back(c[i]); c = d; }
        c.push_back(D::k * D::n);
        vf::ks_samples<D>(P::t, P::basebit, vf::thorough, c, f);
        vf::ks_rotations<D>(P::t, P::basebit, vf::thorough ? 512 : 64, f);
    }
    else vf::ks_rotations<D>(P::t, P::basebit, vf::thorough ? 200 : 16, f);
}
template <class P>
void priv(const char *name)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    auto dk = ref::keys<D>(1);
    auto tk = ref::keys<G>(1, false);
    auto privksk = std::make_unique<PrivateKeySwitchingKey<P>>();
    size_t run = 0;
    for (size_t fi = 0; fi < 5; fi++)
        for (size_t a = 0; a < dk.size(); a++) {
            const size_t b = (a + fi) % tk.size();
            if (!vf::thorough && (a + fi) % 3) continue;   // pairings: every function and every key, not every pair
            const auto fn = funcs<G>(tk[b])[fi];
            vf::free_rng(run++ * 31 + 11);
            privkskgen<P>(*privksk, fn.f, dk[a], tk[b]);
            double l1f = 0;
            for (auto x : fn.f) l1f = std::max(l1f, std::fabs(double(ref::sgn(x))));
            const double round = (vf::keyl1(dk[a]) + 1) * std::pow(2.0, -double(P::t * P::basebit + 1));
            const double extra = ebound<G>(double(D::k * D::n + 1) * P::t) + 1e-15;
            explore<P>([&](const TLWE<D> &c, size_t i) {
                TRLWE<G> r;
                for (auto &q : r) q.fill(typename G::T(0x77));
                PrivKeySwitch<P>(r, c, *privksk);
                judge<G>(vf::fmt("%s/private", name), r, tk[b], ref::phase<D>(c, dk[a]), fn.f, round, extra,
                         vf::fmt("f=%s keys %zu,%zu coordinate %zu word %llx", fn.name.c_str(), a, b, i, (unsigned long long)c[std::min<size_t>(i, D::k * D::n)]));
            });
        }
    vf::sample(vf::fmt("%s private: t=%u basebit=%u, %zu (function, key, key) triples", name, unsigned(P::t), unsigned(P::basebit), run));
}
// input under a key that is a prefix of the domain key; target key independent
template <class P>
void subset(const char *name)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    if constexpr (D::k * D::n >= G::k * G::n) {
        struct Q : P { using domainP = G; };   // the words decomposed are the target's
        auto dk = ref::keys<D>(1);
        auto tk = ref::keys<G>(1, false);
        auto privksk = std::make_unique<SubsetPrivateKeySwitchingKey<P>>();
        size_t run = 0;
        for (size_t fi = 0; fi < 5; fi++)
            for (size_t a = 0; a < dk.size(); a++) {
                if (!vf::thorough && (a + fi) % 4) continue;
                const size_t b = (a + fi) % tk.size();
                Key<G> sub;
                for (size_t i = 0; i < G::k * G::n; i++) sub[i] = typename G::T(dk[a][i]);
                const auto fn = funcs<G>(tk[b])[fi];
                vf::free_rng(run++ * 37 + 5);
                subprivkskgen<P>(*privksk, fn.f, dk[a], tk[b]);
                const double round = (vf::keyl1(sub) + 1) * std::pow(2.0, -double(P::t * P::basebit + 1));
                const double extra = ebound<G>(double(G::k * G::n + 1) * P::t) + 1e-15;
                explore<Q>([&](const TLWE<G> &c, size_t i) {
                    TRLWE<G> r;
                    for (auto &q : r) q.fill(typename G::T(0x77));
                    SubsetPrivKeySwitch<P>(r, c, *privksk);
                    judge<G>(vf::fmt("%s/subset-private", name), r, tk[b], ref::phase<G>(c, sub), fn.f, round, extra,
                             vf::fmt("f=%s keys %zu,%zu coordinate %zu word %llx", fn.name.c_str(), a, b, i, (unsigned long long)c[std::min<size_t>(i, G::k * G::n)]));
                });
            }
        vf::sample(vf::fmt("%s subset private: %zu (function, key, key) triples", name, run));
    }
}
template <class P>
void iks(const char *name)
{
    using D = typename P::domainP;
    using G = typename P::targetP;
    auto dk = ref::keys<D>(1);
    auto tk = ref::keys<G>(1, false);
    if (!tiny) dk = {dk[1]};
    auto iksk = std::make_unique<TLWE2TRLWEIKSKey<P>>();
    Polynomial<G> one{};
    one[0] = 1;
    for (size_t a = 0; a < dk.size(); a++) {
        const size_t b = a % tk.size();
        vf::free_rng(a * 41 + 3);
        tlwe2trlweikskgen<P>(*iksk, dk[a], tk[b]);
        const double round = vf::ks_bound<P>(dk[a], P::t, P::basebit);
        const double extra = ebound<G>(double(D::k * D::n) * P::t) + 1e-15;
        explore<P>([&](const TLWE<D> &c, size_t i) {
            TRLWE<G> r;
            for (auto &q : r) q.fill(typename G::T(0x77));
            TLWE2TRLWEIKS<P>(r, c, *iksk);
            judge<G>(vf::fmt("%s/tlwe2trlwe", name), r, tk[b], ref::phase<D>(c, dk[a]), one, round, extra,
                     vf::fmt("keys %zu,%zu coordinate %zu word %llx", a, b, i, (unsigned long long)c[std::min<size_t>(i, D::k * D::n)]));
        });
    }
    vf::sample(vf::fmt("%s tlwe2trlwe: %zu key pairs", name, dk.size()));
}
int main(int argc, char **argv)
{
    vf::init(argc, argv);
#ifdef TFHEPP_VERIF_PARAMS
    vf::set_noise(0);
    priv<lvl11param>("lvl11");
    priv<lvl21param>("lvl21");
    priv<lvl22param>("lvl22");
    subset<lvl21param>("lvl21");
    iks<lvl11param>("lvl11");
    iks<lvl21param>("lvl21");
    iks<lvl22param>("lvl22");
#else
    iks<lvl11param>("lvl11");
#endif
    vf::finish();
}
