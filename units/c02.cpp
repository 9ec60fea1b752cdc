// C02: RLWE encryption/decryption round trip on the real code.
#define VF_MAIN
#include "tlwe.hpp"
#include "trlwe.hpp"
#include "lv.hpp"
using namespace TFHEpp;

template <class P> double scale1() { return std::ldexp(1.0, ref::W<typename P::T>); }
template <class P> double engine()  // rounding of one ciphertext's key products, in ulp
{
    return ref::W<typename P::T> == 64 ? double(P::k) * (P::n + 2) : 2.0 * P::k;
}
template <class P> double dflt()
{
    if constexpr (P::errordist == ErrorDistribution::ModularGaussian) return 12.5 * P::α * scale1<P>() + 1;
    else return double(P::η) * scale1<P>() / double(P::q) + 1;
}
template <class P>
Polynomial<P> fill(size_t pos, typename P::T at, typename P::T rest)
{
    Polynomial<P> p;
    p.fill(rest);
    if (pos < P::n) p[pos] = at;
    return p;
}
template <class P>
void judge(const char *what, const TRLWE<P> &c, const Key<P> &key, const Polynomial<P> &m, double bound, const std::string &info)
{
    const auto ph = ref::phase<P>(c, key);
    vf::transitions++; vf::evaluations++;
    size_t worst = 0;
    for (size_t i = 0; i < P::n; i++)
        if (ref::dist<typename P::T>(ph[i], m[i]) > ref::dist<typename P::T>(ph[worst], m[worst])) worst = i;
    const double d = double(ref::dist<typename P::T>(ph[worst], m[worst]));
    VF_CHECK(d <= bound + engine<P>(), vf::fmt("%s/%s", vf::lname<P>(), what), "coefficient %zu off by %g ulp (allowed %g) %s", worst, d, bound + engine<P>(), info.c_str());
    const auto lp = trlwePhase<P>(c, key);
    VF_CHECK(double(ref::maxdist<typename P::T, P::n>(lp, ph)) <= engine<P>(), vf::fmt("%s/phase", vf::lname<P>()), "library phase differs %s", info.c_str());
    vf::transitions++;
}
template <class P>
void level()
{
    using T = typename P::T;
    const bool small = P::k * P::n <= 128;
    auto keys = ref::keys<P>(1);
    auto scs = small ? vf::scripts(2, 5) : vf::scripts(1, 5);
    const size_t step = vf::thorough || small ? 1 : 3;
    size_t cnt = 0;
    for (size_t ki = 0; ki < keys.size(); ki++)
        for (size_t si = 0; si < scs.size(); si++)
            for (size_t pos = 0; pos <= P::n; pos++) {
                // tiny: full product; shipped sizes: every position under a rotating key and script
                if (!small && pos < P::n && (pos % step || (pos / step + ki) % keys.size() || si != (pos / step) % scs.size())) continue;
                if (small && !vf::thorough && pos < P::n && pos % scs.size() != si % P::n && pos != (si + ki) % P::n) continue;
                if (!vf::next_case()) continue;
                const auto &key = keys[ki];
                const auto &sc = scs[si];
                const std::string info = vf::fmt("key %zu position %zu %s", ki, pos, sc.str().c_str());
                vf::state(vf::mix(ki * 1000003 + si * 4099 + pos));
                const T mu = T(P::μ);
                // Boolean
                {
                    auto p = fill<P>(pos, mu, T(-mu));
                    sc.install();
                    auto c = trlweSymEncrypt<P>(p, key);
                    judge<P>("default", c, key, p, dflt<P>(), info);
                    if (dflt<P>() < double(mu) / 2) {
                        auto b = trlweSymDecrypt<P>(c, key);
                        bool ok = true;
                        for (size_t i = 0; i < P::n; i++) ok &= b[i] == (i == pos);
                        VF_CHECK(ok, vf::fmt("%s/bool", vf::lname<P>()), "%s", info.c_str());
                    }
                    vf::transitions++;
                }
                // zero
                { sc.install(); judge<P>("zero", trlweSymEncryptZero<P>(key), key, Polynomial<P>{}, dflt<P>(), info); }
                // integers
                const uint64_t pm = P::plain_modulus;
                for (uint64_t v : {uint64_t(1), pm - 1, pm / 2}) {
                    Polynomial<P> p;
                    for (size_t i = 0; i < P::n; i++) p[i] = i == pos ? v : (i * 3 + si) % pm;
                    Polynomial<P> m;
                    for (size_t i = 0; i < P::n; i++) m[i] = T(__int128(P::Δ) * p[i]);
                    auto dec = [&](const TRLWE<P> &c, double nb, const char *what) {
                        judge<P>(what, c, key, m, nb, info);
                        if (nb + engine<P>() >= double(P::Δ) / 2) return;
                        VF_CHECK((trlweSymIntDecrypt<P>(c, key) == p), vf::fmt("%s/dec_%s", vf::lname<P>(), what), "value %llu %s", (unsigned long long)v, info.c_str());
                        vf::transitions++;
                    };
                    sc.install();
                    dec(trlweSymIntEncrypt<P>(p, key), dflt<P>(), "int");
                    if constexpr (P::errordist == ErrorDistribution::ModularGaussian) {
                        const double a = std::ldexp(1.0, -14);
                        sc.install();
                        dec(trlweSymIntEncrypt<P>(p, a, key), 12.5 * a * scale1<P>() + 1, "int_alpha");
                    }
                    else {
                        sc.install();
                        dec(trlweSymIntEncrypt<P>(p, uint(40), key), 40 * scale1<P>() / double(P::q) + 1, "int_eta");
                    }
                }
                // explicit noise and arbitrary torus messages
                {
                    Polynomial<P> p;
                    for (size_t i = 0; i < P::n; i++) p[i] = i == pos ? T(~T(0)) : ref::edges<T>()[(i + si) % 9];
                    if constexpr (P::errordist == ErrorDistribution::ModularGaussian) {
                        for (double a : {0.0, std::ldexp(1.0, -9)}) {
                            const double nb = 12.5 * a * scale1<P>() + (a > 0);
                            sc.install(); judge<P>("alpha", trlweSymEncrypt<P>(p, a, key), key, p, nb, info);
                            sc.install(); judge<P>("zero_alpha", trlweSymEncryptZero<P>(a, key), key, Polynomial<P>{}, nb, info);
                        }
                    }
                    else {
                        for (uint e : {0u, 7u, 64u}) {
                            const double nb = e * scale1<P>() / double(P::q) + (e > 0);
                            sc.install(); judge<P>("eta", trlweSymEncrypt<P>(p, e, key), key, p, nb, info);
                            sc.install(); judge<P>("zero_eta", trlweSymEncryptZero<P>(e, key), key, Polynomial<P>{}, nb, info);
                        }
                    }
                }
                cnt++;
            }
    if (cnt) vf::sample(vf::fmt("%s: %zu keys x %zu scripts x positions, e.g. %s", vf::lname<P>(), keys.size(), scs.size(), scs.back().str().c_str()));
    // decryption of arbitrary phases at every position
    for (size_t ki = 0; ki < keys.size(); ki++)
        for (size_t pos = 0; pos < P::n; pos += small ? 1 : 7) {
            if (!vf::next_case()) continue;
            TRLWE<P> c;
            for (size_t k = 0; k < P::k; k++)
                for (size_t i = 0; i < P::n; i++) c[k][i] = T(vf::prng(pos + ki, k * P::n + i));
            c[P::k] = {};
            auto base = ref::phase<P>(c, keys[ki]);
            const int w = ref::W<T>;
            Polynomial<P> want;
            for (size_t i = 0; i < P::n; i++) {
                want[i] = T(T((i + pos) % 16) << (w - 4)) + T(T(1) << (w - 5));  // off the decision boundaries
                c[P::k][i] = want[i] - base[i];
            }
            auto b = trlweSymDecrypt<P>(c, keys[ki]);
            bool ok = true;
            for (size_t i = 0; i < P::n; i++) ok &= b[i] == (ref::sgn<T>(want[i]) > 0);
            if constexpr (!hasq<P>) VF_CHECK(ok, vf::fmt("%s/anybool", vf::lname<P>()), "key %zu position %zu", ki, pos);
            vf::transitions++; vf::evaluations++;
            vf::state(vf::mix(ki * 77777 + pos + (1ull << 40)));
        }
}

#ifdef VP_RAINTT
// reduced-integer-NTT encryption: coefficients modulo q
template <class P>
void raintt_level()
{
    using T = typename P::T;
    auto keys = ref::keys<P>(2);
    auto scs = vf::scripts(1, 5);
    const int64_t q = P::q;
    auto run = [&](auto ms, size_t ki, const vf::Script &sc, uint eta, const Polynomial<P> &p, const std::array<int64_t, P::n> &m, const std::string &info) {
        constexpr bool modswitch = decltype(ms)::value;
        sc.install();
        TRLWERAINTT<P> cr = trlwerainttSymEncrypt<P, modswitch>(p, eta, keys[ki]);
        std::array<std::array<int64_t, P::n>, P::k + 1> c;
        for (size_t k = 0; k <= P::k; k++) {
            Polynomial<P> t;
            raintt::TwistNTT<T, P::nbit, false>(t, cr[k], (*raintttable)[0], (*raintttwist)[0]);
            for (size_t i = 0; i < P::n; i++) c[k][i] = ((int64_t(int32_t(t[i])) % q) + q) % q;
        }
        int64_t worst = 0; size_t wi = 0;
        for (size_t i = 0; i < P::n; i++) {
            __int128 ph = c[P::k][i];
            for (size_t k = 0; k < P::k; k++)
                for (size_t j = 0; j < P::n; j++) {
                    const int64_t s = ref::sgn<T>(keys[ki][k * P::n + j]);
                    ph -= j <= i ? __int128(s) * c[k][i - j] : -__int128(s) * c[k][P::n + i - j];
                }
            int64_t d = int64_t(((ph - m[i]) % q + q) % q);
            if (d > q / 2) d = q - d;
            if (d > worst) { worst = d; wi = i; }
        }
        VF_CHECK(worst <= int64_t(eta) + (modswitch ? 2 : 0), modswitch ? "raintt/modswitch" : "raintt/plain", "coefficient %zu off by %lld %s", wi, (long long)worst, info.c_str());
        vf::transitions += 2; vf::evaluations++;
    };
    for (size_t ki = 0; ki < keys.size(); ki++)
        for (size_t si = 0; si < scs.size(); si++)
            for (size_t pos = 0; pos < P::n; pos++) {
                if (P::n > 64 && pos % scs.size() != si) continue;
                if (!vf::next_case()) continue;
                vf::state(vf::mix(ki * 1000003 + si * 4099 + pos + (1ull << 41)));
                const std::string info = vf::fmt("key %zu position %zu %s", ki, pos, scs[si].str().c_str());
                for (uint eta : {0u, 3u, 64u}) {
                    Polynomial<P> p; std::array<int64_t, P::n> m;
                    for (size_t i = 0; i < P::n; i++) {
                        m[i] = i == pos ? q - 1 : i == (pos + 1) % P::n ? -(q - 1) : (i & 1 ? q / 8 : -q / 8);
                        p[i] = T(m[i]);
                    }
                    run(std::false_type{}, ki, scs[si], eta, p, m, info);
                    for (size_t i = 0; i < P::n; i++) {
                        p[i] = i == pos ? ref::edges<T>()[si % 9] : (i & 1 ? T(P::μ) : T(-P::μ));
                        m[i] = int64_t((__int128(p[i]) * q + (__int128(1) << 31)) >> 32);
                    }
                    run(std::true_type{}, ki, scs[si], eta, p, m, info);
                }
            }
}
#endif

int main(int argc, char **argv)
{
    vf::init(argc, argv);
#ifdef TFHEPP_VERIF_PARAMS
    vf::set_noise(std::ldexp(1.0, -12));
#endif
#ifdef VP_RAINTT
    raintt_level<lvl1param>();
#else
    level<lvl1param>();
    level<lvl2param>();
#endif
    vf::finish();
}
