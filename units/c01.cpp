// C01: LWE encryption/decryption round trip, explored over messages, keys,
// masks and noise answers on the real code.
#define VF_MAIN
#include "tlwe.hpp"
#include "lv.hpp"
using namespace TFHEpp;

template <class P> double maxnoise()  // analytic bound of one fresh noise, in ulp
{
    if constexpr (P::errordist == ErrorDistribution::ModularGaussian)
        return 12.5 * P::α * std::pow(2.0, ref::W<typename P::T>) + 1;
    else
        return double(P::η) * std::pow(2.0, ref::W<typename P::T>) / double(P::q) + 1;
}

template <class P, class F>
void check(const char *what, const Key<P> &key, int ki, const vf::Script &sc, typename P::T m, double bound, F enc)
{
    sc.install();
    TLWE<P> c = enc();
    vf::transitions++;
    const auto ph = ref::phase<P>(c, key);
    vf::state(vf::mix(sc.key() + ki * 977 + uint64_t(m) * 31));
    VF_CHECK(double(ref::dist<typename P::T>(ph, m)) <= bound, vf::fmt("%s/%s/noise", vf::lname<P>(), what),
             "key %d message %llx phase %llx bound %g %s", ki, (unsigned long long)m, (unsigned long long)ph, bound, sc.str().c_str());
    VF_CHECK(tlweSymPhase<P>(c, key) == ph, vf::fmt("%s/phase", vf::lname<P>()), "key %d %s", ki, sc.str().c_str());
    const int64_t s = ref::sgn<typename P::T>(ph);
    VF_CHECK(s == 0 || tlweSymDecrypt<P>(c, key) == (s > 0), vf::fmt("%s/%s/booldec", vf::lname<P>(), what), "phase %llx", (unsigned long long)ph);
    vf::transitions += 2;
    vf::evaluations++;
}

template <class P>
void level()
{
    using T = typename P::T;
    const int w = ref::W<T>;
    const bool small = P::k * P::n <= 64;
    auto keys = ref::keys<P>(2);
    if (P::k * P::n <= 4) keys = ref::allkeys<P>();
    auto scs = small ? vf::scripts(3, 6) : vf::scripts(2, 4);
    const double nb = maxnoise<P>();
    std::vector<T> msgs{T(P::μ), T(-P::μ)};
    for (int m = 0; m < 4; m++) msgs.push_back(ref::edges<T>()[m]);
    const uint64_t pm = P::plain_modulus;
    std::vector<uint64_t> ints;
    for (uint64_t i = 0; i < std::min<uint64_t>(pm, 8); i++) ints.push_back(i);
    if (pm > 8) for (uint64_t i : {pm / 2 - 1, pm / 2, pm / 2 + 1, pm - 2, pm - 1}) ints.push_back(i);
    for (size_t ki = 0; ki < keys.size(); ki++) {
        const auto &key = keys[ki];
        for (auto &sc : scs) {
            if (!vf::next_case()) continue;
            // default noise
            for (T m : msgs) check<P>("default", key, ki, sc, m, nb, [&] { return tlweSymEncrypt<P>(m, key); });
            for (bool b : {false, true}) {
                sc.install();
                auto c = tlweSymEncrypt<P>(b ? P::μ : -P::μ, key);
                VF_CHECK(tlweSymDecrypt<P>(c, key) == b, vf::fmt("%s/bool", vf::lname<P>()), "key %zu bit %d %s", ki, b, sc.str().c_str());
                vf::transitions += 2;
            }
            // integers
            for (uint64_t m : ints) {
                if (nb >= double(P::Δ) / 2) break;  // outside the allowed noise
                sc.install();
                auto c = tlweSymIntEncrypt<P>(m, key);
                const T d = tlweSymIntDecrypt<P>(c, key);
                vf::transitions += 2; vf::evaluations++;
                int64_t sd = ref::sgn<T>(d);
                VF_CHECK(uint64_t(((sd % int64_t(pm)) + int64_t(pm))) % pm == m, vf::fmt("%s/int", vf::lname<P>()),
                         "key %zu message %llu decrypted %lld %s", ki, (unsigned long long)m, (long long)sd, sc.str().c_str());
                VF_CHECK(sd >= -int64_t(pm / 2) && sd <= int64_t(pm / 2), vf::fmt("%s/intrange", vf::lname<P>()), "decrypted %lld", (long long)sd);
            }
            // explicit noise level
            if constexpr (P::errordist == ErrorDistribution::ModularGaussian) {
                for (double a : {0.0, std::ldexp(1.0, -w), std::ldexp(1.0, -12), std::ldexp(1.0, -8)}) {
                    const double eb = 12.5 * a * std::ldexp(1.0, w) + (a == 0 ? 0 : 1);
                    for (T m : msgs) check<P>("alpha", key, ki, sc, m, eb, [&] { return tlweSymEncrypt<P>(m, a, key); });
                    if (pm <= 16)
                        for (uint64_t m : ints) {
                            sc.install();
                            auto c = tlweSymIntEncrypt<P>(m, a, key);
                            if (12.5 * a * std::ldexp(1.0, w) < double(P::Δ) / 2 && P::Δ * pm >= std::ldexp(1.0, w - 2)) {
                                int64_t sd = ref::sgn<T>(tlweSymIntDecrypt<P>(c, key));
                                VF_CHECK(uint64_t(sd + int64_t(pm)) % pm == m, vf::fmt("%s/int_alpha", vf::lname<P>()), "key %zu message %llu decrypted %lld alpha %g %s", ki, (unsigned long long)m, (long long)sd, a, sc.str().c_str());
                            }
                            vf::transitions += 2;
                        }
                }
            }
            else {
                for (uint e : {0u, 1u, 3u, 31u, 32u, 64u, 100u}) {
                    const double eb = double(e) * std::ldexp(1.0, w) / double(P::q) + 1;
                    for (T m : msgs) check<P>("eta", key, ki, sc, m, eb, [&] { return tlweSymEncrypt<P>(m, e, key); });
                    for (uint64_t m : ints) {
                        sc.install();
                        auto c = tlweSymIntEncrypt<P>(m, e, key);
                        if (eb < double(P::Δ) / 2) {
                            int64_t sd = ref::sgn<T>(tlweSymIntDecrypt<P>(c, key));
                            VF_CHECK(uint64_t(sd + int64_t(pm)) % pm == m, vf::fmt("%s/int_eta", vf::lname<P>()), "message %llu decrypted %lld eta %u", (unsigned long long)m, (long long)sd, e);
                        }
                        vf::transitions += 2;
                    }
                }
            }
        }
    }
    vf::sample(vf::fmt("%s: %zu keys x %zu scripts x %zu messages, e.g. key 0, message mu, %s", vf::lname<P>(), keys.size(), scs.size(), msgs.size(), scs[scs.size() / 2].str().c_str()));
}

// decryption of every phase: any ciphertext, not only fresh ones
template <class P>
void phases()
{
    using T = typename P::T;
    const int w = ref::W<T>;
    auto keys = ref::keys<P>(1);
    const int steps = P::k * P::n <= 1024 ? 65536 : 2048;
    for (size_t ki = 0; ki < keys.size(); ki++) {
        TLWE<P> mask{};
        for (size_t i = 0; i < P::k * P::n; i++) mask[i] = T(vf::prng(5 + ki, i));
        const T base = T(0) - ref::phase<P>(mask, keys[ki]);
        const int st = ki < 1 ? 1 : 61;
        for (int x = 0; x < steps; x += st) {
            if (!vf::next_case()) continue;
            T ph = T(T(x) << (w - 16)) * T(65536 / steps);
            for (T d : {T(0), T(1), T(~T(0))}) {
                const T p = ph + d;
                TLWE<P> c = mask;
                c[P::k * P::n] = base + p;
                vf::transitions += 3; vf::evaluations++;
                VF_CHECK(tlweSymPhase<P>(c, keys[ki]) == p, vf::fmt("%s/anyphase", vf::lname<P>()), "phase %llx", (unsigned long long)p);
                const int64_t s = ref::sgn<T>(p);
                if (s != 0 && s != std::numeric_limits<ref::S<T>>::min())
                    VF_CHECK(tlweSymDecrypt<P>(c, keys[ki]) == (s > 0), vf::fmt("%s/anybool", vf::lname<P>()), "phase %llx", (unsigned long long)p);
                auto chk = [&](auto tag, T r) {
                    const uint64_t pm = tag;
                    // |p/2^w - r/pm| <= 1/(2pm) on the torus (ties either way), 64-bit phases up to double rounding
                    const __int128 one = __int128(1) << w;
                    int64_t sr = ref::sgn<T>(r);
                    __int128 d2 = (__int128(uint64_t(p)) * pm - __int128(sr) * one) % (one * pm);
                    if (d2 < 0) d2 += one * pm;
                    if (d2 > one * pm / 2) d2 = one * pm - d2;
                    VF_CHECK(2 * d2 <= one + (w == 64 ? (__int128(pm) << 12) : 0), vf::fmt("%s/anyint%llu", vf::lname<P>(), (unsigned long long)pm), "phase %llx decrypted %lld", (unsigned long long)p, (long long)sr);
                    VF_CHECK(sr >= -int64_t(pm) / 2 && sr <= int64_t(pm) / 2, vf::fmt("%s/anyintrange%llu", vf::lname<P>(), (unsigned long long)pm), "phase %llx decrypted %lld", (unsigned long long)p, (long long)sr);
                };
                chk(2u, tlweSymIntDecrypt<P, 2u>(c, keys[ki]));
                chk(4u, tlweSymIntDecrypt<P, 4u>(c, keys[ki]));
                chk(8u, tlweSymIntDecrypt<P, 8u>(c, keys[ki]));
                chk(10u, tlweSymIntDecrypt<P, 10u>(c, keys[ki]));
                chk(16u, tlweSymIntDecrypt<P, 16u>(c, keys[ki]));
                chk(256u, tlweSymIntDecrypt<P, 256u>(c, keys[ki]));
            }
            vf::state(vf::mix(x * 64 + ki));
        }
    }
}

template <class P, class = void> struct Boots;
template <class P>
void vectors()
{
    SecretKey sk;
    auto keys = ref::keys<P>(1, false);
    const int maxlen = P::k * P::n <= 64 ? 8 : P::n <= 1100 ? 5 : 3;
    constexpr std::make_signed_t<typename P::T> μ2 = std::make_signed_t<typename P::T>(1) << (ref::W<typename P::T> - 4);
    for (size_t ki = 0; ki < keys.size(); ki++) {
        ref::setkey<P>(sk, keys[ki]);
        VF_CHECK(sk.key.get<P>() == keys[ki], vf::fmt("%s/getkey", vf::lname<P>()), "key %zu", ki);
        for (int len = 0; len <= maxlen; len++)
            for (int v = 0; v < (1 << len); v++) {
                if (!vf::next_case()) continue;
                vf::free_rng(v + 4096 * len + 1);
                std::vector<uint8_t> p(len);
                for (int i = 0; i < len; i++) p[i] = (v >> i & 1) ? (i & 1 ? 1 : (i & 2 ? 255 : 2)) : 0;
                auto ok = [&](const std::vector<uint8_t> &d, const char *what) {
                    bool good = d.size() == p.size();
                    for (int i = 0; good && i < len; i++) good = !!d[i] == !!p[i];
                    VF_CHECK(good, vf::fmt("%s/%s", vf::lname<P>(), what), "bits %x length %d key %zu", v, len, ki);
                    vf::transitions += 2 * len; vf::evaluations++;
                };
                vf::state(vf::mix(v * 1024 + len * 32 + ki));
                ok(bootsSymDecrypt<P>(bootsSymEncrypt<P>(p, sk), sk), "vector");
                ok(bootsSymDecrypt<P>(bootsSymEncrypt<P>(p, keys[ki]), keys[ki]), "vectorkey");
                ok(bootsSymDecrypt<P>(bootsSymEncrypt<P, μ2>(p, sk), sk), "vectormu");
                ok(bootsSymDecrypt<P>(bootsSymEncrypt<P, μ2>(p, keys[ki]), sk), "vectormukey");
                auto c = bootsSymEncrypt<P, μ2>(p, sk);
                for (int i = 0; i < len; i++)
                    VF_CHECK(double(ref::dist<typename P::T>(ref::phase<P>(c[i], keys[ki]), p[i] ? μ2 : typename P::T(-μ2))) <= maxnoise<P>(), vf::fmt("%s/mu", vf::lname<P>()), "position %d", i);
                if constexpr (std::is_same_v<P, lvl1param>) {  // default level
                    ok(bootsSymDecrypt(bootsSymEncrypt(p, sk), sk), "vectordefault");
                }
            }
        if (P::k * P::n <= 1100 && vf::next_case()) {
            vf::free_rng(99);
            std::vector<uint8_t> p(1031);
            for (size_t i = 0; i < p.size(); i++) p[i] = vf::prng(3, i) & 1;
            auto d = bootsSymDecrypt<P>(bootsSymEncrypt<P>(p, sk), sk);
            VF_CHECK(d == p, vf::fmt("%s/longvector", vf::lname<P>()), "1031 bits");
        }
    }
    // the evaluation of every level through one SecretKey: levels do not mix
    vf::free_rng(5);
}

int main(int argc, char **argv)
{
    vf::init(argc, argv);
    auto all = [&] {
        level<lvl0param>(); level<lvlhalfparam>(); level<lvl1param>(); level<lvl2param>(); level<lvl3param>();
    };
#ifdef TFHEPP_VERIF_PARAMS
    vf::set_noise(0); all();
    vf::set_noise(std::ldexp(1.0, -10));
    phases<lvl0param>(); phases<lvlhalfparam>(); phases<lvl1param>(); phases<lvl2param>(); phases<lvl3param>();
#else
    phases<lvl0param>(); phases<lvl1param>(); phases<lvl2param>();
#endif
    all();
    vectors<lvl0param>(); vectors<lvlhalfparam>(); vectors<lvl1param>(); vectors<lvl2param>(); vectors<lvl3param>();
    vf::finish();
}
