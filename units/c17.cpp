// C17: automorphisms, trace and LWE-to-RLWE packing.  Every automorphism
// index, every packed count, edge keys, mask families; every coefficient of
// the result is judged against the plain integer definition.
#define VF_MAIN
#include "tlwe.hpp"
#include "trlwe.hpp"
#include "trgsw.hpp"
#include "keyswitch.hpp"
#include "cloudkey.hpp"
#include "gates.hpp"
using namespace TFHEpp;

template <class P>
struct Pk {
    using T = typename P::T;
    using Poly = Polynomial<P>;
    static constexpr size_t N = P::n;
    const std::string L = vf::lname<P>();
    Key<P> key;
    uint64_t kid;
    std::unique_ptr<AnnihilateKey<P>> ahk;
    double auto_bound, ulp = std::pow(2.0, -ref::W<T>);

    Pk(const Key<P> &k, uint64_t id) : key(k), kid(id)
    {
        double b = 0;
        for (size_t j = 0; j < P::k; j++) {
            double m1 = 0;
            for (size_t i = 0; i < N; i++) m1 += std::fabs(double(ref::sgn<T>(key[j * N + i])));
            b += vf::xp_bound<P>(m1, key, vf::FFT, true);
        }
        if (!vf::tiny) {   // rounding errors of the digits are not aligned with the key
            b = 0;
            for (size_t j = 0; j < P::k; j++) b += vf::xp_bound<P>(8 * std::sqrt(double(N)), key, vf::FFT, true);
        }
        auto_bound = b;
    }
    void ann()
    {
        ahk.reset(new AnnihilateKey<P>);
        vf::free_rng(5000 + kid);
        annihilatekeygen<P>(*ahk, key);
    }
    // RLWE sample of exact phase p with mask family q
    TRLWE<P> enc(const Poly &p, uint64_t q) const
    {
        TRLWE<P> c;
        c[P::k] = p;
        for (size_t k = 0; k < P::k; k++) {
            std::array<T, N> s;
            for (size_t i = 0; i < N; i++) s[i] = key[k * N + i];
            for (size_t i = 0; i < N; i++) {
                const uint64_t h = vf::prng(q * 77 + k, i);
                switch (q % 6) {
                case 0: c[k][i] = 0; break;
                case 1: case 2: c[k][i] = T(h); break;
                case 3: c[k][i] = T(~T(0)); break;
                case 4: c[k][i] = T(T(1) << (ref::W<T> - 1)) - T(h & 1); break;
                default: c[k][i] = i == q / 6 % N ? T(h) : T(0); break;
                }
            }
            auto m = ref::negmul<T, N>(c[k], s);
            for (size_t i = 0; i < N; i++) c[P::k][i] += m[i];
        }
        return c;
    }
    static Poly automorphism(const Poly &p, uint64_t d)
    {
        Poly r{};
        for (uint64_t i = 0; i < N; i++) {
            const uint64_t e = i * d % (2 * N);
            if (e < N) r[e] += p[i];
            else r[e - N] -= p[i];
        }
        return r;
    }
    Poly message(uint64_t m) const
    {
        Poly p{};
        const auto es = ref::edges<T>();
        for (size_t i = 0; i < N; i++)
            switch (m % 4) {
            case 0: p[i] = T(vf::prng(m + 31, i)); break;
            case 1: p[i] = i == m / 4 % N ? es[m % es.size()] : T(0); break;
            case 2: p[i] = es[(i + m) % es.size()]; break;
            default: p[i] = i & 1 ? T(P::μ) : T(-P::μ); break;
            }
        return p;
    }
    // step: every how many coefficients the bound `lim` applies; `other` elsewhere
    void judge(const std::string &k, const TRLWE<P> &got, const Poly &want, double lim, const std::string &info, size_t step = 1, double other = 0) const
    {
        vf::transitions++;
        const Poly ph = ref::phase<P>(got, key);
        vf::evaluations += N;
        double worst = 0;
        size_t at = 0, bad = 0;
        const double all = lim;
        for (size_t i = 0; i < N; i++) {
            const uint64_t d = ref::dist<T>(ph[i], want[i]);
            const double b = i % step ? other : all;
            if (double(d) * ulp > b && !bad++) { at = i; lim = b; }
            if (double(d) / b > worst) { worst = double(d) / b; if (!bad) at = i; }
        }
        if (bad) vf::fail(L + "/" + k, vf::fmt("coefficient %zu of the phase is %.6f, want %.6f +-%.3g (%zu coefficients out); %s key %llu", at, vf::frac(ph[at]), vf::frac(want[at]), lim, bad, info.c_str(), (unsigned long long)kid));
        auto &c = vf::counters["max:permille_of_bound_" + k];
        c = std::max<uint64_t>(c, uint64_t(worst * ulp * 1000));
    }
    void evalauto(const std::vector<uint64_t> &ds, uint64_t nq)
    {
        for (uint64_t d : ds) {
            if (!vf::next_case()) continue;
            auto eak = std::make_unique<EvalAutoKey<P>>();
            vf::free_rng(100 + d * 64 + kid);
            evalautokeygen<P>(*eak, uint(d), key);
            vf::state(vf::mix(d * 64 + kid) ^ 0x17);
            vf::sample(vf::fmt("automorphism index %d under key %d", int(d), int(kid)));
            for (uint64_t q = 0; q < nq; q++) {
                const Poly m = message(q * 3 + d);
                const TRLWE<P> c = enc(m, q);
                TRLWE<P> r;
                for (auto &x : r) x.fill(T(0x5a5a5a5a));
                EvalAuto<P>(r, c, int(d), *eak);
                judge("automorphism", r, automorphism(m, d), 2 * auto_bound, vf::fmt("d=%llu mask family %llu", (unsigned long long)d, (unsigned long long)q));
            }
        }
    }
    void trace(uint64_t nq)
    {
        const double l1 = vf::keyl1(key);
        double lim = 2 * (double(N - 1) * auto_bound + double(N) * (1 + l1) * ulp);
        double other = lim;
        if (!vf::tiny) {
            lim = double(N) * auto_bound / 6 + 2 * double(N) * 8 * std::sqrt(l1) * ulp;
            other = 2 * std::sqrt(double(N)) * (auto_bound + 8 * std::sqrt(l1) * ulp);
        }
        if (lim > (vf::tiny ? 0.1 : 0.2) || other > 0.1) { vf::fail(L + "/trace-harness", vf::fmt("bound %g is vacuous", lim)); return; }
        for (uint64_t q = 0; q < nq; q++) {
            if (!vf::next_case()) continue;
            Poly m = message(q), want{};
            if (q % 5 == 1) m[0] = T(P::μ);
            want[0] = m[0];
            vf::state(vf::mix(q * 64 + kid) ^ 0x18);
            vf::sample(vf::fmt("trace case %d under key %d", int(q), int(kid)));
            const TRLWE<P> c = enc(m, q + q / 6);
            TRLWE<P> r;
            AnnihilateKeySwitching<P>(r, c, *ahk);
            judge("trace", r, want, lim, vf::fmt("message family %llu mask family %llu", (unsigned long long)q, (unsigned long long)(q + q / 6)), N, other);
        }
    }
    void packing(const std::vector<size_t> &counts, uint64_t nq)
    {
        const double l1 = vf::keyl1(key);
        for (size_t cnt : counts) {
            if (!vf::next_case()) continue;
            unsigned l = 0;
            while ((size_t(1) << l) < cnt) l++;
            const double R = double(N >> l);
            vf::state(vf::mix(cnt * 64 + kid) ^ 0x19);
            vf::sample(vf::fmt("packing of %d ciphertexts under key %d", int(cnt), int(kid)));
            double plim = 2 * P::nbit * (auto_bound + 2 * (1 + l1) * ulp);
            double clim = plim + 2 * ((R - 1) * auto_bound + R * (1 + l1) * ulp);
            double other = clim;
            if (!vf::tiny) {
                clim = plim + R * auto_bound / 6 + 2 * R * 8 * std::sqrt(l1) * ulp;
                other = plim + 2 * std::sqrt(R) * (auto_bound + 8 * std::sqrt(l1) * ulp);
            }
            if (clim > (vf::tiny ? 0.1 : 0.2) || other > 0.1) { vf::fail(L + "/packing-harness", vf::fmt("bound %g is vacuous", clim)); return; }
            for (uint64_t q = 0; q < nq; q++) {
                std::vector<TLWE<P>> v(cnt);
                const auto es = ref::edges<T>();
                Poly want{}, cwant{};
                for (size_t j = 0; j < cnt; j++) {
                    const T m = q % 3 == 0 ? T(vf::prng(cnt * 7 + q, j)) : q % 3 == 1 ? es[(j + q) % es.size()] : (vf::prng(q, j) & 1 ? T(P::μ) : T(-P::μ));
                    v[j] = vf::exact<P>(m, key, q % 2 ? q * 5 + j : 1 + 8 * j);
                    want[j] = m;
                    cwant[j * (N >> l)] = m;
                }
                auto w = v;
                TRLWE<P> r;
                for (auto &x : r) x.fill(T(0x5a5a5a5a));
                TLWE2TRLWEPacking<P>(r, w, *ahk);
                judge("packing", r, want, plim, vf::fmt("%zu samples, family %llu", cnt, (unsigned long long)q));
                w = v;
                for (auto &x : r) x.fill(T(0x5a5a5a5a));
                TLWE2TRLWEChengsPacking<P>(r, w, *ahk);
                judge("chengs-packing", r, cwant, clim, vf::fmt("%zu samples, family %llu", cnt, (unsigned long long)q), N >> l, other);
                for (size_t j = 0; j < cnt; j++) VF_CHECK(w[j] == v[j], L + "/packing-input", "input %zu of %zu changed", j, cnt);
            }
        }
    }
};
template <class P>
void level()
{
    constexpr size_t N = P::n;
#ifdef TFHEPP_VERIF_PARAMS
    auto ks = ref::keys<P>(vf::thorough ? 4 : 2);
#else
    auto ks = ref::keys<P>(1, false);
    std::vector<Key<P>> one{ks.back()};
    ks = one;
#endif
    uint64_t id = 0;
    for (auto &k : ks) {
        Pk<P> pk(k, ++id);
        std::vector<uint64_t> ds;
        for (uint64_t d = 1; d < 2 * N; d += 2)
            if (N <= 64 || d < 8 || d > 2 * N - 8 || ((d - 1) & (d - 2)) == 0 || d % 514 == 5) ds.push_back(d);
        pk.evalauto(ds, vf::tiny ? (vf::thorough ? 24 : 12) : 3);
        pk.ann();
        pk.trace(vf::tiny ? (vf::thorough ? 20 * N : 4 * N) : 6);
        std::vector<size_t> counts;
        for (size_t c = 1; c <= N; c++)
            if (N <= 128 || c < 4 || c == 31 || c == N / 2 || (vf::thorough && (c == N || c == N / 2 + 1 || c == 100))) counts.push_back(c);
        pk.packing(counts, vf::tiny ? (vf::thorough ? 12 : 6) : 1);
    }
}
int main(int argc, char **argv)
{
    vf::init(argc, argv);
#ifdef TFHEPP_VERIF_PARAMS
    vf::set_noise(0);
#endif
    level<lvl1param>();
    level<lvl2param>();
    vf::finish();
}
