// C05: programmable bootstrapping.  Every modulus-switch class of every mask
// coefficient and of the body, at both ends of the class, x every domain key
// x test vectors x variants; the whole accumulator is compared with the test
// vector times a power of X inside the rounding window of the input phase.
#define VF_MAIN
#include "tlwe.hpp"
#include "gatebootstrapping.hpp"
#include "xp.hpp"
using namespace TFHEpp;
using vf::Engine;

template <class T, size_t N>
double worst(const std::array<T, N> &a, const std::array<T, N> &b) { return double(ref::maxdist<T, N>(a, b)) * std::pow(2.0, -ref::W<T>); }

template <class BK>
struct B {
    using D = typename BK::domainP;
    using P = typename BK::targetP;
    using DT = typename D::T;
    using T = typename P::T;
    static constexpr size_t N = P::n, n = D::k * D::n;
    static constexpr int DW = ref::W<DT>;
    static constexpr int64_t unit = int64_t(1) << (DW - 1 - P::nbit);  // torus words per class
    static inline std::string nm;

    static std::vector<Polynomial<P>> vectors()
    {
        std::vector<Polynomial<P>> v(4);
        for (size_t i = 0; i < N; i++) {
            v[0][i] = T(vf::prng(501, i) << (64 - ref::W<T>) >> (64 - ref::W<T>));
            v[1][i] = ref::edges<T>()[(i * 5 + i / 9) % 9];
            v[2][i] = T(P::μ);
            v[3][i] = i == N - 1 ? T(1) << (ref::W<T> - 2) : 0;
        }
        return v;
    }
    // The rotations the input phase allows, in units of X.
    struct Win { int64_t lo, hi; };
    static Win window(const TLWE<D> &c, const Key<D> &s, int bw)
    {
        long double phi = (long double)c[n];
        long double l1 = 0;
        for (size_t i = 0; i < n; i++) { phi -= (long double)c[i] * ref::sgn<DT>(s[i]); l1 += std::fabs((long double)ref::sgn<DT>(s[i])); }
        const long double u = (long double)unit * (1 << bw);
        return {int64_t(std::ceil(phi / u - 1 - l1 / 2)), int64_t(std::floor(phi / u + 0.5L + l1 / 2))};
    }
    // Find the rotation in the window the accumulator phase realises.
    static int64_t judge(const std::string &key, const Polynomial<P> &ph, const Polynomial<P> &tv, Win w, int bw, double lim, const std::string &info)
    {
        vf::transitions++; vf::evaluations += N;
        double best = 1;
        for (int64_t r = w.lo; r <= w.hi; r++) {
            const uint64_t e = uint64_t(((-r * (1 << bw)) % int64_t(2 * N) + int64_t(2 * N)) % int64_t(2 * N));
            const double d = worst<T, N>(ph, ref::monomul<T, N>(tv, e));
            if (d <= lim) {
                auto &ctr = vf::counters["max:" + nm + "/" + key + "/percent-of-bound"];
                ctr = std::max(ctr, uint64_t(100 * d / lim));
                return r;
            }
            best = std::min(best, d);
        }
        vf::fail(nm + "/" + key, vf::fmt("accumulator is no rotation of the test vector by %lld..%lld classes (best off by %.3g, allowed %.3g); %s",
                                         (long long)w.lo, (long long)w.hi, best, lim, info.c_str()));
        return INT64_MIN;
    }
    static void judge_tlwe(const std::string &key, const TLWE<P> &got, const Key<P> &s, const Polynomial<P> &tv, Win w, int bw, size_t idx, double lim, const std::string &info)
    {
        const T ph = ref::phase<P>(got, s);
        vf::evaluations++;
        for (int64_t r = w.lo; r <= w.hi; r++) {
            const uint64_t e = uint64_t(((-r * (1 << bw)) % int64_t(2 * N) + int64_t(2 * N)) % int64_t(2 * N));
            const auto m = ref::monomul<T, N>(tv, e);
            if (double(ref::dist<T>(ph, m[idx])) * std::pow(2.0, -ref::W<T>) <= lim) return;
        }
        vf::fail(nm + "/" + key, vf::fmt("output %zu is no test-vector coefficient of the window; %s", idx, info.c_str()));
    }
    // samples: classes x {rounding boundary} per mask coefficient, classes x {ends} for the body
    template <class F>
    static void samples(int bw, int stride, F f)
    {
        const int64_t C = 2 * int64_t(N) >> bw, u = unit << bw;
        std::vector<int64_t> av, bv;
        for (int64_t c = 0; c < C; c++) {
            av.push_back(c * u + (u / 2 - 1));
            av.push_back(c * u + u / 2);
            bv.push_back(c * u);
            bv.push_back(c * u + u - 1);
        }
        av.push_back(0);
        // every coordinate at one common fraction of a class: roundings that all err to one side
        for (int64_t fr : {int64_t(1), u / 2 - 1, u / 2, 5 * u / 8, 3 * u / 4 - 1, 7 * u / 8 - 1, u - 1})
            for (int64_t b = 0; b < C; b += std::max<int64_t>(1, std::min<int64_t>(stride, C / 8))) {
                if (!vf::next_case()) continue;
                for (int end = 0; end < 2; end++)
                    for (int pat = 0; pat < 2; pat++) {
                        TLWE<D> c;
                        for (size_t q = 0; q < n; q++) c[q] = DT((pat ? int64_t(vf::prng(b, q) % uint64_t(C)) : 0) * u + fr);
                        c[n] = DT(b * u + (end ? u - 1 : 0));
                        f(c, size_t(b + end + pat));
                    }
            }
        // first pair of mask coefficients in full, further ones follow
        for (size_t i = 0; i < av.size(); i++) {
            if (!vf::next_case()) continue;
            vf::state(vf::hash(nm.data(), nm.size(), i));
            for (size_t j = (i * 7) % stride; j < av.size(); j += stride)
                for (size_t b = (i + j) % stride; b < bv.size(); b += stride) {
                    TLWE<D> c;
                    c[0] = DT(av[i]);
                    if constexpr (n > 1) c[1] = DT(av[j]);
                    for (size_t q = 2; q < n; q++) c[q] = DT(av[(i * (q + 3) + j * (2 * q + 1) + b * 5) % av.size()]);
                    c[n] = DT(bv[b]);
                    f(c, i + j + b);
                }
        }
    }
    static void run(const char *name, const std::vector<Key<P>> &tkeys, int stride)
    {
        nm = name;
        const auto tvs = vectors();
        const auto dkeys = ref::allkeys<D>();
        for (size_t di = 0; di < dkeys.size(); di++) {
            const auto &sk0 = dkeys[di];
            const auto &sk1 = tkeys[di % tkeys.size()];
            vf::free_rng(di * 31 + 7);
            auto fft = std::make_unique<BootstrappingKeyFFT<BK>>();
            auto ntt = std::make_unique<BootstrappingKeyNTT<BK>>();
            [[maybe_unused]] auto rain = std::make_unique<BootstrappingKeyRAINTT<BK>>();
            constexpr bool binary = D::key_value_min == 0;
#ifdef VP_RAINTT
            constexpr bool dofft = false, dontt = false, dorain = true;
#else
            constexpr bool dofft = true, dontt = binary, dorain = binary && std::is_same_v<P, lvl1param> && std::is_same_v<T, uint32_t> && !hasq<P>;
#endif
            if constexpr (dofft) bkfftgen<BK>(*fft, sk0, sk1);
            if constexpr (dontt) bknttgen<BK>(*ntt, sk0, sk1);
            if constexpr (dorain) bkrainttgen<BK>(*rain, sk0, sk1);
            double fac = 2.0 * n * (D::key_value_max - D::key_value_min);
#if defined(USE_KEY_BUNDLE) || defined(USE_TERNARY_CMUX)
            fac *= 4;
#endif
            const double lim = fac * vf::xp_bound<P>(1, sk1), limr = fac * vf::xp_bound<P>(1, sk1, vf::RAIN);
            if (!(lim < 0.05)) vf::fail(nm + "/harness", vf::fmt("error bound %g is too weak", lim));
            TRLWE<P> ptv;
            for (size_t k = 0; k <= P::k; k++) for (size_t i = 0; i < N; i++) ptv[k][i] = T(vf::prng(601 + k, i) << (64 - ref::W<T>) >> (64 - ref::W<T>));
            const auto pph = ref::phase<P>(ptv, sk1);
            alignas(64) TRLWE<P> acc;
            auto dirty = [&] { for (auto &x : acc) x.fill(T(0x77777777)); };
            auto info = [&](const TLWE<D> &c, size_t q) {
                std::string s = vf::fmt("domain key %zu vector %zu sample (", di, q % tvs.size());
                for (size_t i = 0; i <= n; i++) s += vf::fmt("%llx ", (unsigned long long)c[i]);
                return s + ")";
            };
            samples(0, stride, [&](const TLWE<D> &c, size_t q) {
                const auto &tv = tvs[q % tvs.size()];
                const auto w = window(c, sk0, 0);
                if constexpr (dofft) {
                    dirty();
                    BlindRotate<BK>(acc, c, *fft, tv);
                    judge("fft", ref::phase<P>(acc, sk1), tv, w, 0, lim, info(c, q));
                    if (q % 3 == 0) {
                        TLWE<P> o;
                        GateBootstrappingTLWE2TLWEFFT<BK>(o, c, *fft, tv);
                        judge_tlwe("tlwe-fft", o, sk1, tv, w, 0, 0, lim, info(c, q));
                    }
                }
            });
            samples(0, std::max(stride, 3), [&](const TLWE<D> &c, size_t q) {
                const auto &tv = tvs[q % tvs.size()];
                const auto w = window(c, sk0, 0);
                TLWE<P> o;
                if constexpr (dofft) {
                    dirty();
                    BlindRotate<BK>(acc, c, *fft, ptv);
                    judge("encrypted-vector", ref::phase<P>(acc, sk1), pph, w, 0, lim, info(c, q));
                }
                if constexpr (dontt) {
                    dirty();
                    BlindRotate<BK>(acc, c, *ntt, tv);
                    judge("ntt", ref::phase<P>(acc, sk1), tv, w, 0, lim, info(c, q));
                    GateBootstrappingTLWE2TLWENTT<BK>(o, c, *ntt, tv);
                    judge_tlwe("tlwe-ntt", o, sk1, tv, w, 0, 0, lim, info(c, q));
                }
                if constexpr (dorain) {
                    dirty();
                    BlindRotate<BK>(acc, c, *rain, tv);
                    judge("raintt", ref::phase<P>(acc, sk1), tv, w, 0, limr, info(c, q));
                    GateBootstrappingTLWE2TLWERAINTT<BK>(o, c, *rain, tv);
                    judge_tlwe("tlwe-raintt", o, sk1, tv, w, 0, 0, limr, info(c, q));
                }
            });
            if constexpr (dofft) {
                many<2>(1, sk0, sk1, *fft, tvs, lim, stride, info);
                many<3>(2, sk0, sk1, *fft, tvs, lim, stride, info);
                many<4>(2, sk0, sk1, *fft, tvs, lim, stride, info);
                many<8>(3, sk0, sk1, *fft, tvs, lim, stride, info);
            }
            if constexpr (dontt) {
                samples(2, std::max(stride, 3), [&](const TLWE<D> &c, size_t q) {
                    const auto &tv = tvs[q % tvs.size()];
                    dirty();
                    BlindRotate<BK, 4>(acc, c, *ntt, tv);
                    judge("ntt-4", ref::phase<P>(acc, sk1), tv, window(c, sk0, 2), 2, lim, info(c, q));
                    BlindRotate<BK, 4>(acc, c, *fft, ptv);
                    judge("encrypted-vector-4", ref::phase<P>(acc, sk1), pph, window(c, sk0, 2), 2, lim, info(c, q));
                });
            }
            if constexpr (dorain)
                samples(2, std::max(stride, 3), [&](const TLWE<D> &c, size_t q) {
                    const auto &tv = tvs[q % tvs.size()];
                    dirty();
                    BlindRotate<BK, 4>(acc, c, *rain, tv);
                    judge("raintt-4", ref::phase<P>(acc, sk1), tv, window(c, sk0, 2), 2, limr, info(c, q));
                });
        }
        vf::sample(vf::fmt("%s: %zu domain keys, %zu test vectors, stride %d", name, dkeys.size(), tvs.size(), stride));
    }
    template <uint32_t M, class I>
    static void many(int bw, const Key<D> &sk0, const Key<P> &sk1, const BootstrappingKeyFFT<BK> &fft, const std::vector<Polynomial<P>> &tvs, double lim, int stride, I info)
    {
        samples(bw, std::max(1, stride / 2), [&](const TLWE<D> &c, size_t q) {
            const auto &tv = tvs[q % 2];
            const auto w = window(c, sk0, bw);
            std::array<TLWE<P>, M> o;
            GateBootstrappingManyLUT<BK, M>(o, c, fft, tv);
            vf::transitions++;
            // all outputs at one common rotation
            bool ok = false;
            for (int64_t r = w.lo; r <= w.hi && !ok; r++) {
                const auto m = ref::monomul<T, N>(tv, uint64_t(((-r * (1 << bw)) % int64_t(2 * N) + int64_t(2 * N)) % int64_t(2 * N)));
                ok = true;
                for (size_t i = 0; i < M; i++) ok &= double(ref::dist<T>(ref::phase<P>(o[i], sk1), m[i])) * std::pow(2.0, -ref::W<T>) <= lim;
            }
            vf::evaluations += M;
            VF_CHECK(ok, nm + "/" + vf::fmt("many-lut-%u", M), "outputs are not one lookup of each table; %s", info(c, q).c_str());
        });
    }
};

// Bootstrapping and key switching in both orders: the sign of the phase.
template <class BK, class IK>
void orders(const char *name, int stride)
{
    using D = typename BK::domainP;
    using P = typename BK::targetP;
    constexpr bool binary = D::key_value_min == 0;
    constexpr typename P::T mu = P::μ;
    const auto dkeys = ref::allkeys<D>();
    const auto tkeys = ref::keys<P>(1);
    for (size_t di = 0; di < dkeys.size(); di++) {
        vf::free_rng(di * 5 + 3);
        SecretKey sk;
        const auto sk0 = dkeys[di];
        const auto sk1 = tkeys[(di + 1) % tkeys.size()];
        ref::setkey<D>(sk, sk0);
        ref::setkey<P>(sk, sk1);
        EvalKey ek;
        ek.emplacebkfft<BK>(sk);
        if constexpr (binary) ek.emplacebkntt<BK>(sk);
        ek.emplaceiksk<IK>(sk);
        double fac = 8.0 * D::n * (D::key_value_max - D::key_value_min);
        const double ksb = vf::ks_bound<IK>(sk1, IK::t, IK::basebit);
        const double rot = (1 + vf::keyl1(sk0) / 2) / (2.0 * P::n);
        const double xb = fac * vf::xp_bound<P>(1, sk1);
        // a set may place the lvl2 message anywhere on the torus
        const double mv = vf::frac(typename P::T(mu));
        auto check = [&](const std::string &key, double ph, double in, double margin, double lim, const std::string &info) {
            vf::transitions++; vf::evaluations++;
            const double d = std::min(std::fabs(in), 0.5 - std::fabs(in));  // distance to a sign change
            const bool plus = std::fabs(ph - mv) <= lim, minus = std::fabs(ph + mv) <= lim;
            const bool ok = d > margin ? (in > 0 ? plus : minus) : (plus || minus);
            VF_CHECK(ok, std::string(name) + "/" + key, "input phase %.5f gives %.5f (margin %.4f, error allowed %.4f); %s", in, ph, margin, lim, info.c_str());
        };
        if (ksb > 0.1 || xb > 0.05) vf::fail(std::string(name) + "/harness", vf::fmt("bounds too weak %g %g", ksb, xb));
        // bootstrap first
        B<BK>::nm = name;
        B<BK>::samples(0, stride, [&](const TLWE<D> &c, size_t q) {
            TLWE<D> r = c;
            const double in = vf::frac(ref::phase<D>(c, sk0));
            const std::string info = vf::fmt("domain key %zu sample %zu", di, q);
            GateBootstrapping<BK, mu, IK>(r, c, ek);
            check("bootstrap-first", vf::frac(ref::phase<D>(r, sk0)), in, rot, xb + ksb, info);
            TLWE<D> a = c;
            GateBootstrapping<BK, mu, IK>(a, a, ek);
            VF_CHECK(a == r, std::string(name) + "/bootstrap-first-alias", "in place differs; %s", info.c_str());
            if constexpr (binary) {
                GateBootstrappingNTT<BK, mu, IK>(r, c, ek);
                check("bootstrap-first-ntt", vf::frac(ref::phase<D>(r, sk0)), in, rot, xb + ksb, info);
            }
        });
        // key switch first: bodies over all classes, masks from edge families
        using T = typename P::T;
        for (size_t i = 0; i <= P::k * P::n; i++) {
            if (!vf::next_case()) continue;
            for (size_t b = i % 3; b < 4 * P::n; b += vf::thorough ? 1 : 3) {
                TLWE<P> c, r;
                for (size_t j = 0; j < P::k * P::n; j++) c[j] = i == 0 ? 0 : T(vf::prng(i * 7 + b, j) << (64 - ref::W<T>) >> (64 - ref::W<T>));
                if (i < P::k * P::n) c[i] = ref::edges<T>()[b % 9];
                // put the phase at the chosen class
                c[P::k * P::n] = 0;
                const T want = T(T(b) << (ref::W<T> - 2 - P::nbit));
                c[P::k * P::n] = T(want - ref::phase<P>(c, sk1));
                const double in = vf::frac(want);
                const std::string info = vf::fmt("domain key %zu mask %zu phase class %zu/4N", di, i, b);
                GateBootstrapping<IK, BK, mu>(r, c, ek);
                check("switch-first", vf::frac(ref::phase<P>(r, sk1)), in, rot + ksb, xb, info);
                TLWE<P> a = c;
                GateBootstrapping<IK, BK, mu>(a, a, ek);
                VF_CHECK(a == r, std::string(name) + "/switch-first-alias", "in place differs; %s", info.c_str());
                if constexpr (binary) {
                    GateBootstrappingNTT<IK, BK, mu>(r, c, ek);
                    check("switch-first-ntt", vf::frac(ref::phase<P>(r, sk1)), in, rot + ksb, xb, info);
                }
            }
        }
    }
}

int main(int argc, char **argv)
{
    vf::init(argc, argv);
    vf::set_noise(0);
    const auto k1 = ref::keys<lvl1param>(vf::thorough ? 4 : 1);
    const auto k2 = ref::keys<lvl2param>(vf::thorough ? 4 : 1);
#ifdef VP_RAINTT
    B<lvl01param>::run("lvl01", k1, vf::thorough ? 1 : 5);
    vf::finish();
#else
#ifndef VP_STRIDE
#define VP_STRIDE 5
#endif
    const int s = vf::thorough ? (VP_STRIDE + 3) / 4 : VP_STRIDE;
    B<lvl01param>::run("lvl01", k1, s);
    B<lvl02param>::run("lvl02", k2, 2 * s + 3);
#ifndef USE_KEY_BUNDLE
    B<lvlh1param>::run("lvlh1", k1, 2 * s + 5);
    B<lvlh2param>::run("lvlh2", k2, 2 * s + 7);
#endif
    orders<lvl01param, lvl10param>("orders-01-10", 2 * s + 3);
    orders<lvl02param, lvl20param>("orders-02-20", 4 * s + 3);
#ifndef USE_KEY_BUNDLE
    orders<lvlh1param, lvl1hparam>("orders-h1-1h", 2 * s + 5);
    orders<lvlh2param, lvl2hparam>("orders-h2-2h", 4 * s + 7);
#endif
    vf::finish();
#endif
}
