// C09: external products and CMUX.  Every plaintext of a family of GSW
// samples x every digit alphabet of the input x keys, in every transform.
#define VF_MAIN
#include "tlwe.hpp"
#include "trlwe.hpp"
#include "trgsw.hpp"
#include "key.hpp"
#include "detwfa.hpp"
#include "ks.hpp"
using namespace TFHEpp;

#ifdef TFHEPP_VERIF_PARAMS
static constexpr bool tiny = true;
#else
static constexpr bool tiny = false;
#endif
#ifdef VP_RAINTT
static constexpr bool rain_only = true;
#else
static constexpr bool rain_only = false;
#endif

template <class P>
struct X {
    using T = typename P::T;
    static constexpr int w = ref::W<T>, L = P::l, B = P::Bgbit;
    static constexpr size_t N = P::n, K = P::k;
    static inline const std::string NM = vf::lname<P>();

    // inputs: dense ones pair every digit value with every position, sparse
    // ones exercise a single coefficient of a single component
    static std::vector<T> words()
    {
        static std::vector<T> v;
        if (v.empty()) {
            std::set<T> s;
            vf::ks_words<T>(L, B, false, [&](T x) { s.insert(x); });
            for (T x : ref::edges<T>()) s.insert(x);
            v.assign(s.begin(), s.end());
            for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[vf::prng(31, i) % i]);
        }
        return v;
    }
    static std::vector<TRLWE<P>> dense(size_t count)
    {
        std::vector<TRLWE<P>> r;
        const auto fam = words();
        for (size_t s = 0; s < count; s++) {
            TRLWE<P> c;
            for (size_t k = 0; k <= K; k++) for (size_t i = 0; i < N; i++) c[k][i] = fam[(s * (K + 1) * N + k * N + i + (s >= fam.size() / ((K + 1) * N) ? s * 17 : 0)) % fam.size()];
            r.push_back(c);
        }
        return r;
    }
    static std::vector<TRLWE<P>> sparse(size_t stride)
    {
        std::vector<TRLWE<P>> r;
        const auto e = ref::edges<T>();
        size_t q = 0;
        for (size_t k = 0; k <= K; k++)
            for (size_t i = 0; i < N; i += (i == 0 || i + 1 >= N ? 1 : stride)) {
                for (int z = 0; z < 2; z++) {
                    TRLWE<P> c{};
                    c[k][i] = e[q++ % e.size()];
                    r.push_back(c);
                }
            }
        return r;
    }
    static double sd()
    {
        if constexpr (tiny && !hasq<P>) return 0;
        if constexpr (P::errordist == ErrorDistribution::ModularGaussian) return P::α;
        else return std::sqrt(P::η / 2.0) / double(P::q);
    }
    static double l1(const Polynomial<P> &m)
    {
        double s = 0;
        for (auto x : m) s += std::fabs(double(ref::sgn(x)));
        return s;
    }
    // error of a product by a GSW sample of plaintext m
    enum Engine { FFT, NTT, RAIN };
    static double bound(double m1, const Key<P> &key, Engine e, bool half = false)
    {
        const double rows = double(half ? 1 : K + 1) * L, cols = rows * N;
        double r = m1 * ((half ? 0 : vf::keyl1(key)) + 1) * std::pow(2.0, -double(L * B + 1));
        const double digit = std::pow(2.0, B - 1);
        r += 8 * sd() * digit * std::sqrt(cols);                       // key noise
        const double enc = w == 64 ? std::pow(2.0, -48) * std::sqrt(double(N)) : std::pow(2.0, -32);
        r += enc * digit * cols * (tiny ? 1 : std::min(1.0, 8 / std::sqrt(cols)));   // rounding of the rows' own products
        r += std::pow(2.0, -53) * 3 * P::nbit * digit * N * rows;      // transform of the product
        r += std::pow(2.0, -w) * (N + 2) * rows;
        // modulus switch of the rows (30 or 26 bits)
        if (e == RAIN) r += std::pow(2.0, -(hasq<P> ? 26 : 30)) * digit * cols * (tiny ? 1 : std::min(1.0, 8 / std::sqrt(cols)));
        return r;
    }
    static void judge(const std::string &key, const TRLWE<P> &got, const Key<P> &sk, const Polynomial<P> &want, double lim, const std::string &info)
    {
        const auto ph = ref::phase<P>(got, sk);
        vf::transitions++; vf::evaluations += N;
        const double allowed = lim * std::pow(2.0, w);
        if (allowed > 0) { auto &ctr = vf::counters["max:" + NM + "/" + key + "/percent-of-bound"]; ctr = std::max(ctr, uint64_t(100 * double(ref::maxdist<T, N>(ph, want)) / allowed)); }
        for (size_t i = 0; i < N; i++)
            if (!(double(ref::dist<T>(ph[i], want[i])) <= allowed)) {
                vf::fail(NM + "/" + key, vf::fmt("coefficient %zu off by %.3g of the torus, allowed %.3g; %s", i, double(ref::dist<T>(ph[i], want[i])) * std::pow(2.0, -w), lim, info.c_str()));
                return;
            }
    }
    struct Plain { std::string name; Polynomial<P> m; };
    static std::vector<Plain> plains()
    {
        std::vector<Plain> v;
        auto mono = [&](int c, size_t e) { Plain p; p.m.fill(0); p.m[e] = T(int64_t(c)); p.name = vf::fmt("%dX^%zu", c, e); v.push_back(p); };
        mono(1, 0);
        mono(0, 0);
        const size_t st = tiny ? 1 : N / 4;
        for (size_t e = 1; e < N; e += st) { mono(1, e); if (e % 5 == 1 || !tiny) mono(-1, e); }
        mono(-1, 0); mono(3, 0); mono(-2, N - 1);
        for (int d = 0; d < 2; d++) {
            Plain p;
            for (size_t i = 0; i < N; i++) p.m[i] = T(int64_t(vf::prng(41 + d, i) % 3) - 1);
            if (!tiny) for (size_t i = 0; i < N; i++) if (i % 16) p.m[i] = 0;   // keep the error bound below a quarter
            p.name = vf::fmt("dense%d", d);
            v.push_back(p);
        }
        return v;
    }
    static Polynomial<P> prod(const Polynomial<P> &m, const Polynomial<P> &ph) { return ref::negmul<T, N>(ph, m); }

    static void products(const std::vector<Key<P>> &keys)
    {
        const auto D = dense(tiny ? (vf::thorough ? words().size() * 4 / N : words().size() / N / (K + 1) + 8) : vf::thorough ? 16 : 2);
        const auto S = sparse(tiny ? 1 : N / 2);
        const auto M = plains();
        for (size_t ki = 0; ki < keys.size(); ki++) {
            const auto &key = keys[ki];
            for (size_t mi = 0; mi < M.size(); mi++) {
                if (!vf::next_case()) continue;
                const auto &m = M[mi].m;
                const double m1 = l1(m);
                vf::free_rng(ki * 1000 + mi);
                vf::state(vf::hash(&m, sizeof m, ki));
                std::vector<const TRLWE<P> *> in;
                for (size_t s = 0; s < D.size(); s++) in.push_back(&D[s]);
                for (size_t s = 0; s < S.size(); s++) if ((s + mi) % (vf::thorough ? 1 : 3) == 0) in.push_back(&S[s]);
                std::unique_ptr<TRGSWFFT<P>> fft;
                std::unique_ptr<TRGSWNTT<P>> ntt;
                std::unique_ptr<HalfTRGSWFFT<P>> half;
                if constexpr (!rain_only) {
                    fft = std::make_unique<TRGSWFFT<P>>(trgswfftSymEncrypt<P>(m, key));
                    ntt = std::make_unique<TRGSWNTT<P>>(trgswnttSymEncrypt<P>(m, key));
                    half = std::make_unique<HalfTRGSWFFT<P>>(halftrgswfftSymEncrypt<P>(m, key));
                }
                size_t q = 0;
                for (auto *c : in) {
                    const auto want = prod(m, ref::phase<P>(*c, key));
                    const std::string info = vf::fmt("plaintext %s key %zu input %zu", M[mi].name.c_str(), ki, q);
                    alignas(64) TRLWE<P> r;
                    for (auto &x : r) x.fill(T(0x3c3c3c3c));
                    if constexpr (!rain_only) {
                        trgswfftExternalProduct<P>(r, *c, *fft);
                        judge("external-product-fft", r, key, want, bound(m1, key, FFT), info);
                        alignas(64) TRLWE<P> a = *c;
                        trgswfftExternalProduct<P>(a, a, *fft);
                        VF_CHECK(std::memcmp(&a, &r, sizeof r) == 0, NM + "/external-product-fft-alias", "in-place result differs; %s", info.c_str());
                        trgswnttExternalProduct<P>(r, *c, *ntt);
                        judge("external-product-ntt", r, key, want, bound(m1, key, NTT), info);
                        a = *c;
                        trgswnttExternalProduct<P>(a, a, *ntt);
                        VF_CHECK(std::memcmp(&a, &r, sizeof r) == 0, NM + "/external-product-ntt-alias", "in-place result differs; %s", info.c_str());
                        const Polynomial<P> &poly = (*c)[q % (K + 1)];
                        halftrgswfftExternalProduct<P>(r, poly, *half);
                        judge("half-external-product", r, key, prod(m, poly), bound(m1, key, FFT, true), info);
                        // selection: data 1 is this input, data 0 the next
                        if (M[mi].name == "1X^0" || M[mi].name == "0X^0") {
                            const bool bit = m[0] == 1;
                            const TRLWE<P> &c1 = *c, &c0 = *in[(q + 1) % in.size()];
                            const auto sel = ref::phase<P>(bit ? c1 : c0, key);
                            CMUXFFT<P>(r, *fft, c1, c0);
                            judge(bit ? "cmux-1" : "cmux-0", r, key, sel, bound(1, key, FFT), info);
                            a = c1;
                            CMUXFFT<P>(a, *fft, a, c0);
                            judge(bit ? "cmux-1-alias" : "cmux-0-alias", a, key, sel, bound(1, key, FFT), info);
                        }
                    }
                    q++;
                }
                if constexpr (std::is_same_v<P, lvl1param> && std::is_same_v<T, uint32_t> && (rain_only || !hasq<P>)) {
                    auto rain = std::make_unique<TRGSWRAINTT<P>>(trgswrainttSymEncrypt<P>(m, key));
                    q = 0;
                    for (auto *c : in) {
                        const auto want = prod(m, ref::phase<P>(*c, key));
                        const std::string info = vf::fmt("plaintext %s key %zu input %zu", M[mi].name.c_str(), ki, q++);
                        TRLWE<P> r, a = *c;
                        trgswrainttExternalProduct<P>(r, *c, *rain);
                        judge("external-product-raintt", r, key, want, bound(m1, key, RAIN), info);
                        trgswrainttExternalProduct<P>(a, a, *rain);
                        VF_CHECK(std::memcmp(&a, &r, sizeof r) == 0, NM + "/external-product-raintt-alias", "in-place result differs; %s", info.c_str());
                    }
                }
            }
        }
        vf::sample(vf::fmt("%s: %zu keys x %zu plaintexts x %zu dense and %zu sparse inputs", NM.c_str(), keys.size(), M.size(), D.size(), S.size()));
    }
};

// acc *= X^(a*s), for every exponent and every key value
template <class BK>
void rotate(const char *name, const std::vector<Key<typename BK::targetP>> &keys)
{
    using P = typename BK::targetP;
    using D = typename BK::domainP;
    using T = typename P::T;
    constexpr size_t N = P::n;
    const auto in = X<P>::dense(tiny ? 4 : 1);
    for (size_t ki = 0; ki < keys.size(); ki++)
        for (int s = D::key_value_min; s <= D::key_value_max; s++) {
            vf::free_rng(ki * 77 + s + 5);
            Polynomial<P> pl{};
            std::unique_ptr<BootstrappingKeyElementFFT<BK>> el;
            std::unique_ptr<TRGSWNTT<P>> ntt;
            std::unique_ptr<TRGSWRAINTT<P>> rain;
#ifndef USE_KEY_BUNDLE
            if constexpr (!rain_only) {
                el = std::make_unique<BootstrappingKeyElementFFT<BK>>();
                int count = 0;
                for (int j = D::key_value_min; j <= D::key_value_max; j++)
                    if (j) { pl[0] = j == s; (*el)[count++] = trgswfftSymEncrypt<P>(pl, keys[ki]); }
                pl[0] = T(int64_t(s));
                if (D::key_value_min == 0) ntt = std::make_unique<TRGSWNTT<P>>(trgswnttSymEncrypt<P>(pl, keys[ki]));
            }
#endif
            pl[0] = T(int64_t(s));
            if constexpr (std::is_same_v<P, lvl1param> && std::is_same_v<T, uint32_t> && (rain_only || !hasq<P>))
                if (D::key_value_min == 0) rain = std::make_unique<TRGSWRAINTT<P>>(trgswrainttSymEncrypt<P>(pl, keys[ki]));
            for (size_t a = 0; a <= 2 * N; a++) {
                if (!tiny && a % (N / 4) > 1 && a != 2 * N - 1) continue;
                if (!vf::next_case()) continue;
                vf::state(vf::mix(a * 8 + s + 2) ^ ki << 32);
                for (size_t q = 0; q < in.size(); q++) {
                    auto ph = ref::phase<P>(in[q], keys[ki]);
                    const auto want = ref::monomul<T, N>(ph, uint64_t(int64_t(2 * N) + (int64_t(s) * int64_t(a)) % int64_t(2 * N)));
                    const std::string info = vf::fmt("exponent %zu key value %d key %zu input %zu", a, s, ki, q);
                    const double m1 = 2 * (D::key_value_max - D::key_value_min);
                    alignas(64) TRLWE<P> acc;
#ifndef USE_KEY_BUNDLE
                    if constexpr (!rain_only) {
                        acc = in[q];
                        CMUXFFTwithPolynomialMulByXaiMinusOne<BK>(acc, *el, int(a));
                        double b = X<P>::bound(m1, keys[ki], X<P>::FFT) * 2;
#ifdef USE_TERNARY_CMUX
                        b *= 2;
#endif
                        X<P>::judge(std::string(name) + "-rotate-fft", acc, keys[ki], want, b, info);
                        if (ntt) {
                            acc = in[q];
                            CMUXNTTwithPolynomialMulByXaiMinusOne<P>(acc, *ntt, T(a));
                            X<P>::judge(std::string(name) + "-rotate-ntt", acc, keys[ki], want, X<P>::bound(m1, keys[ki], X<P>::NTT), info);
                        }
                    }
#endif
                    if constexpr (std::is_same_v<P, lvl1param> && std::is_same_v<T, uint32_t> && (rain_only || !hasq<P>))
                        if (rain) {
                            acc = in[q];
                            CMUXRAINTTwithPolynomialMulByXaiMinusOne<P>(acc, *rain, T(a));
                            X<P>::judge(std::string(name) + "-rotate-raintt", acc, keys[ki], want, X<P>::bound(m1, keys[ki], X<P>::RAIN), info);
                        }
                }
            }
        }
}
#ifdef USE_TERNARY
// multiplication by X^a - 1 in the evaluation domain, every exponent
template <class P>
void infd()
{
    using T = typename P::T;
    constexpr size_t N = P::n;
    const auto in = X<P>::dense(2);
    for (int a = -int(2 * N); a <= int(2 * N); a++) {
        if (!tiny && a % int(N / 4) > 1) continue;
        if (!vf::next_case()) continue;
        for (auto &c : in)
            for (auto &p : c) {
                alignas(64) PolynomialInFD<P> f, g;
                TwistIFFT<P>(f, p);
                PolynomialMulByXaiMinusOneInFD<P>(g, f, a);
                Polynomial<P> r;
                TwistFFT<P>(r, g);
                auto want = ref::monomul<T, N>(p, uint64_t(a + int(4 * N)) % (2 * N));
                for (size_t i = 0; i < N; i++) want[i] -= p[i];
                vf::transitions++; vf::evaluations++;
                const double lim = std::pow(2.0, ref::W<T> - 53) * 3 * P::nbit * 2 * N + 2;
                VF_CHECK(double(ref::maxdist<T, N>(r, want)) <= lim, vf::fmt("%s/xai-minus-one-in-fd", vf::lname<P>()), "exponent %d off by %llu", a, (unsigned long long)ref::maxdist<T, N>(r, want));
            }
    }
}
#endif
// The standalone evaluation-domain form lists the evaluations in natural order:
// entry k of row r is p(g^(2k+1)) for one primitive 2N-th root g shared by all rows.
template <class P>
void natural(const char *name)
{
    using T = typename P::T;
    constexpr size_t N = P::n;
    constexpr size_t R = (P::k + 1) * P::l, C = P::k + 1;
    using F = cuHEpp::INTorus;
    auto in = std::make_unique<TRGSW<P>>();
    auto put = [&](size_t shift, bool two) {
        for (size_t i = 0; i < R; i++)
            for (size_t j = 0; j < C; j++) {
                auto &p = (*in)[i][j];
                p.fill(0);
                p[(i * C + j + shift) % N] = 1;
                if (two) p[(3 * i + 5 * j + 2 * shift + 1) % N] += 1;
            }
    };
    // the points come from X itself
    std::vector<F> x(N), one(N);
    {
        for (auto &t : *in) for (auto &p : t) { p.fill(0); p[1] = 1; }
        auto o = std::make_unique<TRGSWNTT<P>>(TRGSW2NTT<P>(*in));
        for (size_t k = 0; k < N; k++) x[k] = (*o)[0][0][k];
        for (auto &t : *in) for (auto &p : t) { p.fill(0); p[0] = 1; }
        *o = TRGSW2NTT<P>(*in);
        for (size_t k = 0; k < N; k++) VF_CHECK((*o)[0][0][k].value == 1, std::string(name) + "/ntt-natural-order", "constant one at %zu is %llu", k, (unsigned long long)(*o)[0][0][k].value);
    }
    const F step = x[0] * x[0];
    F pw = F(1);
    for (size_t i = 0; i < N; i++) pw = pw * x[0];
    VF_CHECK(pw.value == cuHEpp::P - 1, std::string(name) + "/ntt-natural-order", "point 0 is not a primitive root");
    for (size_t k = 0; k + 1 < N; k++) VF_CHECK((x[k] * step).value == x[k + 1].value, std::string(name) + "/ntt-natural-order", "point %zu does not follow point %zu", k + 1, k);
    std::vector<std::vector<F>> pwr(N, std::vector<F>(N));
    for (size_t k = 0; k < N; k++) { F a = F(1); for (size_t e = 0; e < N; e++) { pwr[k][e] = a; a = a * x[k]; } }
    const size_t st = tiny ? 1 : N / 16;
    for (int two = 0; two < 2; two++)
        for (size_t sh = 0; sh < N; sh += st) {
            if (!vf::next_case()) continue;
            put(sh, two);
            auto o = std::make_unique<TRGSWNTT<P>>(TRGSW2NTT<P>(*in));
            vf::transitions++; vf::evaluations += R * C * N;
            vf::state(vf::hash(in.get(), sizeof *in, 77));
            for (size_t i = 0; i < R; i++)
                for (size_t j = 0; j < C; j++)
                    for (size_t k = 0; k < N; k++) {
                        F want = pwr[k][(i * C + j + sh) % N];
                        if (two) want = want + pwr[k][(3 * i + 5 * j + 2 * sh + 1) % N];
                        if ((*o)[i][j][k].value != want.value) {
                            vf::fail(std::string(name) + "/ntt-natural-order", vf::fmt("row %zu column %zu entry %zu shift %zu", i, j, k, sh));
                            i = R; j = C; break;
                        }
                    }
        }
}
int main(int argc, char **argv)
{
    vf::init(argc, argv);
#ifdef TFHEPP_VERIF_PARAMS
    vf::set_noise(0);
#endif
    auto k1 = ref::keys<lvl1param>(vf::thorough ? 12 : 1);
    auto k2 = ref::keys<lvl2param>(vf::thorough ? 12 : 1);
    if (!tiny) { k1 = {k1[3]}; k2 = {k2[3]}; }
    X<lvl1param>::products(k1);
    if (tiny) { k1 = {k1[0], k1[3]}; k2 = {k2[0], k2[3], k2[4]}; }
    rotate<lvl01param>("lvl01", k1);
    if constexpr (!rain_only) {
        X<lvl2param>::products(k2);
        rotate<lvl02param>("lvl02", k2);
        natural<lvl1param>("lvl1");
        natural<lvl2param>("lvl2");
        if (tiny) { rotate<lvlh1param>("lvlh1", k1); rotate<lvlh2param>("lvlh2", k2); }
    }
#ifdef USE_TERNARY
    infd<lvl1param>();
    infd<lvl2param>();
#endif
    vf::finish();
}
