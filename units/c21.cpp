// C21: contents of every element of every evaluation key against the key's
// definition, for families of secret keys and masks; and all histories of
// emplacing keys into the registry against a map from component to owner.
#define VF_MAIN
#include "tlwe.hpp"
#include "trlwe.hpp"
#include "trgsw.hpp"
#include "key.hpp"
#include "cloudkey.hpp"
#include "lv.hpp"
#include "xp.hpp"
#ifdef _OPENMP
#include <omp.h>
#endif
using namespace TFHEpp;
using vf::lname;

template <class P>
double noisemax()   // torus fraction
{
    if constexpr (P::errordist == ErrorDistribution::CenteredBinomial) return (double(P::η) + 1) / double(P::q);
    else return 9 * P::α;
}
template <class T> double frac(T a, T b) { return double(ref::dist<T>(a, b)) / std::pow(2.0, ref::W<T>); }
// FFT rounding: of the encryption, and of a transform to the Fourier domain and back
template <class P> double encround() { return ref::W<typename P::T> == 64 ? std::pow(2.0, -48) * std::sqrt(double(P::n)) : std::pow(2.0, -29); }
template <class P> double fdround() { return 16 * encround<P>(); }

template <class P>
std::array<int64_t, P::n> part(const Key<P> &k, size_t c)
{
    std::array<int64_t, P::n> r;
    for (size_t i = 0; i < P::n; i++) r[i] = ref::sgn<typename P::T>(k[c * P::n + i]);
    return r;
}
template <class P>
void expect_tlwe(const std::string &n, const TLWE<P> &c, const Key<P> &key, typename P::T want, size_t i, size_t j, size_t u)
{
    vf::transitions++; vf::evaluations++;
    const auto ph = ref::phase<P>(c, key);
    VF_CHECK((frac<typename P::T>(ph, want) <= noisemax<P>()), n, "element [%zu][%zu][%zu] decrypts to %llx, its definition is %llx", i, j, u, (unsigned long long)ph, (unsigned long long)want);
}
template <class P>
void expect_trlwe(const std::string &n, const TRLWE<P> &c, const Key<P> &key, const Polynomial<P> &want, double round, size_t i, size_t j, size_t u)
{
    vf::transitions++; vf::evaluations++;
    const auto ph = ref::phase<P>(c, key);
    for (size_t x = 0; x < P::n; x++)
        if (!(frac<typename P::T>(ph[x], want[x]) <= noisemax<P>() + encround<P>() + round)) {
            vf::fail(n, vf::fmt("element [%zu][%zu][%zu]: coefficient %zu decrypts to %llx, its definition is %llx", i, j, u, x, (unsigned long long)ph[x], (unsigned long long)want[x]));
            return;
        }
}
template <class P>
TRLWE<P> back(const TRLWEInFD<P> &r)
{
    TRLWE<P> t;
    for (size_t k = 0; k <= P::k; k++) {
        alignas(64) PolynomialInFD<P> x = r[k];
        TwistFFT<P>(t[k], x);
    }
    return t;
}
// a GSW sample of the polynomial m (small integers): row by row
template <class P, class A, class F>
void expect_gsw(const std::string &n, const A &g, const Key<P> &key, const std::array<int64_t, P::n> &m, F row, double round, bool half, size_t i, size_t j)
{
    using T = typename P::T;
    Polynomial<P> mt;
    for (size_t x = 0; x < P::n; x++) mt[x] = T(m[x]);
    for (size_t k = half ? P::k : 0; k <= P::k; k++)
        for (size_t d = 0; d < P::l; d++) {
            const int sh = ref::W<T> - int((d + 1) * P::Bgbit);
            Polynomial<P> want;
            if (k == P::k) want = mt;
            else {
                std::array<T, P::n> s;
                for (size_t x = 0; x < P::n; x++) s[x] = T(0 - key[k * P::n + x]);
                want = ref::negmul<T, P::n>(mt, s);
            }
            for (auto &x : want) x = T(x << sh);
            expect_trlwe<P>(n, row(g[half ? d : k * P::l + d]), key, want, round, i, j, k * P::l + d);
        }
}
template <class P> std::array<int64_t, P::n> constant(int64_t v) { std::array<int64_t, P::n> r{}; r[0] = v; return r; }
// plaintexts of the bootstrapping key, element by element, in the order of the digits / of the bundle
template <class B>
std::vector<std::vector<int>> bkplain(const Key<typename B::domainP> &dk)
{
    using D = typename B::domainP;
    std::vector<std::vector<int>> r;
    auto s = [&](size_t i) { return int(ref::sgn<typename D::T>(dk[i])); };
#ifdef USE_KEY_BUNDLE
    for (size_t i = 0; i + 1 < D::k * D::n; i += 2) r.push_back({s(i) * s(i + 1), s(i) * (1 - s(i + 1)), (1 - s(i)) * s(i + 1)});
#else
    for (size_t i = 0; i < D::k * D::n; i++) {
        r.emplace_back();
        for (int v = D::key_value_min; v <= D::key_value_max; v++) if (v) r.back().push_back(s(i) == v);
    }
#endif
    return r;
}
template <class B>
void check_bk(const std::string &n, const BootstrappingKey<B> &bk, const SecretKey &sk, size_t step = 1)
{
    using P = typename B::targetP;
    const auto pl = bkplain<B>(sk.key.get<typename B::domainP>());
    VF_CHECK(bk.size() >= pl.size(), n + "/size", "%zu elements for %zu", bk.size(), pl.size());
    for (size_t i = 0; i < pl.size(); i++)
        for (size_t j = 0; (i % step == 0 || i + 1 == pl.size()) && j < pl[i].size(); j++)
            expect_gsw<P>(n, bk[i][j], sk.key.get<P>(), constant<P>(pl[i][j]), [](const TRLWE<P> &r) { return r; }, 0, false, i, j);
}
template <class B>
void check_bkfft(const std::string &n, const BootstrappingKeyFFT<B> &bk, const SecretKey &sk, size_t step = 1)
{
    using P = typename B::targetP;
    const auto pl = bkplain<B>(sk.key.get<typename B::domainP>());
    for (size_t i = 0; i < pl.size(); i++)
        for (size_t j = 0; (i % step == 0 || i + 1 == pl.size()) && j < pl[i].size(); j++)
            expect_gsw<P>(n, bk[i][j], sk.key.get<P>(), constant<P>(pl[i][j]), [](const TRLWEInFD<P> &r) { return back<P>(r); }, fdround<P>(), false, i, j);
}
// NTT domains: what the sample does to a ciphertext
template <class B, class K, class F>
void check_bkx(const std::string &n, const K &bk, const SecretKey &sk, vf::Engine e, F prod)
{
    using P = typename B::targetP;
    using T = typename P::T;
    const auto &dk = sk.key.get<typename B::domainP>();
    const auto &key = sk.key.get<P>();
    for (size_t i = 0; i < B::domainP::k * B::domainP::n; i++) {
        const int64_t m = ref::sgn<typename B::domainP::T>(dk[i]);
        for (int pat = 0; pat < 3; pat++) {
            TRLWE<P> c, r;
            for (size_t k = 0; k <= P::k; k++)
                for (size_t x = 0; x < P::n; x++) c[k][x] = pat == 0 ? T(vf::prng(i * 8 + k, x)) : pat == 1 ? T(k == i % (P::k + 1) && x == i % P::n ? T(1) << (ref::W<T> - 2) : 0) : T(T(1) << (ref::W<T> - 1));
            prod(r, c, bk[i]);
            const auto a = ref::phase<P>(c, key), b = ref::phase<P>(r, key);
            const double lim = vf::xp_bound<P>(double(std::llabs(m)), key, e);
            double worst = 0;
            for (size_t x = 0; x < P::n; x++) worst = std::max(worst, frac<T>(b[x], T(uint64_t(a[x]) * uint64_t(m))));
            vf::transitions++; vf::evaluations++;
            VF_CHECK(lim < 0.2, "harness", "bound %g is vacuous", lim);
            VF_CHECK(worst <= lim, n, "element %zu encrypts %lld: product off by %g, bound %g", i, (long long)m, worst, lim);
        }
    }
}
template <class K>
void check_iksk(const std::string &n, const KeySwitchingKey<K> &k, const SecretKey &sk)
{
    using D = typename K::domainP;
    using P = typename K::targetP;
    const auto &dk = sk.key.get<D>();
    VF_CHECK(k.size() == D::k * D::n && k[0].size() == K::t && k[0][0].size() == (1u << (K::basebit - 1)), n + "/size", "%zu %zu %zu", k.size(), k[0].size(), k[0][0].size());
    for (size_t i = 0; i < k.size(); i++)
        for (size_t j = 0; j < K::t; j++)
            for (size_t u = 0; u < k[i][j].size(); u++)
                expect_tlwe<P>(n, k[i][j][u], sk.key.get<P>(), typename P::T(uint64_t(ref::sgn<typename D::T>(dk[i])) * (u + 1) << (ref::W<typename P::T> - (j + 1) * K::basebit)), i, j, u);
}
template <class K>
void check_subiksk(const std::string &n, const SubsetKeySwitchingKey<K> &k, const SecretKey &sk)
{
    using D = typename K::domainP;
    using P = typename K::targetP;
    const auto &dk = sk.key.get<D>();
    Key<P> sub;
    for (size_t i = 0; i < P::k * P::n; i++) sub[i] = typename P::T(ref::sgn<typename D::T>(dk[i]));
    VF_CHECK(k.size() == D::k * D::n - P::k * P::n, n + "/size", "%zu", k.size());
    for (size_t i = 0; i < k.size(); i++)
        for (size_t j = 0; j < K::t; j++)
            for (size_t u = 0; u < k[i][j].size(); u++)
                expect_tlwe<P>(n, k[i][j][u], sub, typename P::T(uint64_t(ref::sgn<typename D::T>(dk[P::k * P::n + i])) * (u + 1) << (ref::W<typename P::T> - (j + 1) * K::basebit)), i, j, u);
}
template <class K, class PK>
void check_priv(const std::string &n, const PK &k, const SecretKey &sk, const Polynomial<typename K::targetP> &f, bool subset)
{
    using D = typename K::domainP;
    using P = typename K::targetP;
    using T = typename P::T;
    const auto &dk = sk.key.get<D>();
    const size_t N = subset ? P::k * P::n : D::k * D::n;
    VF_CHECK(k.size() == N + 1, n + "/size", "%zu", k.size());
    for (size_t i = 0; i <= N; i++)
        for (size_t j = 0; j < K::t; j++)
            for (size_t u = 0; u < k[i][j].size(); u++) {
                const uint64_t s = i < N ? uint64_t(ref::sgn<typename D::T>(dk[i])) : ~0ull;
                Polynomial<P> want;
                for (size_t x = 0; x < P::n; x++) want[x] = T(uint64_t(f[x]) * s * (u + 1) << (ref::W<T> - (j + 1) * K::basebit));
                expect_trlwe<P>(n, k[i][j][u], sk.key.get<P>(), want, 0, i, j, u);
            }
}
template <class K>
void check_tlwe2trlwe(const std::string &n, const TLWE2TRLWEIKSKey<K> &k, const SecretKey &sk)
{
    using D = typename K::domainP;
    using P = typename K::targetP;
    const auto &dk = sk.key.get<D>();
    for (size_t i = 0; i < k.size(); i++)
        for (size_t j = 0; j < K::t; j++)
            for (size_t u = 0; u < k[i][j].size(); u++) {
                Polynomial<P> want{};
                want[0] = typename P::T(uint64_t(ref::sgn<typename D::T>(dk[i])) * (u + 1) << (ref::W<typename P::T> - (j + 1) * K::basebit));
                expect_trlwe<P>(n, k[i][j][u], sk.key.get<P>(), want, 0, i, j, u);
            }
}
template <class P>
std::array<int64_t, P::n> automorphism(const std::array<int64_t, P::n> &a, uint64_t d)
{
    std::array<int64_t, P::n> r{};
    for (size_t i = 0; i < P::n; i++) {
        const uint64_t e = i * d % (2 * P::n);
        if (e < P::n) r[e] += a[i];
        else r[e - P::n] -= a[i];
    }
    return r;
}
template <class P>
void check_auto(const std::string &n, const EvalAutoKey<P> &k, uint64_t d, const Key<P> &key)
{
    for (size_t c = 0; c < P::k; c++)
        expect_gsw<P>(n, k[c], key, automorphism<P>(part<P>(key, c), d), [](const TRLWEInFD<P> &r) { return back<P>(r); }, fdround<P>(), true, c, d);
}
template <class P>
void check_relin(const SecretKey &sk)
{
    if constexpr (P::k == 1) {
        const auto &key = sk.key.get<P>();
        auto s = part<P>(key, 0);
        std::array<int64_t, P::n> sq{};
        for (size_t i = 0; i < P::n; i++) for (size_t j = 0; j < P::n; j++) (i + j < P::n ? sq[i + j] : sq[i + j - P::n]) += (i + j < P::n ? 1 : -1) * s[i] * s[j];
        const auto r = relinKeygen<P>(key);
        expect_gsw<P>(std::string("relin-") + lname<P>(), r, key, sq, [](const TRLWE<P> &r) { return r; }, 0, true, 0, 0);
        const auto f = relinKeyFFTgen<P>(key);
        expect_gsw<P>(std::string("relinfft-") + lname<P>(), f, key, sq, [](const TRLWEInFD<P> &r) { return back<P>(r); }, fdround<P>(), true, 0, 0);
    }
}
template <class P>
void autos(const SecretKey &sk, size_t step = 1)
{
    const auto &key = sk.key.get<P>();
    auto a = std::make_unique<AnnihilateKey<P>>();
    annihilatekeygen<P>(*a, sk);
    for (size_t i = 0; i < P::nbit; i++) check_auto<P>(std::string("annihilate-") + lname<P>(), (*a)[i], (1ull << (P::nbit - i)) + 1, key);
    for (uint64_t d = 1; d < 2 * P::n; d += 2 * step) {
        auto e = std::make_unique<EvalAutoKey<P>>();
        evalautokeygen<P>(*e, uint(d), key);
        check_auto<P>(std::string("evalauto-") + lname<P>(), *e, d, key);
    }
}
template <class P>
std::vector<Polynomial<P>> funcs()
{
    std::vector<Polynomial<P>> v(3);
    v[0] = {}; v[0][0] = 1;
    for (size_t i = 0; i < P::n; i++) v[1][i] = typename P::T(0) - typename P::T(i % 3);
    v[2] = {}; v[2][P::n - 1] = typename P::T(0x123456789abcdefull);
    return v;
}
template <class P, class K> auto mk() { return std::unique_ptr<K>(new (std::align_val_t(64)) K()); }
#define MAKE(T) std::unique_ptr<T>(new (std::align_val_t(64)) T())

template <class B> void bks(const std::string &n, const SecretKey &sk, size_t step = 1)
{
    auto f = MAKE(BootstrappingKeyFFT<B>);
    bkfftgen<B>(*f, sk);
    check_bkfft<B>("bkfft-" + n, *f, sk, step);
    if (step > 1) return;
    auto b = MAKE(BootstrappingKey<B>);
    bkgen<B>(*b, sk);
    check_bk<B>("bk-" + n, *b, sk, step);
#if !defined(USE_KEY_BUNDLE) && !defined(VP_RAINTT)
    if constexpr (!hasq<typename B::targetP> && B::domainP::key_value_min == 0 && B::targetP::nbit >= 5 && ref::W<typename B::targetP::T> == 32) {
        auto t = MAKE(BootstrappingKeyNTT<B>);
        bknttgen<B>(*t, sk);
        check_bkx<B>("bkntt-" + n, *t, sk, vf::NTT, [](auto &r, const auto &c, const auto &g) { trgswnttExternalProduct<typename B::targetP>(r, c, g); });
    }
#endif
}
template <class K> void iksks(const std::string &n, const SecretKey &sk)
{
    auto k = MAKE(KeySwitchingKey<K>);
    ikskgen<K>(*k, sk);
    check_iksk<K>("iksk-" + n, *k, sk);
}
template <class K> void privs(const std::string &n, const SecretKey &sk)
{
    for (auto &f : funcs<typename K::targetP>()) {
        auto k = MAKE(PrivateKeySwitchingKey<K>);
        privkskgen<K>(*k, f, sk);
        check_priv<K>("privksk-" + n, *k, sk, f, false);
    }
}
#ifdef TFHEPP_VERIF_PARAMS
// ---------------------------------------------------------------- registry
struct Comp {
    std::string name;
    std::function<void(EvalKey &, const SecretKey &)> put;
    std::function<bool(const EvalKey &)> has;
    std::function<void(const EvalKey &, const SecretKey &)> check;   // through get*
    std::function<uint64_t(const EvalKey &)> sum;                     // bytes of the component
    std::string needs;                                                // component that has to be there first
};
std::vector<Comp> comps()
{
    std::vector<Comp> v;
    static const Polynomial<lvl1param> f1 = funcs<lvl1param>()[1];
    static const Polynomial<lvl2param> f2 = funcs<lvl2param>()[2];
#define SUM(m) [](const EvalKey &e) { return e.m ? vf::hash(e.m.get(), sizeof(*e.m)) : 0; }
#define BK(L)                                                                                                                                                                \
    v.push_back({"bk" #L, [](EvalKey &e, const SecretKey &s) { e.emplacebk<L##param>(s); }, [](const EvalKey &e) { return !!e.bk##L; }, [](const EvalKey &e, const SecretKey &s) { check_bk<L##param>("registry/bk" #L, e.getbk<L##param>(), s); }, SUM(bk##L), ""});               \
    v.push_back({"bkfft" #L, [](EvalKey &e, const SecretKey &s) { e.emplacebkfft<L##param>(s); }, [](const EvalKey &e) { return !!e.bkfft##L; }, [](const EvalKey &e, const SecretKey &s) { check_bkfft<L##param>("registry/bkfft" #L, e.getbkfft<L##param>(), s); }, SUM(bkfft##L), ""});  \
    v.push_back({"bk2bkfft" #L, [](EvalKey &e, const SecretKey &) { e.emplacebk2bkfft<L##param>(); }, [](const EvalKey &e) { return !!e.bkfft##L; }, [](const EvalKey &e, const SecretKey &s) { check_bkfft<L##param>("registry/bk2bkfft" #L, e.getbkfft<L##param>(), s); }, SUM(bkfft##L), "bk" #L});
    BK(lvl01) BK(lvlh1) BK(lvl02) BK(lvlh2)
#ifndef USE_KEY_BUNDLE
#define NTT(L)                                                                                                                                                               \
    v.push_back({"bkntt" #L, [](EvalKey &e, const SecretKey &s) { e.emplacebkntt<L##param>(s); }, [](const EvalKey &e) { return !!e.bkntt##L; }, [](const EvalKey &e, const SecretKey &s) { check_bkx<L##param>("registry/bkntt" #L, e.getbkntt<L##param>(), s, vf::NTT, [](auto &r, const auto &c, const auto &g) { trgswnttExternalProduct<L##param::targetP>(r, c, g); }); }, SUM(bkntt##L), ""}); \
    v.push_back({"bk2bkntt" #L, [](EvalKey &e, const SecretKey &) { e.emplacebk2bkntt<L##param>(); }, [](const EvalKey &e) { return !!e.bkntt##L; }, [](const EvalKey &e, const SecretKey &s) { check_bkx<L##param>("registry/bk2bkntt" #L, e.getbkntt<L##param>(), s, vf::NTT, [](auto &r, const auto &c, const auto &g) { trgswnttExternalProduct<L##param::targetP>(r, c, g); }); }, SUM(bkntt##L), "bk" #L});
    if constexpr (!hasq<lvl1param> && lvl0param::key_value_min == 0 && ref::W<lvl1param::T> == 32) { NTT(lvl01) NTT(lvlh1) }
#endif
#define IK(L) v.push_back({"iksk" #L, [](EvalKey &e, const SecretKey &s) { e.emplaceiksk<L##param>(s); }, [](const EvalKey &e) { return !!e.iksk##L; }, [](const EvalKey &e, const SecretKey &s) { check_iksk<L##param>("registry/iksk" #L, e.getiksk<L##param>(), s); }, SUM(iksk##L), ""});
    IK(lvl10) IK(lvl1h) IK(lvl20) IK(lvl2h) IK(lvl21) IK(lvl22) IK(lvl31)
#ifdef VP_SUBKEY
    v.push_back({"subiksklvl21", [](EvalKey &e, const SecretKey &s) { e.emplacesubiksk<lvl21param>(s); }, [](const EvalKey &e) { return !!e.subiksklvl21; }, [](const EvalKey &e, const SecretKey &s) { check_subiksk<lvl21param>("registry/subiksklvl21", e.getsubiksk<lvl21param>(), s); }, SUM(subiksklvl21), ""});
#endif
#define PK(L, f, nm)                                                                                                                                                         \
    v.push_back({"privksk" #L nm, [](EvalKey &e, const SecretKey &s) { e.emplaceprivksk<L##param>(nm, f, s); }, [](const EvalKey &e) { return !!e.privksk##L.count(nm); }, [](const EvalKey &e, const SecretKey &s) { check_priv<L##param>("registry/privksk" #L, e.getprivksk<L##param>(nm), s, f, false); }, [](const EvalKey &e) { auto i = e.privksk##L.find(nm); return i == e.privksk##L.end() ? 0 : vf::hash(i->second.get(), sizeof(*i->second)); }, ""});
    PK(lvl11, f1, "a") PK(lvl11, f1, "b") PK(lvl21, f1, "a") PK(lvl22, f2, "a")
#define CB(L)                                                                                                                                                                \
    v.push_back({"privksk4cb" #L, [](EvalKey &e, const SecretKey &s) { e.emplaceprivksk4cb<L##param>(s); }, [](const EvalKey &e) { return !!e.privksk##L.count("privksk4cb_0"); }, [](const EvalKey &e, const SecretKey &s) { \
        using P = L##param::targetP; const auto &key = s.key.get<P>();                                                                                                        \
        for (size_t c = 0; c <= P::k; c++) { Polynomial<P> f{}; if (c == P::k) f[0] = 1; else for (size_t x = 0; x < P::n; x++) f[x] = typename P::T(0 - key[c * P::n + x]);   \
            check_priv<L##param>("registry/privksk4cb" #L, e.getprivksk<L##param>("privksk4cb_" + std::to_string(c)), s, f, false); } }, [](const EvalKey &e) { uint64_t h = 0; for (auto &[k, p] : e.privksk##L) if (k.rfind("privksk4cb_", 0) == 0) h += vf::hash(p.get(), sizeof(*p)); return h; }, ""});
    CB(lvl11) CB(lvl21) CB(lvl22)
#ifdef VP_SUBKEY
    v.push_back({"subprivksk4cb", [](EvalKey &e, const SecretKey &s) { e.emplacesubprivksk4cb<lvl21param>(s); }, [](const EvalKey &e) { return !!e.subprivksklvl21.count("subprivksk4cb_0"); }, [](const EvalKey &e, const SecretKey &s) {
        using P = lvl1param; const auto &key = s.key.get<P>();
        for (size_t c = 0; c <= P::k; c++) { Polynomial<P> f{}; if (c == P::k) f[0] = 1; else for (size_t x = 0; x < P::n; x++) f[x] = P::T(0 - key[c * P::n + x]);
            check_priv<lvl21param>("registry/subprivksk4cb", e.getsubprivksk<lvl21param>("subprivksk4cb_" + std::to_string(c)), s, f, true); } }, [](const EvalKey &e) { uint64_t h = 0; for (auto &[k, p] : e.subprivksklvl21) h += vf::hash(p.get(), sizeof(*p)); return h; }, ""});
#endif
    return v;
}
// The map model: each component absent or generated under sk[0] or sk[1].
void registry(const std::vector<std::unique_ptr<SecretKey>> &sk)
{
    const auto cs = comps();
    std::map<std::string, size_t> at;
    for (size_t i = 0; i < cs.size(); i++) at[cs[i].name] = i;
    auto target = [&](size_t i) {   // the component an operation writes
        const std::string &n = cs[i].name;
        return n.rfind("bk2", 0) == 0 ? at[n.substr(3)] : i;
    };
    auto verify = [&](const EvalKey &e, const std::vector<int> &own, const std::vector<uint64_t> &old, size_t wrote, const std::string &h) {
        for (size_t i = 0; i < cs.size(); i++) {
            if (target(i) != i) continue;
            vf::evaluations++;
            const bool has = cs[i].has(e);
            if (has != (own[i] >= 0)) { vf::fail("registry/presence", vf::fmt("%s is %s after %s", cs[i].name.c_str(), has ? "present" : "absent", h.c_str())); continue; }
            if (has && i != wrote && cs[i].sum(e) != old[i]) vf::fail("registry/other", vf::fmt("%s changed in %s", cs[i].name.c_str(), h.c_str()));
        }
    };
    auto apply = [&](EvalKey &e, size_t op, int o, std::vector<int> &own, std::string &h) {
        const size_t t = target(op);
        std::vector<uint64_t> old;
        for (auto &c : cs) old.push_back(c.has(e) ? c.sum(e) : 0);
        if (!cs[op].needs.empty()) {
            o = own[at[cs[op].needs]];
            if (o < 0) return false;
        }
        vf::seed(1000 + op * 2 + o);
        cs[op].put(e, *sk[o]);
        own[t] = o;
        h += cs[op].name + vf::fmt("(%d) ", o);
        vf::transitions++;
        verify(e, own, old, t, h);
        cs[op].check(e, *sk[o]);
        return true;
    };
    std::set<std::vector<int>> seen;
    for (size_t a = 0; a < cs.size(); a++)
        for (size_t b = 0; b < cs.size(); b++) {
            if (!vf::next_case()) continue;
            EvalKey e;
            std::vector<int> own(cs.size(), -1);
            std::string h;
            if (!cs[a].needs.empty()) apply(e, at[cs[a].needs], 0, own, h);
            if (!apply(e, a, 0, own, h)) continue;
            if (!apply(e, b, 1, own, h)) continue;
            if (vf::thorough) apply(e, a, 1, own, h);
            else if (cs[a].needs.empty() && target(a) != target(b)) cs[a].check(e, *sk[0]);
            vf::state(vf::hash(h.data(), h.size()));
            vf::traces++;
        }
    vf::sample("registry history: emplace a, then b under another secret key, for all pairs of components");
}
#endif
int main(int argc, char **argv)
{
    vf::init(argc, argv);
#ifdef _OPENMP
    omp_set_num_threads(1);
#endif
#ifdef TFHEPP_VERIF_PARAMS
    vf::set_noise(0);
    auto K0 = ref::keys<lvl0param>(2), dummy0 = K0;
    auto Kh = ref::keys<lvlhalfparam>(2);
    auto K1 = ref::keys<lvl1param>(2);
    auto K2 = ref::keys<lvl2param>(2);
    auto K3 = ref::keys<lvl3param>(2);
    const size_t rounds = vf::thorough ? 60 : 10;
    auto mksk = [&](size_t q) {
        auto sk = std::make_unique<SecretKey>();
        sk->key.lvl0 = K0[q % K0.size()];
        sk->key.lvlhalf = Kh[(q + 1) % Kh.size()];
        sk->key.lvl1 = K1[(q + q / 7 + 2) % K1.size()];
        sk->key.lvl2 = K2[(q * 2 + q / 5 + 3) % K2.size()];
        sk->key.lvl3 = K3[(q * 3 + 3) % K3.size()];
#ifdef VP_SUBKEY
        for (size_t i = 0; i < lvl1param::k * lvl1param::n; i++) sk->key.lvl1[i] = lvl1param::T(ref::sgn<uint64_t>(sk->key.lvl2[i]));
#endif
        return sk;
    };
    for (size_t q = 0; q < rounds; q++)
        for (int pat = 0; pat < 5; pat++) {
            if (!vf::next_case()) continue;
            const auto sk = mksk(q);
            vf::Script s;
            s.pattern = pat;
            s.seed = vf::vseed * 131 + q;
            vf::state(vf::mix(q * 8 + pat) ^ 0x21);
            auto go = [&](auto f) { s.install(); f(); };
#ifdef VP_RAINTT
            go([&] { auto t = MAKE(BootstrappingKeyRAINTT<lvl01param>); bkrainttgen<lvl01param>(*t, *sk); check_bkx<lvl01param>("bkraintt-lvl01", *t, *sk, vf::RAIN, [](auto &r, const auto &c, const auto &g) { trgswrainttExternalProduct<lvl1param>(r, c, g); }); });
            go([&] { auto t = MAKE(BootstrappingKeyRAINTT<lvlh1param>); bkrainttgen<lvlh1param>(*t, *sk); check_bkx<lvlh1param>("bkraintt-lvlh1", *t, *sk, vf::RAIN, [](auto &r, const auto &c, const auto &g) { trgswrainttExternalProduct<lvl1param>(r, c, g); }); });
#else
            go([&] { bks<lvl01param>("lvl01", *sk); });
            go([&] { bks<lvlh1param>("lvlh1", *sk); });
            go([&] { bks<lvl02param>("lvl02", *sk); });
            go([&] { bks<lvlh2param>("lvlh2", *sk); });
            go([&] { iksks<lvl10param>("lvl10", *sk); });
            go([&] { iksks<lvl1hparam>("lvl1h", *sk); });
            go([&] { iksks<lvl20param>("lvl20", *sk); });
            go([&] { iksks<lvl2hparam>("lvl2h", *sk); });
            go([&] { iksks<lvl21param>("lvl21", *sk); });
            go([&] { iksks<lvl22param>("lvl22", *sk); });
            go([&] { iksks<lvl31param>("lvl31", *sk); });
            go([&] { privs<lvl11param>("lvl11", *sk); });
            go([&] { privs<lvl21param>("lvl21", *sk); });
            go([&] { privs<lvl22param>("lvl22", *sk); });
#ifdef VP_SUBKEY
            go([&] { auto k = MAKE(SubsetKeySwitchingKey<lvl21param>); subikskgen<lvl21param>(*k, *sk); check_subiksk<lvl21param>("subiksk-lvl21", *k, *sk); });
            go([&] { for (auto &f : funcs<lvl1param>()) { auto k = MAKE(SubsetPrivateKeySwitchingKey<lvl21param>); subprivkskgen<lvl21param>(*k, f, *sk); check_priv<lvl21param>("subprivksk-lvl21", *k, *sk, f, true); } });
#endif
            go([&] { auto k = MAKE(TLWE2TRLWEIKSKey<lvl11param>); tlwe2trlweikskgen<lvl11param>(*k, *sk); check_tlwe2trlwe<lvl11param>("tlwe2trlwe-lvl11", *k, *sk); });
            go([&] { auto k = MAKE(TLWE2TRLWEIKSKey<lvl21param>); tlwe2trlweikskgen<lvl21param>(*k, *sk); check_tlwe2trlwe<lvl21param>("tlwe2trlwe-lvl21", *k, *sk); });
            go([&] { check_relin<lvl1param>(*sk); check_relin<lvl2param>(*sk); });
            go([&] { autos<lvl1param>(*sk); autos<lvl2param>(*sk); });
#endif
        }
    vf::sample("every element of every key generated under 10 secret keys with 5 mask families");
#ifndef VP_RAINTT
    std::vector<std::unique_ptr<SecretKey>> two;
    two.push_back(mksk(3));
    two.push_back(mksk(4));
    // keys that differ at every level
    registry(two);
#endif
#else
    // shipped sets: real dimensions, real noise
    auto sk = std::make_unique<SecretKey>();
    auto run = [&](auto f) { if (vf::next_case()) { vf::free_rng(21); sk = std::make_unique<SecretKey>(); vf::state(vf::mix(vf::caseno) ^ 0x21); f(); } };
    run([&] { bks<lvl01param>("lvl01", *sk, vf::thorough ? 1 : 16); });
    run([&] { iksks<lvl10param>("lvl10", *sk); });
    run([&] { bks<lvl02param>("lvl02", *sk, vf::thorough ? 8 : 160); });
    run([&] { check_relin<lvl1param>(*sk); });
    run([&] { autos<lvl1param>(*sk, lvl1param::n / 8); });
#ifndef VP_NOKS2
    run([&] { iksks<lvl21param>("lvl21", *sk); });
    run([&] { iksks<lvl20param>("lvl20", *sk); });
#endif
    vf::sample("every element of lvl10/lvl20/lvl21 switching keys, a stride of the bootstrapping keys");
#endif
    vf::finish();
}
