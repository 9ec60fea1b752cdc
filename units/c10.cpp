// C10: every multiplication and transform engine against the schoolbook
// negacyclic product, over all monomial positions and extreme dense operands.
#define VF_MAIN
#include <cassert>
#include <span>
#include "tlwe.hpp"
#include "trlwe.hpp"
#include "nussbaumer.hpp"
#include "lv.hpp"
using namespace TFHEpp;
typedef __int128 i128;

// A polynomial given as integers (exact) - the torus word is its residue.
template <size_t N>
struct Ipoly {
    std::array<int64_t, N> c{};
    int mono = -1;  // only coefficient `mono` is non-zero
    std::string name;
};
template <size_t N>
std::vector<Ipoly<N>> dense(int64_t lo, int64_t hi)
{
    std::vector<Ipoly<N>> r;
    auto mk = [&](const char *n, auto f) { Ipoly<N> p; for (size_t i = 0; i < N; i++) p.c[i] = f(i); p.name = n; r.push_back(p); };
    const uint64_t span = uint64_t(hi) - uint64_t(lo);
    auto rnd = [&](uint64_t s, size_t i) { const uint64_t x = vf::prng(s, i); return int64_t(uint64_t(lo) + (span == ~0ull ? x : x % (span + 1))); };
    mk("max", [&](size_t) { return hi; });
    mk("min", [&](size_t) { return lo; });
    mk("alternating", [&](size_t i) { return i & 1 ? lo : hi; });
    mk("halves", [&](size_t i) { return i < N / 2 ? hi : lo; });
    mk("ones", [&](size_t) { return int64_t(1); });
    mk("minus ones", [&](size_t) { return lo < 0 ? int64_t(-1) : int64_t(2); });
    mk("random", [&](size_t i) { return rnd(31 + vf::vseed, i); });
    mk("random2", [&](size_t i) { return rnd(32, i); });
    mk("ramp", [&](size_t i) { return int64_t(i % 7) * (lo < 0 && i % 3 ? -1 : 1); });
    mk("zero", [&](size_t) { return int64_t(0); });
    return r;
}
// exact integer product modulo X^N+1 (mod 2^128)
template <size_t N>
std::array<i128, N> product(const Ipoly<N> &a, const Ipoly<N> &b)
{
    std::array<i128, N> r{};
    auto one = [&](int64_t v, size_t i, const Ipoly<N> &q) {
        if (!v) return;
        for (size_t j = 0; j < N; j++) {
            const i128 p = i128(v) * q.c[j];
            if (i + j < N) r[i + j] += p;
            else r[i + j - N] -= p;
        }
    };
    if (a.mono >= 0) one(a.c[a.mono], a.mono, b);
    else if (b.mono >= 0) one(b.c[b.mono], b.mono, a);
    else for (size_t i = 0; i < N; i++) one(a.c[i], i, b);
    return r;
}
template <class T, size_t N>
std::array<T, N> words(const Ipoly<N> &p)
{
    std::array<T, N> r;
    for (size_t i = 0; i < N; i++) r[i] = T(p.c[i]);
    return r;
}
template <size_t N>
double l1(const Ipoly<N> &p) { double s = 0; for (auto x : p.c) s += std::fabs(double(x)); return s; }
template <size_t N>
double l2(const Ipoly<N> &p) { double s = 0; for (auto x : p.c) s += double(x) * double(x); return std::sqrt(s); }
template <size_t N>
double linf(const Ipoly<N> &p) { double s = 0; for (auto x : p.c) s = std::max(s, std::fabs(double(x))); return s; }

// Calls f(a, b) for the whole pair family; a from the torus side [alo,ahi], b from the integer side [blo,bhi].
template <size_t N, class F>
void pairs(int64_t alo, int64_t ahi, int64_t blo, int64_t bhi, F f)
{
    const auto da = dense<N>(alo, ahi), db = dense<N>(blo, bhi);
    for (auto &a : da) for (auto &b : db) if (vf::next_case()) f(a, b);
    auto mono = [](int64_t v, size_t i) { Ipoly<N> p; p.c[i] = v; p.mono = int(i); p.name = vf::fmt("%lld X^%zu", (long long)v, i); return p; };
    for (size_t i = 0; i < N; i++) {
        for (int64_t v : {bhi, blo, int64_t(1)})
            for (auto &a : da) {
                if (N > 64 && &a != &da[2] && &a != &da[6] && !(i % 64 == 0)) continue;
                if (vf::next_case()) f(a, mono(v, i));
            }
        for (int64_t v : {ahi, alo, int64_t(1)})
            for (auto &b : db) {
                if (N > 64 && &b != &db[2] && &b != &db[6] && !(i % 64 == 0)) continue;
                if (vf::next_case()) f(mono(v, i), b);
            }
        for (size_t j = 0; j < N; j++) {
            if (N > 64 && j != 0 && j != 1 && j != N / 2 && j != N - 1 && j != N - 1 - i) continue;
            if (vf::next_case()) f(mono(alo ? alo : ahi, i), mono(bhi, j));
        }
    }
}
static std::map<std::string, double> worst;
template <class T, size_t N>
void compare(const std::string &key, const std::array<T, N> &got, const std::array<i128, N> &want, double tol, const Ipoly<N> &a, const Ipoly<N> &b)
{
    uint64_t m = 0; size_t mi = 0;
    for (size_t i = 0; i < N; i++) {
        const uint64_t d = ref::dist<T>(got[i], T(want[i]));
        if (d > m) { m = d; mi = i; }
    }
    vf::transitions++; vf::evaluations++; vf::states_extra++;
    worst[key] = std::max(worst[key], double(m) / std::max(tol, 1.0));
    if (double(m) > tol) vf::fail(key, vf::fmt("(%s)*(%s): coefficient %zu off by %llu, allowed %.0f", a.name.c_str(), b.name.c_str(), mi, (unsigned long long)m, tol));
}

template <class P>
void fft()
{
    using T = typename P::T;
    constexpr size_t N = P::n;
    constexpr int w = ref::W<T>;
    const std::string L = vf::lname<P>();
    const int64_t alo = w == 32 ? -(1ll << 31) : INT64_MIN, ahi = w == 32 ? (1ll << 31) - 1 : INT64_MAX;
    const int64_t B = 1ll << P::Bgbit;
    const double eps = std::ldexp(1.0, -53) * P::nbit * 3;
    pairs<N>(alo, ahi, -B, B, [&](const Ipoly<N> &a, const Ipoly<N> &b) {
        const auto want = product(a, b);
        const Polynomial<P> pa = words<T, N>(a), pb = words<T, N>(b);
        // rounding errors of three transforms, plus the final rounding
        const double ftol = std::ceil(eps * l2(a) * l2(b)) + 1;
        alignas(64) PolynomialInFD<P> fa, fb, fr;
        Polynomial<P> r;
        TwistIFFT<P>(fa, pa);
        TwistIFFT<P>(fb, pb);
        MulInFD<N>(fr, fa, fb);
        TwistFFT<P>(r, fr);
        compare<T, N>(L + "/fft", r, want, ftol, a, b);
        // a*b + a*b accumulated, then in-place product
        FMAInFD<N>(fr, fa, fb);
        TwistFFT<P>(r, fr);
        auto want2 = want;
        for (auto &x : want2) x += x;
        compare<T, N>(L + "/fft-accumulate", r, want2, 2 * ftol, a, b);
        MulInFD<N>(fa, fb);
        TwistFFT<P>(r, fa);
        compare<T, N>(L + "/fft-inplace", r, want, ftol, a, b);
        if (b.name == "ones" || b.mono == 0) {
            TwistIFFT<P>(fa, pa);
            TwistFFT<P>(r, fa);
            std::array<i128, N> id;
            for (size_t i = 0; i < N; i++) id[i] = a.c[i];
            compare<T, N>(L + "/fft-roundtrip", r, id, std::ceil(eps * l2(a)) + 1, a, b);
        }
        PolyMul<P>(r, pa, pb);
        compare<T, N>(L + "/polymul", r, want, w == 32 ? ftol : 0.5 * l1(b) + 2, a, b);
        PolyMul<P>(r, pb, pa);
        compare<T, N>(L + "/polymul-swapped", r, want, w == 32 ? ftol : 0.5 * l1(b) + 2, a, b);
        if (N <= 64 || (a.mono < 0 && b.mono < 0)) {
            PolyMulNaive<P>(r, pa, pb);
            compare<T, N>(L + "/naive", r, want, 0, a, b);
            PolyMulNaive<P>(r, pb, pa);
            compare<T, N>(L + "/naive-swapped", r, want, 0, a, b);
        }
        auto na = std::make_unique<PolynomialNTT<P>>(), nb = std::make_unique<PolynomialNTT<P>>();
        TwistINTT<P>(*na, pa);
        TwistINTT<P>(*nb, pb);
        for (size_t i = 0; i < N; i++) (*na)[i] *= (*nb)[i];
        TwistNTT<P>(r, *na);
        // 32 bit: one unit per wrap of the unsigned lift around the modulus
        compare<T, N>(L + "/ntt", r, want, w == 32 ? double(N) + 1 : 0.5 * l1(b) + 2, a, b);
    });
    // unsigned operands, result divided by Delta (32-bit level 1 only)
    if constexpr (std::is_same_v<P, lvl1param> && std::is_same_v<T, uint32_t>) {
        const double D = P::Δ;
        auto resc = [&](const Ipoly<N> &a, const Ipoly<N> &b) {
            const auto want = product(a, b);
            const Polynomial<P> pa = words<T, N>(a), pb = words<T, N>(b);
            const double tol = std::ceil(eps * l2(a) * l2(b) / D) + 1;
            std::array<i128, N> q;
            for (size_t i = 0; i < N; i++) q[i] = i128(std::trunc((long double)(want[i]) / (long double)D));
            Polynomial<P> r;
            PolyMulRescaleUnsigned<P>(r, pa, pb);
            compare<T, N>(L + "/rescale", r, q, tol, a, b);
            if (N <= 64 || (a.mono < 0 && b.mono < 0)) {
                for (size_t i = 0; i < N; i++) q[i] = want[i] >> 29;
                PolyMulNaieveRescaleUnsigned<P>(r, pa, pb);
                compare<T, N>(L + "/naive-rescale", r, q, 0, a, b);
            }
        };
        pairs<N>(0, 0xffffffffll, 0, 0xffffffffll >> (N > 64 ? 2 : 0), resc);
    }
    vf::sample(vf::fmt("%s N=%zu word %d: dense x dense, monomial x dense, monomial x monomial", L.c_str(), N, w));
}
template <class T, uint32_t Nbit>
void ntt()
{
    constexpr size_t N = 1u << Nbit;
    constexpr int w = ref::W<T>;
    const auto table = cuHEpp::TableGen<Nbit>();
    const auto twist = cuHEpp::TwistGen<Nbit>();
    const int64_t alo = w == 32 ? -(1ll << 31) : INT64_MIN, ahi = w == 32 ? (1ll << 31) - 1 : INT64_MAX;
    pairs<N>(alo, ahi, -256, 256, [&](const Ipoly<N> &a, const Ipoly<N> &b) {
        auto pa = words<T, N>(a), pb = words<T, N>(b);
        std::array<T, N> r;
        cuHEpp::PolyMullvl1<T, Nbit>(r, pa, pb, *table, *twist);
        compare<T, N>(vf::fmt("ntt%d/N%u", w, Nbit), r, product(a, b), w == 32 ? double(N) + 1 : 0.5 * l1(b) + 2, a, b);
        if constexpr (w == 32) {
            // non-negative small operands: exact
            auto fa = a, fb = b;
            for (auto &x : fa.c) x = x < 0 ? -(x / 256) : x / 256;
            for (auto &x : fb.c) x = x < 0 ? -x : x;
            pa = words<T, N>(fa); pb = words<T, N>(fb);
            const auto want = product(fa, fb);
            bool nonneg = true;
            for (auto x : want) nonneg &= x >= 0;
            cuHEpp::PolyMullvl1<T, Nbit>(r, pa, pb, *table, *twist);
            compare<T, N>(vf::fmt("ntt%d/N%u-small", w, Nbit), r, want, nonneg ? 0 : 1, fa, fb);
        }
    });
}
template <uint32_t Nbit>
void rain()
{
    constexpr size_t N = 1u << Nbit;
    const int64_t Q = int64_t(raintt::P);
    const auto table = raintt::TableGen<Nbit>();
    const auto twist = raintt::TwistGen<Nbit, 3>();
    const std::string L = vf::fmt("raintt/N%u", Nbit);
    // torus operand scaled to the modulus, integer operand kept
    pairs<N>(-(1ll << 31), (1ll << 31) - 1, -64, 64, [&](const Ipoly<N> &a, const Ipoly<N> &b) {
        auto pa = words<uint32_t, N>(a), pb = words<uint32_t, N>(b);
        std::array<uint32_t, N> r;
        const auto want = product(a, b);
        const double tol = std::ceil((0.5 * l1(b) + 1) * 4294967296.0 / double(Q)) + 2;
        raintt::PolyMullvl1<uint32_t, Nbit, true, false>(r, pa, pb, *table, *twist);
        compare<uint32_t, N>(L + "/scaled", r, want, tol, a, b);
        raintt::PolyMullvl1<uint32_t, Nbit, false, true>(r, pb, pa, *table, *twist);
        compare<uint32_t, N>(L + "/scaled-swapped", r, want, tol, a, b);
    });
    // both operands integers modulo P: exact
    pairs<N>(-(Q - 1), Q - 1, -(Q - 1), Q - 1, [&](const Ipoly<N> &a, const Ipoly<N> &b) {
        auto pa = words<uint32_t, N>(a), pb = words<uint32_t, N>(b);
        std::array<uint32_t, N> r;
        raintt::PolyMullvl1<uint32_t, Nbit, false, false>(r, pa, pb, *table, *twist);
        const auto want = product(a, b);
        vf::transitions++; vf::evaluations++; vf::states_extra++;
        for (size_t i = 0; i < N; i++) {
            const int64_t g = int64_t(r[i]);
            if ((i128(g) - want[i]) % Q != 0 || g > Q) { vf::fail(L + "/exact", vf::fmt("(%s)*(%s): coefficient %zu is %lld", a.name.c_str(), b.name.c_str(), i, (long long)g)); break; }
        }
    });
}
template <class T, uint Nbit>
void nuss()
{
    constexpr size_t N = 1u << Nbit;
    auto one = [&](const std::array<T, N> &a, const char *what, size_t p) {
        auto r = a;
        Nussbaumer::NussbaumerTransform<T, Nbit>(std::span{r});
        Nussbaumer::InverseNussbaumerTransform<T, Nbit>(std::span{r});
        vf::transitions++; vf::evaluations++; vf::states_extra++;
        for (size_t i = 0; i < N; i++)
            if (r[i] != T(a[i] * T(N))) { vf::fail(vf::fmt("nussbaumer/N%u", Nbit), vf::fmt("%s %zu: coefficient %zu", what, p, i)); break; }
    };
    for (size_t i = 0; i < N; i++)
        for (T v : {T(1), T(~T(0)), T(0x9e3779b97f4a7c15ull)}) {
            if (!vf::next_case()) continue;
            std::array<T, N> a{};
            a[i] = v;
            one(a, "monomial", i);
        }
    for (auto &p : dense<N>(INT64_MIN, INT64_MAX)) one(words<T, N>(p), "dense", 0);
    if constexpr (N <= 8) {  // all polynomials with small coefficients
        uint64_t tot = 1;
        for (size_t i = 0; i < N; i++) tot *= 3;
        for (uint64_t c = 0; c < tot; c++) {
            std::array<T, N> a;
            uint64_t x = c;
            for (auto &e : a) { e = T(int64_t(x % 3) - 1); x /= 3; }
            one(a, "all", c);
        }
    }
    if constexpr (Nbit > 1) nuss<T, Nbit - 1>();
}
int main(int argc, char **argv)
{
    vf::init(argc, argv);
#if defined(VP_NTT)
    nuss<uint64_t, 11>();
    nuss<uint32_t, 10>();
    ntt<uint32_t, 5>(); ntt<uint32_t, 6>(); ntt<uint32_t, 7>(); ntt<uint32_t, 9>(); ntt<uint32_t, 10>();
    ntt<uint64_t, 5>(); ntt<uint64_t, 6>(); ntt<uint64_t, 8>(); ntt<uint64_t, 11>();
    rain<4>(); rain<5>(); rain<6>(); rain<7>(); rain<8>(); rain<9>(); rain<10>();
#elif defined(VP_RAINTT)
    rain<4>(); rain<5>(); rain<6>(); rain<9>(); rain<10>(); rain<11>();
#else
    // both orders of first use of the two sizes
    const bool rev = vf::shard & 1;
    if (rev) fft<lvl2param>();
    vf::caseno = 0;
    fft<lvl1param>();
    vf::caseno = 0;
    if (!rev) fft<lvl2param>();
#endif
    for (auto &[k, v] : worst) vf::counters["max:worst error per mille of bound " + k] = uint64_t(v * 1000);
    vf::finish();
}
