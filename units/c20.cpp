// C20: encryption randomness.  The generator's answers are the environment:
// every draw of an encryption or key generation is perturbed in turn and the
// mask, noise and key coefficients that move are recorded (who depends on
// which draw); the samplers are run over the whole quantised answer space.
#define VF_MAIN
#include "tlwe.hpp"
#include "trlwe.hpp"
#include "trgsw.hpp"
#include "key.hpp"
#include "cloudkey.hpp"
#include "lv.hpp"
#include <omp.h>
#include <bit>
#include <thread>
using namespace TFHEpp;
#ifdef USE_KEY_BUNDLE
#define VP_ADDENDS 2
#else
#define VP_ADDENDS 1
#endif

// What a generated object exposes: masks (raw) and noise (phase).  The
// library multiplies by the key in double precision, so a phase carries a
// few ulp of rounding that depend on the mask: coefficients count as moved
// only beyond `mtol`/`ntol`.
struct Obs {
    std::vector<uint64_t> mask, noise;
    int W = 32;
    uint64_t mtol = 0, ntol = 0;
    double range = 0;   // number of mask values, 0: all
    int low = 0;        // lowest bit that carries information
    template <class T> void width() { W = ref::W<T>; }
    uint64_t moved(uint64_t a, uint64_t b) const { const int64_t d = int64_t((a - b) << (64 - W)) >> (64 - W); return d < 0 ? -uint64_t(d) : uint64_t(d); }
    bool mm(const Obs &o, size_t k) const { return moved(mask[k], o.mask[k]) > mtol; }
    bool nm(const Obs &o, size_t k) const { return moved(noise[k], o.noise[k]) > ntol; }
    template <class P> void tlwe(const TLWE<P> &c, const Key<P> &key)
    {
        width<typename P::T>();
        if constexpr (hasq<P>) range = double(P::q);
        for (size_t i = 0; i < P::k * P::n; i++) mask.push_back(c[i]);
        noise.push_back(ref::phase<P>(c, key));
    }
    template <class P> void trlwe(const TRLWE<P> &c, const Key<P> &key)
    {
        width<typename P::T>();
        ntol = W == 32 ? 8 : 1ull << 15;
        for (size_t k = 0; k < P::k; k++) for (auto x : c[k]) mask.push_back(x);
        for (auto x : ref::phase<P>(c, key)) noise.push_back(x);
    }
    template <class P, class A> void rows(const A &a, const Key<P> &key) { for (auto &r : a) trlwe<P>(r, key); }
    // rows in the Fourier domain: back to coefficients
    template <class P, class A> void fd(const A &a, const Key<P> &key)
    {
        for (auto &r : a) {
            TRLWE<P> t;
            for (size_t k = 0; k <= P::k; k++) {
                alignas(64) PolynomialInFD<P> x = r[k];
                TwistFFT<P>(t[k], x);
            }
            trlwe<P>(t, key);
        }
        mtol = W == 32 ? 8 : 1ull << 15;
        ntol = P::errordist == ErrorDistribution::CenteredBinomial ? ~0ull : mtol * 32;
    }
};
struct Base {   // answers that no rejection loop refuses: top bits 01 or 10
    uint64_t seed;
    uint64_t operator()(uint64_t i) const
    {
        const uint64_t h = vf::prng(seed, i);
        return (h >> 2) | (h & 1 ? 1ull << 63 : 1ull << 62);
    }
};
using Gen = std::function<Obs()>;
template <class F>
static Obs run(const Gen &g, F f, bool fresh, uint64_t *draws = nullptr)
{
    Obs o;
    auto body = [&] {
        vf::seed(1);
        vf::rng.fn = f;
        o = g();
        if (draws) *draws = vf::rng.draws;
    };
    if (fresh) std::thread(body).join();   // an empty bit buffer of the binomial sampler
    else body();
    vf::transitions++;
    return o;
}
// Move every answer in turn (`bits` of it, one at a time): who depends on it?
// Objects with more than `limit` draws have every (draws/limit)-th one moved.
void depend(const std::string &name, const Gen &g, const std::vector<int> &bits, uint64_t limit, size_t ranges = 96)
{
    const bool fresh = bits.size() > 3;   // binomial level
    if (!vf::next_case()) return;
    if (vf::thorough) { limit *= 20; ranges *= 8; }
    const Base b{vf::vseed * 77 + 5};
    uint64_t D = 0;
    const Obs o = run(g, b, fresh, &D);
    const size_t M = o.mask.size(), NS = o.noise.size();
    // every mask and noise coefficient answers to the generator
    {
        std::vector<uint8_t> ms(M), ns(NS);
        for (uint64_t t = 1; t <= (fresh ? 40 : 5); t++) {
            const Obs p = run(g, Base{b.seed + t * 1000}, fresh);
            for (size_t k = 0; k < M; k++) ms[k] |= p.mm(o, k);
            for (size_t k = 0; k < NS; k++) ns[k] |= p.nm(o, k);
        }
        size_t cm = 0, cn = 0;
        for (auto x : ms) cm += !x;
        for (auto x : ns) cn += !x;
        if (cm) vf::fail(name + "/constant-mask", vf::fmt("%zu of %zu mask coefficients stay the same for different generator states", cm, M));
        if (cn && o.ntol != ~0ull) vf::fail(name + "/constant-noise", vf::fmt("the noise of %zu of %zu samples stays the same for different generator states", cn, NS));
        vf::evaluations += M + NS;
    }
    const double range = o.range ? o.range : std::pow(2.0, o.W);
    if (o.W >= 32) {
        std::unordered_set<uint64_t> seen(o.mask.begin(), o.mask.end());
        const double rep = double(M - seen.size()), expect = double(M) * double(M) / range;
        VF_CHECK(rep <= 8 + 8 * expect, name + "/repeated-mask", "%g of %zu mask coefficients repeat another one", rep, M);
    }
    std::vector<uint64_t> owner(M, ~0ull);
    const uint64_t step = D > limit ? D / limit + 1 : 1;
    for (uint64_t i = 0; i < D; i += step) {
        vf::state(vf::mix(i) ^ vf::hash(name.data(), name.size()));
        for (int bit : bits) {
            uint64_t d2 = 0;
            const Obs p = run(g, [&](uint64_t j) { return j == i ? b(j) ^ (1ull << bit) : b(j); }, fresh, &d2);
            vf::evaluations++;
            if (d2 != D) { vf::counters["other_draw_count"]++; continue; }
            std::vector<size_t> cm, cn;
            for (size_t k = 0; k < M; k++) if (p.mm(o, k)) cm.push_back(k);
            for (size_t k = 0; k < NS; k++) if (p.nm(o, k)) cn.push_back(k);
            VF_CHECK(cm.size() <= 1, name + "/shared-mask", "draw %llu bit %d moves %zu mask coefficients (%zu and %zu among them)", (unsigned long long)i, bit, cm.size(), cm[0], cm[1]);
            VF_CHECK(cn.size() <= 2, name + "/shared-noise", "draw %llu bit %d moves the noise of %zu samples (%zu and %zu among them)", (unsigned long long)i, bit, cn.size(), cn[0], cn[1]);
            VF_CHECK((cm.empty() || cn.empty()), name + "/mask-is-noise", "draw %llu bit %d moves both mask %zu and noise %zu", (unsigned long long)i, bit, cm[0], cn[0]);
            if (cm.size() == 1) {
                VF_CHECK((owner[cm[0]] == ~0ull || owner[cm[0]] == i), name + "/mask-owner", "mask coefficient %zu depends on draws %llu and %llu", cm[0], (unsigned long long)owner[cm[0]], (unsigned long long)i);
                owner[cm[0]] = i;
            }
        }
    }
    // each mask coefficient covers its whole range, every bit of it
    size_t owned = 0;
    for (auto w : owner) owned += w != ~0ull;
    const size_t stride = owned > ranges ? owned / ranges + 1 : 1;
    size_t nth = 0;
    for (size_t k = 0; k < M; k++) {
        if (owner[k] == ~0ull || nth++ % stride) continue;
        uint64_t any = 0, all = ~0ull;
        // 3 answers in each sixteenth of the answer space: an arc of an eighth
        // of the torus holds at least one sixteenth whole and meets three
        std::vector<uint64_t> v;
        auto ask = [&](uint64_t ans) {
            const Obs p = run(g, [&](uint64_t j) { return j == owner[k] ? ans : b(j); }, fresh);
            if (p.mask.size() != M) return;
            v.push_back(p.mask[k]);
            any |= p.mask[k]; all &= p.mask[k];
        };
        auto arcs = [&](size_t lo, size_t hi) {
            for (int s = 0; s < 64; s++) {
                size_t n = 0;
                for (auto x : v) n += (uint64_t(x << (64 - o.W)) - (uint64_t(s) << 58)) < (1ull << 61);
                if (n < lo || n > hi) return vf::fmt("%zu of %zu values of mask coefficient %zu are in the eighth of the torus from %d/64 (want %zu to %zu)", n, v.size(), k, s, lo, hi);
            }
            return std::string();
        };
        for (uint64_t t = 0; t < 48; t++) ask(((t % 16) << 60) | (vf::prng(k + 3, t) >> 4));
        vf::evaluations++;
        if (!arcs(3, 9).empty()) {   // not monotone in the answer: unstratified answers, wide margins
            v.clear();
            for (uint64_t t = 0; t < 1600; t++) ask(vf::prng(k + 7, t));
            const auto bad = arcs(100, 320);
            if (!bad.empty()) vf::fail(name + "/mask-range", bad);
        }
        const uint64_t full = (o.W >= 64 ? 0 : 1ull << o.W) - 1;
        const uint64_t want = full & ~((1ull << o.low) - 1) & ~(o.mtol ? o.mtol * 2 - 1 : 0);
        if ((any & ~all & want) != want) vf::fail(name + "/mask-bits", vf::fmt("bits %016llx of mask coefficient %zu never change", (unsigned long long)(want & ~(any & ~all)), k));
    }
    vf::sample(vf::fmt("%s: %llu draws, %zu mask and %zu noise coefficients", name.c_str(), (unsigned long long)D, M, NS));
    if (step == 1) {
        size_t un = M - owned;
        if (un) vf::fail(name + "/mask-unowned", vf::fmt("%zu of %zu mask coefficients move with no single draw", un, M));
    }
}
static const std::vector<int> GB{60, 55, 61};   // Gaussian levels
static std::vector<int> CBb() { std::vector<int> v; for (int i = 0; i < 62; i += vf::thorough ? 1 : 5) v.push_back(i); return v; }
template <class P> std::vector<int> bitsof() { return P::errordist == ErrorDistribution::CenteredBinomial ? CBb() : GB; }

template <class P>
int lowbit()
{
    if constexpr (hasq<P>) return std::has_single_bit(uint64_t(P::q)) ? ref::W<typename P::T> - int(P::qbit) : 0;   // masks live on the Z_q grid
    else return 0;
}
// the overloads with an explicit noise parameter
template <class P> auto noisearg()
{
    if constexpr (P::errordist == ErrorDistribution::ModularGaussian) return double(P::α);
    else return uint(P::η);
}
template <class P>
void tlwes(const Key<P> &key)
{
    const std::string L = vf::lname<P>();
    depend("tlwe-" + L, [&] { Obs o; o.tlwe<P>(tlweSymEncrypt<P>(P::μ, key), key); o.tlwe<P>(tlweSymEncrypt<P>(P::μ, key), key); o.low = lowbit<P>(); return o; }, bitsof<P>(), 400);
    depend("tlwe-explicit-" + L, [&] {
        Obs o;
        o.tlwe<P>(tlweSymEncrypt<P>(P::μ, noisearg<P>(), key), key);
        o.tlwe<P>(tlweSymIntEncrypt<P>(1, noisearg<P>(), key), key);
        o.tlwe<P>(tlweSymIntEncrypt<P>(1, key), key);
        o.low = lowbit<P>();
        return o; }, bitsof<P>(), 400);
    depend("boots-" + L, [&] {
        Obs o; o.low = lowbit<P>();
        for (auto &c : bootsSymEncrypt<P>(std::vector<uint8_t>{0, 1, 1, 0}, key)) o.tlwe<P>(c, key);
        return o; }, bitsof<P>(), 400);
}
template <class P>
void trlwes(const Key<P> &key)
{
    const std::string L = vf::lname<P>();
    Polynomial<P> m;
    for (size_t i = 0; i < P::n; i++) m[i] = typename P::T(P::μ);
    depend("trlwe-zero-" + L, [&] { Obs o; o.trlwe<P>(trlweSymEncryptZero<P>(key), key); return o; }, bitsof<P>(), 400);
    depend("trlwe-" + L, [&] { Obs o; o.trlwe<P>(trlweSymEncrypt<P>(m, key), key); o.trlwe<P>(trlweSymEncrypt<P>(m, key), key); return o; }, bitsof<P>(), 400);
    depend("trlwe-explicit-" + L, [&] {
        Obs o;
        o.trlwe<P>(trlweSymEncryptZero<P>(noisearg<P>(), key), key);
        o.trlwe<P>(trlweSymEncrypt<P>(m, noisearg<P>(), key), key);
        o.trlwe<P>(trlweSymIntEncrypt<P>(m, noisearg<P>(), key), key);
        o.trlwe<P>(trlweSymIntEncrypt<P>(m, key), key);
        return o; }, bitsof<P>(), 400);
    Polynomial<P> one{};
    one[0] = 1;
    depend("trgsw-explicit-" + L, [&] { Obs o; o.rows<P>(trgswSymEncrypt<P>(one, noisearg<P>(), key), key); o.rows<P>(halftrgswSymEncrypt<P>(one, noisearg<P>(), key), key); return o; }, bitsof<P>(), 400, 32);
    depend("trgswfft-explicit-" + L, [&] { Obs o; o.fd<P>(trgswfftSymEncrypt<P>(one, noisearg<P>(), key), key); o.fd<P>(halftrgswfftSymEncrypt<P>(one, noisearg<P>(), key), key); o.fd<P>(halftrgswfftSymEncrypt<P>(one, key), key); return o; }, bitsof<P>(), 200, 16);
    depend("evalauto-" + L, [&] { Obs o; auto k = std::make_unique<EvalAutoKey<P>>(); evalautokeygen<P>(*k, 3, key); for (auto &b : *k) o.fd<P>(b, key); return o; }, bitsof<P>(), 150, 12);
    depend("trgsw-" + L, [&] { Obs o; o.rows<P>(trgswSymEncrypt<P>(one, key), key); return o; }, bitsof<P>(), 400, 32);
    depend("halftrgsw-" + L, [&] { Obs o; o.rows<P>(halftrgswSymEncrypt<P>(one, key), key); return o; }, bitsof<P>(), 300, 32);
    depend("trgswfft-" + L, [&] { Obs o; o.fd<P>(trgswfftSymEncrypt<P>(one, key), key); return o; }, bitsof<P>(), 200, 16);
}
#ifdef TFHEPP_VERIF_PARAMS
// Every value of a sampler over the quantised answer space, its histogram
// against the declared distribution.
template <class P>
void gaussian(double α)
{
    if (!vf::next_case()) return;
    using T = typename P::T;
    const std::string L = vf::lname<P>();
    const int G = vf::thorough ? 2048 : 512;
    const T center = T(0x123456789abcdefull);
    double n = 0, m1 = 0, m2 = 0, m4 = 0, cdf[9] = {};
    static const double q[9] = {-2.5, -1.5, -1, -.5, 0, .5, 1, 1.5, 2.5};
    uint64_t skipped = 0;
    for (int a = 0; a < G; a++)
        for (int c = 0; c < G; c++) {
            vf::seed(3);
            vf::rng.fn = [&](uint64_t i) { return i < 2 ? uint64_t((2.0 * (i ? c : a) + 1) / (2.0 * G) * 18446744073709551616.0) : vf::prng(9, i); };
            const T v = ModularGaussian<P>(center, α);
            if (vf::rng.draws > 2) { skipped++; continue; }
            const double x = double(ref::sgn<T>(T(v - center))) / std::pow(2.0, ref::W<T>) / α;
            n++; m1 += x; m2 += x * x; m4 += x * x * x * x;
            for (int k = 0; k < 9; k++) cdf[k] += x < q[k];
        }
    vf::transitions += G * G; vf::evaluations += G * G; vf::states_extra += G * G;
    if (n < 0.6 * G * G) {   // another sampler: more answers per value; use sequences of answers instead
        n = m1 = m2 = m4 = 0;
        for (auto &x : cdf) x = 0;
        for (int a = 0; a < G * G; a++) {
            vf::free_rng(a);
            const double x = double(ref::sgn<T>(T(ModularGaussian<P>(center, α) - center))) / std::pow(2.0, ref::W<T>) / α;
            n++; m1 += x; m2 += x * x; m4 += x * x * x * x;
            for (int k = 0; k < 9; k++) cdf[k] += x < q[k];
        }
    }
    m1 /= n; m2 /= n; m4 /= n;
    const double u = 1 / (std::pow(2.0, ref::W<T>) * α);   // one ulp, in deviations
    const std::string id = vf::fmt("alpha %g: mean %.4f variance %.4f fourth moment %.3f (in deviations, %.0f values)", α, m1, m2, m4, n);
    VF_CHECK(std::fabs(m1) <= 0.01 + u, L + "/gaussian-mean", "%s", id.c_str());
    VF_CHECK(std::fabs(m2 - 1) <= 0.03 + 2 * u, L + "/gaussian-variance", "%s", id.c_str());
    VF_CHECK(std::fabs(m4 - 3) <= 0.25 + 6 * u, L + "/gaussian-tail", "%s", id.c_str());
    for (int k = 0; k < 9; k++) {
        const double want = 0.5 * std::erfc(-q[k] / std::sqrt(2.0));
        VF_CHECK(std::fabs(cdf[k] / n - want) <= 0.01 + 0.5 * u, L + "/gaussian-cdf", "P(x < %.1f) = %.4f, want %.4f; %s", q[k], cdf[k] / n, want, id.c_str());
    }
    // the centre only shifts
    for (int a = 0; a < 64; a++) {
        vf::seed(100 + a);
        const T z = ModularGaussian<P>(0, α);
        for (T c : ref::edges<T>()) {
            vf::seed(100 + a);
            const T y = ModularGaussian<P>(c, α);
            vf::evaluations++;
            VF_CHECK(T(y - c) == z, L + "/gaussian-centre", "noise %llx around 0 but %llx around %llx", (unsigned long long)z, (unsigned long long)T(y - c), (unsigned long long)c);
        }
    }
}
#endif
template <class P>
void binomial(uint η)
{
    if (!vf::next_case()) return;
    using T = typename P::T;
    const std::string L = vf::lname<P>();
    // Every pattern of 2*eta bits at every phase of the bit buffer: long runs of calls with
    // answers that walk through all patterns; exact histogram, bits used once.
    std::map<int64_t, uint64_t> hist;
    const uint64_t calls = 1 << 15;
    uint64_t ones = 0;
    int64_t sum = 0;
    vf::seed(5);
    vf::rng.fn = [&](uint64_t i) { return vf::prng(11 + η, i); };
    // resynchronise: run until the buffer is refilled
    for (int i = 0; i < 64 && vf::rng.draws == 0; i++) CenteredBinomial<P>(η);
    vf::seed(5);
    vf::rng.fn = [&](uint64_t i) { const uint64_t x = vf::prng(11 + η, i); ones += __builtin_popcountll(x); return x; };
    for (uint64_t i = 0; i < calls; i++) {
        const int64_t v = ref::sgn<T>(CenteredBinomial<P>(η));
        hist[v]++;
        sum += v;
        vf::transitions++; vf::evaluations++;
        VF_CHECK(std::llabs(v) <= int64_t(η), L + "/binomial-range", "value %lld for eta %u", (long long)v, η);
    }
    vf::states_extra += calls;
    // uses at most one fresh bit per trial, and every trial has a fresh bit
    const double used = double(vf::rng.draws) * 64, need = double(calls) * 2 * η;
    VF_CHECK(used + 64 >= need, L + "/binomial-reuse", "%g trials from %g random bits", need, used);
    double c = 1;
    const double tot = std::pow(2.0, 2.0 * η);
    for (uint k = 0; k <= 2 * η; k++) {
        const double pr = c / tot, got = double(hist[int64_t(k) - η]) / double(calls);
        VF_CHECK(std::fabs(got - pr) <= 6 * std::sqrt(pr / double(calls)) + 1e-4, L + "/binomial-histogram", "eta %u: P(%d) = %.5f, want %.5f", η, int(k) - int(η), got, pr);
        c = c * (2 * η - k) / (k + 1);
    }
    // bit by bit: each random bit moves at most one value, and each value
    // answers to 2*eta bits of its own
    const int cnt = int(512 / (2 * η));
    auto seq = [&](uint64_t d, int bit) {   // a new thread: a new bit buffer
        std::vector<int64_t> v;
        std::thread([&] {
            vf::seed(5);
            vf::rng.fn = [&](uint64_t i) { return vf::prng(23, i) ^ (i == d ? 1ull << bit : 0); };
            for (int i = 0; i < cnt; i++) v.push_back(ref::sgn<T>(CenteredBinomial<P>(η)));
        }).join();
        return v;
    };
    const auto base = seq(~0ull, 0);
    std::vector<uint> deps(cnt);
    for (uint64_t d = 0; d < 16; d++)
        for (int bit = 0; bit < 64; bit++) {
            const auto v = seq(d, bit);
            int ch = 0;
            for (int i = 0; i < cnt; i++) if (v[i] != base[i]) { ch++; deps[i]++; VF_CHECK(std::llabs(v[i] - base[i]) == 1, L + "/binomial-bit", "bit %d of draw %llu moves value %d by %lld", bit, (unsigned long long)d, i, (long long)(v[i] - base[i])); }
            vf::evaluations++;
            VF_CHECK(ch <= 1, L + "/binomial-shared-bit", "eta %u: bit %d of draw %llu moves %d values", η, bit, (unsigned long long)d, ch);
        }
    for (int i = 0; i < cnt; i++) VF_CHECK(deps[i] == 2 * η, L + "/binomial-bits", "eta %u: value %d answers to %u random bits", η, i, deps[i]);
}
// Secret keys: every coefficient has its own draw and takes every value of
// the declared range equally often.
template <class P>
std::vector<int64_t> part(const SecretKey &sk)
{
    std::vector<int64_t> v;
    for (auto x : sk.key.get<P>()) v.push_back(ref::sgn<typename P::T>(x));
    return v;
}
void secret(int limit)
{
    std::vector<int> lo, hi;
    std::vector<const char *> lv;
    auto all = [&](const SecretKey &sk) {
        std::vector<int64_t> v;
        lo.clear(); hi.clear(); lv.clear();
        auto add = [&](auto p, int l, int h, const char *n) { for (auto x : p) { v.push_back(x); lo.push_back(l); hi.push_back(h); lv.push_back(n); } };
        add(part<lvl0param>(sk), lvl0param::key_value_min, lvl0param::key_value_max, "lvl0");
        add(part<lvlhalfparam>(sk), lvlhalfparam::key_value_min, lvlhalfparam::key_value_max, "lvlh");
        add(part<lvl1param>(sk), lvl1param::key_value_min, lvl1param::key_value_max, "lvl1");
        add(part<lvl2param>(sk), lvl2param::key_value_min, lvl2param::key_value_max, "lvl2");
        add(part<lvl3param>(sk), lvl3param::key_value_min, lvl3param::key_value_max, "lvl3");
        return v;
    };
    const Base b{41};
    auto gen = [&](auto f, uint64_t *d = nullptr) { vf::seed(1); vf::rng.fn = f; auto sk = std::make_unique<SecretKey>(); if (d) *d = vf::rng.draws; vf::transitions++; return all(*sk); };
    uint64_t D = 0;
    const auto o = gen(b, &D);
    const uint64_t step = D > uint64_t(limit) ? D / limit + 1 : 1;
    std::vector<uint8_t> owned(o.size());
    for (uint64_t i = 0; i < D; i += step) {
        if (step > 1 && !vf::next_case()) continue;
        std::map<size_t, std::map<int64_t, int>> dist;
        std::vector<std::vector<int64_t>> runs;
        for (uint64_t g = 0; g < 48; g++) {
            const uint64_t ans = uint64_t((unsigned __int128)(2 * g + 1) * (((unsigned __int128)1) << 64) / 96);
            runs.push_back(gen([&](uint64_t j) { return j == i ? ans : b(j); }));
        }
        for (size_t k = 0; k < o.size(); k++)
            for (auto &r : runs) if (r[k] != runs[0][k]) { for (auto &r2 : runs) dist[k][r2[k]]++; break; }
        vf::state(vf::mix(i) ^ 0x20);
        vf::evaluations++;
        VF_CHECK(dist.size() <= 1, "secret/shared-draw", "draw %llu moves %zu key coefficients", (unsigned long long)i, dist.size());
        for (auto &[k, h] : dist) {
            owned[k] = 1;
            for (int v = lo[k]; v <= hi[k]; v++)
                VF_CHECK(h[v] == 48 / (hi[k] - lo[k] + 1), "secret/distribution", "%s key coefficient %zu takes the value %d %d times of 48", lv[k], k, v, h[v]);
        }
    }
    for (size_t k = 0; k < o.size(); k++) VF_CHECK((o[k] >= lo[k] && o[k] <= hi[k]), "secret/range", "%s key coefficient %zu is %lld", lv[k], k, (long long)o[k]);
    if (step == 1)
        for (size_t k = 0; k < o.size(); k++) if (!owned[k]) { vf::fail("secret/constant", vf::fmt("%s key coefficient %zu does not depend on any draw", lv[k], k)); break; }
}
#ifdef TFHEPP_VERIF_PARAMS
template <class K>
void ksk(const std::string &n, const SecretKey &sk)
{
    using T = typename K::targetP;
    depend("ksk-" + n, [&] {
        Obs o;
        auto k = std::make_unique<KeySwitchingKey<K>>();
        ikskgen<K>(*k, sk);
        for (auto &a : *k) for (auto &b : a) for (auto &c : b) o.tlwe<T>(c, sk.key.get<T>());
        o.low = lowbit<T>();
        return o; }, bitsof<T>(), 250, 32);
}
template <class K>
void priv(const std::string &n, const SecretKey &sk)
{
    using T = typename K::targetP;
    Polynomial<T> f{};
    f[0] = 1; f[1] = 3;
    depend("privksk-" + n, [&] {
        Obs o;
        auto k = std::make_unique<PrivateKeySwitchingKey<K>>();
        privkskgen<K>(*k, f, sk);
        for (auto &a : *k) for (auto &b : a) for (auto &c : b) o.trlwe<T>(c, sk.key.get<T>());
        return o; }, bitsof<T>(), 40, 6);
}
template <class B>
void boot(const std::string &n, const SecretKey &sk)
{
    using T = typename B::targetP;
    depend("bk-" + n, [&] {
        Obs o;
        auto k = std::make_unique<BootstrappingKey<B>>();
        bkgen<B>(*k, sk);
        const size_t used = k->size() / (VP_ADDENDS);
        for (size_t i = 0; i < used; i++) for (size_t j = 0; j < (VP_ADDENDS == 2 ? 3 : (*k)[i].size()); j++) o.rows<T>((*k)[i][j], sk.key.get<T>());
        return o; }, bitsof<T>(), 300, 16);
    depend("bkfft-" + n, [&] {
        Obs o;
        auto k = std::make_unique<BootstrappingKeyFFT<B>>();
        bkfftgen<B>(*k, sk);
        for (auto &e : *k) for (size_t j = 0; j < (VP_ADDENDS == 2 ? 3 : e.size()); j++) o.fd<T>(e[j], sk.key.get<T>());   // a bundle uses three of its four elements
        return o; }, bitsof<T>(), 150, 12);
}
#endif
int main(int argc, char **argv)
{
    vf::init(argc, argv);
    vf::seed(42);
    auto sk = std::make_unique<SecretKey>();
#ifdef TFHEPP_VERIF_PARAMS
    gaussian<lvl0param>(1.0 / 64);
    gaussian<lvl0param>(std::pow(2.0, -10));
    gaussian<lvlhalfparam>(std::pow(2.0, -17));
    if constexpr (!hasq<lvl1param>) { gaussian<lvl1param>(std::pow(2.0, -25)); gaussian<lvl1param>(1.0 / 32); }
    gaussian<lvl3param>(std::pow(2.0, -47));
    gaussian<lvl3param>(std::pow(2.0, -6));
    vf::set_noise(1.0 / 64);   // every draw of noise must show
    secret(1 << 20);
#else
    secret(vf::thorough ? 4000 : 300);
#endif
    for (uint η : {1u, 2u, 3u, 5u, 8u, 21u}) { binomial<lvl1param>(η); binomial<lvl2param>(η); }
    tlwes<lvl0param>(sk->key.lvl0);
    tlwes<lvlhalfparam>(sk->key.lvlhalf);
    tlwes<lvl1param>(sk->key.lvl1);
    tlwes<lvl2param>(sk->key.lvl2);
#ifdef TFHEPP_VERIF_PARAMS
    depend("tlwe-lvl3", [&] { Obs o; o.tlwe<lvl3param>(tlweSymEncrypt<lvl3param>(5, sk->key.lvl3), sk->key.lvl3); return o; }, GB, 400);
    trlwes<lvl1param>(sk->key.lvl1);
    trlwes<lvl2param>(sk->key.lvl2);
    ksk<lvl10param>("lvl10", *sk);
    ksk<lvl1hparam>("lvl1h", *sk);
    ksk<lvl20param>("lvl20", *sk);
    ksk<lvl2hparam>("lvl2h", *sk);
    ksk<lvl21param>("lvl21", *sk);
    ksk<lvl31param>("lvl31", *sk);
    priv<lvl11param>("lvl11", *sk);
    priv<lvl21param>("lvl21", *sk);
#ifdef VP_SUBKEY
    for (size_t i = 0; i < lvl1param::k * lvl1param::n; i++) sk->key.lvl1[i] = lvl1param::T(ref::sgn<uint64_t>(sk->key.lvl2[i]));
    depend("subiksk-lvl21", [&] {
        Obs o;
        auto k = std::make_unique<SubsetKeySwitchingKey<lvl21param>>();
        subikskgen<lvl21param>(*k, *sk);
        for (auto &a : *k) for (auto &b : a) for (auto &c : b) o.tlwe<lvl1param>(c, sk->key.lvl1);
        return o; }, bitsof<lvl1param>(), 250, 32);
    depend("subprivksk-lvl21", [&] {
        Obs o;
        Polynomial<lvl1param> f{};
        f[1] = 3;
        auto k = std::make_unique<SubsetPrivateKeySwitchingKey<lvl21param>>();
        subprivkskgen<lvl21param>(*k, f, *sk);
        for (auto &a : *k) for (auto &b : a) for (auto &c : b) o.trlwe<lvl1param>(c, sk->key.lvl1);
        return o; }, bitsof<lvl1param>(), 40, 6);
#else
    boot<lvl01param>("lvl01", *sk);
    boot<lvlh1param>("lvlh1", *sk);
    boot<lvl02param>("lvl02", *sk);
    boot<lvlh2param>("lvlh2", *sk);
#endif
    depend("annihilate-lvl1", [&] {
        Obs o;
        auto k = std::make_unique<AnnihilateKey<lvl1param>>();
        annihilatekeygen<lvl1param>(*k, *sk);
        for (auto &a : *k) for (auto &b : a) o.fd<lvl1param>(b, sk->key.lvl1);
        return o; }, bitsof<lvl1param>(), 150, 12);
    if constexpr (lvl1param::k == 1) {
        depend("relin-lvl1", [&] { Obs o; o.rows<lvl1param>(relinKeygen<lvl1param>(sk->key.lvl1), sk->key.lvl1); return o; }, bitsof<lvl1param>(), 300, 16);
        depend("relinfft-lvl1", [&] { Obs o; o.fd<lvl1param>(relinKeyFFTgen<lvl1param>(sk->key.lvl1), sk->key.lvl1); return o; }, bitsof<lvl1param>(), 300, 16);
    }
    depend("tlwe2trlweiksk-lvl11", [&] {
        Obs o;
        auto k = std::make_unique<TLWE2TRLWEIKSKey<lvl11param>>();
        tlwe2trlweikskgen<lvl11param>(*k, *sk);
        for (auto &a : *k) for (auto &b : a) for (auto &c : b) o.trlwe<lvl1param>(c, sk->key.lvl1);
        return o; }, bitsof<lvl1param>(), 40, 6);
#endif
    vf::finish();
}
