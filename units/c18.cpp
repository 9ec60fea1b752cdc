// C18: BFV-style multiplication.  Every pair of plaintext values, every pair
// of monomial positions, mask families, noise edges and keys; results are
// judged against the exact integer product of the operands' lifts.
#define VF_MAIN
#include "tlwe.hpp"
#include "trlwe.hpp"
#include "trgsw.hpp"
#include "keyswitch.hpp"
#include "cloudkey.hpp"
#include "bfv++.hpp"
#include "gates.hpp"
using namespace TFHEpp;
using P = lvl1param;
using T = P::T;
using Poly = Polynomial<P>;
using i128 = __int128;
constexpr size_t N = P::n;
constexpr int w = ref::W<T>;
constexpr uint64_t pm = P::plain_modulus;
static int ilog2(uint64_t x) { int r = 0; while (x >>= 1) r++; return r; }

struct M {
    Key<P> key;
    uint64_t kid;
    std::array<int, N> s;
    std::array<int64_t, N> s2;
    std::unique_ptr<relinKeyFFT<P>> rk;
    double l1, s2l1 = 0, s2l2 = 0, ulp = std::pow(2.0, -w), mult_lim, relin_lim;
    M(const Key<P> &k, uint64_t id) : key(k), kid(id)
    {
        for (size_t i = 0; i < N; i++) s[i] = int(ref::sgn<T>(k[i]));
        s2.fill(0);
        for (size_t i = 0; i < N; i++)
            for (size_t j = 0; j < N; j++) (i + j < N ? s2[i + j] += s[i] * s[j] : s2[i + j - N] -= s[i] * s[j]);
        for (auto x : s2) { s2l1 += std::fabs(double(x)); s2l2 += double(x) * double(x); }
        s2l2 = std::sqrt(s2l2);
        l1 = vf::keyl1(key);
        // rounding of the three rescaled products, double precision included
        const double fft = double(N) * std::pow(2.0, 2 * w - 53) * 3 * P::nbit * 4 / std::pow(2.0, w) * double(pm);
        mult_lim = (1 + fft) * (1 + l1 + s2l1) * ulp;
        relin_lim = vf::xp_bound<P>(vf::tiny ? s2l1 : 8 * s2l2, key, vf::FFT, true);
        vf::free_rng(3000 + kid);
        rk.reset(new relinKeyFFT<P>(relinKeyFFTgen<P>(key)));
    }
    // RLWE sample of exact phase p, mask family q
    TRLWE<P> enc(const Poly &p, uint64_t q) const
    {
        TRLWE<P> c;
        std::array<T, N> sk;
        for (size_t i = 0; i < N; i++) sk[i] = key[i];
        for (size_t i = 0; i < N; i++) {
            const uint64_t h = vf::prng(q * 77, i);
            switch (vf::tiny ? q % 6 : 0) {   // digit rounding must not line up in the large sets
            case 0: case 1: c[0][i] = T(h); break;
            case 2: c[0][i] = T(~T(0)); break;
            case 3: c[0][i] = T(T(1) << (w - 1)) - T(h & 1); break;
            case 4: c[0][i] = i == q / 6 % N ? T(h) : T(0); break;
            default: c[0][i] = 0; break;
            }
        }
        const auto m = ref::negmul<T, N>(c[0], sk);
        for (size_t i = 0; i < N; i++) c[1][i] = p[i] + m[i];
        return c;
    }
    // the phase over the integers, from the lifts in [0, 2^w)
    std::array<i128, N> lift(const TRLWE<P> &c) const
    {
        std::array<i128, N> r;
        for (size_t i = 0; i < N; i++) r[i] = c[1][i];
        for (size_t j = 0; j < N; j++) {
            if (!s[j]) continue;
            for (size_t i = 0; i < N; i++) (i + j < N ? r[i + j] -= i128(c[0][i]) * s[j] : r[i + j - N] += i128(c[0][i]) * s[j]);
        }
        return r;
    }
    // plain_modulus/2^w times the product of the integer phases
    Poly product(const TRLWE<P> &a, const TRLWE<P> &b) const
    {
        const auto x = lift(a), y = lift(b);
        std::array<i128, N> r{};
        for (size_t j = 0; j < N; j++)
            for (size_t i = 0; i < N; i++) (i + j < N ? r[i + j] += x[i] * y[j] : r[i + j - N] -= x[i] * y[j]);
        Poly o;
        const int sh = w - ilog2(pm);
        for (size_t i = 0; i < N; i++) o[i] = T((r[i] + (i128(1) << (sh - 1))) >> sh);
        return o;
    }
    Poly phase3(const TRLWE3<P> &c) const
    {
        Poly r = c[1];
        std::array<T, N> sk, sk2;
        for (size_t i = 0; i < N; i++) { sk[i] = T(int64_t(s[i])); sk2[i] = T(s2[i]); }
        const auto a = ref::negmul<T, N>(c[0], sk), b = ref::negmul<T, N>(c[2], sk2);
        for (size_t i = 0; i < N; i++) r[i] += b[i] - a[i];
        return r;
    }
    void judge(const std::string &k, const Poly &ph, const Poly &want, double lim, const std::string &info) const
    {
        vf::transitions++; vf::evaluations += N;
        for (size_t i = 0; i < N; i++)
            if (double(ref::dist<T>(ph[i], want[i])) * ulp > lim) {
                vf::fail(k, vf::fmt("coefficient %zu of the phase is %.6f, want %.6f +-%.3g; %s key %llu", i, vf::frac(ph[i]), vf::frac(want[i]), lim, info.c_str(), (unsigned long long)kid));
                return;
            }
    }
    static Poly plain(const std::array<uint64_t, N> &m)
    {
        Poly p;
        for (size_t i = 0; i < N; i++) p[i] = T(m[i] << (w - ilog2(pm)));
        return p;
    }
    // multiply plaintexts; noise e (ulps) on every coefficient of both operands
    void one(const std::array<uint64_t, N> &ma, const std::array<uint64_t, N> &mb, uint64_t q, int64_t ea, int64_t eb, bool lib, const std::string &info) const
    {
        Poly pa = plain(ma), pb = plain(mb);
        for (size_t i = 0; i < N; i++) { pa[i] += T(i & 1 ? ea : -ea); pb[i] += T(eb); }
        TRLWE<P> a = enc(pa, q), b = enc(pb, q * 5 + 1);
        if (lib) {   // through the library's own encryption
            Poly x, y;
            for (size_t i = 0; i < N; i++) { x[i] = T(ma[i]); y[i] = T(mb[i]); }
            a = trlweSymIntEncrypt<P>(x, key);
            b = trlweSymIntEncrypt<P>(y, key);
        }
        const Poly want = product(a, b);
        TRLWE3<P> c3;
        for (auto &x : c3) x.fill(T(0x5a5a5a5a));
        TRLWEMultWithoutRelinerization<P>(c3, a, b);
        const std::string inf = vf::fmt("%s masks %llu noise %lld %lld", info.c_str(), (unsigned long long)q, (long long)ea, (long long)eb);
        judge("mult-without-relinearization", phase3(c3), want, mult_lim, inf);
        TRLWE<P> r;
        for (auto &x : r) x.fill(T(0x5a5a5a5a));
        TRLWEMult<P>(r, a, b, *rk);
        judge("mult", ref::phase<P>(r, key), want, mult_lim + relin_lim, inf);
        // plaintext product
        std::array<uint64_t, N> m{};
        for (size_t i = 0; i < N; i++)
            for (size_t j = 0; j < N; j++) (i + j < N ? m[i + j] += ma[i] * mb[j] : m[i + j - N] -= ma[i] * mb[j]);
        if (ea == 0 && eb == 0) {
            for (auto &x : m) x %= pm;
            judge("plaintext-product", ref::phase<P>(r, key), plain(m), vf::tiny && !lib ? mult_lim + relin_lim : 0.5 / pm, inf);
            const auto d = trlweSymIntDecrypt<P>(r, key);
            for (size_t i = 0; i < N; i++)
                if ((d[i] - m[i]) % pm) { vf::fail("decrypted-product", vf::fmt("coefficient %zu decrypts to %lld, want %llu; %s", i, (long long)d[i], (unsigned long long)m[i], inf.c_str())); break; }
        }
    }
    void monomials(uint64_t nv)
    {
        for (size_t i = 0; i < N; i++)
            for (size_t j = 0; j < N; j++) {
                if (N > 64 && !((i % 341 == 0 || i == N - 1) && (j % 511 <= 1))) continue;
                if (!vf::next_case()) continue;
                vf::state(vf::mix((kid * N + i) * N + j) ^ 0x181);
                vf::sample(vf::fmt("monomials X^%d * X^%d under key %d", int(i), int(j), int(kid)));
                for (uint64_t v = 0; v < nv; v++) {
                    std::array<uint64_t, N> a{}, b{};
                    const uint64_t x = nv >= pm * pm ? v : (v * 29 + i * 7 + j * 3 + 1);
                    a[i] = x % pm; b[j] = x / pm % pm;
                    if (!a[i]) a[i] = pm - 1;
                    if (!b[j]) b[j] = pm - 1;
                    one(a, b, v + i + j, 0, 0, false, vf::fmt("%llu X^%zu * %llu X^%zu", (unsigned long long)a[i], i, (unsigned long long)b[j], j));
                }
            }
    }
    void dense(uint64_t cnt)
    {
        for (uint64_t q = 0; q < cnt; q++) {
            if (!vf::next_case()) continue;
            vf::state(vf::mix(kid * 1000 + q) ^ 0x182);
            std::array<uint64_t, N> a, b;
            for (size_t i = 0; i < N; i++) {
                a[i] = q % 4 == 0 ? pm - 1 : q % 4 == 1 ? (i & 1 ? pm - 1 : 0) : vf::prng(q, i) % pm;
                b[i] = q % 4 == 0 ? pm - 1 : q % 4 == 1 ? pm / 2 : vf::prng(q + 1, i) % pm;
            }
            for (int e = 0; e < (vf::tiny ? 5 : 1); e++) {
                static const int64_t es[5][2] = {{0, 0}, {1, 0}, {0, -1}, {40, -40}, {-1000, 1000}};
                vf::free_rng(q * 8 + e);
                one(a, b, q, es[e][0], es[e][1], e == 0 && q % 3 == 0, vf::fmt("dense %llu", (unsigned long long)q));
            }
        }
    }
};
#ifdef TFHEPP_VERIF_PARAMS
// LWE multiplication through the private key switch
void lwe(const M &m)
{
    using K = lvl11param;
    auto pk = std::make_unique<PrivateKeySwitchingKey<K>>();
    vf::free_rng(77 + m.kid);
    Polynomial<P> one{};
    one[0] = 1;
    privkskgen<K>(*pk, one, m.key, m.key);
    const double e = vf::ks_bound<K>(m.key, K::t, K::basebit) + std::pow(2.0, -(int(K::t * K::basebit) + 1)) + 2 * m.ulp;
    const double lim = m.mult_lim + m.relin_lim + 2.0 * pm * N * (m.l1 / 2 + 2) * e;
    if (lim > 0.4 / pm) { vf::fail("tlwemult-harness", vf::fmt("bound %g is vacuous", lim)); return; }
    for (uint64_t a = 0; a < pm; a++)
        for (uint64_t b = 0; b < pm; b++) {
            if (!vf::next_case()) continue;
            vf::state(vf::mix((m.kid * 64 + a) * 64 + b) ^ 0x183);
            vf::sample(vf::fmt("LWE product %d * %d under key %d", int(a), int(b), int(m.kid)));
            for (uint64_t q = 0; q < (vf::thorough ? 64u : 16u); q++) {
                const auto x = vf::exact<P>(T(a << (w - ilog2(pm))), m.key, q), y = vf::exact<P>(T(b << (w - ilog2(pm))), m.key, q / 8 + 3 * q);
                TLWE<P> r;
                r.fill(T(0x5a5a5a5a));
                TLWEMult<K>(r, x, y, *m.rk, *pk);
                vf::transitions++; vf::evaluations++;
                const T ph = ref::phase<P>(r, m.key), want = T(a * b % pm << (w - ilog2(pm)));
                VF_CHECK(double(ref::dist<T>(ph, want)) * m.ulp <= lim, "tlwemult", "%llu*%llu: phase %.5f, want %.5f +-%.3g; masks %llu key %llu", (unsigned long long)a, (unsigned long long)b, vf::frac(ph), vf::frac(want), lim, (unsigned long long)q, (unsigned long long)m.kid);
                const uint64_t d = tlweSymIntDecrypt<P>(r, m.key);
                VF_CHECK((d - a * b) % pm == 0, "tlwemult-decrypt", "%llu*%llu decrypts to %lld", (unsigned long long)a, (unsigned long long)b, (long long)d);
            }
        }
}
#endif
int main(int argc, char **argv)
{
    vf::init(argc, argv);
#ifdef TFHEPP_VERIF_PARAMS
    vf::set_noise(0);
    auto ks = ref::keys<P>(vf::thorough ? 4 : 2);
#else
    auto ks = ref::keys<P>(1, false);
    ks = {ks.back()};
#endif
    uint64_t id = 0;
    for (auto &k : ks) {
        M m(k, ++id);
        if (m.mult_lim + m.relin_lim > 0.4 / pm) { vf::fail("harness", vf::fmt("bound %g is vacuous", m.mult_lim + m.relin_lim)); break; }
        m.monomials(vf::tiny ? (vf::thorough ? 64 : 4) : 1);
        m.dense(vf::tiny ? (vf::thorough ? 600 : 120) : 6);
#ifdef TFHEPP_VERIF_PARAMS
        lwe(m);
#endif
    }
    vf::finish();
}
