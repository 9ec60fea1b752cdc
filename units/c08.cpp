// C08: gadget decomposition - exhaustive over the words (32 bit) or over all
// digit combinations next to carries and rounding boundaries (64 bit).
#define VF_MAIN
#include "tlwe.hpp"
#include "trlwe.hpp"
#include "trgsw.hpp"
#include "lv.hpp"
using namespace TFHEpp;

template <class P, bool gsw = true>
struct Dec {
    using T = typename P::T;
    static constexpr int w = ref::W<T>, L = P::l, B = P::Bgbit;
    static bool check(T x, const DecomposedPolynomial<P> &d, size_t i, const char *what, T rb)
    {
        T acc = 0;
        bool ok = true;
        for (int l = 0; l < L; l++) {
            const int64_t v = ref::sgn<T>(d[l][i]);
            if (v > (int64_t(1) << (B - 1)) || v < -(int64_t(1) << (B - 1))) ok = false;
            acc += T(d[l][i] << (w - (l + 1) * B));
        }
        const T half = T(1) << (w - L * B - 1);
        const bool rec = ref::dist<T>(acc, x) <= half;
        if (!ok) vf::fail(vf::fmt("%s/%s/digit-range", vf::lname<P>(), what), vf::fmt("word %016llx coefficient %zu randbits %llx", (unsigned long long)x, i, (unsigned long long)rb));
        if (!rec) vf::fail(vf::fmt("%s/%s/recomposition", vf::lname<P>(), what), vf::fmt("word %016llx coefficient %zu recomposes to %016llx randbits %llx", (unsigned long long)x, i, (unsigned long long)acc, (unsigned long long)rb));
        return ok && rec;
    }
    static void block(const Polynomial<P> &p, T rb)
    {
        alignas(64) DecomposedPolynomial<P> d;
        for (auto &e : d) e.fill(T(0x1234));
        Decomposition<P>(d, p, rb);
        // fast path: compare without per-word bookkeeping
        bool good = true;
        for (size_t i = 0; i < P::n; i++) {
            T acc = 0, big = 0;
            for (int l = 0; l < L; l++) {
                big |= T(T(d[l][i] + (T(1) << (B - 1))) > (T(1) << B));
                acc += T(d[l][i] << (w - (l + 1) * B));
            }
            const T df = T(acc - p[i] + (T(1) << (w - L * B - 1)));
            good &= !big && df <= (T(1) << (w - L * B));
        }
        if (!good) for (size_t i = 0; i < P::n; i++) check(p[i], d, i, "decomposition", rb);
        vf::transitions += P::n; vf::evaluations += P::n; vf::states_extra += P::n;
    }
    static void all32(int drop)  // every word whose `drop` low bits are an edge pattern
    {
        const uint64_t hi = 1ull << (w - drop);
        std::vector<T> lows{0};
        if (drop) { lows = {0, 1, T((T(1) << drop) - 1), T(T(1) << (drop - 1)), T((T(1) << (drop - 1)) - 1)}; }
        for (uint64_t base = 0; base < hi; base += P::n) {
            if (!vf::mine(base / P::n)) continue;
            for (T lo : lows) {
                Polynomial<P> p;
                for (size_t i = 0; i < P::n; i++) p[i] = T((T(base + i) << drop) | lo);
                block(p, T(vf::prng(5, base)));
            }
        }
    }
    static void digits()  // all combinations of edge digits x edge remainders
    {
        const T half = T(1) << (B - 1), full = T(T(1) << B);
        std::set<T> ds{0, 1, T(half - 1), half, T(half + 1), T(full - 1)};
        std::vector<T> dv(ds.begin(), ds.end());
        const int rem = w - L * B;
        std::set<T> ls{0, 1, T((T(1) << (rem - 1)) - 1), T(T(1) << (rem - 1)), T((T(1) << (rem - 1)) + 1), T((T(1) << rem) - 1)};
        std::vector<T> lv(ls.begin(), ls.end());
        uint64_t tot = lv.size();
        for (int l = 0; l < L; l++) tot *= dv.size();
        for (uint64_t base = 0; base < tot; base += P::n) {
            if (!vf::mine(base / P::n)) continue;
            Polynomial<P> p;
            for (size_t i = 0; i < P::n; i++) {
                uint64_t c = (base + i) % tot;
                T x = lv[c % lv.size()]; c /= lv.size();
                for (int l = 0; l < L; l++) { x |= T(dv[c % dv.size()] << (w - (l + 1) * B)); c /= dv.size(); }
                p[i] = x;
            }
            for (T rb : {T(0), T(~T(0)), T(0x5555555555555555ull)}) block(p, rb);
        }
        // the digit at every position takes every value, neighbours at edges
        for (int l = 0; l < L; l++)
            for (T nb : dv)
                for (uint64_t base = 0; base < (1ull << B); base += P::n) {
                    if (!vf::next_case()) continue;
                    Polynomial<P> p;
                    for (size_t i = 0; i < P::n; i++) {
                        T x = 0;
                        for (int j = 0; j < L; j++) x |= T((j == l ? T((base + i) & ((1ull << B) - 1)) : nb) << (w - (j + 1) * B));
                        p[i] = x;
                    }
                    block(p, T(base));
                }
    }
    // transformed decompositions: transforming back gives the plain digits
    static void transformed()
    {
        std::vector<Polynomial<P>> ps(6);
        for (size_t i = 0; i < P::n; i++) {
            for (int j = 0; j < 4; j++) ps[j][i] = T(vf::prng(100 + j, i));
            ps[4][i] = T(~T(0));
            ps[5][i] = T(i & 1 ? T(1) << (w - 1) : T(T(1) << (w - 1)) - 1);
        }
        for (size_t c = 0; c < ps.size(); c++) {
            if (!vf::next_case()) continue;
            DecomposedPolynomial<P> d;
            Decomposition<P>(d, ps[c]);
            if constexpr (std::is_same_v<P, lvl1param> || std::is_same_v<P, lvl2param>) {
                auto dn = std::make_unique<DecomposedPolynomialNTT<P>>();
                DecompositionNTT<P>(*dn, ps[c]);
                for (int l = 0; l < L; l++) {
                    Polynomial<P> back;
                    TwistNTT<P>(back, (*dn)[l]);
                    for (size_t i = 0; i < P::n; i++)
                        VF_CHECK(ref::dist<T>(back[i], d[l][i]) <= (w == 64 ? 1u : 0u), vf::fmt("%s/ntt", vf::lname<P>()), "polynomial %zu digit %d coefficient %zu: %llx, plain %llx", c, l, i, (unsigned long long)back[i], (unsigned long long)d[l][i]);
                    vf::transitions++; vf::traces++; vf::evaluations += P::n;
                }
            }
            if constexpr (std::is_same_v<P, lvl1param> && std::is_same_v<T, uint32_t>) {
                auto dn = std::make_unique<DecomposedPolynomialRAINTT<P>>();
                DecompositionRAINTT<P>(*dn, ps[c]);
                // the transform of the constant 1 in the second operand's form
                PolynomialRAINTT<P> one;
                Polynomial<P> cone{};
                cone[0] = 1;
                raintt::TwistINTT<T, P::nbit, false>(one, cone, (*raintttable)[1], (*raintttwist)[1]);
                constexpr uint8_t remainder = ((P::nbit - 1) % 3) + 1;
                for (size_t i = 0; i < P::n; i++) one[i] = raintt::MulSREDC(one[i], (i & ((1 << remainder) - 1)) > 1 ? raintt::R4 : raintt::R2);
                for (int l = 0; l < L; l++) {
                    Polynomial<P> back;
                    for (size_t i = 0; i < P::n; i++) (*dn)[l][i] = raintt::MulSREDC((*dn)[l][i], one[i]);
                    raintt::TwistNTT<T, P::nbit, false>(back, (*dn)[l], (*raintttable)[0], (*raintttwist)[0]);
                    for (size_t i = 0; i < P::n; i++) {
                        int64_t df = (int64_t(int32_t(back[i])) - ref::sgn<T>(d[l][i])) % int64_t(raintt::P);
                        VF_CHECK(df == 0, vf::fmt("%s/raintt", vf::lname<P>()), "polynomial %zu digit %d coefficient %zu: %llx, plain %llx", c, l, i, (unsigned long long)back[i], (unsigned long long)d[l][i]);
                    }
                    vf::transitions++; vf::traces++; vf::evaluations += P::n;
                }
            }
        }
    }
    static void run()
    {
        static_assert(L * B < w);
        // gadget: row i of a GSW sample carries the weight of digit i
        // gadget: two GSW samples made with the same randomness differ by the
        // plaintext times the weight of each digit
        if constexpr (gsw) {
        const auto key = ref::keys<P>(1).back();
        for (int v : {1, -1, 3}) {
            Polynomial<P> one{}, zero{};
            one[0] = T(v);
            vf::free_rng(5);
            auto a = std::make_unique<TRGSW<P>>(trgswSymEncrypt<P>(one, key));
            vf::free_rng(5);
            auto b = std::make_unique<TRGSW<P>>(trgswSymEncrypt<P>(zero, key));
            vf::free_rng(6);
            auto ha = std::make_unique<HalfTRGSW<P>>(halftrgswSymEncrypt<P>(one, key));
            vf::free_rng(6);
            auto hb = std::make_unique<HalfTRGSW<P>>(halftrgswSymEncrypt<P>(zero, key));
            for (size_t r = 0; r < (P::k + 1) * L; r++)
                for (size_t k = 0; k <= P::k; k++)
                    for (size_t i = 0; i < P::n; i++) {
                        const T want = k == r / L && i == 0 ? T(T(v) * (T(1) << (w - (r % L + 1) * B))) : T(0);
                        VF_CHECK(T((*a)[r][k][i] - (*b)[r][k][i]) == want, vf::fmt("%s/gadget", vf::lname<P>()), "plaintext %d row %zu component %zu", v, r, k);
                        const T hw = k == P::k && i == 0 ? T(T(v) * (T(1) << (w - (r % L + 1) * B))) : T(0);
                        if (r < L) VF_CHECK(T((*ha)[r][k][i] - (*hb)[r][k][i]) == hw, vf::fmt("%s/half-gadget", vf::lname<P>()), "plaintext %d row %zu component %zu", v, r, k);
                    }
            vf::evaluations++;
        }
        }
        transformed();
        digits();
        if constexpr (w == 32) {
#ifdef VP_ALL
            all32(0);
#else
            const int drop = vf::thorough ? 0 : std::max(0, w - L * B - 2);
            all32(drop);
#endif
        }
        vf::sample(vf::fmt("%s l=%d Bgbit=%d N=%u", vf::lname<P>(), L, B, unsigned(P::n)));
    }
};
int main(int argc, char **argv)
{
    vf::init(argc, argv);
    Dec<lvl1param>::run();
    Dec<lvl2param>::run();
#ifndef VP_NO3
    Dec<lvl3param, false>::run();
#endif
    vf::finish();
}
