// C12: ring laws - every exponent, automorphism index and extraction index.
#define VF_MAIN
#include "tlwe.hpp"
#include "trlwe.hpp"
#include "lv.hpp"
using namespace TFHEpp;

template <class P>
void level()
{
    using T = typename P::T;
    constexpr size_t N = P::n;
    std::vector<std::array<T, N>> polys(3);
    for (size_t i = 0; i < N; i++) {
        polys[0][i] = T(vf::prng(11, i) | 1);
        polys[1][i] = ref::edges<T>()[i % 9];
        polys[2][i] = T(i + 1);
    }
    auto bad = [&](const char *f, uint64_t e, size_t p, const std::array<T, N> &got, const std::array<T, N> &want) {
        vf::transitions++; vf::evaluations++;
        if (got == want) return;
        size_t i = 0;
        while (got[i] == want[i]) i++;
        vf::fail(vf::fmt("%s/%s", vf::lname<P>(), f), vf::fmt("argument %llu polynomial %zu coefficient %zu: %llx, expected %llx", (unsigned long long)e, p, i, (unsigned long long)got[i], (unsigned long long)want[i]));
    };
    for (uint64_t e = 0; e <= 2 * N; e++) {
        if (!vf::next_case()) continue;
        for (size_t p = 0; p < polys.size(); p++) {
            Polynomial<P> r;
            const auto want = ref::monomul<T, N>(polys[p], e);
            r.fill(T(0x1234567));
            PolynomialMulByXai<P>(r, polys[p], T(e));
            bad("mulxai", e, p, r, want);
            auto wm = want;
            for (size_t i = 0; i < N; i++) wm[i] -= polys[p][i];
            r.fill(T(0x1234567));
            PolynomialMulByXaiMinusOne<P>(r, polys[p], T(e));
            bad("mulxaiminusone", e, p, r, wm);
            vf::state(vf::mix(e * 8 + p));
            if (e & 1) {
                // X -> X^e
                std::array<T, N> a{};
                for (uint64_t i = 0; i < N; i++) {
                    const uint64_t j = (i * e) % (2 * N);
                    if (j < N) a[j] += polys[p][i];
                    else a[j - N] -= polys[p][i];
                }
                for (uint64_t d : {e, e + 2 * N}) {
                    r.fill(T(0x1234567));
                    Automorphism<P>(r, polys[p], uint(d));
                    bad("automorphism", d, p, r, a);
                }
            }
        }
    }
    auto keys = ref::keys<P>(1);
    for (size_t idx = 0; idx < N; idx++) {
        if (!vf::next_case()) continue;
        TRLWE<P> c;
        for (size_t k = 0; k <= P::k; k++)
            for (size_t i = 0; i < N; i++) c[k][i] = T(vf::prng(21 + k, i));
        TLWE<P> t;
        t.fill(T(0x55));
        SampleExtractIndex<P>(t, c, int(idx));
        // definition: a_j pairs with the key coefficient j of the negacyclic product's coefficient idx
        TLWE<P> w;
        for (size_t k = 0; k < P::k; k++)
            for (size_t j = 0; j < N; j++) w[k * N + j] = j <= idx ? c[k][idx - j] : T(0 - c[k][N + idx - j]);
        w[P::k * N] = c[P::k][idx];
        vf::transitions++; vf::evaluations++;
        VF_CHECK(t == w, vf::fmt("%s/extract", vf::lname<P>()), "index %zu", idx);
        TRLWE<P> back;
        for (auto &p : back) p.fill(T(0x77));
        InvSampleExtractIndex<P>(back, w, int(idx));
        bool ok = true;
        for (size_t k = 0; k < P::k; k++) ok &= back[k] == c[k];
        for (size_t i = 0; i < N; i++) ok &= back[P::k][i] == (i == idx ? c[P::k][i] : T(0));
        VF_CHECK(ok, vf::fmt("%s/invextract", vf::lname<P>()), "index %zu", idx);
        vf::transitions++; vf::evaluations++;
        vf::state(vf::mix(idx + (1ull << 33)));
        if (idx % (N > 256 ? 97 : 1) == 0)  // the definition itself against the phase of the RLWE sample
            for (size_t ki = 0; ki < keys.size(); ki++) {
                const auto ph = ref::phase<P>(c, keys[ki]);
                VF_CHECK(ref::phase<P>(t, keys[ki]) == ph[idx], vf::fmt("%s/extractphase", vf::lname<P>()), "index %zu key %zu", idx, ki);
                vf::traces++;
            }
    }
    vf::sample(vf::fmt("%s N=%zu k=%u: X^e for e in [0,%zu], X->X^d for all odd d, extraction index in [0,%zu)", vf::lname<P>(), N, unsigned(P::k), 2 * N, N));
}
int main(int argc, char **argv)
{
    vf::init(argc, argv);
    level<lvl1param>();
    level<lvl2param>();
    vf::finish();
}
