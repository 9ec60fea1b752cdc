// C19: homomorphic digit decomposition.  Every plaintext (all digit strings
// where there are at most 2^12, else every digit value next to every carry
// boundary), noise inside the last digit, mask families and keys; the phase
// of every digit is predicted exactly.
#define VF_MAIN
#include "tlwe.hpp"
#include "trlwe.hpp"
#include "homdecomp.hpp"
#include "cloudkey.hpp"
#include "gates.hpp"
using namespace TFHEpp;

template <class H, class M2L, class BR>
struct D {
    using HP = typename H::domainP;
    using MP = typename H::targetP;
    using LP = typename M2L::targetP;
    using HT = typename HP::T;
    using MT = typename MP::T;
    std::string L;
    Key<HP> kh;
    Key<MP> km;
    Key<LP> kl;
    uint64_t kid;
    std::unique_ptr<KeySwitchingKey<H>> ih{new KeySwitchingKey<H>};
    std::unique_ptr<KeySwitchingKey<M2L>> im{new KeySwitchingKey<M2L>};
    std::unique_ptr<BootstrappingKeyFFT<BR>> bk{new BootstrappingKeyFFT<BR>};
    double eh, em, eb, rot;
    D(const std::string &n, const Key<HP> &a, const Key<MP> &b, const Key<LP> &c, uint64_t id) : L(n), kh(a), km(b), kl(c), kid(id)
    {
        vf::free_rng(900 + id);
        ikskgen<H>(*ih, kh, km);
        ikskgen<M2L>(*im, km, kl);
        bkfftgen<BR>(*bk, kl, km);
        eh = vf::ks_bound<H>(kh, H::t, H::basebit) + std::pow(2.0, -ref::W<MT>);
        em = vf::ks_bound<M2L>(km, M2L::t, M2L::basebit) + std::pow(2.0, -ref::W<typename LP::T>);
        if (!vf::tiny) {   // statistical: rounding errors and key noise, 8 sigma
            const double hl1 = vf::keyl1(kh), ml1 = vf::keyl1(km);
            eh = 8 * (std::sqrt(hl1) * std::pow(2.0, -double(H::t * H::basebit)) / 3.46 + H::α * std::sqrt(double(HP::n * HP::k) * H::t));
            em = 8 * (std::sqrt(ml1) * std::pow(2.0, -double(M2L::t * M2L::basebit)) / 3.46 + M2L::α * std::sqrt(double(MP::n * MP::k) * M2L::t));
        }
        eb = vf::boot_bound<BR>(km);
        rot = vf::rot_bound<BR>(kl);
    }
    template <uint bb, uint nd>
    void run(const std::vector<uint64_t> &values, const std::vector<double> &errs, uint64_t nq)
    {
        constexpr int w = ref::W<HT>, pb = bb * nd;
        const double step = std::pow(2.0, -double(bb)), budget = em + eh + eb + rot;
        if (vf::tiny && budget >= step / 4) { vf::fail(L + "/harness", vf::fmt("width %u: noise %g does not fit the digit", bb, budget)); return; }
        const uint64_t mask = (uint64_t(1) << bb) - 1;
        for (uint64_t v : values) {
            if (!vf::next_case()) continue;
            vf::state(vf::mix(v * 64 + kid) ^ vf::mix(bb * 100 + nd));
            vf::sample(vf::fmt("value %llx, base bits %d, %d digits, key %d", (unsigned long long)v, int(bb), int(nd), int(kid)));
            for (double e : errs)
                for (uint64_t q = 0; q < nq; q++) {
                    HT ph = pb == w ? HT(v) : HT(HT(v) << (w - pb));
                    // room of the lowest digit, as a fraction of its step
                    // (its noise also reaches the next digit, one step below)
                    const double room = std::min((step / 2 - (em + eh + rot)) / step, (step / 4 - budget) / step / step) * (1 - 1e-3);
                    const double le = std::ldexp(e * room, w - pb - 0);
                    if (pb < w) ph += HT(int64_t(le));
                    const auto c = vf::exact<HP>(ph, kh, q + v % 8 + (q ? 0 : v));
                    std::array<TLWE<MP>, nd> r;
                    for (auto &x : r) x.fill(MT(0x5a5a5a5a));
                    HomDecomp<H, M2L, BR, bb, nd>(r, c, *ih, *im, *bk);
                    double sub = 0;   // what the lower digits contribute after the subtraction
                    uint64_t back = 0;
                    for (unsigned d = 1; d <= nd; d++) {
                        vf::transitions++; vf::evaluations++;
                        const uint64_t digit = (v >> (bb * (d - 1))) & mask;
                        const HT sh = HT(ph << (pb - bb * d));
                        double want = vf::frac(sh);
                        if (d > 1) {
                            const uint64_t prev = (v >> (bb * (d - 2))) & mask;
                            sub = (prev >> (bb - 1) ? -1 : 1) * step / 4 - step / 2;
                            want += sub;
                        }
                        const double lim = eh + (d > 1 ? eb : 0);
                        const double got = vf::frac(ref::phase<MP>(r[d - 1], km));
                        double df = got - want;
                        df -= std::round(df);
                        auto &mx = vf::counters["max:permille_of_bound"];
                        mx = std::max<uint64_t>(mx, uint64_t(std::fabs(df) / lim * 1000));
                        double off = got - double(digit) * step;   // distance from the digit itself
                        off -= std::round(off);
                        const double slack = d == 1 ? (pb == w ? 0 : std::fabs(e) * room * step) : step / 4 + (pb == w ? 0 : std::fabs(e) * room * std::pow(step, d));
                        const auto info = [&] { return vf::fmt("value %llx noise %.3f: digit %u of %u (width %u) has phase %.6f", (unsigned long long)v, e, d, nd, bb, got); };
                        VF_CHECK(std::fabs(df) <= lim, L + "/digit-phase", "%s, want %.6f +-%.3g; masks %llu key %llu", info().c_str(), want, lim, (unsigned long long)q, (unsigned long long)kid);
                        VF_CHECK(std::fabs(off) <= slack + lim + 1e-12, L + "/digit-noise", "%s, %.6f away from digit %llu; key %llu", info().c_str(), off, (unsigned long long)digit, (unsigned long long)kid);
                        const uint64_t dec = uint64_t(std::llround((got < 0 ? got + 1 : got) / step)) & mask;
                        back |= dec << (bb * (d - 1));
                    }
                    VF_CHECK(back == v, L + "/recompose", "value %llx noise %.3f recomposes to %llx; width %u x %u digits, masks %llu key %llu", (unsigned long long)v, e, (unsigned long long)back, bb, nd, (unsigned long long)q, (unsigned long long)kid);
                }
        }
    }
    static std::vector<uint64_t> values(int bb, int nd)
    {
        std::vector<uint64_t> v;
        const int pb = bb * nd;
        if (pb <= (vf::thorough ? 12 : 8)) { for (uint64_t i = 0; i < 1ull << pb; i++) v.push_back(i); return v; }
        std::set<uint64_t> s;
        const uint64_t full = pb == 64 ? ~0ull : (1ull << pb) - 1, B = (1ull << bb) - 1, h = 1ull << (bb - 1);
        const uint64_t es[] = {0, B, h, h - 1, 1};
        for (uint64_t rest : {uint64_t(0), B, h, h - 1})
            for (int p = 0; p < nd; p++)
                for (uint64_t d = 0; d <= B; d++)
                    for (uint64_t nx : es) {
                        if (!vf::thorough && (rest == h - 1 || (bb > 2 && nx == 1))) continue;
                        if (!vf::thorough && nd > 16 && p % 4) continue;
                        uint64_t x = 0;
                        for (int q = 0; q < nd; q++) x |= (q == p ? d : q == p - 1 ? nx : rest) << (bb * q);
                        s.insert(x & full);
                    }
        for (int i = 0; i < 40; i++) s.insert(vf::prng(19, i) & full);
        return {s.begin(), s.end()};
    }
};
int main(int argc, char **argv)
{
    vf::init(argc, argv);
#ifdef TFHEPP_VERIF_PARAMS
    vf::set_noise(0);
    const std::vector<double> errs{0, 1, -1, .5};
    const auto k3 = ref::keys<lvl3param>(1);
    const auto k1 = ref::keys<lvl1param>(1);
    const auto kh = ref::allkeys<lvlhalfparam>();
    uint64_t id = 0;
    const size_t combos = vf::thorough ? 12 : 4;
    for (size_t i = 0; i < combos; i++) {
        D<lvl31param, lvl1hparam, lvlh1param> d("lvl31", k3[i % k3.size()], k1[(i + i / 5) % k1.size()], kh[(kh.size() - 1 - i) % kh.size()], ++id);
        const uint64_t nq = vf::thorough ? 8 : 3;
        d.run<1, 1>(d.values(1, 1), errs, 8);
        d.run<1, 7>(d.values(1, 7), errs, nq);
        d.run<2, 3>(d.values(2, 3), errs, nq);
        d.run<2, 32>(d.values(2, 32), {0}, 1);
        d.run<4, 2>(d.values(4, 2), errs, nq);
        d.run<4, 16>(d.values(4, 16), {0}, 1);
        d.run<3, 5>(d.values(3, 5), {0, 1, -1}, 1);
        d.run<3, 21>(d.values(3, 21), {0, .9}, 1);
        const auto k0 = ref::allkeys<lvl0param>();
        const auto kk = ref::keys<lvl2param>(1);
        D<lvl21param, lvl10param, lvl01param> f("lvl21", kk[i % kk.size()], k1[(i + i / 5) % k1.size()], k0[(k0.size() - 1 - i) % k0.size()], ++id);
        f.run<2, 4>(f.values(2, 4), errs, 1);
        f.run<4, 5>(f.values(4, 5), {0}, 1);
    }
#else
    vf::free_rng(1);
    auto k3 = ref::keys<lvl3param>(1, false);
    auto k1 = ref::keys<lvl1param>(1, false);
    auto kh = ref::keys<lvlhalfparam>(1, false);
    D<lvl31param, lvl1hparam, lvlh1param> d("lvl31", k3.back(), k1.back(), kh.back(), 1);
    std::vector<uint64_t> v{0, ~0ull, 0x8888888888888888ull, 0x7777777777777777ull, 0xf0f0f0f0f0f0f0f0ull, 0x0123456789abcdefull, 0xfedcba9876543210ull, 0x8787878787878787ull};
    for (int i = 0; i < (vf::thorough ? 200 : 8); i++) v.push_back(vf::prng(19, i));
    d.run<4, 16>(v, {0}, 1);
#endif
    vf::finish();
}
