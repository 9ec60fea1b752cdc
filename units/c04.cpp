// C04: multiplexers.  Every form x row x split of the margin between selector
// and data x mask family x aliasing x keys; the selected value must appear
// with fresh noise at the message position.
#define VF_MAIN
#include "tlwe.hpp"
#include "gate.hpp"
#include "gates.hpp"
using namespace TFHEpp;
struct Ctx { SecretKey sk; EvalKey ek; };

// f(want, selector, data1, data0, info) for every case
template <class P, class F>
void cases(const std::string &form, const Key<P> &key, double margin, uint64_t kid, F f)
{
    using T = typename P::T;
    const double mu = vf::frac(T(P::μ)), room = 0.125 - margin;
    if (room <= 0.02) { vf::fail(form + "/harness", vf::fmt("no margin %g", margin)); return; }
    static const double sp[][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, -1}, {0, 1, 1}, {.5, .5, .5}, {.5, -.5, .5}, {.5, .5, -.5}, {.25, .75, .75}};
    for (int row = 0; row < 8; row++)
        for (int s = 0; s < 8; s++) {
            if (!vf::next_case()) continue;
            vf::state(vf::mix(row * 8 + s + kid * 64) ^ vf::hash(form.data(), form.size()));
            const bool bs = row & 4, b1 = row & 2, b0 = row & 1;
            for (int sg = 0; sg < (s ? 2 : 1); sg++)
                for (uint64_t q = 0; q < (vf::thorough ? 64u : 24u); q++) {
                    const double z = sg ? -1 : 1, sl = 1 - 1e-3;
                    auto enc = [&](bool b, double e, uint64_t m) { return vf::exact<P>(vf::torus<T>((b ? mu : -mu) + e * room * z * sl), key, m); };
                    const auto cs = enc(bs, sp[s][0], q), c1 = enc(b1, sp[s][1], q / 8 + 3 * q), c0 = enc(b0, sp[s][2], q * 5 + 2);
                    f(bs ? b1 : b0, cs, c1, c0, q < 3, vf::fmt("selector %d data %d %d, errors %.3f %.3f %.3f of the margin, masks %llu, key %llu", bs, b1, b0, sp[s][0] * z, sp[s][1] * z, sp[s][2] * z, (unsigned long long)q, (unsigned long long)kid));
                }
        }
}
void judge(const std::string &key, double ph, bool want, double mv, double lim, const std::string &info)
{
    vf::transitions++; vf::evaluations++;
    VF_CHECK(std::fabs(ph - (want ? mv : -mv)) <= lim, key, "output phase %.5f, want %.5f +-%.5f; %s", ph, want ? mv : -mv, lim, info.c_str());
}
template <class P, class F>
void tlwe_form(const std::string &form, const Key<P> &key, double margin, double lim, double mv, uint64_t kid, bool neg, F run)
{
    cases<P>(form, key, margin, kid, [&](bool want, const TLWE<P> &cs, const TLWE<P> &c1, const TLWE<P> &c0, bool alias, const std::string &info) {
        TLWE<P> r;
        r.fill(typename P::T(0x5a5a5a5a));
        run(r, cs, c1, c0);
        judge(form, vf::frac(ref::phase<P>(r, key)), want != neg, mv, lim, info);
        if (!alias) return;
        TLWE<P> x = cs;
        run(x, x, c1, c0);
        VF_CHECK(x == r, form + "-alias-selector", "differs when stored over the selector; %s", info.c_str());
        x = c1;
        run(x, cs, x, c0);
        VF_CHECK(x == r, form + "-alias-data1", "differs when stored over data 1; %s", info.c_str());
        x = c0;
        run(x, cs, c1, x);
        VF_CHECK(x == r, form + "-alias-data0", "differs when stored over data 0; %s", info.c_str());
    });
}
template <class I, class O, class F>
void trlwe_form(const std::string &form, const Key<I> &ikey, const Key<O> &okey, double margin, double lim, double mv, uint64_t kid, F run)
{
    cases<I>(form, ikey, margin, kid, [&](bool want, const TLWE<I> &cs, const TLWE<I> &c1, const TLWE<I> &c0, bool, const std::string &info) {
        alignas(64) TRLWE<O> r;
        for (auto &x : r) x.fill(typename O::T(0x5a5a5a5a));
        run(r, cs, c1, c0);
        judge(form, vf::frac(ref::phase<O>(r, okey)[0]), want, mv, lim, info);
    });
}
template <class BK>
void bootforms(const std::string &n, Ctx &c, const Key<typename BK::domainP> &k0, const Key<typename BK::targetP> &k1, uint64_t kid)
{
    using D = typename BK::domainP;
    using P = typename BK::targetP;
    const double mv = vf::frac(typename P::T(P::μ)), lim = 2 * vf::boot_bound<BK>(k1), rot = vf::rot_bound<BK>(k0);
    trlwe_form<D, P>("muxwoIKSandSE-" + n, k0, k1, rot, lim, mv, kid, [&](auto &r, auto &s, auto &a, auto &b) { HomMUXwoIKSandSE<BK>(r, s, a, b, c.ek); });
    trlwe_form<D, P>("muxwoSE-" + n, k0, k1, rot, lim, mv, kid, [&](auto &r, auto &s, auto &a, auto &b) { HomMUXwoSE<BK>(r, s, a, b, c.ek); });
}
template <class IK, class BK>
void switchforms(const std::string &n, Ctx &c, const Key<typename IK::domainP> &ki, const Key<typename BK::domainP> &k0, const Key<typename BK::targetP> &k1, uint64_t kid)
{
    using D = typename IK::domainP;
    using P = typename BK::targetP;
    const double mv = vf::frac(typename P::T(P::μ)), lim = 2 * vf::boot_bound<BK>(k1), rot = vf::rot_bound<BK>(k0) + vf::ks_bound<IK>(ki, IK::t, IK::basebit);
    trlwe_form<D, P>("muxwoSE-" + n, ki, k1, rot, lim, mv, kid, [&](auto &r, auto &s, auto &a, auto &b) { HomMUXwoSE<IK, BK>(r, s, a, b, c.ek); });
}

int main(int argc, char **argv)
{
    vf::init(argc, argv);
    vf::set_noise(0);
    const auto k0 = ref::allkeys<lvl0param>();
    const auto kh = ref::allkeys<lvlhalfparam>();
    const auto k1 = ref::keys<lvl1param>(vf::thorough ? 3 : 1);
    const auto k2 = ref::keys<lvl2param>(1);
    const size_t st = k0.size() > 16 ? 5 : k0.size() > 4 ? 2 : 1;
    for (size_t i = 0; i < k0.size(); i += st) {
        const auto &a = k0[i];
        const auto &h = kh[(i * 3 + 1) % kh.size()];
        const auto &b = k1[(i + 3) % k1.size()];
        const auto &d = k2[(i + 3) % k2.size()];
        vf::free_rng(i * 13 + 5);
        auto c = std::make_unique<Ctx>();
        ref::setkey<lvl0param>(c->sk, a);
        ref::setkey<lvlhalfparam>(c->sk, h);
        ref::setkey<lvl1param>(c->sk, b);
        ref::setkey<lvl2param>(c->sk, d);
        EvalKey &ek = c->ek;
        ek.emplacebkfft<lvl01param>(c->sk);
        ek.emplacebkfft<lvl02param>(c->sk);
        ek.emplaceiksk<lvl10param>(c->sk);
        ek.emplaceiksk<lvl20param>(c->sk);
#ifndef USE_KEY_BUNDLE
        ek.emplacebkfft<lvlh1param>(c->sk);
        ek.emplacebkfft<lvlh2param>(c->sk);
        ek.emplaceiksk<lvl1hparam>(c->sk);
#endif
        const double m1 = vf::frac(lvl1param::T(lvl1param::μ)), m0 = m1;
        const double xb = 2 * vf::boot_bound<lvl01param>(b), ks = vf::ks_bound<lvl10param>(b, lvl10param::t, lvl10param::basebit), rot = vf::rot_bound<lvl01param>(a);
        tlwe_form<lvl1param>("mux-lvl1", b, rot + ks, xb, m1, i, false, [&](auto &r, auto &s, auto &x, auto &y) { HomMUX<lvl1param>(r, s, x, y, ek); });
        tlwe_form<lvl1param>("nmux-lvl1", b, rot + ks, xb, m1, i, true, [&](auto &r, auto &s, auto &x, auto &y) { HomNMUX<lvl1param>(r, s, x, y, ek); });
        tlwe_form<lvl0param>("mux-lvl0", a, rot, xb + ks, m0, i, false, [&](auto &r, auto &s, auto &x, auto &y) { HomMUX<lvl0param>(r, s, x, y, ek); });
        tlwe_form<lvl0param>("nmux-lvl0", a, rot, xb + ks, m0, i, true, [&](auto &r, auto &s, auto &x, auto &y) { HomNMUX<lvl0param>(r, s, x, y, ek); });
        bootforms<lvl01param>("01", *c, a, b, i);
        bootforms<lvl02param>("02", *c, a, d, i);
        switchforms<lvl10param, lvl01param>("10-01", *c, b, a, b, i);
        switchforms<lvl10param, lvl02param>("10-02", *c, b, a, d, i);
        switchforms<lvl20param, lvl01param>("20-01", *c, d, a, b, i);
        switchforms<lvl20param, lvl02param>("20-02", *c, d, a, d, i);
#ifndef USE_KEY_BUNDLE
        bootforms<lvlh1param>("h1", *c, h, b, i);
        bootforms<lvlh2param>("h2", *c, h, d, i);
        switchforms<lvl1hparam, lvlh1param>("1h-h1", *c, b, h, b, i);
#endif
        // packed inputs: the message sits in the constant term, everything else is arbitrary
        cases<lvl1param>("extract-mux", b, rot + 3 * ks, i, [&](bool want, const TLWE<lvl1param> &s, const TLWE<lvl1param> &x, const TLWE<lvl1param> &y, bool alias, const std::string &info) {
            using P = lvl1param;
            auto pack = [&](const TLWE<P> &t, uint64_t q) {
                // RLWE sample whose constant coefficient extracts to t
                TRLWE<P> r;
                for (size_t k = 0; k < P::k; k++) {
                    r[k][0] = t[k * P::n];
                    for (size_t j = 1; j < P::n; j++) r[k][P::n - j] = P::T(0 - t[k * P::n + j]);
                }
                for (size_t j = 1; j < P::n; j++) r[P::k][j] = P::T(vf::prng(q, j) >> (64 - ref::W<P::T>));
                r[P::k][0] = t[P::k * P::n];
                return r;
            };
            const auto ps = pack(s, 1), px = pack(x, 2), py = pack(y, 3);
            alignas(64) TRLWE<P> r;
            for (auto &p : r) p.fill(0x5a5a5a5a);
            ExtractSwitchAndHomMUX(r, ps, px, py, ek);
            judge("extract-mux", vf::frac(ref::phase<P>(r, b)[0]), want, m1, xb, info);
            if (!alias) return;
            const TRLWE<P> *src[3] = {&ps, &px, &py};
            for (int w = 0; w < 3; w++) {
                alignas(64) TRLWE<P> z = *src[w];
                ExtractSwitchAndHomMUX(z, w == 0 ? z : ps, w == 1 ? z : px, w == 2 ? z : py, ek);
                VF_CHECK(std::memcmp(&z, &r, sizeof r) == 0, "extract-mux-alias", "differs when stored over input %d; %s", w, info.c_str());
            }
        });
    }
    vf::sample(vf::fmt("%zu domain keys x 8 rows x 15 margin splits x 24 masks for every multiplexer form", k0.size() / st));
    vf::finish();
}
