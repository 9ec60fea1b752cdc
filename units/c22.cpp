// C22: the shipped parameter sets at their real dimensions.  Every gate and
// multiplexer x row x split of the largest error an operation of the set may
// leave on its inputs x order of switch and bootstrap x mask family, then
// every ordered pair of gates feeding one another.
#define VF_MAIN
#include "tlwe.hpp"
#include "gate.hpp"
#include "circuitbootstrapping.hpp"
#include "gates.hpp"
using namespace TFHEpp;

struct G { const char *name; int tt; int factor; };
static const G GS[10] = {{"NAND", 0b0111, 1}, {"NOR", 0b0001, 1}, {"AND", 0b1000, 1}, {"OR", 0b1110, 1}, {"XOR", 0b0110, 2}, {"XNOR", 0b1001, 2},
                         {"ANDNY", 0b0010, 1}, {"ANDYN", 0b0100, 1}, {"ORNY", 0b1011, 1}, {"ORYN", 0b1101, 1}};
// the offsets of these narrow an unsigned amplitude: not available then
static bool neg(int g) { return g == 1 || g == 2 || g == 5 || g == 6 || g == 7; }
#define ALL(S, ...)                                                                                                       \
    switch (g) {                                                                                                          \
    case 0: HomNAND<__VA_ARGS__>(r, a, b, ek); break;                                                                     \
    case 3: HomOR<__VA_ARGS__>(r, a, b, ek); break;                                                                       \
    case 4: HomXOR<__VA_ARGS__>(r, a, b, ek); break;                                                                      \
    case 8: HomORNY<__VA_ARGS__>(r, a, b, ek); break;                                                                     \
    case 9: HomORYN<__VA_ARGS__>(r, a, b, ek); break;                                                                     \
    }                                                                                                                     \
    if constexpr (S) switch (g) {                                                                                         \
    case 1: HomNOR<__VA_ARGS__>(r, a, b, ek); break;                                                                      \
    case 2: HomAND<__VA_ARGS__>(r, a, b, ek); break;                                                                      \
    case 5: HomXNOR<__VA_ARGS__>(r, a, b, ek); break;                                                                     \
    case 6: HomANDNY<__VA_ARGS__>(r, a, b, ek); break;                                                                    \
    case 7: HomANDYN<__VA_ARGS__>(r, a, b, ek); break;                                                                    \
    }
template <class IK, class BK>
struct Set {
    using P0 = typename BK::domainP;
    using P1 = typename BK::targetP;
    static constexpr typename P1::T mu = P1::μ;
    static constexpr bool s0 = std::is_signed_v<decltype(P0::μ)>, s1 = std::is_signed_v<decltype(P1::μ)>;
    std::string n;
    const SecretKey &sk;
    const EvalKey &ek;
    const Key<P0> k0;
    const Key<P1> k1;
    double xb, ks, rot, in0, in1;

    Set(const std::string &name, const SecretKey &s, const EvalKey &e) : n(name), sk(s), ek(e), k0(s.key.get<P0>()), k1(s.key.get<P1>())
    {
        using IT = typename IK::targetP;
        const double sd = IT::errordist == ErrorDistribution::ModularGaussian ? vf::noise_sd<IT>() : vf::noise_sd<IT>();
        const double rows = double(IK::domainP::k * IK::domainP::n) * IK::t;
        // a switch: rounding and key noise, eight deviations of each
        const double l1 = vf::keyl1(s.key.get<typename IK::domainP>());
        ks = 8 * std::sqrt(l1 / 12) * std::pow(2.0, -double(IK::t * IK::basebit)) + 8 * sd * std::sqrt(rows);
        // a bootstrap: eight deviations, from the digit variance
        const double B = std::pow(2.0, P1::Bgbit), L = P1::l, N = P1::n, k = P1::k;
        const double d = double(P0::k * P0::n) * (P0::key_value_max - P0::key_value_min);
        const double l1t = vf::keyl1(k1);
        double var = d * ((k + 1) * L * N * (B * B / 12 + 1) * std::pow(vf::noise_sd<P1>(), 2) + (1 + l1t) * std::pow(2.0, -2.0 * L * P1::Bgbit) / 12);
#ifdef USE_KEY_BUNDLE
        var *= 2;
#endif
        const double enc = ref::W<typename P1::T> == 64 ? std::pow(2.0, -48) * std::sqrt(N) : std::pow(2.0, -32);
        var += d * (k + 1) * L * N * B * B / 12 * enc * enc;
        xb = 8 * std::sqrt(var);
        rot = vf::rot_bound<BK>(k0);
        in1 = xb;
        in0 = xb + ks;
        if (vf::shard == 0) fprintf(stderr, "%s: bootstrap %.5f switch %.5f rotation %.5f\n", n.c_str(), xb, ks, rot);
    }
    // the error the sum of the inputs may carry: six deviations of what the gate itself adds are left
    double room(int factor, double margin) const { return 0.125 - 0.75 * margin / factor; }
    void judge(const std::string &key, double ph, bool want, double lim, const std::string &info)
    {
        vf::transitions++; vf::evaluations++;
        auto &ctr = vf::counters["max:" + key.substr(0, key.find('/')) + "/percent-of-bound"];
        const double d = std::fabs(ph - (want ? 0.125 : -0.125));
        ctr = std::max(ctr, uint64_t(100 * d / lim));
        VF_CHECK(d <= lim, key, "output phase %.5f, want %.5f +-%.5f; %s", ph, want ? 0.125 : -0.125, lim, info.c_str());
    }
    // the split of the error between inputs
    template <class P, class F>
    void table(const std::string &form, const Key<P> &key, double own, double margin, double lim, int masks, F run)
    {
        using T = typename P::T;
        static const double sp[][2] = {{0, 0}, {1, 1}, {1, -1}, {-1, 1}, {-1, -1}};
        for (int g = 0; g < 10; g++)
            for (int row = 0; row < 4; row++) {
                if (!vf::next_case() || (neg(g) && !std::is_signed_v<decltype(P::μ)>)) continue;
                // what the inputs may carry: an output of this set, as far as the gate still has room
                const double e = std::max(0.0, std::min(own, 0.98 * room(GS[g].factor, margin) / 2));
                for (int s = 0; s < 5; s++) {
                    if (!vf::thorough && masks == 0 && s != (g + row) % 5 && s != (g + row + 2) % 5) continue;
                    for (int q = 0; q < std::max(masks, 1); q++) {
                        const auto a = vf::exact<P>(vf::torus<T>((row & 2 ? 0.125 : -0.125) + sp[s][0] * e), key, 8 * (q + row + g) + ((q + s) % 3 == 0 ? 1 : (q + s) % 3 == 1 ? 7 : 0));
                        const auto b = vf::exact<P>(vf::torus<T>((row & 1 ? 0.125 : -0.125) + sp[s][1] * e), key, 8 * (q + 3 + g + s) + 1);
                        vf::state(vf::hash(a.data(), sizeof a) ^ vf::hash(b.data(), sizeof b));
                        auto go = [&](auto &r) { run(g, r, a, b); };
                        judge(form + "/" + GS[g].name, go_phase(go, form), GS[g].tt >> row & 1, lim,
                              vf::fmt("row a=%d b=%d errors %+.4f %+.4f, mask %d", row >> 1, row & 1, sp[s][0] * e, sp[s][1] * e, q));
                    }
                }
            }
    }
    template <class F> double go_phase(F go, const std::string &form)
    {
        if (form.find("switch-first") != std::string::npos) {
            TLWE<P1> r; r.fill(typename P1::T(0x5a5a5a5a));
            go(r);
            return vf::frac(ref::phase<P1>(r, k1));
        }
        else {
            TLWE<typename IK::targetP> r; r.fill(typename IK::targetP::T(0x5a5a));
            go(r);
            return vf::frac(ref::phase<typename IK::targetP>(r, sk.key.get<typename IK::targetP>()));
        }
    }
    void first(int g, TLWE<P1> &r, const TLWE<P1> &a, const TLWE<P1> &b) { ALL(s1, IK, BK, mu) }
    void second(int g, TLWE<P0> &r, const TLWE<P0> &a, const TLWE<P0> &b) { ALL(s0, BK, mu, IK) }
    void tables(int masks)
    {
        table<P1>(n + "-switch-first", k1, in1, rot + ks, xb, masks, [&](int g, auto &r, const auto &a, const auto &b) { if constexpr (std::is_same_v<std::decay_t<decltype(r)>, TLWE<P1>>) first(g, r, a, b); });
        table<P0>(n + "-bootstrap-first", k0, in0, rot, xb + ks, masks, [&](int g, auto &r, const auto &a, const auto &b) { if constexpr (std::is_same_v<std::decay_t<decltype(r)>, TLWE<P0>>) second(g, r, a, b); });
    }
    // g2(g1(a, b), b): every ordered pair, every row
    void pairs()
    {
        for (int g = 0; g < 10; g++)
            for (int h = 0; h < 10; h++)
                for (int row = 0; row < 4; row++) {
                    if (!vf::next_case() || (!vf::thorough && (g + h + row) % 2)) continue;
                    const auto a = tlweSymEncrypt<P1>(row & 2 ? P1::μ : -P1::μ, k1), b = tlweSymEncrypt<P1>(row & 1 ? P1::μ : -P1::μ, k1);
                    TLWE<P1> r, s;
                    first(g, r, a, b);
                    first(h, s, r, b);
                    const int m = GS[g].tt >> row & 1;
                    vf::transitions++;
                    judge(n + "-chain/" + GS[g].name + "-" + GS[h].name, vf::frac(ref::phase<P1>(s, k1)), GS[h].tt >> (2 * m + (row & 1)) & 1, xb, vf::fmt("row %d", row));
                    VF_CHECK(tlweSymDecrypt<P1>(s, k1) == bool(GS[h].tt >> (2 * m + (row & 1)) & 1), n + "-chain/decrypt", "%s of %s row %d", GS[h].name, GS[g].name, row);
                    vf::state(vf::mix((g * 10 + h) * 4 + row) ^ vf::hash(n.data(), n.size()));
                    vf::traces++;
                }
    }
};
template <class P, class IK, class BK>
void muxes(Set<IK, BK> &c, const Key<P> &key, double own, double margin, double lim)
{
    using T = typename P::T;
    static const double sp[][3] = {{0, 0, 0}, {1, 1, 1}, {1, -1, 1}, {-1, 1, 1}, {-1, -1, -1}};
    const double e = std::max(0.0, std::min(own, 0.98 * (0.125 - 0.75 * margin) / 2));
    for (int row = 0; row < 8; row++)
        for (int s = 0; s < 5; s++) {
            if (!vf::next_case()) continue;
            auto enc = [&](bool b, double x, int m) { return vf::exact<P>(vf::torus<T>((b ? 0.125 : -0.125) + x * e), key, m); };
            const auto cs = enc(row & 4, sp[s][0], 1 + 8 * row), c1 = enc(row & 2, sp[s][1], 7 + 8 * s), c0 = enc(row & 1, sp[s][2], 1 + 8 * (17 + row + s));
            const bool want = row & 4 ? row & 2 : row & 1;
            TLWE<P> r;
            HomMUX<P>(r, cs, c1, c0, c.ek);
            const std::string f = c.n + "-mux-" + vf::lname<P>();
            c.judge(f + "/MUX", vf::frac(ref::phase<P>(r, key)), want, lim, vf::fmt("row %d split %d", row, s));
            HomNMUX<P>(r, cs, c1, c0, c.ek);
            c.judge(f + "/NMUX", vf::frac(ref::phase<P>(r, key)), !want, lim, vf::fmt("row %d split %d", row, s));
            vf::state(vf::mix(row * 8 + s) ^ vf::hash(f.data(), f.size()));
        }
}
#include <pthread.h>
static int argc;
static char **argv;
static void *body(void *)
{
    // keys once, before the workers fork
    vf::seed(2026);
    auto sk = std::make_unique<SecretKey>();
    auto ek = std::make_unique<EvalKey>(*sk);
    vf::free_rng(5);
    ek->emplaceiksk<lvl10param>(*sk);
    ek->emplacebkfft<lvl01param>(*sk);
#ifdef VP_LVLH
    ek->emplaceiksk<lvl1hparam>(*sk);
    ek->emplacebkfft<lvlh1param>(*sk);
#endif
#ifdef VP_LVL2
    ek->emplaceiksk<lvl20param>(*sk);
    ek->emplacebkfft<lvl02param>(*sk);
#endif
    vf::init(argc, argv);
    vf::free_rng(6 + vf::shard);
    {
        Set<lvl10param, lvl01param> s("10-01", *sk, *ek);
        s.tables(vf::thorough ? 24 : 1);
        s.pairs();
        muxes<lvl1param>(s, s.k1, s.in1, s.rot + s.ks, 1.5 * s.xb);
        muxes<lvl0param>(s, s.k0, s.in0, s.rot, 1.5 * s.xb + s.ks);
    }
#ifdef VP_LVLH
    {
        Set<lvl1hparam, lvlh1param> s("1h-h1", *sk, *ek);
        s.tables(vf::thorough ? 8 : 0);
    }
#endif
#ifdef VP_LVL2
    {
        Set<lvl20param, lvl02param> s("20-02", *sk, *ek);
        s.tables(vf::thorough ? 8 : 0);
    }
#endif
    vf::sample("10 gates x 4 rows x 5 error splits x 2 orders, 100 gate pairs x 4 rows, MUX/NMUX x 8 rows x 5 splits");
    vf::finish();
    return nullptr;
}
// the library asks for an unlimited stack (README): key bundling keeps a whole bootstrapping key there
int main(int c, char **v)
{
    argc = c; argv = v;
    pthread_attr_t a;
    pthread_t t;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, size_t(1) << 30);
    if (pthread_create(&t, &a, body, nullptr)) return 3;
    pthread_join(t, nullptr);
}
