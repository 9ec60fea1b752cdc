// C03: Boolean gates.  Every gate x truth-table row x split of the error
// margin between the inputs x mask family x aliasing x order of key switch
// and bootstrap x keys; then all gate sequences up to a depth on a register
// file.  Every output must lie within the fresh-noise bound of +-mu, and that
// bound must stay below the gates' margin, so circuits follow by induction.
#define VF_MAIN
#include "tlwe.hpp"
#include "gate.hpp"
#include "gates.hpp"
using namespace TFHEpp;

struct G { const char *name; int tt; int factor; };   // tt bit (2*a+b), factor: slope of the linear form
static const G GS[10] = {{"NAND", 0b0111, 1}, {"NOR", 0b0001, 1}, {"AND", 0b1000, 1}, {"OR", 0b1110, 1}, {"XOR", 0b0110, 2}, {"XNOR", 0b1001, 2},
                         {"ANDNY", 0b0010, 1}, {"ANDYN", 0b0100, 1}, {"ORNY", 0b1011, 1}, {"ORYN", 0b1101, 1}};

template <class IK, class BK, typename BK::targetP::T mu, class C1, class C0>
struct Gates {   // key switch first
    static void run(int g, C1 &r, const C0 &a, const C0 &b, const EvalKey &ek)
    {
        switch (g) {
        case 0: HomNAND<IK, BK, mu>(r, a, b, ek); break;
        case 1: HomNOR<IK, BK, mu>(r, a, b, ek); break;
        case 2: HomAND<IK, BK, mu>(r, a, b, ek); break;
        case 3: HomOR<IK, BK, mu>(r, a, b, ek); break;
        case 4: HomXOR<IK, BK, mu>(r, a, b, ek); break;
        case 5: HomXNOR<IK, BK, mu>(r, a, b, ek); break;
        case 6: HomANDNY<IK, BK, mu>(r, a, b, ek); break;
        case 7: HomANDYN<IK, BK, mu>(r, a, b, ek); break;
        case 8: HomORNY<IK, BK, mu>(r, a, b, ek); break;
        case 9: HomORYN<IK, BK, mu>(r, a, b, ek); break;
        }
    }
};
template <class IK, class BK, typename BK::targetP::T mu, class C1>
struct GatesB {   // bootstrap first
    static void run(int g, C1 &r, const C1 &a, const C1 &b, const EvalKey &ek)
    {
        switch (g) {
        case 0: HomNAND<BK, mu, IK>(r, a, b, ek); break;
        case 1: HomNOR<BK, mu, IK>(r, a, b, ek); break;
        case 2: HomAND<BK, mu, IK>(r, a, b, ek); break;
        case 3: HomOR<BK, mu, IK>(r, a, b, ek); break;
        case 4: HomXOR<BK, mu, IK>(r, a, b, ek); break;
        case 5: HomXNOR<BK, mu, IK>(r, a, b, ek); break;
        case 6: HomANDNY<BK, mu, IK>(r, a, b, ek); break;
        case 7: HomANDYN<BK, mu, IK>(r, a, b, ek); break;
        case 8: HomORNY<BK, mu, IK>(r, a, b, ek); break;
        case 9: HomORYN<BK, mu, IK>(r, a, b, ek); break;
        }
    }
};
// the defaults a caller gets without template arguments
template <class C1>
void defaults(int g, C1 &r, const C1 &a, const C1 &b, const EvalKey &ek)
{
    switch (g) {
    case 0: HomNAND(r, a, b, ek); break;
    case 1: HomNOR(r, a, b, ek); break;
    case 2: HomAND(r, a, b, ek); break;
    case 3: HomOR(r, a, b, ek); break;
    case 4: HomXOR(r, a, b, ek); break;
    case 5: HomXNOR(r, a, b, ek); break;
    case 6: HomANDNY(r, a, b, ek); break;
    case 7: HomANDYN(r, a, b, ek); break;
    case 8: HomORNY(r, a, b, ek); break;
    case 9: HomORYN(r, a, b, ek); break;
    }
}

struct Ctx {
    SecretKey sk;
    EvalKey ek;
};

// one gate form on level P
template <class P, class Run>
void table(const std::string &form, const Key<P> &key, double margin, double lim, double mv, uint64_t kid, Run run)
{
    using T = typename P::T;
    const double mu = vf::frac(T(P::μ));
    // splits of the margin: (share of a, share of b), both signs
    static const double sp[][2] = {{0, 0}, {1, 0}, {0, 1}, {.5, .5}, {.25, .75}, {1.5, -.5}, {-.5, 1.5}};
    for (int g = 0; g < 10; g++)
        for (int row = 0; row < 4; row++) {
            if (!vf::next_case()) continue;
            const bool want = GS[g].tt >> row & 1;
            const double pa = row & 2 ? mu : -mu, pb = row & 1 ? mu : -mu;
            vf::state(vf::mix(g * 4 + row + kid * 64) ^ vf::hash(form.data(), form.size()));
            for (int s = 0; s < 7; s++)
                for (int sg = 0; sg < (s ? 4 : 1); sg++)
                    for (uint64_t q = 0; q < (vf::thorough ? 96u : 40u); q++) {
                        // room for the linear form before its sign changes
                        const double room = (GS[g].factor == 1 ? mu : mu) - margin / GS[g].factor;
                        if (room <= 0) { vf::fail(form + "/harness", "no margin"); return; }
                        const double ea = sp[s][0] * room * (sg & 1 ? -1 : 1), eb = sp[s][1] * room * (sg & 2 ? -1 : 1);
                        if (std::fabs(ea) + std::fabs(eb) > room * 1.0001 && sg != 0 && sg != 3) continue;
                        const bool diff = std::string(GS[g].name).find("YN") != std::string::npos || std::string(GS[g].name).find("NY") != std::string::npos;
                        // (1.5,-.5) only stays inside for forms that add the inputs
                        if (s >= 5 && diff) continue;
                        const double slack = std::pow(2.0, -ref::W<T>) * 2;
                        auto shrink = [&](double e) { return e > 0 ? e - slack : e < 0 ? e + slack : 0; };
                        const auto a = vf::exact<P>(vf::torus<T>(pa + shrink(ea)), key, q);
                        const auto b = vf::exact<P>(vf::torus<T>(pb + shrink(eb)), key, q / 8 + q * 3);
                        const std::string info = vf::fmt("%s row a=%d b=%d error a=%.4f b=%.4f (margin %.4f) mask %llu key %llu", GS[g].name, row >> 1, row & 1, ea, eb, room, (unsigned long long)q, (unsigned long long)kid);
                        TLWE<P> r;
                        r.fill(T(0x5a5a5a5a));
                        run(g, r, a, b);
                        vf::transitions++; vf::evaluations++;
                        const double ph = vf::frac(ref::phase<P>(r, key));
                        VF_CHECK(std::fabs(ph - (want ? mv : -mv)) <= lim, form + "/" + GS[g].name, "output phase %.5f, want %.5f +-%.5f; %s", ph, want ? mv : -mv, lim, info.c_str());
                        if (q < 4) {
                            TLWE<P> x = a;
                            run(g, x, x, b);
                            VF_CHECK(x == r, form + "/" + GS[g].name + "-alias-a", "output over input a differs; %s", info.c_str());
                            x = b;
                            run(g, x, a, x);
                            VF_CHECK(x == r, form + "/" + GS[g].name + "-alias-b", "output over input b differs; %s", info.c_str());
                            if (pa == pb && s == 0) {
                                TLWE<P> y;
                                run(g, y, a, a);
                                x = a;
                                run(g, x, x, x);
                                const double p2 = vf::frac(ref::phase<P>(y, key));
                                VF_CHECK(x == y && std::fabs(p2 - (want ? mv : -mv)) <= lim, form + "/" + GS[g].name + "-same", "gate of one ciphertext with itself: phase %.5f; %s", p2, info.c_str());
                            }
                        }
                    }
        }
}
template <class P>
void unary(const Key<P> &key)
{
    using T = typename P::T;
    const std::string n = vf::lname<P>();
    TLWE<P> one, zero;
    one.fill(T(7)); zero.fill(T(9));
    HomCONSTANTONE<P>(one);
    HomCONSTANTZERO<P>(zero);
    VF_CHECK(ref::phase<P>(one, key) == T(P::μ), n + "/constant-one", "phase %llx", (unsigned long long)ref::phase<P>(one, key));
    VF_CHECK(ref::phase<P>(zero, key) == T(-P::μ), n + "/constant-zero", "phase %llx", (unsigned long long)ref::phase<P>(zero, key));
    for (size_t i = 0; i < P::k * P::n; i++) VF_CHECK(one[i] == 0 && zero[i] == 0, n + "/constant-mask", "mask word %zu not zero", i);
    for (uint64_t q = 0; q < 64; q++)
        for (T e : ref::edges<T>()) {
            const auto c = vf::exact<P>(e, key, q);
            TLWE<P> r, k, a = c;
            HomNOT<P>(r, c);
            HomCOPY<P>(k, c);
            HomNOT<P>(a, a);
            vf::transitions += 3; vf::evaluations += 3;
            VF_CHECK(ref::phase<P>(r, key) == T(0 - e) && a == r, n + "/not", "phase %llx of -%llx", (unsigned long long)ref::phase<P>(r, key), (unsigned long long)e);
            VF_CHECK(k == c, n + "/copy", "copy differs at phase %llx", (unsigned long long)e);
        }
}

// all gate sequences up to a depth on three registers of level P
template <class P, class Run>
void circuits(const std::string &form, const Key<P> &key, double lim, double mv, int depth, Run run)
{
    using T = typename P::T;
    struct St { std::array<TLWE<P>, 3> c; unsigned v; };
    // 10 gates x dst x (a, b), NOT and COPY x dst x src, constants x dst
    struct Op { int g, d, a, b; };
    std::vector<Op> ops;
    for (int g = 0; g < 10; g++) for (int d = 0; d < 3; d++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++)
        if (a != b || g % 3 == 0) ops.push_back({g, d, a, b});
    for (int d = 0; d < 3; d++) for (int a = 0; a < 3; a++) { ops.push_back({10, d, a, 0}); ops.push_back({11, d, a, 0}); }
    for (int d = 0; d < 3; d++) { ops.push_back({12, d, 0, 0}); ops.push_back({13, d, 0, 0}); }
    std::set<unsigned> reached;
    std::function<void(const St &, int, const std::string &, uint64_t)> go = [&](const St &s, int left, const std::string &path, uint64_t salt) {
        reached.insert(s.v);
        if (!left) return;
        for (size_t oi = 0; oi < ops.size(); oi++) {
            if (left == depth && !vf::next_case()) continue;
            // deeper levels follow a third of the operations, rotating
            if (left < depth && (!vf::thorough || left < 2) && (oi + salt) % 3) continue;
            const Op &o = ops[oi];
            St t = s;
            const int va = s.v >> o.a & 1, vb = s.v >> o.b & 1;
            int w;
            if (o.g < 10) { run(o.g, t.c[o.d], t.c[o.a], t.c[o.b]); w = GS[o.g].tt >> (2 * va + vb) & 1; }
            else if (o.g == 10) { HomNOT<P>(t.c[o.d], t.c[o.a]); w = !va; }
            else if (o.g == 11) { HomCOPY<P>(t.c[o.d], t.c[o.a]); w = va; }
            else if (o.g == 12) { HomCONSTANTONE<P>(t.c[o.d]); w = 1; }
            else { HomCONSTANTZERO<P>(t.c[o.d]); w = 0; }
            t.v = (s.v & ~(1u << o.d)) | unsigned(w) << o.d;
            vf::transitions++; vf::evaluations += 3;
            const std::string p = path + vf::fmt(" r%d=%s(r%d,r%d)", o.d, o.g < 10 ? GS[o.g].name : o.g == 10 ? "NOT" : o.g == 11 ? "COPY" : o.g == 12 ? "ONE" : "ZERO", o.a, o.b);
            bool ok = true;
            for (int i = 0; i < 3; i++) {
                const double ph = vf::frac(ref::phase<P>(t.c[i], key)), want = t.v >> i & 1 ? mv : -mv;
                if (std::fabs(ph - want) > lim + std::pow(2.0, 1 - ref::W<T>)) { vf::fail(form + "/circuit", vf::fmt("register %d has phase %.5f, want %.5f after%s", i, ph, want, p.c_str())); ok = false; }
            }
            vf::state(vf::hash(&t.c, sizeof t.c));
            if (ok) go(t, left - 1, p, salt * 7 + oi);
        }
    };
    for (unsigned v = 0; v < 8; v++) {
        St s;
        s.v = v;
        for (int i = 0; i < 3; i++) s.c[i] = vf::exact<P>(T(v >> i & 1 ? T(P::μ) : T(-P::μ)), key, v * 3 + i + 1);
        go(s, depth, vf::fmt("start %u:", v), v);
    }
    vf::traces += reached.size();
}

template <class IK, class BK>
void gatepair(const char *name, const Key<typename BK::domainP> &k0, const Key<typename BK::targetP> &k1, uint64_t kid, bool circ)
{
    using P0 = typename BK::domainP;
    using P1 = typename BK::targetP;
    vf::free_rng(kid * 13 + 1);
    auto c = std::make_unique<Ctx>();
    ref::setkey<P0>(c->sk, k0);
    ref::setkey<P1>(c->sk, k1);
    c->ek.template emplacebkfft<BK>(c->sk);
    c->ek.template emplaceiksk<IK>(c->sk);
    constexpr typename P1::T mu = P1::μ;
    const double mv = vf::frac(mu);
    const double xb = vf::boot_bound<BK>(k1), ks = vf::ks_bound<IK>(k1, IK::t, IK::basebit), rot = vf::rot_bound<BK>(k0);
    const EvalKey &ek = c->ek;
    const std::string n = name;
    // induction: two outputs at their worst must stay inside the smallest margin
    if (2 * xb >= 0.125 - rot - ks || 2 * (xb + ks) >= 0.125 - rot) vf::fail(n + "/harness", vf::fmt("bounds too weak: %g %g %g", xb, ks, rot));
    auto first = [&](int g, TLWE<P1> &r, const TLWE<P1> &a, const TLWE<P1> &b) { Gates<IK, BK, mu, TLWE<P1>, TLWE<P1>>::run(g, r, a, b, ek); };
    auto second = [&](int g, TLWE<P0> &r, const TLWE<P0> &a, const TLWE<P0> &b) { GatesB<IK, BK, mu, TLWE<P0>>::run(g, r, a, b, ek); };
    table<P1>(n + "-switch-first", k1, rot + ks, xb, mv, kid, first);
    table<P0>(n + "-bootstrap-first", k0, rot, xb + ks, mv, kid, second);
    if constexpr (std::is_same_v<BK, lvl01param> && std::is_same_v<IK, lvl10param>) {
        // defaults are the same computation
        for (int g = 0; g < 10; g++)
            for (int q = 0; q < 12; q++) {
                TLWE<P1> a = vf::exact<P1>(q & 1 ? P1::μ : -P1::μ, k1, q), b = vf::exact<P1>(q & 2 ? P1::μ : -P1::μ, k1, q + 3), r, s;
                defaults(g, r, a, b, ek);
                first(g, s, a, b);
                VF_CHECK(r == s, n + "/default-" + GS[g].name, "default form differs from the explicit one");
                TLWE<P0> x = vf::exact<P0>(q & 1 ? P0::μ : -P0::μ, k0, q), y = vf::exact<P0>(q & 2 ? P0::μ : -P0::μ, k0, q + 3), u, v;
                defaults(g, u, x, y, ek);
                second(g, v, x, y);
                VF_CHECK(u == v, n + "/default0-" + GS[g].name, "default form differs from the explicit one");
                vf::transitions += 4;
            }
    }
    if (circ) {
        circuits<P1>(n + "-switch-first", k1, xb, mv, vf::thorough ? 3 : 2, first);
        circuits<P0>(n + "-bootstrap-first", k0, xb + ks, mv, vf::thorough ? 3 : 2, second);
    }
}

int main(int argc, char **argv)
{
    vf::init(argc, argv);
    vf::set_noise(0);
    const auto k0 = ref::allkeys<lvl0param>();
    const auto k1 = ref::keys<lvl1param>(vf::thorough ? 3 : 1);
    const auto k2 = ref::keys<lvl2param>(1);
    const size_t st = k0.size() > 16 ? 5 : k0.size() > 4 ? 2 : 1;
    for (size_t i = 0; i < k0.size(); i += st) {
        unary<lvl0param>(k0[i]);
        gatepair<lvl10param, lvl01param>("10-01", k0[i], k1[(i + 3) % k1.size()], i, i == 3 * st);
#ifndef VP_NOLVL2
        gatepair<lvl20param, lvl02param>("20-02", k0[i], k2[(i + 3) % k2.size()], i, false);
#endif
    }
    for (auto &k : k1) unary<lvl1param>(k);
    for (auto &k : k2) unary<lvl2param>(k);
    vf::sample(vf::fmt("%zu domain keys, 10 gates x 4 rows x 25 error splits x 16 masks, 2 orders, depth-2 circuits on 3 registers", k0.size() / st));
    vf::finish();
}
