// C14: operations in several threads on disjoint data.  The real code runs
// under a scheduler that sees every memory access (c14rt.cpp).  For every
// combination of operations, cold (nothing used before) and warm: all start
// orders; the words two threads touch with one of them writing become
// scheduling points, and all schedules preempting at those points (up to the
// bound) are run.  Where there is no such word all interleavings are one.
#define VF_MAIN
#include "tlwe.hpp"
#include "gate.hpp"
#include "circuitbootstrapping.hpp"
#include "cmuxmem.hpp"
#include "homdecomp.hpp"
#include "bfv++.hpp"
#include "io-packet.hpp"
#include "nussbaumer.hpp"
#include "gates.hpp"
#include "c14rt.hpp"
#include <cereal/archives/portable_binary.hpp>
#include <sstream>
using namespace TFHEpp;

using L1 = lvl1param;
using L2 = lvl2param;
static const SecretKey *sk;
static EvalKey *ek;
// the subset forms want a level 1 key no longer than the level 2 key
constexpr bool SUBSET = L1::k * L1::n <= L2::k * L2::n;
template <class P> using SubKey = std::conditional_t<SUBSET, SubsetKeySwitchingKey<std::conditional_t<SUBSET, P, lvl22param>>, int>;
template <class P> using SubPriv = std::conditional_t<SUBSET, SubsetPrivateKeySwitchingKey<std::conditional_t<SUBSET, P, lvl22param>>, int>;
struct Keys {           // made by a process of its own, in shared memory
    SecretKey *sk;
    EvalKey *ek;
    BootstrappingKeyNTT<lvl01param> *ntt;
    BootstrappingKeyRAINTT<lvl01param> *rain;
    AnnihilateKey<L1> *ann;
    EvalAutoKey<L1> *autok;
    relinKeyFFT<L1> *rel;
    PrivateKeySwitchingKey<lvl11param> *priv;
    TLWE2TRLWEIKSKey<lvl11param> *tri;
    SubKey<lvl21param> *sub;
    SubPriv<lvl21param> *subpriv;
    HalfTRGSWFFT<L1> *half;
    TRGSW<L1> *gsw;
    TRGSWFFT<L1> *bits[4];
    TRGSWNTT<L1> *nbit;
    TLWE<L1> a1, b1, c1;
    TLWE<lvl0param> a0, b0;
    TLWE<L2> a2, b2;
    TRLWE<L1> r1, r2, mem[4];
    Polynomial<L1> p1, q1, tv;
    Polynomial<L2> p2, q2;
};
static Keys *K;

// ------------------------------------------------------------------- output
struct Out { uint64_t ndet, ntok; char err[256]; uint8_t det[1 << 18]; uint64_t tok[1 << 13][2]; };
struct Shared { sch::Result res; Out out[4]; };
static Shared *sh;
static void put(const void *p, size_t n)
{
    Out &o = sh->out[sch::sch_tid()];
    if (o.ndet + n > sizeof o.det) { snprintf(o.err, sizeof o.err, "harness: output too long"); return; }
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) o.det[o.ndet++] = b[i];
}
template <class A> static void put(const A &a)      // without padding
{
    if constexpr (requires { a.begin(); }) for (const auto &x : a) put(x);
    else put(&a, sizeof a);
}
static void bad(const char *f, ...)
{
    Out &o = sh->out[sch::sch_tid()];
    if (o.err[0]) return;
    va_list ap;
    va_start(ap, f);
    vsnprintf(o.err, sizeof o.err, f, ap);
    va_end(ap);
}
// randomness: sixteen bytes at a time
template <class T> static void tokens(const T *p, size_t n)
{
    Out &o = sh->out[sch::sch_tid()];
    constexpr size_t per = 16 / sizeof(T);
    for (size_t i = 0; i + per <= n && o.ntok < (1 << 13); i += per) {
        uint64_t w[2] = {0, 0};
        for (size_t j = 0; j < per; j++) w[j * sizeof(T) / 8] |= uint64_t(p[i + j]) << (8 * (j * sizeof(T) % 8));
        o.tok[o.ntok][0] = w[0]; o.tok[o.ntok][1] = w[1];
        o.ntok++;
    }
}
template <class P> static void mask(const TLWE<P> &c) { tokens(c.data(), P::k * P::n); }
template <class P> static void mask(const TRLWE<P> &c) { for (size_t k = 0; k < P::k; k++) tokens(c[k].data(), P::n); }
template <class P> static void expect(const char *what, typename P::T got, typename P::T want, double tol)
{
    if (std::fabs(vf::frac(typename P::T(got - want))) > tol) bad("%s: phase %.6f, want %.6f", what, vf::frac(got), vf::frac(want));
}

// what a generator is seeded with: fresh entropy for everyone who asks
extern "C" __attribute__((no_sanitize("thread"), noinline)) uint64_t vf_rng_seed()
{
    static uint64_t asked;
    return vf::mix(vf::vseed * 7919 + 14000) ^ vf::mix(asked++);
}

// --------------------------------------------------------------- operations
struct Op { const char *name; bool rnd; void (*f)(); };
static void o_gate()
{
    TLWE<L1> r;
    HomNAND<lvl10param, lvl01param, L1::μ>(r, K->a1, K->b1, *ek); put(r);
    HomXOR<lvl10param, lvl01param, L1::μ>(r, r, K->c1, *ek); put(r);
}
static void o_gate0()
{
    TLWE<lvl0param> r;
    HomORYN<lvl01param, L1::μ, lvl10param>(r, K->a0, K->b0, *ek); put(r);
    HomMUX<L1>(*std::make_unique<TLWE<L1>>(), K->a1, K->b1, K->c1, *ek);
}
static void o_mux()
{
    TLWE<L1> r;
    HomMUX<L1>(r, K->a1, K->b1, K->c1, *ek); put(r);
    HomNMUX<L1>(r, K->a1, K->b1, K->c1, *ek); put(r);
}
static void o_gate2()
{
    TLWE<L2> r;
    HomAND<lvl20param, lvl02param, L2::μ>(r, K->a2, K->b2, *ek); put(r);
}
static void o_cb()
{
    auto g = std::make_unique<TRGSWFFT<L1>>(), h = std::make_unique<TRGSWFFT<L1>>();
    CircuitBootstrappingFFT<lvl10param, lvl02param, lvl21param>(*g, K->a1, *ek); put(*g);
    CircuitBootstrappingFFTwithInv<lvl02param, lvl21param>(*g, *h, K->a0, *ek); put(*g); put(*h);
}
static void o_trace()
{
    TRLWE<L1> r;
    AnnihilateKeySwitching<L1>(r, K->r1, *K->ann); put(r);
    std::vector<TLWE<L1>> v{K->a1, K->b1, K->c1, K->a1};
    TLWE2TRLWEPacking<L1>(r, v, *K->ann); put(r);
    EvalAuto<L1>(r, K->r1, 5, *K->autok); put(r);
}
static void o_cmux()
{
    alignas(64) TRLWE<L1> r;
    trgswfftExternalProduct<L1>(r, K->r1, *K->bits[0]); put(r);
    CMUXFFT<L1>(r, *K->bits[1], K->r1, K->r2); put(r);
    trgswnttExternalProduct<L1>(r, K->r1, *K->nbit); put(r);
}
static void o_mul()
{
    Polynomial<L1> r;
    PolyMul<L1>(r, K->p1, K->q1); put(r);
    PolyMulNaive<L1>(r, K->p1, K->q1); put(r);
    PolyMulRescaleUnsigned<L1>(r, K->p1, K->q1); put(r);
    Polynomial<L2> s;
    PolyMul<L2>(s, K->p2, K->q2); put(s);
}
static void o_ntt()
{
    TLWE<L1> r;
    GateBootstrappingTLWE2TLWENTT<lvl01param>(r, K->a0, *K->ntt, K->tv); put(r);
    GateBootstrappingTLWE2TLWERAINTT<lvl01param>(r, K->b0, *K->rain, K->tv); put(r);
}
static void o_rom()
{
    alignas(64) TRLWE<L1> r;
    const std::array<TRGSWFFT<L1>, 4> adr{*K->bits[0], *K->bits[1], *K->bits[2], *K->bits[3]};
    const std::array<TRLWE<L1>, 4> mem{K->mem[0], K->mem[1], K->mem[2], K->mem[3]};
    UROMUX<L1, 4, 2>(r, adr, mem); put(r);
    std::vector<TLWE<L1>> out(L1::n >> 2);
    LROMUX<L1, 4, 2>(out, adr, r);
    for (auto &t : out) put(t);
}
static void o_bfv()
{
    TRLWE<L1> r;
    TRLWEMult<L1>(r, K->r1, K->r2, *K->rel); put(r);
}
static void o_decomp()
{
    std::array<TLWE<L1>, 2> r;
    HomDecomp<lvl21param, lvl10param, lvl01param, 3, 2>(r, K->a2, *ek->iksklvl21, *ek->iksklvl10, *ek->bkfftlvl01);
    for (auto &t : r) put(t);
}
static void o_lut()
{
    std::array<TLWE<L1>, 2> r;
    GateBootstrappingManyLUT<lvl01param, 2>(r, K->a0, *ek->bkfftlvl01, K->tv);
    for (auto &t : r) put(t);
    TRLWE<L1> acc;
    BlindRotate<lvl01param>(acc, K->b0, *ek->bkfftlvl01, K->tv); put(acc);
    TLWE<L1> s;
    SampleExtractIndex<L1>(s, acc, 7); put(s);
}
static void o_ser()
{
    std::ostringstream os;
    { cereal::PortableBinaryOutputArchive ar(os); ar(*ek->iksklvl10, K->r1, *sk); }
    const std::string s = os.str();
    put(s.data(), s.size());
    std::istringstream is(s);
    auto ks = std::make_unique<KeySwitchingKey<lvl10param>>();
    TRLWE<L1> r;
    auto k = std::make_unique<SecretKey>();
    { cereal::PortableBinaryInputArchive ar(is); ar(*ks, r, *k); }
    put(*ks); put(r);
}
template <class P> static void binomial(const Key<P> &key)
{
    if constexpr (requires { P::q; }) {
        Polynomial<P> m;
        for (size_t i = 0; i < P::n; i++) m[i] = i % 3 ? P::μ : -P::μ;
        const TRLWE<P> c = trlweSymEncrypt<P>(m, uint(4), key);
        mask<P>(c);
        const auto ph = ref::phase<P>(c, key);
        for (size_t i = 0; i < P::n; i++) expect<P>("ring sample, binomial noise", ph[i], m[i], 1e-6);
    }
}
static void o_enc()
{
    const auto k0 = sk->key.get<lvl0param>();
    const auto k1 = sk->key.get<L1>();
    const auto k2 = sk->key.get<L2>();
    for (int i = 0; i < 2; i++) {
        const auto a = tlweSymEncrypt<lvl0param>(lvl0param::μ, k0);
        expect<lvl0param>("level 0 sample", ref::phase<lvl0param>(a, k0), lvl0param::μ, 1e-3);
        const auto b = tlweSymEncrypt<L1>(L1::μ, k1);
        mask<L1>(b);
        expect<L1>("level 1 sample", ref::phase<L1>(b, k1), L1::μ, 1e-6);
        if (tlweSymDecrypt<L1>(b, k1) != true) bad("level 1 sample decrypts to 0");
    }
    auto ring = [&]<class P>(P *, const Key<P> &key, auto enc) {
        Polynomial<P> m;
        for (size_t i = 0; i < P::n; i++) m[i] = i % 3 ? P::μ : -P::μ;
        const TRLWE<P> c = enc(m);
        mask<P>(c);
        const auto ph = ref::phase<P>(c, key);
        for (size_t i = 0; i < P::n; i++) expect<P>("ring sample", ph[i], m[i], 1e-6);
    };
    ring((L1 *)nullptr, k1, [&](const auto &m) { return trlweSymEncrypt<L1>(m, k1); });
    ring((L2 *)nullptr, k2, [&](const auto &m) { return trlweSymEncrypt<L2>(m, k2); });
    binomial<lvl3param>(sk->key.get<lvl3param>());
    Polynomial<L1> one = {};
    one[0] = 1;
    const auto g = std::make_unique<TRGSW<L1>>(trgswSymEncrypt<L1>(one, k1));
    for (size_t r = 0; r < g->size(); r++) {
        mask<L1>((*g)[r]);
        const auto ph = ref::phase<L1>((*g)[r], k1);
        const size_t k = r / L1::l, d = r % L1::l;
        const L1::T h = L1::T(1) << (ref::W<L1::T> - (d + 1) * L1::Bgbit);
        for (size_t i = 0; i < L1::n; i++)
            expect<L1>("GSW row", ph[i], k == L1::k ? (i ? 0 : h) : L1::T(0) - h * k1[k * L1::n + i], 1e-6);
    }
}
static void o_keys()
{
    SecretKey s;
    const auto k1 = s.key.get<L1>();
    const auto k0 = s.key.get<lvl0param>();
    auto ks = std::make_unique<KeySwitchingKey<lvl10param>>();
    ikskgen<lvl10param>(*ks, k1, k0);
    using T0 = lvl0param::T;
    for (size_t i = 0; i < ks->size(); i++)
        for (size_t j = 0; j < (*ks)[i].size(); j++)
            for (size_t u = 0; u < (*ks)[i][j].size(); u++) {
                const auto want = L1::T(k1[i] * (u + 1)) << (ref::W<L1::T> - (j + 1) * lvl10param::basebit);
                expect<lvl0param>("switching key row", ref::phase<lvl0param>((*ks)[i][j][u], k0), T0(want >> (ref::W<L1::T> - ref::W<T0>)), 1e-3);
            }
    auto bk = std::make_unique<BootstrappingKeyFFT<lvl01param>>();
    bkfftgen<lvl01param>(*bk, k0, k1);
    // use them
    EvalKey e(s);
    e.iksklvl10 = std::move(ks);
    e.bkfftlvl01 = std::move(bk);
    for (int row = 0; row < 4; row++) {
        const auto a = tlweSymEncrypt<L1>(row & 1 ? L1::μ : -L1::μ, k1), b = tlweSymEncrypt<L1>(row & 2 ? L1::μ : -L1::μ, k1);
        mask<L1>(a); mask<L1>(b);
        TLWE<L1> r;
        HomNAND<lvl10param, lvl01param, L1::μ>(r, a, b, e);
        if (tlweSymDecrypt<L1>(r, k1) != (row != 3)) bad("NAND under the new keys is wrong in row %d", row);
    }
    auto pk = std::make_unique<PrivateKeySwitchingKey<lvl11param>>();
    Polynomial<L1> f = {};
    f[0] = 1; f[1] = 3;
    privkskgen<lvl11param>(*pk, f, k1, k1);
    for (size_t i = 0; i < pk->size(); i++)
        for (size_t j = 0; j < (*pk)[i].size(); j++)
            for (size_t u = 0; u < (*pk)[i][j].size(); u++) {
                if (i % 5 == 0) mask<L1>((*pk)[i][j][u]);
                const auto ph = ref::phase<L1>((*pk)[i][j][u], k1);
                const L1::T s = i < L1::k * L1::n ? k1[i] : -1;
                for (size_t q = 0; q < L1::n; q++)
                    expect<L1>("private switching key row", ph[q], L1::T((u + 1) * f[q] * s) << (ref::W<L1::T> - (j + 1) * lvl11param::basebit), 1e-6);
            }
#ifndef USE_KEY_BUNDLE
    auto rb = std::make_unique<BootstrappingKeyRAINTT<lvl01param>>();
    bkrainttgen<lvl01param>(*rb, k0, k1);
    auto nb = std::make_unique<BootstrappingKeyNTT<lvl01param>>();
    bknttgen<lvl01param>(*nb, k0, k1);
    Polynomial<L1> tv;
    for (auto &x : tv) x = L1::μ;
    for (int bit = 0; bit < 2; bit++) {
        const auto a = tlweSymEncrypt<lvl0param>(bit ? lvl0param::μ : -lvl0param::μ, k0);
        TLWE<L1> r;
        GateBootstrappingTLWE2TLWERAINTT<lvl01param>(r, a, *rb, tv);
        if (tlweSymDecrypt<L1>(r, k1) != bit) bad("bootstrapping with the new RAINTT keys gives %d for %d", !bit, bit);
        GateBootstrappingTLWE2TLWENTT<lvl01param>(r, a, *nb, tv);
        if (tlweSymDecrypt<L1>(r, k1) != bit) bad("bootstrapping with the new NTT keys gives %d for %d", !bit, bit);
    }
#endif
}
static void o_batch()
{
    std::vector<uint8_t> p(13);
    for (size_t i = 0; i < p.size(); i++) p[i] = i * 5 % 3 == 1;
    const auto a = bootsSymEncrypt<L1>(p, *sk);
    const auto b = bootsSymEncrypt<L2>(p, sk->key.get<L2>());
    const auto k1 = sk->key.get<L1>();
    const auto k2 = sk->key.get<L2>();
    for (size_t i = 0; i < p.size(); i++) {
        mask<L1>(a[i]); mask<L2>(b[i]);
        expect<L1>("batch entry", ref::phase<L1>(a[i], k1), p[i] ? L1::μ : -L1::μ, 1e-6);
        expect<L2>("batch entry, level 2", ref::phase<L2>(b[i], k2), p[i] ? L2::μ : -L2::μ, 1e-6);
    }
    if (bootsSymDecrypt<L1>(a, *sk) != p || bootsSymDecrypt<L2>(b, k2) != p) bad("the batch decrypts to something else");
}

// ---- every other public operation, in groups
static void o_gates_b()        // bootstrap first
{
    TLWE<lvl0param> r;
    HomNAND<lvl01param, L1::μ, lvl10param>(r, K->a0, K->b0, *ek); put(r);
    HomNOR<lvl01param, L1::μ, lvl10param>(r, r, K->b0, *ek); put(r);
    HomXNOR<lvl01param, L1::μ, lvl10param>(r, r, K->a0, *ek); put(r);
    HomAND<lvl01param, L1::μ, lvl10param>(r, r, K->b0, *ek); put(r);
    HomOR<lvl01param, L1::μ, lvl10param>(r, r, K->b0, *ek); put(r);
    HomXOR<lvl01param, L1::μ, lvl10param>(r, K->a0, r, *ek); put(r);
    HomANDNY<lvl01param, L1::μ, lvl10param>(r, K->a0, r, *ek); put(r);
    HomANDYN<lvl01param, L1::μ, lvl10param>(r, r, K->b0, *ek); put(r);
    HomORNY<lvl01param, L1::μ, lvl10param>(r, r, K->b0, *ek); put(r);
}
static void o_gates_s()        // switch first
{
    TLWE<L1> r;
    HomNOR<lvl10param, lvl01param, L1::μ>(r, K->a1, K->b1, *ek); put(r);
    HomXNOR<lvl10param, lvl01param, L1::μ>(r, r, K->b1, *ek); put(r);
    HomAND<lvl10param, lvl01param, L1::μ>(r, r, K->b1, *ek); put(r);
    HomOR<lvl10param, lvl01param, L1::μ>(r, r, K->b1, *ek); put(r);
    HomANDNY<lvl10param, lvl01param, L1::μ>(r, K->a1, r, *ek); put(r);
    HomANDYN<lvl10param, lvl01param, L1::μ>(r, r, K->b1, *ek); put(r);
    HomORNY<lvl10param, lvl01param, L1::μ>(r, r, K->b1, *ek); put(r);
    HomORYN<lvl10param, lvl01param, L1::μ>(r, r, K->b1, *ek); put(r);
    HomNOT<L1>(r, r); put(r);
    HomCOPY<L1>(r, K->a1); put(r);
    HomCONSTANTONE<L1>(r); put(r);
    HomCONSTANTZERO<L1>(r); put(r);
}
static void o_muxforms()
{
    TLWE<lvl0param> z;
    HomMUX<lvl0param>(z, K->a0, K->b0, K->a0, *ek); put(z);
    HomNMUX<lvl0param>(z, z, K->b0, K->a0, *ek); put(z);
    alignas(64) TRLWE<L1> r;
    HomMUXwoIKSandSE<lvl01param>(r, K->a0, K->b0, K->a0, *ek); put(r);
    HomMUXwoSE<lvl01param>(r, K->a0, K->b0, K->a0, *ek); put(r);
    HomMUXwoSE<lvl10param, lvl01param>(r, K->a1, K->b1, K->c1, *ek); put(r);
    ExtractSwitchAndHomMUX(r, K->r1, K->r2, K->mem[0], *ek); put(r);
    alignas(64) TRLWE<L2> r2;
    HomMUXwoSE<lvl20param, lvl02param>(r2, K->a2, K->b2, K->a2, *ek); put(r2);
    HomMUXwoIKSandSE<lvl02param>(r2, K->a0, K->b0, K->a0, *ek); put(r2);
}
static void o_boot()
{
    TLWE<L1> r;
    TLWE<lvl0param> z;
    GateBootstrapping<lvl10param, lvl01param, L1::μ>(r, K->a1, *ek); put(r);
    GateBootstrapping<lvl01param, L1::μ, lvl10param>(z, K->b0, *ek); put(z);
    alignas(64) TRLWE<L1> acc;
    BlindRotate<lvl01param>(acc, K->a0, *ek->bkfftlvl01, K->r1); put(acc);
    std::array<TLWE<L2>, 4> many;
    Polynomial<L2> tv;
    for (size_t i = 0; i < L2::n; i++) tv[i] = i % 3 ? L2::μ : -L2::μ;
    GateBootstrappingManyLUT<lvl02param, 4>(many, K->b0, *ek->bkfftlvl02, tv); put(many);
    TLWE<L2> r2;
    GateBootstrappingTLWE2TLWEFFT<lvl02param>(r2, K->a0, *ek->bkfftlvl02, tv); put(r2);
#ifndef USE_KEY_BUNDLE
    if (ek->bknttlvl01) {
        GateBootstrappingNTT<lvl10param, lvl01param, L1::μ>(r, K->b1, *ek); put(r);
        GateBootstrappingNTT<lvl01param, L1::μ, lvl10param>(z, K->a0, *ek); put(z);
    }
#endif
}
template <class P> static void subset_switch()
{
    if constexpr (P::targetP::k * P::targetP::n <= P::domainP::k * P::domainP::n) {
        TLWE<typename P::targetP> r;
        alignas(64) TRLWE<typename P::targetP> t;
        SubsetIdentityKeySwitch<P>(r, K->b2, *K->sub); put(r);
        SubsetPrivKeySwitch<P>(t, K->c1, *K->subpriv); put(t);
    }
}
template <class P> static void subset_cb()
{
    if constexpr (P::targetP::k * P::targetP::n <= P::domainP::k * P::domainP::n) {
        auto g = std::make_unique<TRGSW<L1>>();
        auto f = std::make_unique<TRGSWFFT<L1>>();
        CircuitBootstrappingSub<lvl10param, lvl02param, P>(*g, K->a1, *ek); put(*g);
        CircuitBootstrappingSubFFT<lvl10param, lvl02param, P>(*f, K->b1, *ek); put(*f);
    }
}
static void o_switch()
{
    TLWE<lvl0param> z;
    IdentityKeySwitch<lvl10param>(z, K->b1, *ek->iksklvl10); put(z);
    IdentityKeySwitch<lvl20param>(z, K->b2, *ek->iksklvl20); put(z);
    TLWE<L1> r;
    IdentityKeySwitch<lvl21param>(r, K->a2, *ek->iksklvl21); put(r);
    std::array<TLWE<lvl0param>, 3> cat;
    CatIdentityKeySwitch<lvl10param, 3>(cat, {K->a1, K->b1, K->c1}, *ek->iksklvl10); put(cat);
    alignas(64) TRLWE<L1> t;
    PrivKeySwitch<lvl11param>(t, K->a1, *K->priv); put(t);
    TLWE2TRLWEIKS<lvl11param>(t, K->b1, *K->tri); put(t);
    subset_switch<lvl21param>();
}
static void o_cbforms()
{
    auto g = std::make_unique<TRGSW<L1>>();
    auto f = std::make_unique<TRGSWFFT<L1>>(), h = std::make_unique<TRGSWFFT<L1>>();
    CircuitBootstrapping<lvl02param, lvl21param>(*g, K->a0, *ek); put(*g);
    CircuitBootstrapping<lvl10param, lvl02param, lvl21param>(*g, K->b1, *ek); put(*g);
    CircuitBootstrappingFFT<lvl02param, lvl21param>(*f, K->b0, *ek); put(*f);
    CircuitBootstrappingFFTInv<lvl02param, lvl21param>(*f, K->a0, *ek); put(*f);
    CircuitBootstrappingFFTInv<lvl10param, lvl02param, lvl21param>(*f, K->b1, *ek); put(*f);
    CircuitBootstrappingFFTwithInv<lvl10param, lvl02param, lvl21param>(*f, *h, K->c1, *ek); put(*f); put(*h);
    subset_cb<lvl21param>();
}
static void o_ram()
{
    const std::array<TRGSWFFT<L1>, 3> adr{*K->bits[1], *K->bits[0], *K->bits[3]};
    std::array<TRLWE<L1>, 8> mem;
    for (int i = 0; i < 8; i++) mem[i] = K->mem[i % 4];
    alignas(64) TRLWE<L1> r;
    RAMUX<L1, 3>(r, adr, mem); put(r);
    const std::array<std::array<TRGSWFFT<L1>, 3>, 2> both{adr, adr};
    for (int i : {0, 5}) { RAMwriteBar<L1, 3>(r, K->r1, mem[i], i, both); put(r); }
}
static void o_ring()
{
    Polynomial<L1> p;
    PolynomialMulByXai<L1>(p, K->p1, 7); put(p);
    PolynomialMulByXai<L1>(p, K->p1, L1::n + 3); put(p);
    PolynomialMulByXaiMinusOne<L1>(p, K->p1, 9); put(p);
    Automorphism<L1>(p, K->p1, 3); put(p);
    TLWE<L1> t;
    SampleExtractIndex<L1>(t, K->r1, 5); put(t);
    TRLWE<L1> r;
    InvSampleExtractIndex<L1>(r, t, 5); put(r);
    std::vector<TLWE<L1>> v{K->a1, K->b1, K->c1};
    TLWE2TRLWEChengsPacking<L1>(r, v, *K->ann); put(r);
    DecomposedPolynomial<L1> d;
    Decomposition<L1>(d, K->p1); put(d);
    auto g = std::make_unique<TRGSWNTT<L1>>(TRGSW2NTT<L1>(*K->gsw)); put(*g);
    *g = ApplyNTT2trgsw<L1>(*K->gsw); put(*g);
    auto f = std::make_unique<TRGSWFFT<L1>>(ApplyFFT2trgsw<L1>(*K->gsw)); put(*f);
    auto o = std::make_unique<TRGSWFFT<L1>>(TRGSWFFTOneGen<L1>()); put(*o);
}
static void o_engines()
{
    alignas(64) TRLWE<L1> r = K->r1;
    alignas(64) TRLWE<L1> h;
    halftrgswfftExternalProduct<L1>(h, K->r1[0], *K->half); put(h);
#ifndef USE_KEY_BUNDLE
    CMUXFFTwithPolynomialMulByXaiMinusOne<lvl01param>(r, (*ek->bkfftlvl01)[0], 5); put(r);
    CMUXNTTwithPolynomialMulByXaiMinusOne<L1>(r, *K->nbit, 7); put(r);
    CMUXRAINTTwithPolynomialMulByXaiMinusOne<L1>(r, (*K->rain)[0], 9); put(r);
    alignas(64) TRLWE<L1> q;
    trgswrainttExternalProduct<L1>(q, K->r2, (*K->rain)[0]); put(q);
#endif
    Polynomial<L1> p;
    PolyMulNaieveRescaleUnsigned<L1>(p, K->p1, K->q1); put(p);
    std::array<uint64_t, 32> nu;
    for (size_t i = 0; i < 32; i++) nu[i] = vf::mix(i + 5);
    Nussbaumer::NussbaumerTransform<uint64_t, 5>(std::span<uint64_t, 32>(nu)); put(nu);
    Nussbaumer::InverseNussbaumerTransform<uint64_t, 5>(std::span<uint64_t, 32>(nu)); put(nu);
}
static void o_decrypt()
{
    const auto k0 = sk->key.get<lvl0param>();
    const auto k1 = sk->key.get<L1>();
    const auto k2 = sk->key.get<L2>();
    const uint64_t w[] = {tlweSymPhase<lvl0param>(K->a0, k0), tlweSymPhase<L1>(K->a1, k1), tlweSymPhase<L2>(K->a2, k2), tlweSymDecrypt<L1>(K->b1, k1), tlweSymIntDecrypt<L1>(K->a1, k1),
                          tlweSymIntDecrypt<lvl0param>(K->b0, k0), tlweSymIntDecrypt<L1, 4>(K->c1, k1)};
    put(w, sizeof w);
    put(trlwePhase<L1>(K->r1, k1)); put(trlweSymDecrypt<L1>(K->r1, k1)); put(trlweSymIntDecrypt<L1>(K->r2, k1));
}
static void o_enc_more()
{
    const auto k0 = sk->key.get<lvl0param>();
    const auto k1 = sk->key.get<L1>();
    const auto k2 = sk->key.get<L2>();
    const auto a = tlweSymIntEncrypt<lvl0param>(2, k0);
    expect<lvl0param>("integer level 0 sample", ref::phase<lvl0param>(a, k0), typename lvl0param::T(2 * lvl0param::Δ), 1e-3);
    const auto b = tlweSymIntEncrypt<L1>(1, k1);
    mask<L1>(b);
    expect<L1>("integer level 1 sample", ref::phase<L1>(b, k1), L1::T(L1::Δ), 1e-6);
    Polynomial<L2> m = {};
    m[3] = 1;
    const auto r = trlweSymIntEncrypt<L2>(m, k2);
    mask<L2>(r);
    const auto ph = ref::phase<L2>(r, k2);
    for (size_t i = 0; i < L2::n; i++) expect<L2>("integer ring sample", ph[i], i == 3 ? L2::T(L2::Δ) : L2::T(0), 1e-6);
    // evaluation-domain forms, by what they do
    Polynomial<L1> one = {};
    one[0] = 1;
    alignas(64) TRLWE<L1> x;
    auto same = [&](const char *what, double tol) {
        const auto got = ref::phase<L1>(x, k1), want = ref::phase<L1>(K->r1, k1);
        for (size_t i = 0; i < L1::n; i++) expect<L1>(what, got[i], want[i], tol);
        mask<L1>(x);
    };
    const auto f = std::make_unique<TRGSWFFT<L1>>(trgswfftSymEncrypt<L1>(one, k1));
    trgswfftExternalProduct<L1>(x, K->r1, *f);
    same("product with a fresh GSW sample", 1e-2);
    const auto n = std::make_unique<TRGSWNTT<L1>>(trgswnttSymEncrypt<L1>(one, k1));
    trgswnttExternalProduct<L1>(x, K->r1, *n);
    same("product with a fresh NTT GSW sample", 1e-2);
    const auto h = std::make_unique<HalfTRGSWFFT<L1>>(halftrgswfftSymEncrypt<L1>(one, k1));
    halftrgswfftExternalProduct<L1>(x, K->r1[L1::k], *h);
    const auto got = ref::phase<L1>(x, k1);
    for (size_t i = 0; i < L1::n; i++) expect<L1>("product with a fresh half GSW sample", got[i], K->r1[L1::k][i], 1e-2);
#ifndef USE_KEY_BUNDLE
    const auto rn = std::make_unique<TRGSWRAINTT<L1>>(trgswrainttSymEncrypt<L1>(one, k1));
    trgswrainttExternalProduct<L1>(x, K->r1, *rn);
    same("product with a fresh RAINTT GSW sample", 1e-2);
#endif
}
static void o_registry()
{
    EvalKey e(*sk);
    e.emplacebk<lvl01param>(*sk);
    e.emplacebk2bkfft<lvl01param>();
    e.emplaceiksk<lvl10param>(*sk);
    const auto k1 = sk->key.get<L1>();
    const auto k0 = sk->key.get<lvl0param>();
    TLWE<L1> r;
    HomNAND<lvl10param, lvl01param, L1::μ>(r, K->a1, K->c1, e);
    if (tlweSymDecrypt<L1>(r, k1)) bad("NAND under registered keys is wrong");
    for (int i = 0; i < 4; i++) tokens(e.getbk<lvl01param>()[0][0][i][0].data(), L1::n);
#ifndef USE_KEY_BUNDLE
    e.emplacebk2bkntt<lvl01param>();
    GateBootstrappingNTT<lvl10param, lvl01param, L1::μ>(r, K->b1, e);
    if (tlweSymDecrypt<L1>(r, k1)) bad("NTT bootstrapping under registered keys is wrong");
#endif
    Polynomial<L1> f = {};
    f[2] = 1;
    e.emplaceprivksk<lvl11param>("shift", f, *sk);
    alignas(64) TRLWE<L1> t;
    PrivKeySwitch<lvl11param>(t, K->a1, e.getprivksk<lvl11param>("shift"));
    const auto ph = ref::phase<L1>(t, k1);
    for (size_t i = 0; i < L1::n; i++) expect<L1>("private switch under a registered key", ph[i], i == 2 ? L1::T(L1::μ) : L1::T(0), 1e-2);
    // and through a stream
    std::stringstream st;
    { cereal::PortableBinaryOutputArchive ar(st); e.serialize(ar); }
    EvalKey e2;
    { cereal::PortableBinaryInputArchive ar(st); e2.serialize(ar); }
    if (e2.getiksk<lvl10param>() != e.getiksk<lvl10param>()) bad("a registered key differs after the stream");
    auto ann = std::make_unique<AnnihilateKey<L1>>();
    annihilatekeygen<L1>(*ann, *sk);
    AnnihilateKeySwitching<L1>(t, K->r1, *ann);
    expect<L1>("trace under a fresh key", ref::phase<L1>(t, k1)[0], ref::phase<L1>(K->r1, k1)[0], 1e-2);
    TLWE2TRLWEIKSKey<lvl11param> *tri = new TLWE2TRLWEIKSKey<lvl11param>;
    tlwe2trlweikskgen<lvl11param>(*tri, *sk);
    for (int i = 0; i < 3; i++) mask<L1>((*tri)[i][0][0]);
    delete tri;
}
static const Op OPS[] = {{"gate", false, o_gate}, {"gate-bootstrap-first", false, o_gate0}, {"mux", false, o_mux}, {"gate-lvl2", false, o_gate2},
                         {"circuit-bootstrap", false, o_cb}, {"trace-packing-automorphism", false, o_trace}, {"external-product", false, o_cmux}, {"polynomial-product", false, o_mul},
                         {"ntt-bootstrap", false, o_ntt}, {"rom", false, o_rom}, {"bfv", false, o_bfv}, {"decomposition", false, o_decomp}, {"many-lut", false, o_lut},
                         {"serialize", false, o_ser}, {"encrypt", true, o_enc}, {"keygen", true, o_keys}, {"batch", true, o_batch},
                         {"gates-bootstrap-first", false, o_gates_b}, {"gates-switch-first", false, o_gates_s}, {"mux-forms", false, o_muxforms}, {"bootstrap-forms", false, o_boot},
                         {"key-switches", false, o_switch}, {"circuit-bootstrap-forms", false, o_cbforms}, {"ram", false, o_ram}, {"ring", false, o_ring}, {"engines", false, o_engines},
                         {"decrypt", false, o_decrypt}, {"encrypt-forms", true, o_enc_more}, {"key-registry", true, o_registry}};
constexpr int NOPS = sizeof OPS / sizeof *OPS;

// ------------------------------------------------------------------ running
static int cur[4];
static void body(int t)
{
    OPS[cur[t]].f();
}
struct Combo { int n; int op[3]; bool warm; int team; };
// 0, or what went wrong
static std::string execute(const Combo &c, const sch::Plan &p)
{
    for (auto &o : sh->out) { o.ndet = o.ntok = 0; o.err[0] = 0; }
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(3); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(100);
        for (int i = 0; i < c.n; i++) cur[i] = c.op[i];
        if (c.warm) {       // the first uses are over
            sch::Plan w;
            w.n = 1;
            sch::Result *wr = new sch::Result;
            for (int i = 0; i < c.n; i++) { cur[0] = c.op[i]; sch::run(w, *wr, body); }
            for (auto &o : sh->out) { o.ndet = o.ntok = 0; o.err[0] = 0; }
            cur[0] = c.op[0];
        }
        sch::run(p, sh->res, body);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    vf::transitions++;
    if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "no termination" : vf::fmt("crash, signal %d", WTERMSIG(st));
    if (WEXITSTATUS(st) == 41) return "deadlock";
    if (WEXITSTATUS(st)) { fprintf(stderr, "harness: child exit %d\n", WEXITSTATUS(st)); _exit(3); }
    return "";
}
static std::vector<std::vector<uint8_t>> solo(NOPS);
static std::string outcome(const Combo &c, const std::string &run)
{
    if (!run.empty()) return run;
    if (sh->res.race)
        return vf::fmt("data race: thread %d %s memory thread %d used, with nothing ordering the two", sh->res.racer[0], sh->res.race_write ? "writes" : "reads", sh->res.racer[1]);
    for (int i = 0; i < c.n; i++) {
        const Out &o = sh->out[i];
        const Op &op = OPS[c.op[i]];
        if (o.err[0]) return vf::fmt("%s: %s", op.name, o.err);
        if (op.rnd) continue;
        const auto &want = solo[c.op[i]];
        if (o.ndet != want.size()) return vf::fmt("%s: %llu bytes of results, alone %zu", op.name, (unsigned long long)o.ndet, want.size());
        for (size_t k = 0; k < want.size(); k++)
            if (o.det[k] != want[k]) return vf::fmt("%s: results differ from running alone at byte %zu of %zu", op.name, k, want.size());
    }
    std::map<std::pair<uint64_t, uint64_t>, int> seen;
    for (int i = 0; i < c.n; i++)
        for (uint64_t k = 0; k < sh->out[i].ntok; k++) {
            const auto key = std::make_pair(sh->out[i].tok[k][0], sh->out[i].tok[k][1]);
            const auto [it, fresh] = seen.emplace(key, i);
            if (!fresh) return vf::fmt("%s and %s drew the same randomness", OPS[c.op[it->second]].name, OPS[c.op[i]].name);
        }
    return "";
}
static void explore(const Combo &c)
{
    static const time_t started = time(nullptr);
    if (vf::fails.size() >= 2) return;      // the answer is known
    auto late = [] { const bool l = time(nullptr) - started > (vf::thorough ? 1500 : 75); if (l) vf::counters["cut-by-time"]++; return l; };
    std::string name;
    for (int i = 0; i < c.n; i++) name += (i ? "+" : "") + std::string(OPS[c.op[i]].name);
    if (c.team > 1) name += vf::fmt("-team%d", c.team);
    name += c.warm ? "/warm" : "/cold";
    vf::sample(name);
    std::set<uint64_t> points;
    uint64_t budget = vf::thorough ? 20000 : 250;
    auto go = [&](sch::Plan &p, uint64_t &steps) {
        p.n = c.n;
        p.team = c.team;
        p.npoints = 0;
        for (uint64_t g : points) if (p.npoints < sch::MAXCONF) p.points[p.npoints++] = g;
        const std::string o = outcome(c, execute(c, p));
        steps = sh->res.steps;
        vf::evaluations += sh->res.accesses;
        vf::counters["parallel-regions"] += sh->res.regions;
        vf::counters["max:words-tracked"] = std::max(vf::counters["max:words-tracked"], sh->res.words);
        if (!o.empty()) {
            std::string s = vf::fmt("start with thread %d", p.order[0]);
            for (int i = 0; i < p.npre; i++) s += vf::fmt(", at access %llu to shared data switch to thread %d", (unsigned long long)p.pre[i].step, p.pre[i].to);
            vf::fail(name, o + "; schedule: " + s);
        }
        vf::state(vf::hash(name.data(), name.size(), p.order[0] * 31 + p.npre) ^ vf::mix(p.npre ? p.pre[0].step * 4 + p.pre[0].to : 0) ^ vf::mix(p.npre > 1 ? p.pre[1].step * 4 + p.pre[1].to + 77 : 0));
        return o.empty();
    };
    const int width = c.team > 1 ? c.team : c.n;
    for (int round = 0; round < 3; round++) {
        const size_t before = points.size();
        std::vector<uint64_t> steps(width);
        for (int s = 0; s < width; s++) {
            sch::Plan p;
            p.order[0] = s;
            vf::traces++;
            if (!go(p, steps[s])) return;
            for (uint64_t k = 0; k < sh->res.nconf; k++) points.insert(sh->res.conf[k]);
        }
        if (points.size() == before && round) break;
        if (points.empty()) { vf::counters["combinations-without-shared-writes"]++; return; }
        if (points.size() != before) continue;      // now with these as scheduling points
    }
    // every single preemption, then every pair while the budget lasts
    std::vector<uint64_t> total(width);
    uint64_t single = 0;
    for (int s = 0; s < width; s++) { sch::Plan p; p.order[0] = s; if (!go(p, total[s])) return; single += total[s] * (width - 1); }
    vf::counters["combinations-with-shared-writes"]++;
    vf::counters["max:preemption-points"] = std::max(vf::counters["max:preemption-points"], single);
    const uint64_t stride = std::max<uint64_t>(1, (single + budget - 1) / budget);
    if (stride > 1) vf::counters["combinations-cut-by-budget"]++;
    for (int s = 0; s < width; s++)
        for (int to = 0; to < width; to++)
            for (uint64_t k = 0; k < total[s]; k += stride) {
                if (late()) return;
                sch::Plan p;
                p.order[0] = s;
                p.npre = 1;
                p.pre[0].step = k;
                p.pre[0].to = to;
                uint64_t st;
                if (!go(p, st)) return;
            }
    if (stride > 1) return;
    for (int s = 0; s < width; s++)
        for (uint64_t k = 0; k < total[s]; k++)
            for (uint64_t j = k + 1; j < total[s] + 8; j++)
                for (int a = 0; a < width; a++)
                    for (int b = 0; b < width; b++) {
                        if (a == b || single++ > budget) continue;
                        if (late()) return;
                        sch::Plan p;
                        p.order[0] = s;
                        p.npre = 2;
                        p.pre[0].step = k; p.pre[0].to = a;
                        p.pre[1].step = j; p.pre[1].to = b;
                        uint64_t st;
                        if (!go(p, st)) return;
                    }
}
template <class P> static void subset_keys(EvalKey &e, const SecretKey &s)
{
    if constexpr (P::targetP::k * P::targetP::n <= P::domainP::k * P::domainP::n) {
        e.emplacesubiksk<P>(s); e.emplacesubprivksk4cb<P>(s);
        const auto k1 = s.key.get<L1>();
        const auto k2 = s.key.get<L2>();
        Polynomial<L1> p = {};
        p[0] = 1;
        K->sub = new SubKey<P>; subikskgen<P>(*K->sub, k2);
        K->subpriv = new SubPriv<P>; subprivkskgen<P>(*K->subpriv, p, k2, k1);
    }
}
static void make_keys()
{
    vf::seed(vf::vseed + 14);
    vf::free_rng(140);
    K = new (K) Keys;
    K->sk = new SecretKey;
    K->ek = new EvalKey(*K->sk);
    auto &s = *K->sk;
    auto &e = *K->ek;
    e.emplaceiksk<lvl10param>(s); e.emplaceiksk<lvl20param>(s); e.emplaceiksk<lvl21param>(s);
    e.emplacebkfft<lvl01param>(s); e.emplacebkfft<lvl02param>(s);
    e.emplaceprivksk4cb<lvl21param>(s);
    subset_keys<lvl21param>(e, s);
#ifndef USE_KEY_BUNDLE
    e.emplacebkntt<lvl01param>(s);
#endif
    const auto k0 = s.key.get<lvl0param>(); const auto k1 = s.key.get<L1>(); const auto k2 = s.key.get<L2>();
    K->ntt = new BootstrappingKeyNTT<lvl01param>; bknttgen<lvl01param>(*K->ntt, k0, k1);
    K->rain = new BootstrappingKeyRAINTT<lvl01param>; bkrainttgen<lvl01param>(*K->rain, k0, k1);
    K->ann = new AnnihilateKey<L1>; annihilatekeygen<L1>(*K->ann, k1);
    K->autok = new EvalAutoKey<L1>; evalautokeygen<L1>(*K->autok, 5, k1);
    K->rel = new relinKeyFFT<L1>(relinKeyFFTgen<L1>(k1));
    for (int i = 0; i < 4; i++) { Polynomial<L1> p = {}; p[0] = i & 1; K->bits[i] = new TRGSWFFT<L1>(trgswfftSymEncrypt<L1>(p, k1)); }
    { Polynomial<L1> p = {}; p[0] = 1; K->nbit = new TRGSWNTT<L1>(trgswnttSymEncrypt<L1>(p, k1)); }
    { Polynomial<L1> p = {}; p[0] = 3; K->priv = new PrivateKeySwitchingKey<lvl11param>; privkskgen<lvl11param>(*K->priv, p, k1, k1); }
    K->tri = new TLWE2TRLWEIKSKey<lvl11param>; tlwe2trlweikskgen<lvl11param>(*K->tri, k1, k1);
    { Polynomial<L1> p = {}; p[0] = 1;
      K->half = new HalfTRGSWFFT<L1>(halftrgswfftSymEncrypt<L1>(p, k1)); K->gsw = new TRGSW<L1>(trgswSymEncrypt<L1>(p, k1)); }
    K->a1 = tlweSymEncrypt<L1>(L1::μ, k1); K->b1 = tlweSymEncrypt<L1>(-L1::μ, k1); K->c1 = tlweSymEncrypt<L1>(L1::μ, k1);
    K->a0 = tlweSymEncrypt<lvl0param>(lvl0param::μ, k0); K->b0 = tlweSymEncrypt<lvl0param>(-lvl0param::μ, k0);
    K->a2 = tlweSymEncrypt<L2>(L2::μ, k2); K->b2 = tlweSymEncrypt<L2>(-L2::μ, k2);
    for (size_t i = 0; i < L1::n; i++) { K->p1[i] = vf::mix(i); K->q1[i] = i % 5; K->tv[i] = i % 7 ? L1::μ : -L1::μ; }
    for (size_t i = 0; i < L2::n; i++) { K->p2[i] = vf::mix(i); K->q2[i] = i % 5; }
    K->r1 = trlweSymEncrypt<L1>(K->tv, k1); K->r2 = trlweSymEncrypt<L1>(K->p1, k1);
    for (int i = 0; i < 4; i++) { Polynomial<L1> p = {}; p[i] = L1::μ; K->mem[i] = trlweSymEncrypt<L1>(p, k1); }
}
int main(int argc, char **argv)
{
    vf::init(argc, argv);
    vf::set_noise(0);
    const size_t size = size_t(1) << 30;
    char *base = (char *)mmap((void *)0x200000000000ULL, size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED || (void *)sh == MAP_FAILED) return 3;
    K = (Keys *)base;
    // the keys come from a child, so this process has used nothing yet
    const size_t head = (sizeof(Keys) + 4095) / 4096 * 4096;
    const pid_t pid = fork();
    if (pid == 0) { sch::arena(base + head, size - head); make_keys(); _exit(0); }
    int st = 0;
    waitpid(pid, &st, 0);
    if (st) { fprintf(stderr, "harness: key generation ended with %d\n", st); return WIFSIGNALED(st) ? 139 : 3; }
    sk = K->sk;
    ek = K->ek;
    for (int i = 0; i < NOPS; i++) {
        sch::Plan p;
        p.n = 1;
        const Combo c{1, {i, 0, 0}, false, 1};
        const std::string r = execute(c, p);
        const Out &o = sh->out[0];
        if (!r.empty() || o.err[0]) { vf::fail(std::string(OPS[i].name) + "/alone", r.empty() ? o.err : r); vf::finish(); }
        solo[i].assign(o.det, o.det + o.ndet);
        // once more, after a first use
        const Combo w{1, {i, 0, 0}, true, 1};
        if (i % vf::nshards == vf::shard) { const std::string q = outcome(w, execute(w, p)); if (!q.empty()) vf::fail(std::string(OPS[i].name) + "/alone-warm", q); }
    }
    for (int warm = 0; warm < 2; warm++)
        for (int a = 0; a < NOPS; a++) {
            for (int b = a; b < NOPS; b++)
                if (vf::next_case()) explore({2, {a, b, 0}, bool(warm), 1});
            if (vf::next_case()) explore({3, {a, a, a}, bool(warm), 1});
            if (vf::next_case()) explore({3, {a, (a + 5) % NOPS, (a + 9) % NOPS}, bool(warm), 1});
            for (int team = 2; team <= (vf::thorough ? 4 : 3); team++)
                if (vf::next_case()) explore({1, {a, 0, 0}, bool(warm), team});
        }
    vf::finish();
}
