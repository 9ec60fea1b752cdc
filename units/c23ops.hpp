// the operations, one entry each
#pragma once
#ifdef TFHEPP_VERIF_PARAMS
constexpr bool BIG = false;
#else
constexpr bool BIG = true;      // shipped dimensions: the operations that take time only there
#endif
#ifdef USE_TFHE_RS
constexpr bool CB = false;
#else
constexpr bool CB = true;
#endif
constexpr bool SUBSET = !BIG && L1::k * L1::n <= L2::k * L2::n;

template <class P> static Polynomial<P> poly(uint64_t s, uint64_t mask = ~0ull)
{
    Polynomial<P> p;
    for (size_t i = 0; i < P::n; i++) p[i] = vf::mix(s * 77 + i) & mask;
    return p;
}
template <class P> static TRLWE<P> ring(uint64_t s)
{
    TRLWE<P> r;
    for (auto &p : r) p = poly<P>(s++);
    return r;
}
template <class P> constexpr auto noise_of()
{
    if constexpr (requires { P::α; }) return P::α;
    else return P::η;
}
template <class T> static std::unique_ptr<T> heap(const T &v)
{
    return std::make_unique<T>(v);
}

// all sixteen-row gates: TFHEpp's names, both orders
#define GATES2(X) X(NAND) X(NOR) X(XNOR) X(AND) X(OR) X(XOR) X(ANDNY) X(ANDYN) X(ORNY) X(ORYN)

static void all_gates()
{
    const auto k0 = sk->key.get<L0>();
    const auto k1 = sk->key.get<L1>();
    const auto k2 = sk->key.get<L2>();
    const auto a1 = tlweSymEncrypt<L1>(L1::μ, k1), b1 = tlweSymEncrypt<L1>(-L1::μ, k1), c1 = tlweSymEncrypt<L1>(L1::μ, k1);
    const auto a0 = tlweSymEncrypt<L0>(L0::μ, k0), b0 = tlweSymEncrypt<L0>(-L0::μ, k0), c0 = tlweSymEncrypt<L0>(L0::μ, k0);
    const auto a2 = tlweSymEncrypt<L2>(L2::μ, k2), b2 = tlweSymEncrypt<L2>(-L2::μ, k2);
    const auto r1 = ring<L1>(1), r2 = ring<L1>(9);
#define X(G) op("Hom" #G " switch first", [](auto &r, const auto &a, const auto &b) { Hom##G<lvl10param, lvl01param, L1::μ>(r, a, b, *ek); }, Out<TLWE<L1>>{}, in(a1), in(b1));
    GATES2(X)
#undef X
#define X(G) op("Hom" #G " bootstrap first", [](auto &r, const auto &a, const auto &b) { Hom##G<lvl01param, L1::μ, lvl10param>(r, a, b, *ek); }, Out<TLWE<L0>>{}, in(a0), in(b0));
    GATES2(X)
#undef X
    op("HomNOT", [](auto &r, const auto &a) { HomNOT<L1>(r, a); }, Out<TLWE<L1>>{}, in(a1));
    op("HomCOPY", [](auto &r, const auto &a) { HomCOPY<L1>(r, a); }, Out<TLWE<L1>>{}, in(a1));
    op("HomNOT lvl0", [](auto &r, const auto &a) { HomNOT<L0>(r, a); }, Out<TLWE<L0>>{}, in(a0));
    op("HomCOPY lvl0", [](auto &r, const auto &a) { HomCOPY<L0>(r, a); }, Out<TLWE<L0>>{}, in(a0));
    op("HomCONSTANTONE", [](auto &r) { HomCONSTANTONE<L1>(r); }, Out<TLWE<L1>>{});
    op("HomCONSTANTZERO", [](auto &r) { HomCONSTANTZERO<L1>(r); }, Out<TLWE<L1>>{});
    op("HomCONSTANTONE lvl0", [](auto &r) { HomCONSTANTONE<L0>(r); }, Out<TLWE<L0>>{});
    op("HomCONSTANTZERO lvl0", [](auto &r) { HomCONSTANTZERO<L0>(r); }, Out<TLWE<L0>>{});
    op("HomMUX", [](auto &r, const auto &s, const auto &a, const auto &b) { HomMUX<L1>(r, s, a, b, *ek); }, Out<TLWE<L1>>{}, in(c1), in(a1), in(b1));
    op("HomNMUX", [](auto &r, const auto &s, const auto &a, const auto &b) { HomNMUX<L1>(r, s, a, b, *ek); }, Out<TLWE<L1>>{}, in(c1), in(a1), in(b1));
    op("HomMUX lvl0", [](auto &r, const auto &s, const auto &a, const auto &b) { HomMUX<L0>(r, s, a, b, *ek); }, Out<TLWE<L0>>{}, in(c0), in(a0), in(b0));
    op("HomNMUX lvl0", [](auto &r, const auto &s, const auto &a, const auto &b) { HomNMUX<L0>(r, s, a, b, *ek); }, Out<TLWE<L0>>{}, in(c0), in(a0), in(b0));
    op("HomMUXwoIKSandSE", [](auto &r, const auto &s, const auto &a, const auto &b) { HomMUXwoIKSandSE<lvl01param>(r, s, a, b, *ek); }, Out<TRLWE<L1>>{}, in(c0), in(a0), in(b0));
    op("HomMUXwoSE bootstrap first", [](auto &r, const auto &s, const auto &a, const auto &b) { HomMUXwoSE<lvl01param>(r, s, a, b, *ek); }, Out<TRLWE<L1>>{}, in(c0), in(a0), in(b0));
    op("HomMUXwoSE switch first", [](auto &r, const auto &s, const auto &a, const auto &b) { HomMUXwoSE<lvl10param, lvl01param>(r, s, a, b, *ek); }, Out<TRLWE<L1>>{}, in(c1), in(a1), in(b1));
    op("ExtractSwitchAndHomMUX", [](auto &r, const auto &s, const auto &a, const auto &b) { ExtractSwitchAndHomMUX(r, s, a, b, *ek); }, Out<TRLWE<L1>>{}, in(r1), in(r2), in(r1));
    op("GateBootstrapping switch first", [](auto &r, const auto &a) { GateBootstrapping<lvl10param, lvl01param, L1::μ>(r, a, *ek); }, Out<TLWE<L1>>{}, in(a1));
    op("GateBootstrapping bootstrap first", [](auto &r, const auto &a) { GateBootstrapping<lvl01param, L1::μ, lvl10param>(r, a, *ek); }, Out<TLWE<L0>>{}, in(a0));
    const auto tv = poly<L1>(5);
    op("BlindRotate polynomial", [](auto &r, const auto &a, const auto &t) { BlindRotate<lvl01param>(r, a, *ek->bkfftlvl01, t); }, Out<TRLWE<L1>>{}, in(a0), in(tv));
    op("BlindRotate ring sample", [](auto &r, const auto &a, const auto &t) { BlindRotate<lvl01param>(r, a, *ek->bkfftlvl01, t); }, Out<TRLWE<L1>>{}, in(a0), in(r1));
    op("GateBootstrappingTLWE2TLWEFFT", [](auto &r, const auto &a, const auto &t) { GateBootstrappingTLWE2TLWEFFT<lvl01param>(r, a, *ek->bkfftlvl01, t); }, Out<TLWE<L1>>{}, in(a0), in(tv));
    op("GateBootstrappingManyLUT", [](auto &r, const auto &a, const auto &t) { GateBootstrappingManyLUT<lvl01param, 4>(r, a, *ek->bkfftlvl01, t); }, Out<std::array<TLWE<L1>, 4>>{}, in(a0), in(tv));
    op("GateBootstrappingManyLUT single", [](auto &r, const auto &a, const auto &t) { GateBootstrappingManyLUT<lvl01param, 1>(r, a, *ek->bkfftlvl01, t); }, Out<std::array<TLWE<L1>, 1>>{}, in(a0), in(tv));
    op("IdentityKeySwitch 10", [](auto &r, const auto &a) { IdentityKeySwitch<lvl10param>(r, a, *ek->iksklvl10); }, Out<TLWE<L0>>{}, in(b1));
    const std::array<TLWE<L1>, 3> three{a1, b1, c1};
    op("CatIdentityKeySwitch", [](auto &r, const auto &a) { CatIdentityKeySwitch<lvl10param, 3>(r, a, *ek->iksklvl10); }, Out<std::array<TLWE<L0>, 3>>{}, in(three));
    if constexpr (!BIG) {
        const auto t2 = poly<L2>(6);
        op("HomAND lvl2", [](auto &r, const auto &a, const auto &b) { HomAND<lvl20param, lvl02param, L2::μ>(r, a, b, *ek); }, Out<TLWE<L2>>{}, in(a2), in(b2));
        op("HomMUXwoIKSandSE lvl2", [](auto &r, const auto &s, const auto &a, const auto &b) { HomMUXwoIKSandSE<lvl02param>(r, s, a, b, *ek); }, Out<TRLWE<L2>>{}, in(c0), in(a0), in(b0));
        op("HomMUXwoSE lvl2", [](auto &r, const auto &s, const auto &a, const auto &b) { HomMUXwoSE<lvl20param, lvl02param>(r, s, a, b, *ek); }, Out<TRLWE<L2>>{}, in(a2), in(b2), in(a2));
        op("GateBootstrappingTLWE2TLWEFFT lvl2", [](auto &r, const auto &a, const auto &t) { GateBootstrappingTLWE2TLWEFFT<lvl02param>(r, a, *ek->bkfftlvl02, t); }, Out<TLWE<L2>>{}, in(a0), in(t2));
        op("GateBootstrappingManyLUT lvl2", [](auto &r, const auto &a, const auto &t) { GateBootstrappingManyLUT<lvl02param, 8>(r, a, *ek->bkfftlvl02, t); }, Out<std::array<TLWE<L2>, 8>>{}, in(a0), in(t2));
        op("IdentityKeySwitch 20", [](auto &r, const auto &a) { IdentityKeySwitch<lvl20param>(r, a, *ek->iksklvl20); }, Out<TLWE<L0>>{}, in(b2));
        op("IdentityKeySwitch 21", [](auto &r, const auto &a) { IdentityKeySwitch<lvl21param>(r, a, *ek->iksklvl21); }, Out<TLWE<L1>>{}, in(a2));
        op("HomDecomp", [](auto &r, const auto &a) { HomDecomp<lvl21param, lvl10param, lvl01param, 3, 2>(r, a, *ek->iksklvl21, *ek->iksklvl10, *ek->bkfftlvl01); }, Out<std::array<TLWE<L1>, 2>>{}, in(a2));
        op("HomDecomp four digits", [](auto &r, const auto &a) { HomDecomp<lvl21param, lvl10param, lvl01param, 2, 4>(r, a, *ek->iksklvl21, *ek->iksklvl10, *ek->bkfftlvl01); }, Out<std::array<TLWE<L1>, 4>>{}, in(b2));
#ifndef USE_KEY_BUNDLE
        if (ek->bknttlvl01) {
            op("GateBootstrappingNTT switch first", [](auto &r, const auto &a) { GateBootstrappingNTT<lvl10param, lvl01param, L1::μ>(r, a, *ek); }, Out<TLWE<L1>>{}, in(a1));
            op("GateBootstrappingNTT bootstrap first", [](auto &r, const auto &a) { GateBootstrappingNTT<lvl01param, L1::μ, lvl10param>(r, a, *ek); }, Out<TLWE<L0>>{}, in(a0));
        }
#endif
        op("CircuitBootstrapping", [](auto &r, const auto &a) { CircuitBootstrapping<lvl02param, lvl21param>(r, a, *ek); }, Out<TRGSW<L1>>{}, in(a0));
        op("CircuitBootstrapping switch first", [](auto &r, const auto &a) { CircuitBootstrapping<lvl10param, lvl02param, lvl21param>(r, a, *ek); }, Out<TRGSW<L1>>{}, in(b1));
        op("CircuitBootstrappingFFT", [](auto &r, const auto &a) { CircuitBootstrappingFFT<lvl02param, lvl21param>(r, a, *ek); }, Out<TRGSWFFT<L1>>{}, in(b0));
        op("CircuitBootstrappingFFT switch first", [](auto &r, const auto &a) { CircuitBootstrappingFFT<lvl10param, lvl02param, lvl21param>(r, a, *ek); }, Out<TRGSWFFT<L1>>{}, in(b1));
        op("CircuitBootstrappingFFTInv", [](auto &r, const auto &a) { CircuitBootstrappingFFTInv<lvl02param, lvl21param>(r, a, *ek); }, Out<TRGSWFFT<L1>>{}, in(a0));
        op("CircuitBootstrappingFFTInv switch first", [](auto &r, const auto &a) { CircuitBootstrappingFFTInv<lvl10param, lvl02param, lvl21param>(r, a, *ek); }, Out<TRGSWFFT<L1>>{}, in(a1));
        op("CircuitBootstrappingFFTwithInv", [](auto &r, auto &s, const auto &a) { CircuitBootstrappingFFTwithInv<lvl02param, lvl21param>(r, s, a, *ek); }, Out<TRGSWFFT<L1>>{}, Out<TRGSWFFT<L1>>{}, in(a0));
        op("CircuitBootstrappingFFTwithInv switch first", [](auto &r, auto &s, const auto &a) { CircuitBootstrappingFFTwithInv<lvl10param, lvl02param, lvl21param>(r, s, a, *ek); }, Out<TRGSWFFT<L1>>{}, Out<TRGSWFFT<L1>>{}, in(a1));
    }
}

template <class P> static void all_subset()
{
    if constexpr (SUBSET) {
        const auto k1 = sk->key.get<L1>();
        const auto k2 = sk->key.get<L2>();
        const auto b1 = tlweSymEncrypt<L1>(-L1::μ, k1);
        const auto b2 = tlweSymEncrypt<L2>(-L2::μ, k2);
        op("SubsetIdentityKeySwitch", [](auto &r, const auto &a) { SubsetIdentityKeySwitch<P>(r, a, ek->getsubiksk<P>()); }, Out<TLWE<L1>>{}, in(b2));
        const auto key = std::make_unique<SubsetPrivateKeySwitchingKey<P>>();
        Polynomial<L1> f = {};
        f[1] = 1;
        subprivkskgen<P>(*key, f, k2, k1);
        op("SubsetPrivKeySwitch", [](auto &r, const auto &a, const auto &k) { SubsetPrivKeySwitch<P>(r, a, k); }, Out<TRLWE<L1>>{}, in(b1), in(*key));
        op("CircuitBootstrappingSub", [](auto &r, const auto &a) { CircuitBootstrappingSub<lvl10param, lvl02param, P>(r, a, *ek); }, Out<TRGSW<L1>>{}, in(b1));
        op("CircuitBootstrappingSubFFT", [](auto &r, const auto &a) { CircuitBootstrappingSubFFT<lvl10param, lvl02param, P>(r, a, *ek); }, Out<TRGSWFFT<L1>>{}, in(b1));
        op("subikskgen", [](auto &r, const auto &d) { subikskgen<P>(r, d); }, Out<SubsetKeySwitchingKey<P>>{}, in(k2));
        op("subprivkskgen", [](auto &r, const auto &g, const auto &d, const auto &t) { subprivkskgen<P>(r, g, d, t); }, Out<SubsetPrivateKeySwitchingKey<P>>{}, in(f), in(k2), in(k1));
    }
}

template <class P> static void all_ring(const char *)
{
    const auto key = sk->key.get<P>();
    const auto p = poly<P>(11), q = poly<P>(12, 7);
    const auto r = ring<P>(20), s = ring<P>(30);
    const auto t = [&] { TLWE<P> x; for (size_t i = 0; i < x.size(); i++) x[i] = vf::mix(i + 500); return x; }();
    using Pl = Polynomial<P>;
    using FD = PolynomialInFD<P>;
    op("PolyMul", [](auto &z, const auto &a, const auto &b) { PolyMul<P>(z, a, b); }, Out<Pl>{}, in(p), in(q));
    op("PolyMulNaive", [](auto &z, const auto &a, const auto &b) { PolyMulNaive<P>(z, a, b); }, Out<Pl>{}, in(p), in(q));
    alignas(64) FD fd, ge;
    TwistIFFT<P>(fd, p);
    TwistIFFT<P>(ge, q);
    op("TwistIFFT", [](auto &z, const auto &a) { TwistIFFT<P>(z, a); }, Out<FD>{}, in(p));
    op("TwistIFFTUInt", [](auto &z, const auto &a) { if constexpr (requires { TwistIFFTUInt<P>(z, a); }) if constexpr (std::is_same_v<P, L1>) TwistIFFTUInt<P>(z, a); else z.fill(0); }, Out<FD>{}, in(p));
    op("TwistFFT", [](auto &z, const auto &a) { TwistFFT<P>(z, a); }, Out<Pl>{}, in(fd));
    op("MulInFD", [](auto &z, const auto &a, const auto &b) { MulInFD<P::n>(z, a, b); }, Out<FD>{}, in(fd), in(ge));
    op("MulInFD in place", [](auto &z, const auto &a) { MulInFD<P::n>(z, a); }, io(fd), in(ge));
    op("FMAInFD", [](auto &z, const auto &a, const auto &b) { FMAInFD<P::n>(z, a, b); }, io(fd), in(ge), in(fd));
    op("PolynomialMulByXai", [](auto &z, const auto &a) { PolynomialMulByXai<P>(z, a, 7); }, Out<Pl>{}, in(p));
    op("PolynomialMulByXai beyond N", [](auto &z, const auto &a) { PolynomialMulByXai<P>(z, a, P::n + 3); }, Out<Pl>{}, in(p));
    op("PolynomialMulByXai by X^0", [](auto &z, const auto &a) { PolynomialMulByXai<P>(z, a, 0); }, Out<Pl>{}, in(p));
    op("PolynomialMulByXai by X^N", [](auto &z, const auto &a) { PolynomialMulByXai<P>(z, a, P::n); }, Out<Pl>{}, in(p));
    op("PolynomialMulByXai by X^(2N-1)", [](auto &z, const auto &a) { PolynomialMulByXai<P>(z, a, 2 * P::n - 1); }, Out<Pl>{}, in(p));
    op("PolynomialMulByXaiMinusOne", [](auto &z, const auto &a) { PolynomialMulByXaiMinusOne<P>(z, a, 9); }, Out<Pl>{}, in(p));
    op("PolynomialMulByXaiMinusOne beyond N", [](auto &z, const auto &a) { PolynomialMulByXaiMinusOne<P>(z, a, 2 * P::n - 5); }, Out<Pl>{}, in(p));
    op("PolynomialMulByXaiMinusOne by X^N", [](auto &z, const auto &a) { PolynomialMulByXaiMinusOne<P>(z, a, P::n); }, Out<Pl>{}, in(p));
    op("Automorphism", [](auto &z, const auto &a) { Automorphism<P>(z, a, 3); }, Out<Pl>{}, in(p));
    op("Automorphism 2N-1", [](auto &z, const auto &a) { Automorphism<P>(z, a, 2 * P::n - 1); }, Out<Pl>{}, in(p));
    for (int i : {0, 5, int(P::n) - 1}) {
        op("SampleExtractIndex", [i](auto &z, const auto &a) { SampleExtractIndex<P>(z, a, i); }, Out<TLWE<P>>{}, in(r));
        op("InvSampleExtractIndex", [i](auto &z, const auto &a) { InvSampleExtractIndex<P>(z, a, i); }, Out<TRLWE<P>>{}, in(t));
    }
    op("Decomposition", [](auto &z, const auto &a) { Decomposition<P>(z, a); }, Out<DecomposedPolynomial<P>>{}, in(p));
    op("trlwePhase", [](auto &z, const auto &a, const auto &k) { z = trlwePhase<P>(a, k); }, Out<Pl>{}, in(r), in(key));
    op("trlweSymDecrypt", [](auto &z, const auto &a, const auto &k) { z = trlweSymDecrypt<P>(a, k); }, Out<std::array<bool, P::n>>{}, in(r), in(key));
    op("trlweSymIntDecrypt", [](auto &z, const auto &a, const auto &k) { z = trlweSymIntDecrypt<P>(a, k); }, Out<Pl>{}, in(r), in(key));
    op("trlweSymEncrypt", [](auto &z, const auto &a, const auto &k) { z = trlweSymEncrypt<P>(a, k); }, Out<TRLWE<P>>{}, in(p), in(key));
    op("trlweSymEncrypt Gaussian", [](auto &z, const auto &a, const auto &k) { z = trlweSymEncrypt<P>(a, noise_of<P>(), k); }, Out<TRLWE<P>>{}, in(p), in(key));
    op("trlweSymEncryptZero", [](auto &z, const auto &k) { z = trlweSymEncryptZero<P>(noise_of<P>(), k); }, Out<TRLWE<P>>{}, in(key));
    op("trlweSymIntEncrypt", [](auto &z, const auto &a, const auto &k) { z = trlweSymIntEncrypt<P>(a, noise_of<P>(), k); }, Out<TRLWE<P>>{}, in(q), in(key));
    op("tlweSymEncrypt", [](auto &z, const auto &k) { z = tlweSymEncrypt<P>(P::μ, noise_of<P>(), k); }, Out<TLWE<P>>{}, in(key));
    op("tlweSymIntEncrypt", [](auto &z, const auto &k) { z = tlweSymIntEncrypt<P>(1, noise_of<P>(), k); }, Out<TLWE<P>>{}, in(key));
    op("tlweSymPhase", [](auto &z, const auto &a, const auto &k) { z[0] = tlweSymPhase<P>(a, k); }, Out<std::array<typename P::T, 1>>{}, in(t), in(key));
    op("tlweSymDecrypt", [](auto &z, const auto &a, const auto &k) { z[0] = tlweSymDecrypt<P>(a, k); }, Out<std::array<uint8_t, 1>>{}, in(t), in(key));
    op("tlweSymIntDecrypt", [](auto &z, const auto &a, const auto &k) { z[0] = tlweSymIntDecrypt<P>(a, k); }, Out<std::array<typename P::T, 1>>{}, in(t), in(key));
    if constexpr (!BIG || std::is_same_v<P, L1>) {
        vf::free_rng(231);
        Pl one = {};
        one[0] = 1;
        const auto gsw = heap(trgswSymEncrypt<P>(one, key));
        const auto fft = heap(ApplyFFT2trgsw<P>(*gsw));
        op("ApplyFFT2trgsw", [](auto &z, const auto &a) { z = ApplyFFT2trgsw<P>(a); }, Out<TRGSWFFT<P>>{}, in(*gsw));
        op("trgswSymEncrypt", [](auto &z, const auto &a, const auto &k) { z = trgswSymEncrypt<P>(a, noise_of<P>(), k); }, Out<TRGSW<P>>{}, in(q), in(key));
        op("trgswfftSymEncrypt", [](auto &z, const auto &a, const auto &k) { z = trgswfftSymEncrypt<P>(a, noise_of<P>(), k); }, Out<TRGSWFFT<P>>{}, in(q), in(key));
        op("halftrgswSymEncrypt", [](auto &z, const auto &a, const auto &k) { z = halftrgswSymEncrypt<P>(a, noise_of<P>(), k); }, Out<HalfTRGSW<P>>{}, in(q), in(key));
        op("trgswfftExternalProduct", [](auto &z, const auto &a, const auto &g) { trgswfftExternalProduct<P>(z, a, g); }, Out<TRLWE<P>>{}, in(r), in(*fft));
        op("CMUXFFT", [](auto &z, const auto &c, const auto &a, const auto &b) { CMUXFFT<P>(z, c, a, b); }, Out<TRLWE<P>>{}, in(*fft), in(r), in(s));
        op("TRGSWFFTOneGen", [](auto &z) { z = TRGSWFFTOneGen<P>(); }, Out<TRGSWFFT<P>>{});
        const auto hg = heap(halftrgswSymEncrypt<P>(one, noise_of<P>(), key));
        const auto hf = heap(ApplyFFT2halftrgsw<P>(*hg));
        op("ApplyFFT2halftrgsw", [](auto &z, const auto &a) { z = ApplyFFT2halftrgsw<P>(a); }, Out<HalfTRGSWFFT<P>>{}, in(*hg));
        op("halftrgswfftExternalProduct", [](auto &z, const auto &a, const auto &h) { halftrgswfftExternalProduct<P>(z, a, h); }, Out<TRLWE<P>>{}, in(p), in(*hf));
    }
}

static void all_level1()
{
    const auto k0 = sk->key.get<L0>();
    const auto k1 = sk->key.get<L1>();
    const auto p = poly<L1>(41), q = poly<L1>(42, 3);
    const auto r = ring<L1>(50), s = ring<L1>(60);
    Polynomial<L1> one = {};
    one[0] = 1;
    vf::free_rng(232);
    op("PolyMulRescaleUnsigned", [](auto &z, const auto &a, const auto &b) { PolyMulRescaleUnsigned<L1>(z, a, b); }, Out<Polynomial<L1>>{}, in(p), in(q));
    op("PolyMulNaieveRescaleUnsigned", [](auto &z, const auto &a, const auto &b) { PolyMulNaieveRescaleUnsigned<L1>(z, a, b); }, Out<Polynomial<L1>>{}, in(p), in(q));
    const auto gsw = heap(trgswSymEncrypt<L1>(one, k1));
    const auto fft = heap(ApplyFFT2trgsw<L1>(*gsw));
    const auto ntt = heap(ApplyNTT2trgsw<L1>(*gsw));
    op("ApplyNTT2trgsw", [](auto &z, const auto &a) { z = ApplyNTT2trgsw<L1>(a); }, Out<TRGSWNTT<L1>>{}, in(*gsw));
    op("TRGSW2NTT", [](auto &z, const auto &a) { z = TRGSW2NTT<L1>(a); }, Out<TRGSWNTT<L1>>{}, in(*gsw));
    op("trgswnttSymEncrypt", [](auto &z, const auto &a, const auto &k) { z = trgswnttSymEncrypt<L1>(a, noise_of<L1>(), k); }, Out<TRGSWNTT<L1>>{}, in(q), in(k1));
    op("trgswnttExternalProduct", [](auto &z, const auto &a, const auto &g) { trgswnttExternalProduct<L1>(z, a, g); }, Out<TRLWE<L1>>{}, in(r), in(*ntt));
    op("DecompositionNTT", [](auto &z, const auto &a) { DecompositionNTT<L1>(z, a); }, Out<DecomposedPolynomialNTT<L1>>{}, in(p));
    op("TwistINTT", [](auto &z, const auto &a) { TwistINTT<L1>(z, a); }, Out<PolynomialNTT<L1>>{}, in(p));
    PolynomialNTT<L1> pn;
    TwistINTT<L1>(pn, p);
    op("TwistNTT", [](auto &z, auto &a) { TwistNTT<L1>(z, a); }, Out<Polynomial<L1>>{}, io(pn));
#ifndef USE_KEY_BUNDLE
    op("CMUXNTTwithPolynomialMulByXaiMinusOne", [](auto &z, const auto &g) { CMUXNTTwithPolynomialMulByXaiMinusOne<L1>(z, g, 7); }, io(r), in(*ntt));
    op("CMUXFFTwithPolynomialMulByXaiMinusOne", [](auto &z, const auto &g) { CMUXFFTwithPolynomialMulByXaiMinusOne<lvl01param>(z, g, 5); }, io(r), in((*ek->bkfftlvl01)[0]));
#endif
    if constexpr (!BIG) {
#ifndef USE_KEY_BUNDLE
        const auto rain = heap(ApplyRAINTT2trgsw<L1>(*gsw));
        op("ApplyRAINTT2trgsw", [](auto &z, const auto &a) { z = ApplyRAINTT2trgsw<L1>(a); }, Out<TRGSWRAINTT<L1>>{}, in(*gsw));
        op("trgswrainttExternalProduct", [](auto &z, const auto &a, const auto &g) { trgswrainttExternalProduct<L1>(z, a, g); }, Out<TRLWE<L1>>{}, in(r), in(*rain));
        op("CMUXRAINTTwithPolynomialMulByXaiMinusOne", [](auto &z, const auto &g) { CMUXRAINTTwithPolynomialMulByXaiMinusOne<L1>(z, g, 9); }, io(r), in(*rain));
        op("DecompositionRAINTT", [](auto &z, const auto &a) { DecompositionRAINTT<L1>(z, a); }, Out<DecomposedPolynomialRAINTT<L1>>{}, in(p));
        const auto bn = std::make_unique<BootstrappingKeyNTT<lvl01param>>();
        bknttgen<lvl01param>(*bn, k0, k1);
        const auto br = std::make_unique<BootstrappingKeyRAINTT<lvl01param>>();
        bkrainttgen<lvl01param>(*br, k0, k1);
        const auto a0 = tlweSymEncrypt<L0>(L0::μ, k0);
        op("GateBootstrappingTLWE2TLWENTT", [](auto &z, const auto &a, const auto &k, const auto &t) { GateBootstrappingTLWE2TLWENTT<lvl01param>(z, a, k, t); }, Out<TLWE<L1>>{}, in(a0), in(*bn), in(p));
        op("GateBootstrappingTLWE2TLWERAINTT", [](auto &z, const auto &a, const auto &k, const auto &t) { GateBootstrappingTLWE2TLWERAINTT<lvl01param>(z, a, k, t); }, Out<TLWE<L1>>{}, in(a0), in(*br), in(p));
        op("bknttgen", [](auto &z, const auto &d, const auto &t) { bknttgen<lvl01param>(z, d, t); }, Out<BootstrappingKeyNTT<lvl01param>>{}, in(k0), in(k1));
        op("bkrainttgen", [](auto &z, const auto &d, const auto &t) { bkrainttgen<lvl01param>(z, d, t); }, Out<BootstrappingKeyRAINTT<lvl01param>>{}, in(k0), in(k1));
#endif
        // memories
        const std::array<TRGSWFFT<L1>, 3> adr{*fft, *fft, *fft};
        std::array<TRLWE<L1>, 8> mem;
        for (int i = 0; i < 8; i++) mem[i] = ring<L1>(70 + i * 5);
        const std::array<TRGSWFFT<L1>, 2> adr2{*fft, *fft};
        const std::array<TRLWE<L1>, 4> mem4{mem[0], mem[1], mem[2], mem[3]};
        op("RAMUX", [](auto &z, const auto &a, const auto &m) { RAMUX<L1, 3>(z, a, m); }, Out<TRLWE<L1>>{}, in(adr), in(mem));
        op("RAMUX two bits", [](auto &z, const auto &a, const auto &m) { RAMUX<L1, 2>(z, a, m); }, Out<TRLWE<L1>>{}, in(adr2), in(mem4));
        const std::array<std::array<TRGSWFFT<L1>, 3>, 2> both{adr, adr};
        for (int i : {0, 5, 7})
            op("RAMwriteBar", [i](auto &z, const auto &w, const auto &m, const auto &a) { RAMwriteBar<L1, 3>(z, w, m, i, a); }, Out<TRLWE<L1>>{}, in(r), in(s), in(both));
        const std::array<TRGSWFFT<L1>, 4> adr4{*fft, *fft, *fft, *fft};
        op("UROMUX", [](auto &z, const auto &a, const auto &m) { UROMUX<L1, 4, 2>(z, a, m); }, Out<TRLWE<L1>>{}, in(adr4), in(mem4));
        op("LROMUX", [](auto &z, const auto &a, const auto &m) { std::vector<TLWE<L1>> o(z.size()); LROMUX<L1, 4, 2>(o, a, m); for (size_t i = 0; i < o.size(); i++) z[i] = o[i]; }, Out<std::array<TLWE<L1>, (L1::n >> 2)>>{}, in(adr4), in(r));
        // key switches
        const auto a1 = tlweSymEncrypt<L1>(L1::μ, k1), b1 = tlweSymEncrypt<L1>(-L1::μ, k1);
        const auto priv = std::make_unique<PrivateKeySwitchingKey<lvl11param>>();
        privkskgen<lvl11param>(*priv, q, k1, k1);
        const auto tri = std::make_unique<TLWE2TRLWEIKSKey<lvl11param>>();
        tlwe2trlweikskgen<lvl11param>(*tri, k1, k1);
        op("PrivKeySwitch", [](auto &z, const auto &a, const auto &k) { PrivKeySwitch<lvl11param>(z, a, k); }, Out<TRLWE<L1>>{}, in(a1), in(*priv));
        op("TLWE2TRLWEIKS", [](auto &z, const auto &a, const auto &k) { TLWE2TRLWEIKS<lvl11param>(z, a, k); }, Out<TRLWE<L1>>{}, in(a1), in(*tri));
        op("privkskgen", [](auto &z, const auto &f, const auto &d, const auto &t) { privkskgen<lvl11param>(z, f, d, t); }, Out<PrivateKeySwitchingKey<lvl11param>>{}, in(q), in(k1), in(k1));
        op("tlwe2trlweikskgen", [](auto &z, const auto &d, const auto &t) { tlwe2trlweikskgen<lvl11param>(z, d, t); }, Out<TLWE2TRLWEIKSKey<lvl11param>>{}, in(k1), in(k1));
        op("ikskgen", [](auto &z, const auto &d, const auto &t) { ikskgen<lvl10param>(z, d, t); }, Out<KeySwitchingKey<lvl10param>>{}, in(k1), in(k0));
#ifndef USE_KEY_BUNDLE      // a bundled key has parts without meaning
        op("bkgen", [](auto &z, const auto &d, const auto &t) { bkgen<lvl01param>(z, d, t); }, Out<BootstrappingKey<lvl01param>>{}, in(k0), in(k1));
        op("bkfftgen", [](auto &z, const auto &d, const auto &t) { bkfftgen<lvl01param>(z, d, t); }, Out<BootstrappingKeyFFT<lvl01param>>{}, in(k0), in(k1));
#endif
        // automorphisms, packing
        const auto ann = std::make_unique<AnnihilateKey<L1>>();
        annihilatekeygen<L1>(*ann, k1);
        const auto aut = std::make_unique<EvalAutoKey<L1>>();
        evalautokeygen<L1>(*aut, 5, k1);
        op("evalautokeygen", [](auto &z, const auto &k) { evalautokeygen<L1>(z, 5, k); }, Out<EvalAutoKey<L1>>{}, in(k1));
        op("annihilatekeygen", [](auto &z, const auto &k) { annihilatekeygen<L1>(z, k); }, Out<AnnihilateKey<L1>>{}, in(k1));
        op("EvalAuto", [](auto &z, const auto &a, const auto &k) { EvalAuto<L1>(z, a, 5, k); }, Out<TRLWE<L1>>{}, in(r), in(*aut));
        op("AnnihilateKeySwitching", [](auto &z, const auto &a, const auto &k) { AnnihilateKeySwitching<L1>(z, a, k); }, Out<TRLWE<L1>>{}, in(r), in(*ann));
        const std::array<TLWE<L1>, 4> four{a1, b1, a1, b1};
        for (int n = 1; n <= 4; n++) {
            op("TLWE2TRLWEPacking", [n](auto &z, const auto &a, const auto &k) { std::vector<TLWE<L1>> v(a.begin(), a.begin() + n); TLWE2TRLWEPacking<L1>(z, v, k); }, Out<TRLWE<L1>>{}, in(four), in(*ann));
            op("TLWE2TRLWEChengsPacking", [n](auto &z, const auto &a, const auto &k) { std::vector<TLWE<L1>> v(a.begin(), a.begin() + n); TLWE2TRLWEChengsPacking<L1>(z, v, k); }, Out<TRLWE<L1>>{}, in(four), in(*ann));
        }
        if constexpr (L1::k == 1) {
            const auto rel = std::make_unique<relinKeyFFT<L1>>(relinKeyFFTgen<L1>(k1));
            op("TRLWEMultWithoutRelinerization", [](auto &z, const auto &a, const auto &b) { TRLWEMultWithoutRelinerization<L1>(z, a, b); }, Out<TRLWE3<L1>>{}, in(r), in(s));
            const TRLWE3<L1> m{poly<L1>(90), poly<L1>(91), poly<L1>(92)};
            op("Relinearization", [](auto &z, const auto &a, const auto &k) { Relinearization<L1>(z, a, k); }, Out<TRLWE<L1>>{}, in(m), in(*rel));
            op("TRLWEMult", [](auto &z, const auto &a, const auto &b, const auto &k) { TRLWEMult<L1>(z, a, b, k); }, Out<TRLWE<L1>>{}, in(r), in(s), in(*rel));
            op("TLWEMult", [](auto &z, const auto &a, const auto &b, const auto &k, const auto &l) { TLWEMult<lvl11param>(z, a, b, k, l); }, Out<TLWE<L1>>{}, in(a1), in(b1), in(*rel), in(*priv));
            op("relinKeyFFTgen", [](auto &z, const auto &k) { z = relinKeyFFTgen<L1>(k); }, Out<relinKeyFFT<L1>>{}, in(k1));
        }
        // streams
        op("serialize a ring sample", [](auto &z, const auto &a) {
            std::stringstream st;
            { cereal::PortableBinaryOutputArchive ar(st); ar(a); }
            { cereal::PortableBinaryInputArchive ar(st); ar(z); }
        }, Out<TRLWE<L1>>{}, in(r));
        op("serialize a GSW sample", [](auto &z, const auto &a) {
            std::stringstream st;
            { cereal::PortableBinaryOutputArchive ar(st); ar(a); }
            { cereal::PortableBinaryInputArchive ar(st); ar(z); }
        }, Out<TRGSWFFT<L1>>{}, in(*fft));
        op("serialize a switching key", [](auto &z, const auto &a) {
            std::stringstream st;
            { cereal::PortableBinaryOutputArchive ar(st); ar(a); }
            { cereal::PortableBinaryInputArchive ar(st); ar(z); }
        }, Out<PrivateKeySwitchingKey<lvl11param>>{}, in(*priv));
        std::array<uint64_t, 32> nu;
        for (size_t i = 0; i < 32; i++) nu[i] = vf::mix(i + 5);
        op("NussbaumerTransform", [](auto &z) { Nussbaumer::NussbaumerTransform<uint64_t, 5>(std::span<uint64_t, 32>(z)); }, io(nu));
        op("InverseNussbaumerTransform", [](auto &z) { Nussbaumer::InverseNussbaumerTransform<uint64_t, 5>(std::span<uint64_t, 32>(z)); }, io(nu));
        // batches
        op("bootsSymEncrypt and decrypt", [](auto &z) {
            std::vector<uint8_t> b(9);
            for (size_t i = 0; i < b.size(); i++) b[i] = i % 3 == 1;
            const auto c = bootsSymEncrypt<L1>(b, *sk);
            const auto d = bootsSymDecrypt<L1>(c, *sk);
            for (size_t i = 0; i < 9; i++) z[i] = d[i];
        }, Out<std::array<uint8_t, 9>>{});
    }
}
static void all_registry()
{
    if constexpr (!BIG) {
        op("EvalKey: every key made, converted and used", [](auto &z) {
            EvalKey e(*sk);
            e.emplacebk<lvl01param>(*sk);
            e.emplacebk2bkfft<lvl01param>();
            e.emplacebk<lvl02param>(*sk);
            e.emplacebk2bkfft<lvl02param>();
            e.emplaceiksk<lvl10param>(*sk);
            const auto k1 = sk->key.get<L1>();
            const auto a = tlweSymEncrypt<L1>(L1::μ, k1);
            HomNAND<lvl10param, lvl01param, L1::μ>(z, a, a, e);
            std::stringstream st;
            { cereal::PortableBinaryOutputArchive ar(st); e.serialize(ar); }
            EvalKey f;
            { cereal::PortableBinaryInputArchive ar(st); f.serialize(ar); }
            TLWE<L1> y;
            HomNAND<lvl10param, lvl01param, L1::μ>(y, a, a, f);
            for (size_t i = 0; i < y.size(); i++) z[i] += 3 * y[i];
        }, Out<TLWE<L1>>{});
        op("SecretKey made and streamed", [](auto &z) {
            const auto s = std::make_unique<SecretKey>();
            std::stringstream st;
            { cereal::PortableBinaryOutputArchive ar(st); ar(*s); }
            const auto t = std::make_unique<SecretKey>();
            { cereal::PortableBinaryInputArchive ar(st); ar(*t); }
            z = t->key.get<L1>();
        }, Out<Key<L1>>{});
    }
}
static void all()
{
    sk = new SecretKey;
    ek = new EvalKey(*sk);
    ek->emplaceiksk<lvl10param>(*sk);
    ek->emplacebkfft<lvl01param>(*sk);
    if constexpr (!BIG) {
        ek->emplaceiksk<lvl20param>(*sk); ek->emplaceiksk<lvl21param>(*sk);
        ek->emplacebkfft<lvl02param>(*sk);
        ek->emplaceprivksk4cb<lvl21param>(*sk);
        if constexpr (SUBSET) { ek->emplacesubiksk<lvl21param>(*sk); ek->emplacesubprivksk4cb<lvl21param>(*sk); }
#ifndef USE_KEY_BUNDLE
        ek->emplacebkntt<lvl01param>(*sk);
#endif
    }
    keysum = [] {
        uint64_t h = 0;
        h = sum(*ek->iksklvl10, h);
        h = sum(*ek->bkfftlvl01, h);
        h = sum(sk->key.lvl0, sum(sk->key.lvl1, sum(sk->key.lvl2, h)));
        if constexpr (!BIG) {
            h = sum(*ek->iksklvl20, sum(*ek->iksklvl21, sum(*ek->bkfftlvl02, h)));
#ifndef USE_KEY_BUNDLE
            h = sum(*ek->bknttlvl01, h);
#endif
        }
        return h;
    };
    keysum0 = keysum();
    all_gates();
    all_subset<lvl21param>();
    all_ring<L1>("lvl1");
    all_ring<L2>("lvl2");
    all_level1();
    all_registry();
}
