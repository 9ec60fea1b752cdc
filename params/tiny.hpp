// Tiny parameter sets for exhaustive exploration.  Same names, types and
// `is_same` dispatch as the shipped sets; dimensions are macros.
#pragma once
#include <cmath>
#include <cstdint>
#include <limits>
#ifndef VP_N0
#define VP_N0 2
#endif
#ifndef VP_NH
#define VP_NH VP_N0
#endif
#ifndef VP_K0MIN
#define VP_K0MIN 0
#endif
#ifndef VP_NBIT1
#define VP_NBIT1 5
#endif
#ifndef VP_K1
#define VP_K1 1
#endif
#ifndef VP_L1
#define VP_L1 3
#endif
#ifndef VP_BG1
#define VP_BG1 6
#endif
#ifndef VP_KMIN1
#define VP_KMIN1 -1
#endif
#ifndef VP_NBIT2
#define VP_NBIT2 5
#endif
#ifndef VP_K2
#define VP_K2 1
#endif
#ifndef VP_L2
#define VP_L2 4
#endif
#ifndef VP_BG2
#define VP_BG2 9
#endif
#ifndef VP_NBIT3
#define VP_NBIT3 5
#endif
#ifndef VP_ERR
#define VP_ERR ModularGaussian
#endif
#ifndef VP_T0
#define VP_T0 uint16_t
#endif
#ifndef VP_T1
#define VP_T1 uint32_t
#endif
#define VP_KEY(mn, mx)                           \
    static constexpr int32_t key_value_max = mx; \
    static constexpr int32_t key_value_min = mn; \
    static constexpr int32_t key_value_diff = key_value_max - key_value_min;
#define VP_ERRD(e) static constexpr ErrorDistribution errordist = ErrorDistribution::e;

struct lvl0param {
    VP_KEY(VP_K0MIN, 1)
    static constexpr std::uint32_t n = VP_N0;
    static constexpr std::uint32_t k = 1;
    VP_ERRD(ModularGaussian)
    static inline double α = 0;
    using T = VP_T0;
    static constexpr std::make_signed_t<T> μ = 1LL << (std::numeric_limits<T>::digits - 3);
    static constexpr uint32_t plain_modulus = 8;
    static constexpr double Δ = static_cast<double>(1ULL << std::numeric_limits<T>::digits) / plain_modulus;
};
struct lvlhalfparam {
    VP_KEY(VP_K0MIN, 1)
    static constexpr std::uint32_t n = VP_NH;
    static constexpr std::uint32_t k = 1;
    VP_ERRD(ModularGaussian)
    static inline double α = 0;
    using T = uint32_t;
    static constexpr T μ = 1U << (std::numeric_limits<T>::digits - 3);
    static constexpr uint32_t plain_modulus = 8;
    static constexpr double Δ = static_cast<double>(1ULL << std::numeric_limits<T>::digits) / plain_modulus;
};
struct lvl1param {
    VP_KEY(VP_KMIN1, 1)
    static constexpr std::uint32_t nbit = VP_NBIT1;
    static constexpr std::uint32_t n = 1 << nbit;
    static constexpr std::uint32_t k = VP_K1;
    static constexpr std::uint32_t l = VP_L1;
    static constexpr std::uint32_t Bgbit = VP_BG1;
    static constexpr std::uint32_t Bg = 1 << Bgbit;
    VP_ERRD(VP_ERR)
#ifdef VP_CB
    static const inline uint η = 3;
    static constexpr VP_T1 q = 40960001;
    static constexpr uint64_t qbit = 27;
#endif
    static inline double α = 0;
    using T = VP_T1;
    static constexpr std::make_signed_t<T> μ = std::make_signed_t<T>(1) << (std::numeric_limits<T>::digits - 3);
    static constexpr uint32_t plain_modulus = 8;
    static constexpr double Δ = 2.0 * static_cast<double>(1ULL << (std::numeric_limits<T>::digits - 1)) / plain_modulus;
};
struct lvl2param {
    VP_KEY(-1, 1)
    static const std::uint32_t nbit = VP_NBIT2;
    static constexpr std::uint32_t n = 1 << nbit;
    static constexpr std::uint32_t k = VP_K2;
    static constexpr std::uint32_t l = VP_L2;
    static constexpr std::uint32_t Bgbit = VP_BG2;
    static constexpr std::uint32_t Bg = 1 << Bgbit;
#ifdef VP_CB2
    VP_ERRD(CenteredBinomial)
    static const inline uint η = 3;
    static constexpr uint64_t q = 1ULL << 48;
    static constexpr uint64_t qbit = 48;
#else
    VP_ERRD(ModularGaussian)
#endif
    static inline double α = 0;
    using T = uint64_t;
#ifdef VP_CB2
    static constexpr std::make_signed_t<T> μ = q / 8;
    static constexpr uint32_t plain_modulus = 8;
    static constexpr double Δ = μ;
#else
    static constexpr std::make_signed_t<T> μ = 1LL << 61;
    static constexpr uint32_t plain_modulus = 8;
    static constexpr double Δ = static_cast<double>(1ULL << (std::numeric_limits<T>::digits - 4));
#endif
};
struct lvl3param {
    VP_KEY(-1, 1)
    static const std::uint32_t nbit = VP_NBIT3;
    static constexpr std::uint32_t n = 1 << nbit;
    static constexpr std::uint32_t k = 1;
    static constexpr std::uint32_t l = 4;
    static constexpr std::uint32_t Bgbit = 9;
    static constexpr std::uint32_t Bg = 1 << Bgbit;
    VP_ERRD(ModularGaussian)
    static inline double α = 0;
    using T = uint64_t;
    static constexpr T μ = 1ULL << 61;
    static constexpr uint32_t plain_modulusbit = 31;
    static constexpr uint64_t plain_modulus = 1ULL << plain_modulusbit;
    static constexpr double Δ = 1ULL << (64 - plain_modulusbit - 1);
};
#define VP_KS(name, D, Tg, tt, bb)                       \
    struct name {                                        \
        static constexpr std::uint32_t t = tt;           \
        static constexpr std::uint32_t basebit = bb;     \
        VP_ERRD(ModularGaussian)                         \
        static inline double α = 0;                      \
        using domainP = D;                               \
        using targetP = Tg;                              \
    };
#ifndef VP_KS10
#define VP_KS10 7, 2
#endif
#ifndef VP_KS1H
#define VP_KS1H 10, 3
#endif
#ifndef VP_KS11
#define VP_KS11 6, 4
#endif
#ifndef VP_KS20
#define VP_KS20 7, 2
#endif
#ifndef VP_KS2H
#define VP_KS2H 7, 2
#endif
#ifndef VP_KS21
#define VP_KS21 8, 3
#endif
#ifndef VP_KS22
#define VP_KS22 38, 1
#endif
#ifndef VP_KS31
#define VP_KS31 7, 2
#endif
#define VP_KSX(...) VP_KS(__VA_ARGS__)
VP_KSX(lvl10param, lvl1param, lvl0param, VP_KS10)
VP_KSX(lvl1hparam, lvl1param, lvlhalfparam, VP_KS1H)
VP_KSX(lvl11param, lvl1param, lvl1param, VP_KS11)
VP_KSX(lvl20param, lvl2param, lvl0param, VP_KS20)
VP_KSX(lvl2hparam, lvl2param, lvlhalfparam, VP_KS2H)
VP_KSX(lvl21param, lvl2param, lvl1param, VP_KS21)
VP_KSX(lvl22param, lvl2param, lvl2param, VP_KS22)
VP_KSX(lvl31param, lvl3param, lvl1param, VP_KS31)
