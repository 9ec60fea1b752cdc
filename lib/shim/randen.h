// Stand-in for thirdparties/randen: the randomness the library asks for is an
// environment answer decided by the harness (see lib/vf.hpp).
#pragma once
#ifndef RANDEN_H_
#define RANDEN_H_
#include <cstdint>
#include <limits>
#include <random>
extern "C" uint64_t vf_rand_next();
extern "C" uint64_t vf_rng_seed();
namespace randen {
template <typename T>
class Randen {
public:
    using result_type = T;
    static constexpr T min() { return std::numeric_limits<T>::min(); }
    static constexpr T max() { return std::numeric_limits<T>::max(); }
#ifdef VF_RNG_OBJECT    // a generator with a state of its own, seeded where it is constructed
    uint64_t s = vf_rng_seed();
    T operator()()
    {
        uint64_t z = s;
        s = z + 0x9e3779b97f4a7c15ULL;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return static_cast<T>(z ^ (z >> 31));
    }
#else
    T operator()() { return static_cast<T>(vf_rand_next()); }
#endif
    explicit Randen(T = 0) {}
    explicit Randen(std::random_device &) {}
    template <class S>
    explicit Randen(S &&) {}
    template <class S> void seed(S &) {}
    void seed(T = 0) {}
    template <class S> void reseed(S &) {}
    void discard(unsigned long long n) { for (; n; --n) (*this)(); }
};
}  // namespace randen
#endif
