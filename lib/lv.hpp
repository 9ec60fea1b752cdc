// Helpers shared by harnesses: level names, scripted randomness families.
#pragma once
#include "ref.hpp"
namespace vf {
template <class P>
const char *lname()
{
    using namespace TFHEpp;
    if constexpr (std::is_same_v<P, lvl0param>) return "lvl0";
    else if constexpr (std::is_same_v<P, lvlhalfparam>) return "lvlh";
    else if constexpr (std::is_same_v<P, lvl1param>) return "lvl1";
    else if constexpr (std::is_same_v<P, lvl2param>) return "lvl2";
    else return "lvl3";
}
// Answers of the random generator for one case: the first answers come from
// a lattice, a mask pattern covers the rest, three of sixteen answers are free
// (so that rejection sampling terminates).
struct Script {
    std::vector<uint64_t> first;
    int pattern = 0;  // 0 PRNG, 1 zeros, 2 ones, 3 alternating, 4 half
    uint64_t seed = 1;
    void install() const
    {
        vf::seed(seed);
        const uint64_t s = seed;
        const auto f = first;
        const int p = pattern;
        rng.fn = [s, f, p](uint64_t i) -> uint64_t {
            if (i < f.size()) return f[i];
            if (p == 0 || i % 16 >= 13) return prng(s, i);
            switch (p) {
            case 1: return 0;
            case 2: return ~0ull;
            case 3: return i & 1 ? ~0ull : 0;
            default: return 1ull << 63;
            }
        };
    }
    uint64_t key() const { return hash(first.data(), first.size() * 8, mix(pattern * 131 + seed)); }
    std::string str() const
    {
        std::string r = fmt("seed=%llu pattern=%d first=[", (unsigned long long)seed, pattern);
        for (auto x : first) r += fmt("%016llx ", (unsigned long long)x);
        return r + "]";
    }
};
inline std::vector<uint64_t> answers(int n)
{
    std::vector<uint64_t> a{0, ~0ull, 1ull << 63, (1ull << 63) - 1, 1, 0xC000000000000000ull, 0x4000000000000000ull, (1ull << 63) + (1ull << 10)};
    a.resize(n);
    return a;
}
// all scripts: product of `width` answers over `depth` leading draws, times patterns
inline std::vector<Script> scripts(int depth, int width, std::vector<int> patterns = {0, 1, 2, 3, 4})
{
    std::vector<Script> r;
    auto a = answers(width);
    uint64_t tot = 1;
    for (int i = 0; i < depth; i++) tot *= width;
    for (int p : patterns)
        for (uint64_t c = 0; c < tot; c++) {
            Script s;
            uint64_t x = c;
            for (int i = 0; i < depth; i++) { s.first.push_back(a[x % width]); x /= width; }
            s.pattern = p;
            s.seed = vseed * 1000003 + c * 16 + p;
            r.push_back(s);
        }
    return r;
}
inline void free_rng(uint64_t s)
{
    rng.fn = nullptr;
    seed(vseed * 7919 + s);
}
}  // namespace vf
