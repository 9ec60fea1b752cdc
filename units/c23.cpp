// C23: an operation touches its operands and nothing else.  Every public
// operation is run with its operands laid at every address offset their types
// admit, between red zones, over every kind of earlier contents of its
// result, with its randomness fixed: same result value for value, operands and
// keys unchanged, no access outside an object (AddressSanitizer, alignment by
// UndefinedBehaviorSanitizer).  Indices running through the consecutive
// polynomials of one sample are an idiom of the library and not an error.
#define VF_MAIN
#include "tlwe.hpp"
#include "gate.hpp"
#include "circuitbootstrapping.hpp"
#include "cmuxmem.hpp"
#include "homdecomp.hpp"
#include "bfv++.hpp"
#include "io-packet.hpp"
#include "nussbaumer.hpp"
#include "gates.hpp"
#include <cereal/archives/portable_binary.hpp>
#include <sanitizer/asan_interface.h>
#include <sstream>
#include <tuple>
using namespace TFHEpp;
using L0 = lvl0param;
using L1 = lvl1param;
using L2 = lvl2param;

// ----------------------------------------------------------------- operands
template <class T> struct In { const T &v; };       // read
template <class T> struct Io { const T &v; };       // read, then replaced
template <class T> struct Out { };                  // only written
template <class T> In<T> in(const T &v) { return {v}; }
template <class T> Io<T> io(const T &v) { return {v}; }
template <class A> struct Kind;
template <class T> struct Kind<In<T>> { using type = T; static constexpr int kind = 0; };
template <class T> struct Kind<Io<T>> { using type = T; static constexpr int kind = 1; };
template <class T> struct Kind<Out<T>> { using type = T; static constexpr int kind = 2; };
// what the transforms write must be aligned for them
template <class T> constexpr size_t step = std::is_same_v<T, std::array<double, L1::n>> || std::is_same_v<T, std::array<double, L2::n>> ? 64 : alignof(T) < 64 ? alignof(T) : 64;

template <class A> static void flat(const A &a, std::vector<uint8_t> &o)      // values without padding
{
    if constexpr (requires { a.begin(); }) for (const auto &x : a) flat(x, o);
    else o.insert(o.end(), (const uint8_t *)&a, (const uint8_t *)&a + sizeof a);
}
static const char *running = "start";
static void last_words() { fprintf(stderr, "\nwhile running: %s\n", running); }

template <class P> constexpr bool GAUSS = !requires { P::η; };
constexpr bool BINOMIAL = !GAUSS<L0> || !GAUSS<L1> || !GAUSS<L2> || !GAUSS<lvl3param>;
constexpr size_t RZ = 256;
struct Slab {
    uint8_t *base = nullptr, *p = nullptr;
    size_t cap = 0, n = 0;
    void place(size_t off, size_t size, uint8_t around)
    {
        if (!base) {
            cap = (size + 64 + 2 * RZ + 63) / 64 * 64;
            base = (uint8_t *)aligned_alloc(64, cap);
        }
        memset(base, around, cap);
        p = base + RZ + off;
        n = size;
    }
    void guard() { ASAN_POISON_MEMORY_REGION(base, cap); ASAN_UNPOISON_MEMORY_REGION(p, n); }
    void open() { ASAN_UNPOISON_MEMORY_REGION(base, cap); }
    bool intact(uint8_t around) const
    {
        for (uint8_t *q = base; q < base + cap; q++)
            if ((q < p || q >= p + n) && *q != around) return false;
        return true;
    }
    ~Slab() { if (base) { open(); free(base); } }
};

static SecretKey *sk;
static EvalKey *ek;
static std::function<uint64_t()> keysum;     // over everything the operations share
static uint64_t keysum0;

template <class F, class... A> static void op(const char *name, F f, A... args)
{
    constexpr size_t N = sizeof...(A);
    using Tup = std::tuple<typename Kind<A>::type...>;
    constexpr int kind[] = {Kind<A>::kind...};
    constexpr size_t size[] = {sizeof(typename Kind<A>::type)...};
    constexpr size_t stp[] = {step<typename Kind<A>::type>...};
    static_assert((std::is_trivially_copyable_v<typename Kind<A>::type> && ...));
    if (!vf::next_case()) return;
    running = name;
    const void *init[N];
    {
        size_t i = 0;
        ([&] { if constexpr (Kind<A>::kind != 2) init[i] = &args.v; else init[i] = nullptr; i++; }(), ...);
    }
    Slab s[N];
    auto run = [&](const size_t *off, int pat, std::vector<uint8_t> &res) -> std::string {
        const uint8_t fills[] = {0x00, 0xff, 0xa5, 0x3f};
        const uint8_t around = fills[(pat + 1) % 4];
        for (size_t i = 0; i < N; i++) {
            s[i].place(off[i], size[i], around);
            if (kind[i] == 2) memset(s[i].p, fills[pat], size[i]);
            else memcpy(s[i].p, init[i], size[i]);
        }
        for (auto &x : s) x.guard();
        vf::free_rng(2300);
        [&]<size_t... I>(std::index_sequence<I...>) {
            f([&]() -> decltype(auto) {
                using T = std::tuple_element_t<I, Tup>;
                if constexpr (kind[I] == 0) return (*(const T *)s[I].p);
                else return (*(T *)s[I].p);
            }()...);
        }(std::make_index_sequence<N>{});
        vf::transitions++;
        for (auto &x : s) x.open();
        res.clear();
        [&]<size_t... I>(std::index_sequence<I...>) {
            ([&] { if constexpr (kind[I] != 0) flat(*(const std::tuple_element_t<I, Tup> *)s[I].p, res); }(), ...);
        }(std::make_index_sequence<N>{});
        for (size_t i = 0; i < N; i++) {
            if (kind[i]) ;
            else if (memcmp(s[i].p, init[i], size[i])) return vf::fmt("operand %zu, an input, was changed", i);
            if (!s[i].intact(around)) return vf::fmt("memory around operand %zu was changed", i);
        }
        return "";
    };
    auto where = [&](const size_t *off, int pat) {
        std::string w = "offsets";
        for (size_t i = 0; i < N; i++) w += vf::fmt(" %zu", off[i]);
        return w + vf::fmt(", earlier contents %d", pat);
    };
    size_t off[N] = {};
    std::vector<uint8_t> want, got;
    std::string e = run(off, 0, want);
    vf::traces++;
    // the binomial sampler carries unused random bits over to the next call
    const bool carried = BINOMIAL && vf::rng.draws;
    if (!e.empty()) { vf::fail(name, e + "; " + where(off, 0)); return; }
    auto go = [&](const size_t *o, int pat) {
        e = run(o, pat, got);
        vf::state(vf::hash(o, sizeof(size_t) * N, vf::hash(name, strlen(name), pat)));
        vf::evaluations += got.size();
        if (e.empty() && !carried && got != want) {
            size_t k = 0;
            while (got[k] == want[k]) k++;
            e = vf::fmt("the result differs from the one at aligned addresses over zeros, at byte %zu of %zu", k, want.size());
        }
        if (!e.empty()) vf::fail(name, e + "; " + where(o, pat));
        return e.empty();
    };
    const size_t maxp = vf::thorough ? 4 : 3;
    for (size_t pat = 0; pat < maxp; pat++) {
        if (!go(off, pat)) return;
        // one operand at every offset, the others aligned; then all together
        for (size_t i = 0; i < N; i++)
            for (size_t o = stp[i]; o < 64; o += stp[i]) {
                size_t v[N] = {};
                v[i] = o;
                if (!go(v, pat)) return;
            }
        for (size_t o = 2; o < 64; o += 2) {
            size_t v[N];
            bool any = false;
            for (size_t i = 0; i < N; i++) { v[i] = o / stp[i] * stp[i]; any |= v[i]; }
            if (any && !go(v, pat)) return;
        }
        if (vf::thorough)       // every pair of offsets
            for (size_t i = 0; i < N; i++)
                for (size_t j = i + 1; j < N; j++)
                    for (size_t a = stp[i]; a < 64; a += stp[i])
                        for (size_t b = stp[j]; b < 64; b += stp[j]) {
                            size_t v[N] = {};
                            v[i] = a; v[j] = b;
                            if (!go(v, pat)) return;
                        }
    }
    if (keysum() != keysum0) { vf::fail(name, "a key the operation was given read-only changed"); keysum0 = keysum(); }
    vf::sample(name);
    vf::counters["operations"]++;
}
template <class A> static uint64_t sum(const A &a, uint64_t h)
{
    if constexpr (requires { a.begin(); }) { for (const auto &x : a) h = sum(x, h); return h; }
    else return vf::hash(&a, sizeof a, h);
}

#include "c23ops.hpp"

int main(int argc, char **argv)
{
    vf::init(argc, argv);
    __sanitizer_set_death_callback(last_words);
#ifdef TFHEPP_VERIF_PARAMS
    vf::set_noise(1e-12);
#endif
    vf::free_rng(230);
    all();
    vf::finish();
}
