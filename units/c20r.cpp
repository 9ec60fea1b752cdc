// C20, the shipped generator: every entropy bit reaches the stream, threads
// and translation units have streams of their own, and the stream operations
// (copy, discard, save and restore) follow the sequence of draws.
#define VF_MAIN
#include "tlwe.hpp"
#include "trlwe.hpp"
#include "key.hpp"
#include "vf.hpp"
#include "ref.hpp"
#include <atomic>
#include <sstream>
#include <thread>
using namespace TFHEpp;

// The entropy source: scripted, a fresh position per request of each thread.
static std::atomic<int> flip{-1};
static thread_local uint32_t asked = 0;
static std::atomic<uint32_t> stream_id{0};
static thread_local uint32_t mystream = 0;
std::random_device::result_type std::random_device::_M_getval()
{
    const uint32_t i = asked++;
    uint32_t r = uint32_t(vf::prng(1234 + mystream, i));
    const int f = flip;
    if (f >= 0 && i < 8 && f / 32 == int(i)) r ^= 1u << (f % 32);
    return r;
}
using R = randen::Randen<uint64_t>;
template <class F>
static auto in_thread(F f, uint32_t stream = 0)
{
    decltype(f()) r;
    std::thread([&] { asked = 0; mystream = stream; r = f(); }).join();
    return r;
}
static std::vector<uint64_t> take(R &g, size_t n) { std::vector<uint64_t> v(n); for (auto &x : v) x = g(); return v; }

int main(int argc, char **argv)
{
    vf::init(argc, argv);
    const size_t L = 4096;
    // seeds: all single-bit and small seeds give different streams, the same seed the same
    std::set<std::vector<uint64_t>> seen;
    std::vector<uint64_t> seeds{0};
    for (int b = 0; b < 64; b++) seeds.push_back(1ull << b);
    for (uint64_t i = 3; i < (vf::thorough ? 65536u : 4096u); i++) if (i & (i - 1)) seeds.push_back(i);
    for (auto s : seeds) {
        R a(s), b(s);
        const auto x = take(a, 20);
        vf::transitions += 40; vf::evaluations++;
        vf::state(s ^ 0xabcdef);
        VF_CHECK(x == take(b, 20), "randen/deterministic", "seed %llx gives two streams", (unsigned long long)s);
        VF_CHECK(seen.insert(x).second, "randen/seed", "seed %llx repeats the stream of another seed", (unsigned long long)s);
        VF_CHECK((a == b), "randen/equal", "seed %llx: equal histories compare unequal", (unsigned long long)s);
    }
    // a long stream has no repeated word and no stuck bit
    {
        R g(vf::vseed);
        std::unordered_set<uint64_t> w;
        size_t rep = 0;
        std::array<uint32_t, 64> ones{};
        const uint32_t n = vf::thorough ? 1u << 22 : 1u << 19;
        for (uint32_t i = 0; i < n; i++) { const uint64_t x = g(); rep += !w.insert(x).second; for (int b = 0; b < 64; b++) ones[b] += x >> b & 1; }
        vf::transitions += n; vf::states_extra += n;
        VF_CHECK(rep == 0, "randen/repeat", "%zu of %u words repeat", rep, n);
        for (int b = 0; b < 64; b++) VF_CHECK(std::fabs(double(ones[b]) - n / 2.0) < 8 * std::sqrt(n / 4.0), "randen/bias", "bit %d set in %u of %u words", b, ones[b], n);
    }
    // discard(k) = k draws, save/restore and copy at every position
    for (size_t pos = 0; pos < 70; pos++)
        for (size_t k = 0; k < 100; k++) {
            R a(7), b(7);
            take(a, pos); take(b, pos);
            a.discard(k);
            take(b, k);
            vf::evaluations++; vf::transitions += 2;
            vf::state(vf::mix(pos * 128 + k) ^ 0x201);
            VF_CHECK(take(a, 40) == take(b, 40), "randen/discard", "discard(%zu) after %zu draws differs from %zu draws", k, pos, k);
            if (k) continue;
            R c(std::as_const(a));
            std::stringstream ss;
            ss << a;
            R d(9);
            ss >> d;
            const auto w = take(a, 40);
            VF_CHECK(take(c, 40) == w, "randen/copy", "a copy after %zu draws continues differently", pos);
            VF_CHECK(take(d, 40) == w, "randen/restore", "a restored state after %zu draws continues differently", pos);
        }
    // every bit of the 256 bits of entropy reaches the generators of a new thread
    Key<lvl1param> key{};
    for (size_t i = 0; i < key.size(); i++) key[i] = i & 1;
    auto body = [&] {
        std::vector<uint64_t> v;
        for (auto x : tlweSymEncrypt<lvl1param>(0, lvl1param::α, key)) v.push_back(x);
        return v;
    };
    std::set<std::vector<uint64_t>> masks;
    for (int f = -1; f < 256; f++) {
        flip = f;
        const auto v = in_thread(body);
        vf::transitions++; vf::evaluations++;
        vf::state(vf::mix(f + 7) ^ 0x202);
        VF_CHECK(masks.insert(v).second, "generator/entropy", "flipping bit %d of the entropy does not change a ciphertext", f);
    }
    flip = -1;
    VF_CHECK(in_thread(body) == in_thread(body), "generator/reproducible", "same entropy, different ciphertexts");
    // streams of different threads and objects never overlap
    {
        std::unordered_map<uint64_t, size_t> owner;
        const size_t T = vf::thorough ? 200 : 48;
        size_t rep = 0;
        for (size_t t = 0; t < T; t++) {
            const auto v = in_thread([&] { auto a = body(); auto b = body(); a.pop_back(); b.pop_back(); a.insert(a.end(), b.begin(), b.end()); return a; }, uint32_t(t + 1));
            // 32-bit masks: compare windows of two words
            for (size_t i = 0; i + 1 < v.size(); i++) {
                const uint64_t w = v[i] << 32 | (v[i + 1] & 0xffffffff);
                vf::evaluations++;
                rep += !owner.emplace(w, t).second;
            }
            vf::transitions++; vf::traces++;
        }
        VF_CHECK(rep == 0, "generator/threads", "%zu pairs of mask words repeat across threads and ciphertexts", rep);
        std::set<std::vector<uint8_t>> keys;
        for (size_t t = 0; t < T; t++) {
            for (auto &k : in_thread([&] {
                     std::vector<std::vector<uint8_t>> r;
                     for (int i = 0; i < 2; i++) { SecretKey sk; std::vector<uint8_t> v; for (auto x : sk.key.lvl1) v.push_back(uint8_t(x)); r.push_back(v); v.clear(); for (auto x : sk.key.lvl2) v.push_back(uint8_t(x)); r.push_back(v); }
                     return r; }, uint32_t(t + 1)))
                VF_CHECK(keys.insert(k).second, "generator/secretkey", "thread %zu repeats a secret key", t);
            vf::transitions += 2;
        }
    }
    vf::sample("each of 256 entropy bits flipped in turn; 4000 seeds; discard/copy/restore at 70 positions");
    vf::finish();
}
