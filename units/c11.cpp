// C11: field arithmetic of both NTTs against integer arithmetic, for every
// pair from a lattice of boundary operands and every shift amount.
#define VF_MAIN
#include <cassert>
#include "tlwe.hpp"
#include "trlwe.hpp"
#include "lv.hpp"
using cuHEpp::INTorus;
typedef unsigned __int128 u128;
typedef __int128 i128;
static constexpr uint64_t P64 = 0xffffffff00000001ull;  // 2^64-2^32+1

static uint64_t mulm(uint64_t a, uint64_t b) { return uint64_t(u128(a) * b % P64); }
static uint64_t powm(uint64_t a, uint64_t e)
{
    uint64_t r = 1;
    for (; e; e >>= 1) { if (e & 1) r = mulm(r, a); a = mulm(a, a); }
    return r;
}
static void want(const char *op, INTorus got, uint64_t w, uint64_t a, uint64_t b, bool canon)
{
    vf::transitions++;
    const bool ok = canon ? got.value == w : got.value % P64 == w;
    if (!ok) vf::fail(op, vf::fmt("operands %016llx %016llx: %016llx, expected %016llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)got.value, (unsigned long long)w));
}
static std::vector<uint64_t> lattice()
{
    std::set<uint64_t> s;
    std::vector<uint64_t> h{0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffd, 0xfffffffe, 0xffffffff};
    for (auto a : h) for (auto b : h) s.insert(a << 32 | b);
    for (int i = 0; i < 64; i++)
        for (int64_t d : {-1, 0, 1}) { s.insert((1ull << i) + d); s.insert(P64 - (1ull << i) + d); }
    for (int i = 0; i < (vf::thorough ? 400 : 60); i++) s.insert(vf::prng(vf::vseed, i));
    std::vector<uint64_t> v;
    for (auto x : s) if (x < P64) v.push_back(x);
    return v;
}
static void field64()
{
    const auto v = lattice();
    for (uint64_t a : v) {
        if (!vf::next_case()) continue;
        const INTorus A(a, false);
        vf::state(a);
        for (uint64_t b : v) {
            const INTorus B(b, false);
            const uint64_t s = uint64_t((u128(a) + b) % P64), d = uint64_t((u128(a) + P64 - b) % P64), m = mulm(a, b);
            want("add", A + B, s, a, b, true);
            INTorus t = A; t += B; want("add-assign", t, s, a, b, true);
            want("sub", A - B, d, a, b, true);
            t = A; t -= B; want("sub-assign", t, d, a, b, true);
            want("mul", A * B, m, a, b, true);
            t = A; t *= B; want("mul-assign", t, m, a, b, true);
            if (a == b) { t = A; t += t; want("double", t, s, a, a, true); t = A; t -= t; want("sub-self", t, 0, a, a, true); t = A; t *= t; want("square", t, m, a, a, true); }
        }
        for (uint32_t l = 0; l < 192; l++) {
            const uint64_t w = mulm(a, powm(2, l));
            const INTorus r = A << l;
            want("shift", r, w, a, l, false);
            VF_CHECK(r.value <= P64, "shift-range", "operand %016llx shift %u gives %016llx", (unsigned long long)a, l, (unsigned long long)r.value);
            // results of a shift are used as operands again
            for (uint64_t b : {uint64_t(0), uint64_t(1), a, P64 - 1, uint64_t(0xffffffff), uint64_t(1) << 63}) {
                want("shift-mul", r * INTorus(b, false), mulm(w, b), a, l, true);
                want("shift-add", r + INTorus(b, false), uint64_t((u128(w) + b) % P64), a, l, false);
                want("shift-sub", r - INTorus(b, false), uint64_t((u128(w) + P64 - b) % P64), a, l, false);
                want("sub-shift", INTorus(b, false) - r, uint64_t((u128(b) + P64 - w) % P64), a, l, false);
            }
        }
        for (uint64_t e = 0; e < 70; e++) want("pow", A.Pow(e), powm(a, e), a, e, true);
    }
    if (vf::shard == 0) {
        // reduction of arbitrary words
        for (uint64_t x : lattice()) for (uint64_t k : {uint64_t(0), P64 - x}) (void)k, want("reduce", INTorus(x), x % P64, x, 0, true);
        for (uint64_t x = P64; x != 0 && x - P64 < 5; x++) want("reduce", INTorus(x), x % P64, x, 0, true);
        for (int i = 0; i < 33; i++) { const uint64_t x = P64 + (i < 32 ? (1ull << i) : 0); want("reduce", INTorus(x), x % P64, x, 0, true); want("reduce", INTorus(~0ull - (i < 31 ? (1ull << i) : 0)), (~0ull - (i < 31 ? (1ull << i) : 0)) % P64, x, 0, true); }
        for (int n = 1; n <= 31; n++) want("invpow2", INTorus(uint64_t(1) << n, false) * cuHEpp::InvPow2(n), 1, n, 0, true);
        // the root of unity the transforms are built on: primitive 2^32-th, and 8 = w^(2^26)
        uint64_t w = cuHEpp::W % P64;
        for (int i = 0; i < 31; i++) w = mulm(w, w);
        VF_CHECK(w == P64 - 1, "root-order", "W^(2^31) = %016llx", (unsigned long long)w);
        w = cuHEpp::W % P64;
        for (int i = 0; i < 26; i++) w = mulm(w, w);
        VF_CHECK(w == 8, "root-64", "W^(2^26) = %016llx, expected 8", (unsigned long long)w);
        VF_CHECK(cuHEpp::P == P64, "modulus", "P = %016llx", (unsigned long long)cuHEpp::P);
        vf::sample(vf::fmt("2^64-2^32+1: %zu operands squared, shifts 0..191", v.size()));
    }
}
template <uint8_t b>
void bitrev()
{
    for (uint32_t x = 0; x < (1u << b); x++) {
        uint32_t r = 0;
        for (int i = 0; i < b; i++) r |= ((x >> i) & 1) << (b - 1 - i);
        VF_CHECK(cuHEpp::BitReverse<b>(x) == r, "bitreverse", "%u bits %u", unsigned(b), x);
        VF_CHECK(raintt::BitReverse<b>(x) == r, "raintt-bitreverse", "%u bits %u", unsigned(b), x);
        vf::transitions += 2;
    }
    if constexpr (b > 1) bitrev<b - 1>();
}
// ------------------------------------------------- reduced-integer field
static const int64_t Q = int64_t(raintt::P);
static int64_t md(i128 x) { return int64_t(((x % Q) + Q) % Q); }
static int64_t Rinv()
{
    int64_t r = 1, base = md((i128(1) << raintt::wordbits)), e = Q - 2;
    for (; e; e >>= 1) { if (e & 1) r = md(i128(r) * base); base = md(i128(base) * base); }
    return r;
}
static void fieldr()
{
    using namespace raintt;
    std::set<int64_t> s;
    for (int64_t b : {int64_t(0), Q, Q / 2, Q / 4, int64_t(R), int64_t(R2), int64_t(R3), int64_t(R4)})
        for (int64_t d = -3; d <= 3; d++) { s.insert(b + d); s.insert(-b + d); }
    for (int i = 0; i < 31; i++) for (int64_t d : {-1, 0, 1}) { s.insert((1ll << i) + d); s.insert(-(1ll << i) + d); s.insert(Q - (1ll << i) + d); }
    for (int i = 0; i < (vf::thorough ? 300 : 60); i++) s.insert(int64_t(vf::prng(3, i) % uint64_t(Q)));
    std::vector<int64_t> v;
    for (auto x : s) if (x >= -Q && x <= Q) v.push_back(x);
    const int64_t ri = Rinv();
    if (vf::shard == 0) {
        const int64_t r = md(i128(1) << wordbits);
        VF_CHECK(int64_t(R) == r && int64_t(R2) == md(i128(r) * r) && int64_t(R3) == md(i128(md(i128(r) * r)) * r) && int64_t(R4) == md(i128(md(i128(r) * r)) * md(i128(r) * r)), "raintt/constants", "Montgomery constants");
        // W: primitive 2^shiftamount-th root
        int64_t w = md(int64_t(W));
        for (int i = 0; i < int(shiftamount) - 1; i++) w = md(i128(w) * w);
        VF_CHECK(w == Q - 1, "raintt/root", "W^(2^(shift-1)) = %lld", (long long)w);
    }
    auto chk = [&](const char *op, int64_t got, int64_t w, int64_t lo, int64_t hi, int64_t a, int64_t b) {
        vf::transitions++;
        if (md(got) != w || got < lo || got > hi) vf::fail(vf::fmt("raintt/%s", op), vf::fmt("operands %lld %lld: %lld, expected %lld mod P", (long long)a, (long long)b, (long long)got, (long long)w));
    };
    for (int64_t a : v) {
        if (!vf::next_case()) continue;
        vf::state(vf::mix(uint64_t(a)) ^ 77);
        for (int64_t b : v) {
            chk("addmod", int64_t(AddMod(DoubleSWord(a), DoubleSWord(b))), md(i128(a) + b), -Q, Q, a, b);
            chk("submod", int64_t(SubMod(DoubleSWord(a), DoubleSWord(b))), md(i128(a) - b), -Q, Q, a, b);
            chk("mulsredc", int64_t(MulSREDC(SWord(a), SWord(b))), md(i128(md(i128(a) * b)) * ri), -Q, Q, a, b);
            if (a >= 0 && b >= 0 && a < Q && b < Q) chk("mulredc", int64_t(MulREDC(Word(a), Word(b))), md(i128(md(i128(a) * b)) * ri), 0, Q - (a && b), a, b);
        }
        // single reductions of products next to the bound |a| < 2^(w-1) P
        for (int k = 0; k < 40; k++) {
            const i128 bound = (i128(1) << (wordbits - 1)) * Q - 1;
            i128 x = (i128(a) << k);
            if (x > bound || x < -bound) break;
            for (int d = -1; d <= 1; d++) {
                i128 y = x + d;
                if (y > bound || y < -bound) continue;
                chk("sredc", int64_t(SREDC(DoubleSWord(int64_t(y)))), md(i128(md(y)) * ri), -Q, Q, a, k);
                if (y >= 0) chk("redc", int64_t(REDC(DoubleWord(uint64_t(y)))), md(i128(md(y)) * ri), 0, Q, a, k);
            }
            for (i128 y : {bound - x, x - bound})
                if (y <= bound && y >= -bound) chk("sredc", int64_t(SREDC(DoubleSWord(int64_t(y)))), md(i128(md(y)) * ri), -Q, Q, a, -k);
        }
        if (a >= 0 && a < Q)
            for (uint e = 0; e < 40; e++) {
                int64_t w = 1;
                for (uint i = 0; i < e; i++) w = md(i128(w) * a);
                chk("powredc", int64_t(PowREDC(Word(a), e)), w, 0, Q, a, e);
            }
    }
    // every residue against the edges of the other operand
    const int64_t step = vf::thorough ? 1 : 64;
    for (int64_t blk = 0; blk * 65536 < Q; blk++) {
        if (!vf::next_case()) continue;
        for (int64_t a = blk * 65536 + vf::vseed % step; a < (blk + 1) * 65536 && a < Q; a += step)
            for (int64_t b : {int64_t(1), Q - 1, -(Q - 1), int64_t(R2), int64_t(R4)}) {
                const int64_t g = int64_t(MulSREDC(SWord(a), SWord(b)));
                // g*2^w == a*b mod P
                if (((i128(g) << wordbits) - i128(a) * b) % Q != 0 || g <= -Q || g >= Q)
                    vf::fail("raintt/mulsredc-all", vf::fmt("operands %lld %lld: %lld", (long long)a, (long long)b, (long long)g));
                vf::transitions++;
            }
    }
    vf::sample(vf::fmt("reduced field P=%lld word %d bits: %zu operands squared", (long long)Q, int(wordbits), v.size()));
}
template <unsigned n>
void inv()
{
    const int64_t i = int64_t(raintt::inv_mod<raintt::Word(1u << n)>());
    VF_CHECK(md(i128(i) << n) == 1 && i >= 0 && i < Q, "raintt/inv", "inverse of 2^%u", n);
    vf::transitions++;
    if constexpr (n > 1) inv<n - 1>();
}
int main(int argc, char **argv)
{
    vf::init(argc, argv);
    field64();
    if (vf::shard == 0) { bitrev<14>(); inv<14>(); }
    fieldr();
    vf::evaluations = vf::transitions;
    vf::finish();
}
