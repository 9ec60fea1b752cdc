// C16: encrypted memories.  Every address x contents x keys for each read
// form; every history of reads and writes up to a depth against a plain array.
#define VF_MAIN
#include "tlwe.hpp"
#include "cmuxmem.hpp"
#include "gates.hpp"
using namespace TFHEpp;

template <class P>
struct Mem {
    using T = typename P::T;
    static constexpr size_t N = P::n;
    static constexpr int w = ref::W<T>;
    using Poly = Polynomial<P>;
    std::string nm;
    Key<P> key;
    double cm;   // error of one selection

    TRLWE<P> enc(const Poly &p, uint64_t q)   // exact sample, chosen mask family
    {
        TRLWE<P> c;
        for (size_t k = 0; k < P::k; k++)
            for (size_t i = 0; i < N; i++) {
                const uint64_t h = vf::prng(q * 71 + k, i);
                c[k][i] = q % 4 == 0 ? T(h >> (64 - w)) : q % 4 == 1 ? T(0) : q % 4 == 2 ? ref::edges<T>()[(i + k) % 9] : T(~T(0));
            }
        c[P::k] = p;
        for (size_t k = 0; k < P::k; k++) {
            Poly s;
            for (size_t i = 0; i < N; i++) s[i] = key[k * N + i];
            const auto m = ref::negmul<T, N>(c[k], s);
            for (size_t i = 0; i < N; i++) c[P::k][i] += m[i];
        }
        return c;
    }
    TRGSWFFT<P> bit(bool b)
    {
        Poly p{};
        p[0] = b;
        return trgswfftSymEncrypt<P>(p, key);
    }
    Poly cell(uint64_t seed, int i)
    {
        Poly p;
        for (size_t j = 0; j < N; j++) {
            switch (seed % 4) {
            case 0: p[j] = T(vf::prng(seed * 97 + i, j) >> (64 - w)); break;
            case 1: p[j] = ref::edges<T>()[(i * 5 + j) % 9]; break;
            case 2: p[j] = T(T(i * N + j + 1) << (w - 12)); break;       // names its place
            default: p[j] = i & 1 ? T(T(1) << (w - 1)) - 1 : T(0);
            }
        }
        return p;
    }
    void near(const std::string &k, const Poly &got, const Poly &want, double lim, const std::string &info)
    {
        vf::transitions++; vf::evaluations += N;
        const double d = double(ref::maxdist<T, N>(got, want)) * std::pow(2.0, -w);
        auto &c = vf::counters["max:" + nm + "/" + k + "/percent-of-bound"];
        c = std::max(c, uint64_t(100 * d / lim));
        VF_CHECK(d <= lim, nm + "/" + k, "off by %.3g (allowed %.3g); %s", d, lim, info.c_str());
    }
    template <uint32_t A>
    void reads(uint64_t contents)
    {
        constexpr int C = 1 << A;
        std::array<TRLWE<P>, C> mem;
        for (int i = 0; i < C; i++) mem[i] = enc(cell(contents, i), contents + i);
        for (int a = 0; a < C; a++) {
            if (!vf::next_case()) continue;
            vf::free_rng(a * 7 + A);
            vf::state(vf::mix(a + A * 1000 + contents * 7777) ^ vf::hash(nm.data(), nm.size()) ^ vf::hash(key.data(), sizeof key));
            std::array<TRGSWFFT<P>, A> inv;
            for (uint32_t b = 0; b < A; b++) inv[b] = bit(!(a >> b & 1));
            alignas(64) TRLWE<P> r;
            for (auto &x : r) x.fill(0x77);
            RAMUX<P, A>(r, inv, mem);
            near("ramux", ref::phase<P>(r, key), cell(contents, a), A * cm, vf::fmt("%u address bits, address %d, contents %d", A, a, int(contents)));
        }
    }
    // vertical and horizontal packing, apart and together
    template <uint32_t A, uint32_t W>
    void packed(uint64_t contents)
    {
        constexpr int C = 1 << (A - W);
        constexpr uint32_t word = N >> W;
        std::array<TRLWE<P>, C> mem;
        for (int i = 0; i < C; i++) mem[i] = enc(cell(contents, i), contents + i);
        for (int a = 0; a < (1 << A); a++) {
            if (!vf::next_case()) continue;
            if (!vf::thorough && A > 5 && a % 3 && a > 8 && a < (1 << A) - 8) continue;
            vf::free_rng(a * 7 + A);
            vf::state(vf::mix(a + A * 1000 + W * 17 + contents * 7777) ^ vf::hash(nm.data(), nm.size()) ^ vf::hash(key.data(), sizeof key));
            std::array<TRGSWFFT<P>, A> adr, inv;
            for (uint32_t b = 0; b < A; b++) { adr[b] = bit(a >> b & 1); inv[b] = bit(!(a >> b & 1)); }
            alignas(64) TRLWE<P> r;
            for (auto &x : r) x.fill(0x77);
            const std::string info = vf::fmt("%u address bits (%u within the polynomial), address %d, contents %d", A, W, a, int(contents));
            UROMUX<P, A, W>(r, inv, mem);
            const auto row = cell(contents, a >> W);
            near("uromux", ref::phase<P>(r, key), row, (A - W) * cm, info);
            std::vector<TLWE<P>> out(word);
            for (auto &t : out) t.fill(0x77);
            LROMUX<P, A, W>(out, adr, r);
            Poly got{}, want{};
            for (uint32_t i = 0; i < word; i++) { got[i] = ref::phase<P>(out[i], key); want[i] = row[(a & ((1 << W) - 1)) * word + i]; }
            near("rom", got, want, A * cm * 1.0 + cm, info);
        }
    }
    // memories with more rows than fit a byte
    template <uint32_t A>
    void wide(uint64_t contents)
    {
        constexpr int C = 1 << A;
        auto mem = std::make_unique<std::array<TRLWE<P>, C>>();
        for (int i = 0; i < C; i++) (*mem)[i] = enc(cell(contents, i), contents + i);
        const Poly val = cell(1, 40);
        for (int a = 0; a < C; a++) {
            if (!vf::next_case()) continue;
            vf::free_rng(a * 7 + A);
            vf::state(vf::mix(a + A * 1000 + contents * 7777) ^ vf::hash(nm.data(), nm.size()) ^ vf::hash(key.data(), sizeof key) ^ 0x3131);
            std::array<std::array<TRGSWFFT<P>, A>, 2> adr;
            for (uint32_t b = 0; b < A; b++) { adr[0][b] = bit(!(a >> b & 1)); adr[1][b] = bit(a >> b & 1); }
            alignas(64) TRLWE<P> r;
            for (auto &x : r) x.fill(0x77);
            RAMUX<P, A>(r, adr[0], *mem);
            near("ramux", ref::phase<P>(r, key), cell(contents, a), A * cm, vf::fmt("%u address bits, address %d, contents %d", A, a, int(contents)));
            const auto v = enc(val, a);
            for (int row = 0; row < C; row++) {
                if (!vf::thorough && row != a && std::popcount(uint32_t(row ^ a)) > 1 && (row + a) % 67) continue;
                for (auto &x : r) x.fill(0x3333);
                RAMwriteBar<P, A>(r, v, (*mem)[row], row, adr);
                near("write", ref::phase<P>(r, key), row == a ? val : cell(contents, row), A * cm, vf::fmt("%u address bits, write to %d, row %d, contents %d", A, a, row, int(contents)));
            }
        }
    }
    // every sequence of operations up to the depth, against a plain array
    template <uint32_t A>
    void histories(int depth, uint64_t contents)
    {
        constexpr int C = 1 << A;
        struct S { std::array<TRLWE<P>, C> enc; std::array<Poly, C> plain; double err; };
        auto s0 = std::make_unique<S>();
        for (int i = 0; i < C; i++) { s0->plain[i] = cell(contents, i); s0->enc[i] = enc(s0->plain[i], contents + 3 * i); }
        s0->err = 0;
        std::vector<std::array<std::array<TRGSWFFT<P>, A>, 2>> adr(C);
        vf::free_rng(A * 19);
        for (int a = 0; a < C; a++) for (uint32_t b = 0; b < A; b++) { adr[a][0][b] = bit(!(a >> b & 1)); adr[a][1][b] = bit(a >> b & 1); }
        const Poly vals[2] = {cell(1, 40), cell(0, 50)};
        std::string path;
        int top = 0;
        std::function<void(const S &, int)> go = [&](const S &s, int left) {
            for (int op = 0; op < C * 3; op++) {
                if (left == depth) { if (!vf::next_case()) continue; }
                const int a = op / 3, kind = op % 3;
                const size_t mark = path.size();
                path += vf::fmt("%s%d ", kind == 0 ? "read" : kind == 1 ? "write" : "copy-to", a);
                vf::transitions++;
                if (kind == 0) {
                    alignas(64) TRLWE<P> r;
                    RAMUX<P, A>(r, adr[a][0], s.enc);
                    near("history-read", ref::phase<P>(r, key), s.plain[a], s.err + A * cm, path);
                }
                else {
                    // write a value, or the content of cell 1 read through the memory
                    auto n = std::make_unique<S>(s);
                    alignas(64) TRLWE<P> v;
                    Poly pv;
                    double verr = 0;
                    if (kind == 1) { pv = vals[left % 2]; v = enc(pv, left + a); }
                    else { RAMUX<P, A>(v, adr[1][0], s.enc); pv = s.plain[1]; verr = s.err + A * cm; }
                    for (int i = 0; i < C; i++) {
                        for (auto &x : n->enc[i]) x.fill(0x3333);
                        RAMwriteBar<P, A>(n->enc[i], v, s.enc[i], i, adr[a]);
                    }
                    n->plain[a] = pv;
                    n->err = std::max(s.err, verr) + A * cm;
                    for (int i = 0; i < C; i++) near(i == a ? "history-write" : "history-other-cell", ref::phase<P>(n->enc[i], key), n->plain[i], n->err, path + vf::fmt("cell %d", i));
                    if (left > 1) go(*n, left - 1);
                    uint64_t h = vf::hash(nm.data(), nm.size(), A);
                    for (auto &p : n->plain) h = vf::hash(p.data(), sizeof p, h);
                    vf::state(h);
                }
                if (left == 1) top++;
                path.resize(mark);
            }
        };
        go(*s0, depth);
        vf::counters["histories"] += top;
    }
};
template <class P>
void run(const char *nm)
{
    const auto keys = ref::keys<P>(1, false);
    for (size_t i = 0; i < keys.size(); i++) {
        Mem<P> m;
        m.nm = nm;
        m.key = keys[i];
        m.cm = 2 * vf::xp_bound<P>(1, keys[i]);
        if (m.cm > 0.004) vf::fail(m.nm + "/harness", vf::fmt("selection bound %g too weak", m.cm));
        for (uint64_t c = 0; c < (vf::thorough ? 6u : 3u); c++) {
            m.template reads<2>(c);
            m.template reads<3>(c);
            m.template reads<4>(c);
            m.template reads<5>(c);
            m.template packed<4, 2>(c);
            m.template packed<3, 1>(c);
            m.template packed<6, 4>(c);
            m.template packed<P::nbit + 2, P::nbit>(c);
            m.template packed<P::nbit + 2, P::nbit - 1>(c);
        }
        if (i < (vf::thorough ? keys.size() : 1)) {
            m.template wide<9>(2);
            m.template packed<9, 1>(2);
            if (vf::thorough) m.template wide<10>(0);
        }
        m.template histories<2>(vf::thorough ? 4 : i ? 2 : 3, 2);
        m.template histories<3>(vf::thorough ? 3 : i ? 1 : 2, 0);
    }
}
int main(int argc, char **argv)
{
    vf::init(argc, argv);
    vf::set_noise(0);
    run<lvl1param>("lvl1");
    run<lvl2param>("lvl2");
    vf::sample("every address of 4..32 cells and of packed memories; every history of reads, writes and copies");
    vf::finish();
}
