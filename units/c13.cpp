// C13: serialization.  Every type, every subset of an evaluation key's
// components up to two present or one absent, map shapes, dirty targets; every
// prefix of the written bytes must be refused.
#define VF_MAIN
#include "tlwe.hpp"
#include "trlwe.hpp"
#include "trgsw.hpp"
#include "cloudkey.hpp"
#include "io-packet.hpp"
#include "gate.hpp"
#include "gates.hpp"
#include <sstream>
using namespace TFHEpp;

template <class T> struct is_map : std::false_type {};
template <class K, class V> struct is_map<std::unordered_map<K, V>> : std::true_type {};
template <class T> struct is_vec : std::false_type {};
template <class T> struct is_vec<std::vector<T>> : std::true_type {};
template <class T> struct is_sp : std::false_type {};
template <class T> struct is_sp<std::shared_ptr<T>> : std::true_type {};

static uint64_t fillctr;
template <class T>
void fill(T &x, uint64_t seed)
{
    if constexpr (std::is_same_v<T, double>) {
        const uint64_t i = fillctr++, h = vf::prng(seed, i);
        static const double sp[] = {0.0, -0.0, 1e-310, -1.5, 1e300, 0x1p-1074};
        x = i % 11 < 6 ? sp[i % 11] : double(int64_t(h)) * 0x1p-7;
    }
    else if constexpr (std::is_integral_v<T>) {
        const uint64_t i = fillctr++;
        const auto e = ref::edges<std::make_unsigned_t<T>>();
        x = T(i % 3 ? vf::prng(seed, i) : e[(i / 3) % e.size()]);
    }
    else if constexpr (std::is_same_v<T, cuHEpp::INTorus>) fill(x.value, seed);
    else for (auto &e : x) fill(e, seed);
}
template <class T>
bool eq(const T &a, const T &b)
{
    if constexpr (std::is_same_v<T, double> || std::is_integral_v<T>) return std::memcmp(&a, &b, sizeof a) == 0;
    else if constexpr (std::is_same_v<T, cuHEpp::INTorus>) return a.value == b.value;
    else if constexpr (is_sp<T>::value) return !a == !b && (!a || eq(*a, *b));
    else if constexpr (is_map<T>::value) {
        if (a.size() != b.size()) return false;
        for (auto &[k, v] : a) { auto it = b.find(k); if (it == b.end() || !eq(v, it->second)) return false; }
        return true;
    }
    else {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); i++) if (!eq(a[i], b[i])) return false;
        return true;
    }
}
bool eq(const lweParams &a, const lweParams &b)
{
#define F(x) if (std::memcmp(&a.x, &b.x, sizeof a.x)) return false;
#define PARAMS F(lvl0.n) F(lvl0.α) F(lvl0.approx_bit) F(lvl1.nbit) F(lvl1.n) F(lvl1.l) F(lvl1.Bgbit) F(lvl1.Bg) F(lvl1.α) F(lvl1.approx_bit) \
    F(lvl2.nbit) F(lvl2.n) F(lvl2.l) F(lvl2.Bgbit) F(lvl2.Bg) F(lvl2.approx_bit) F(lvl10.t) F(lvl10.basebit) F(lvl10.α) \
    F(lvl20.t) F(lvl20.basebit) F(lvl20.α) F(lvl21.t) F(lvl21.basebit) F(lvl22.t) F(lvl22.basebit)
    PARAMS
#undef F
    return true;
}
bool eq(const SecretKey &a, const SecretKey &b)
{
    return eq(a.key.lvl0, b.key.lvl0) && eq(a.key.lvlhalf, b.key.lvlhalf) && eq(a.key.lvl1, b.key.lvl1) && eq(a.key.lvl2, b.key.lvl2) && eq(a.key.lvl3, b.key.lvl3) && eq(a.params, b.params);
}
// The components of an evaluation key: f(index, name, member)
template <class E, class F>
void slots(E &e, F f)
{
    int i = 0;
#define S(m) f(i++, #m, e.m);
    S(bklvl01) S(bklvlh1) S(bklvl02) S(bklvlh2) S(bkfftlvl01) S(bkfftlvlh1) S(bkfftlvl02) S(bkfftlvlh2)
    S(bknttlvl01) S(bknttlvlh1) S(bknttlvl02) S(bknttlvlh2) S(iksklvl10) S(iksklvl1h) S(iksklvl20) S(iksklvl2h)
    S(iksklvl21) S(iksklvl22) S(iksklvl31) S(subiksklvl21) S(privksklvl11) S(privksklvl21) S(privksklvl22) S(subprivksklvl21)
#undef S
}
constexpr int NS = 24;
std::string diff(const EvalKey &a, const EvalKey &b)
{
    std::string r;
    if (!eq(a.params, b.params)) r += " params";
    const std::vector<const void *> none;
    std::vector<std::function<bool()>> cmp;
    auto &aa = const_cast<EvalKey &>(a);
    auto &bb = const_cast<EvalKey &>(b);
    slots(aa, [&](int i, const char *n, auto &x) {
        slots(bb, [&](int j, const char *, auto &y) {
            if constexpr (std::is_same_v<decltype(x), decltype(y)>)
                if (i == j && !eq(x, y)) r += std::string(" ") + n;
        });
    });
    return r;
}
bool eq(const EvalKey &a, const EvalKey &b) { return diff(a, b).empty(); }
bool eq(const IOpacket &a, const IOpacket &b)
{
    return eq(a.tlwelvl0ports, b.tlwelvl0ports) && eq(a.tlwelvl1ports, b.tlwelvl1ports) && eq(a.trlwelvl2ports, b.trlwelvl2ports) && eq(a.trgswlvl2ports, b.trgswlvl2ports) && a.numCycles == b.numCycles;
}
std::string diff(const auto &, const auto &) { return ""; }

template <class T>
std::string save(const T &x)
{
    std::ostringstream s;
    {
        cereal::PortableBinaryOutputArchive a(s);
        a(x);
    }
    return s.str();
}
struct Buf : std::streambuf {
    void set(const char *p, size_t n) { setg((char *)p, (char *)p, (char *)p + n); }
    size_t left() const { return egptr() - gptr(); }
};
// 0 read completely, 1 refused
template <class T>
int load(T &x, const char *p, size_t n, size_t *left = nullptr)
{
    Buf b;
    b.set(p, n);
    std::istream is(&b);
    try {
        cereal::PortableBinaryInputArchive a(is);
        a(x);
    }
    catch (const std::exception &) { return 1; }
    if (left) *left = b.left();
    return 0;
}
template <class T> std::unique_ptr<T> fresh() { return std::make_unique<T>(); }

template <class T>
void roundtrip(const std::string &key, const T &x, const T *dirty, const std::string &what)
{
    const std::string s = save(x);
    vf::transitions++; vf::evaluations++; vf::traces++;
    vf::state(vf::hash(s.data(), s.size(), vf::hash(key.data(), key.size())));
    for (int d = 0; d < (dirty ? 2 : 1); d++) {
        auto y = fresh<T>();
        if (d) *y = *dirty;
        size_t left = 0;
        const int r = load(*y, s.data(), s.size(), &left);
        VF_CHECK(r == 0, key + "/refused", "%s: cannot be read back%s", what.c_str(), d ? " over an older object" : "");
        if (r) continue;
        VF_CHECK(eq(x, *y), key + "/differs", "%s: read back different:%s%s", what.c_str(), diff(x, *y).c_str(), d ? " (over an older object)" : "");
        VF_CHECK(left == 0, key + "/unread", "%s: %zu bytes left unread", what.c_str(), left);
        VF_CHECK((save(*y) == s || std::is_same_v<T, EvalKey> || std::is_same_v<T, IOpacket>), key + "/rewrite", "%s: written again it differs", what.c_str());
    }
    if (vf::counters["max:bytes"] < s.size()) vf::counters["max:bytes"] = s.size();
}
// every proper prefix must be refused
template <class T>
void prefixes(const std::string &key, const T &x, const std::string &what, size_t limit = 0)
{
    const std::string s = save(x);
    auto y = fresh<T>();
    for (size_t n = 0; n < s.size(); n++) {
        if (limit && n > limit && n + limit < s.size() && n % 61) continue;
        if (!vf::next_case()) continue;
        vf::transitions++; vf::evaluations++;
        // the stream ends here: nothing behind it may be looked at
        std::unique_ptr<char[]> cut(new char[n + 1]);
        std::memcpy(cut.get(), s.data(), n);
        const int r = load(*y, cut.get(), n);
        VF_CHECK(r == 1, key + "/prefix", "%s: the first %zu of %zu bytes are accepted", what.c_str(), n, s.size());
    }
}
template <class T>
void plain(const std::string &name, size_t limit = 0)
{
    auto x = fresh<T>(), d = fresh<T>();
    for (int v = 0; v < 3; v++) {
        fillctr = v * 7;
        fill(*x, 11 + v);
        fillctr = v;
        fill(*d, 900 + v);
        if (vf::next_case()) roundtrip(name, *x, d.get(), vf::fmt("value %d", v));
    }
    prefixes(name, *x, "value 2", limit);
}
void fillparams(lweParams &p, uint64_t seed)
{
    uint32_t c = seed * 97 + 3;
#define F(x) { if constexpr (std::is_same_v<decltype(p.x), double>) p.x = 1.0 / (c += 7); else p.x = c += 7; }
    PARAMS
#undef F
    p.lvl1.Bgbit = 1 + (seed % 9); p.lvl1.Bg = 1u << p.lvl1.Bgbit;     // Bg is 2^Bgbit by definition
    p.lvl2.Bgbit = 2 + (seed % 11); p.lvl2.Bg = 1u << p.lvl2.Bgbit;
}
template <class M>
void fillmap(M &m, int count, uint64_t seed)
{
    static const char *names[] = {"privksk4cb_0", "", "a name with spaces\n\x01", "x"};
    for (int i = 0; i < count; i++) {
        auto &p = m[names[i]];
        if constexpr (is_sp<std::remove_reference_t<decltype(p)>>::value) {
            p = std::make_shared<typename std::remove_reference_t<decltype(p)>::element_type>();
            fill(*p, seed + i);
        }
        else { p.resize((i + seed) % 3); for (auto &e : p) fill(e, seed + i); }
    }
}
template <class X>
void fillslot(X &x, uint64_t seed)
{
    if constexpr (is_map<X>::value) fillmap(x, 1 + seed % 2, seed);
    else {
        x = std::make_shared<typename X::element_type>();
        fill(*x, seed);
    }
}
// a record made by default describes the compiled parameter set
template <class A, class B> void same(const char *what, A got, B want)
{
    vf::evaluations++;
    VF_CHECK(got == A(want), std::string("record/") + what, "%.17g for a set that has %.17g", double(got), double(want));
}
void records()
{
    if (!vf::next_case()) return;
    const auto sk = std::make_unique<SecretKey>();
    const lweParams fromkey = sk->params, made;
    for (const lweParams *r : {&fromkey, &made}) {
        vf::transitions++;
        const auto &p = *r;
        same("lvl0.n", p.lvl0.n, lvl0param::n); same("lvl0.alpha", p.lvl0.α, lvl0param::α); same("lvl0.bits", p.lvl0.approx_bit, 8 * sizeof(lvl0param::T));
        same("lvl1.nbit", p.lvl1.nbit, lvl1param::nbit); same("lvl1.n", p.lvl1.n, lvl1param::n); same("lvl1.l", p.lvl1.l, lvl1param::l);
        same("lvl1.Bgbit", p.lvl1.Bgbit, lvl1param::Bgbit); same("lvl1.Bg", p.lvl1.Bg, lvl1param::Bg); same("lvl1.bits", p.lvl1.approx_bit, 8 * sizeof(lvl1param::T));
        [&]<class P>(P *) { if constexpr (P::errordist == ErrorDistribution::ModularGaussian) same("lvl1.alpha", p.lvl1.α, P::α); }((lvl1param *)nullptr);
        same("lvl2.nbit", p.lvl2.nbit, +lvl2param::nbit); same("lvl2.n", p.lvl2.n, lvl2param::n); same("lvl2.l", p.lvl2.l, lvl2param::l);
        same("lvl2.Bgbit", p.lvl2.Bgbit, lvl2param::Bgbit); same("lvl2.Bg", p.lvl2.Bg, lvl2param::Bg); same("lvl2.bits", p.lvl2.approx_bit, 8 * sizeof(lvl2param::T));
        same("lvl10.t", p.lvl10.t, lvl10param::t); same("lvl10.basebit", p.lvl10.basebit, lvl10param::basebit);
        same("lvl20.t", p.lvl20.t, lvl20param::t); same("lvl20.basebit", p.lvl20.basebit, lvl20param::basebit);
        same("lvl21.t", p.lvl21.t, lvl21param::t); same("lvl21.basebit", p.lvl21.basebit, lvl21param::basebit);
        same("lvl22.t", p.lvl22.t, lvl22param::t); same("lvl22.basebit", p.lvl22.basebit, lvl22param::basebit);
    }
    VF_CHECK(fromkey == made, "record/equality", "the record of a new key differs from a new record");
}
#ifdef VP_RECORDS
int main(int argc, char **argv) { vf::init(argc, argv); records(); vf::finish(); }
#else
int main(int argc, char **argv)
{
    vf::init(argc, argv);
    records();
    vf::set_noise(0);
    // plain objects
    plain<TLWE<lvl0param>>("TLWE0");
    plain<TLWE<lvlhalfparam>>("TLWEh");
    plain<TLWE<lvl1param>>("TLWE1");
    plain<TLWE<lvl2param>>("TLWE2");
    plain<TRLWE<lvl1param>>("TRLWE1");
    plain<TRLWE<lvl2param>>("TRLWE2");
    plain<TRLWE3<lvl1param>>("TRLWE3");
    plain<TRLWEInFD<lvl1param>>("TRLWEInFD1");
    plain<TRLWENTT<lvl1param>>("TRLWENTT1");
    plain<TRGSW<lvl1param>>("TRGSW1", 1500);
    plain<TRGSW<lvl2param>>("TRGSW2", 1500);
    plain<TRGSWFFT<lvl1param>>("TRGSWFFT1", 1500);
    plain<TRGSWFFT<lvl2param>>("TRGSWFFT2", 1500);
    plain<TRGSWNTT<lvl2param>>("TRGSWNTT2", 1500);
    plain<HalfTRGSW<lvl1param>>("HalfTRGSW1", 1500);
    plain<HalfTRGSWFFT<lvl2param>>("HalfTRGSWFFT2", 1500);
    plain<AnnihilateKey<lvl1param>>("AnnihilateKey1", 800);
    plain<relinKey<lvl1param>>("relinKey1", 800);
    plain<relinKeyFFT<lvl1param>>("relinKeyFFT1", 800);
    plain<TLWE2TRLWEIKSKey<lvl11param>>("TLWE2TRLWEIKSKey11", 400);
    plain<BootstrappingKeyRAINTT<lvl01param>>("BootstrappingKeyRAINTT01", 400);
    plain<std::vector<TLWE<lvl1param>>>("vector0");
    {
        std::vector<TLWE<lvl1param>> v(5), d(9);
        fill(v, 5);
        if (vf::next_case()) roundtrip("vector", v, &d, "five samples");
        prefixes("vector", v, "five samples");
    }
    // parameter records and secret keys
    for (uint64_t s = 0; s < 12; s++) {
        lweParams p, d;
        if (s) fillparams(p, s);
        fillparams(d, 50 + s);
        if (vf::next_case()) {
            roundtrip("lweParams", p, &d, vf::fmt("record %d", int(s)));
            auto q = fresh<lweParams>();
            const std::string b = save(p);
            VF_CHECK(load(*q, b.data(), b.size()) == 0 && *q == p, "lweParams/equality", "record %d: the record read back does not compare equal", int(s));
        }
        prefixes("lweParams", p, "record");
    }
    // the sub-records on their own, by the fields they compare
    for (uint64_t s = 0; s < 12; s++) {
        if (!vf::next_case()) continue;
        lweParams p, d;
        fillparams(p, s); fillparams(d, 40 + s);
        auto rec = [&](const char *n, const auto &x, auto y) {
            const std::string b = save(x);
            VF_CHECK(load(y, b.data(), b.size()) == 0 && y == x, std::string(n) + "/equality", "record %d: read back different", int(s));
            for (size_t c = 0; c < b.size(); c++) VF_CHECK(load(y, b.data(), c) == 1, std::string(n) + "/prefix", "the first %zu of %zu bytes are accepted", c, b.size());
            vf::transitions += 1 + b.size();
        };
        rec("portablelvl0param", p.lvl0, d.lvl0); rec("portablelvl1param", p.lvl1, d.lvl1); rec("portablelvl2param", p.lvl2, d.lvl2);
        rec("portablelvl10param", p.lvl10, d.lvl10); rec("portablelvl20param", p.lvl20, d.lvl20); rec("portablelvl21param", p.lvl21, d.lvl21);
        // comparison sees every field
#define F(x) { lweParams o = p; o.x += 1; VF_CHECK(!(o == p), "lweParams/comparison-" #x, "records that differ there compare equal"); }
        F(lvl0.n) F(lvl0.α) F(lvl0.approx_bit) F(lvl1.nbit) F(lvl1.n) F(lvl1.l) F(lvl1.Bgbit) F(lvl1.Bg) F(lvl1.approx_bit)
        F(lvl2.nbit) F(lvl2.n) F(lvl2.l) F(lvl2.Bgbit) F(lvl2.Bg) F(lvl2.approx_bit) F(lvl10.t) F(lvl10.basebit) F(lvl10.α)
        F(lvl20.t) F(lvl20.basebit) F(lvl20.α) F(lvl21.t) F(lvl21.basebit) F(lvl22.t) F(lvl22.basebit)
#undef F
    }
    for (uint64_t s = 0; s < 12; s++) {
        auto k = fresh<SecretKey>(), d = fresh<SecretKey>();
        if (s) {
            auto &x = k->key;
            fill(x.lvl0, s); fill(x.lvlhalf, s); fill(x.lvl1, s); fill(x.lvl2, s); fill(x.lvl3, s);
            fillparams(k->params, s);
        }
        if (vf::next_case()) roundtrip("SecretKey", *k, d.get(), vf::fmt("key %d", int(s)));
        if (s < 2) prefixes("SecretKey", *k, "key");
    }
    // packets: every subset of the ports x sizes x cycle counts
    for (int sub = 0; sub < 16; sub++)
        for (int cnt = 1; cnt <= 4; cnt++)
            for (unsigned cyc : {0u, 1u, 2u, ~0u}) {
                auto p = fresh<IOpacket>(), d = fresh<IOpacket>();
                if (sub & 1) fillmap(p->tlwelvl0ports, cnt, 1);
                if (sub & 2) fillmap(p->tlwelvl1ports, cnt, 2);
                if (sub & 4) fillmap(p->trlwelvl2ports, cnt, 3);
                if (sub & 8) fillmap(p->trgswlvl2ports, cnt, 4);
                p->numCycles = cyc;
                fillmap(d->tlwelvl0ports, 4, 7);
                fillmap(d->trgswlvl2ports, 3, 8);
                fillmap(d->tlwelvl1ports, 3, 8);
                fillmap(d->trlwelvl2ports, 3, 8);
                if (vf::next_case()) roundtrip("IOpacket", *p, d.get(), vf::fmt("ports %d, %d names, %u cycles", sub, cnt, cyc));
                if (cnt == 2 && cyc == 2) prefixes("IOpacket", *p, vf::fmt("ports %d", sub), 300);
            }
    // evaluation keys
    auto full = fresh<EvalKey>();
    slots(*full, [&](int i, const char *, auto &x) { fillslot(x, 1000 + i * 10); });
    fillparams(full->params, 5);
    auto subset = [&](uint64_t m) {
        auto e = fresh<EvalKey>();
        e->params = full->params;
        slots(*e, [&](int i, const char *, auto &x) {
            slots(*full, [&](int j, const char *, auto &y) {
                if constexpr (std::is_same_v<decltype(x), decltype(y)>)
                    if (i == j && (m >> i & 1)) x = y;
            });
        });
        return e;
    };
    auto one = [&](uint64_t m) {
        if (!vf::next_case()) return;
        auto e = subset(m);
        roundtrip("EvalKey", *e, (m % 3 == 0) ? full.get() : nullptr, vf::fmt("components %06llx", (unsigned long long)m));
    };
    const uint64_t all = (1ull << NS) - 1;
    one(0); one(all);
    for (int i = 0; i < NS; i++) {
        one(1ull << i); one(all & ~(1ull << i));
        for (int j = 0; j < i; j++) {
            one(1ull << i | 1ull << j);
            one(all & ~(1ull << i | 1ull << j));
            if (vf::thorough) for (int k = 0; k < j; k++) one(1ull << i | 1ull << j | 1ull << k);
        }
    }
    for (int i = 0; i < NS; i++) {       // prefixes of every single component
        auto e = subset(1ull << i);
        prefixes("EvalKey", *e, vf::fmt("component %d", i), vf::thorough ? 4000 : 500);
    }
    prefixes("EvalKey", *full, "all components", vf::thorough ? 200 : 60);
    for (int cnt = 0; cnt <= 4; cnt++) { // maps of 0..4 named keys, and one key under two names
        if (!vf::next_case()) continue;
        auto e = fresh<EvalKey>();
        fillmap(e->privksklvl11, cnt, 5); fillmap(e->privksklvl21, (cnt + 1) % 5, 6);
        fillmap(e->privksklvl22, (cnt + 2) % 5, 7); fillmap(e->subprivksklvl21, (cnt + 3) % 5, 8);
        roundtrip("EvalKey", *e, full.get(), vf::fmt("maps of %d..", cnt));
        if (cnt) e->privksklvl11["again"] = e->privksklvl11["privksk4cb_0"];
        roundtrip("EvalKey", *e, full.get(), "one key under two names");
    }
    // two objects in one stream, read in order
    if (vf::next_case()) {
        std::stringstream s;
        SecretKey a, a2;
        fill(a.key.lvl1, 4);
        auto e2 = fresh<EvalKey>();
        IOpacket p, p2;
        fillmap(p.tlwelvl1ports, 3, 3);
        { cereal::PortableBinaryOutputArchive o(s); o(a, *full, p); }
        cereal::PortableBinaryInputArchive in(s);
        in(a2, *e2, p2);
        VF_CHECK(eq(a, a2) && eq(*full, *e2) && eq(p, p2), "stream", "several objects in one archive do not come back");
        vf::traces++;
    }
    // keys that went through the file work exactly as before
    for (int kk = 0; kk < 4; kk++) {
        if (!vf::next_case()) continue;
        vf::free_rng(kk + 70);
        auto sk = fresh<SecretKey>();
        EvalKey ek(*sk);
        ek.emplacebkfft<lvl01param>(*sk);
        ek.emplacebkfft<lvl02param>(*sk);
        ek.emplacebkntt<lvl01param>(*sk);
        ek.emplaceiksk<lvl10param>(*sk);
        ek.emplaceiksk<lvl20param>(*sk);
        EvalKey e2;
        SecretKey s2;
        const std::string b = save(ek), bs = save(*sk);
        VF_CHECK(load(e2, b.data(), b.size()) == 0 && load(s2, bs.data(), bs.size()) == 0, "works", "cannot be read back");
        for (int r = 0; r < 16; r++) {
            const auto a = tlweSymEncrypt<lvl1param>(r & 1 ? lvl1param::μ : -lvl1param::μ, sk->key.lvl1), c = tlweSymEncrypt<lvl1param>(r & 2 ? lvl1param::μ : -lvl1param::μ, sk->key.lvl1);
            TLWE<lvl1param> x, y;
            HomNAND<lvl10param, lvl01param, lvl1param::μ>(x, a, c, ek);
            HomNAND<lvl10param, lvl01param, lvl1param::μ>(y, a, c, e2);
            VF_CHECK(eq(x, y), "works", "gate output differs after a round trip of the evaluation key");
            VF_CHECK(tlweSymDecrypt<lvl1param>(y, s2.key.lvl1) == ((r & 3) != 3), "works", "wrong gate output under the keys read back");
            vf::transitions++;
        }
    }
    vf::sample("all subsets of the 24 evaluation-key components with at most two present or at most two absent; every prefix refused");
    vf::finish();
}
#endif
