// Exploration runtime shared by all harnesses: worker processes, counters,
// failure records, scripted randomness, small reference functions.
#pragma once
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {
inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

// ---------------------------------------------------------------- randomness
// Every random draw of the library is answered here.
struct Rng {
    uint64_t seed = 1, idx = 0;       // PRNG fallback
    const uint64_t *script = nullptr; // scripted answers for the first draws
    size_t len = 0;
    uint64_t draws = 0;
    std::function<uint64_t(uint64_t)> fn;  // when set, answers every draw
};
inline thread_local Rng rng;
inline void seed(uint64_t s)
{
    rng = Rng{};
    rng.seed = s;
}
inline uint64_t prng(uint64_t s, uint64_t i) { return mix(mix(s * 0x2545F4914F6CDD1DULL + 0x1234) ^ (i * 0xD1342543DE82EF95ULL)); }

// ------------------------------------------------------------------- context
inline std::string unit, outdir;
inline bool thorough = false;
inline uint64_t vseed = 1;
inline int shard = 0, nshards = 1;
inline uint64_t transitions = 0, evaluations = 0, traces = 0, caseno = 0;
inline std::unordered_set<uint64_t> *stateset = new std::unordered_set<uint64_t>;
inline uint64_t states_extra = 0;
inline std::map<std::string, uint64_t> counters;
inline std::vector<std::string> samples;
inline std::map<std::string, std::string> fails;
inline std::map<std::string, uint64_t> failcount;
inline std::string only;  // --only KEY: stop at this failure and print it

inline std::string fmtv(const char *f, va_list ap)
{
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline std::string fmt(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    auto s = fmtv(f, ap);
    va_end(ap);
    return s;
}
inline std::string jesc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
inline void flush_out()
{
    std::string p = outdir + "/" + unit + "." + std::to_string(shard) + ".json";
    FILE *f = fopen((p + ".tmp").c_str(), "w");
    if (!f) { perror("vf: out"); _exit(3); }
    fprintf(f, "{\"unit\":\"%s\",\"shard\":%d,\"states\":%llu,\"transitions\":%llu,\"evaluations\":%llu,\"traces\":%llu,",
            unit.c_str(), shard, (unsigned long long)(stateset->size() + states_extra),
            (unsigned long long)transitions, (unsigned long long)evaluations, (unsigned long long)traces);
    fprintf(f, "\"counters\":{");
    bool first = true;
    for (auto &[k, v] : counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto &s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    fprintf(f, "],\"fails\":{");
    first = true;
    for (auto &[k, v] : fails) {
        fprintf(f, "%s\"%s\":\"%s\"", first ? "" : ",", jesc(k).c_str(), jesc(v + fmt(" [%llu cases]", (unsigned long long)failcount[k])).c_str());
        first = false;
    }
    fprintf(f, "}}\n");
    fclose(f);
    rename((p + ".tmp").c_str(), p.c_str());
}
[[noreturn]] inline void finish()
{
    flush_out();
    fflush(nullptr);
    _exit(0);
}
// Record a violated check.  `key` names what failed (one finding per key).
inline void fail(const std::string &key, const std::string &detail)
{
    failcount[key]++;
    if (!fails.count(key)) {
        fails[key] = detail;
        if (fails.size() >= 20) finish();
    }
    if (failcount[key] > 200000) finish();
}
#define VF_CHECK(cond, key, ...)                                  \
    do {                                                          \
        if (!(cond)) vf::fail((key), vf::fmt(__VA_ARGS__));       \
    } while (0)
inline void sample(const std::string &s)
{
    if (samples.size() < 3) samples.push_back(s);
}
inline uint64_t hash(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL)
{
    const uint8_t *b = (const uint8_t *)p;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        uint64_t w;
        memcpy(&w, b + i, 8);
        h = mix(h ^ w);
    }
    uint64_t w = 0;
    if (i < n) memcpy(&w, b + i, n - i);
    return mix(h ^ w ^ n);
}
inline bool state(uint64_t h)
{
    if (stateset->size() > (1u << 20)) { states_extra++; return true; }
    return stateset->insert(h).second;
}
// Partition of the case space between worker processes.
inline bool mine(uint64_t i) { return i % (uint64_t)nshards == (uint64_t)shard; }
inline bool next_case() { return mine(caseno++); }

// Start: parse arguments and fork the workers; only workers return.
inline void init(int argc, char **argv)
{
    int workers = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--unit") unit = val();
        else if (a == "--out") outdir = val();
        else if (a == "--workers") workers = std::stoi(val());
        else if (a == "--thorough") thorough = true;
        else if (a == "--seed") vseed = std::stoull(val());
        else if (a == "--only") only = val();
    }
    if (unit.empty()) unit = "unit";
    if (outdir.empty()) outdir = ".";
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    seed(vseed);
    nshards = workers;
    if (workers == 1) return;
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; w++) {
        pid_t p = fork();
        if (p < 0) { perror("fork"); _exit(3); }
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            shard = w;
            return;
        }
        pids.push_back(p);
    }
    int bad = 0;
    for (pid_t p : pids) {
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) bad = 128 + WTERMSIG(st);
        else if (WEXITSTATUS(st)) bad = WEXITSTATUS(st);
        if (bad) break;
    }
    if (bad) for (pid_t p : pids) kill(p, SIGKILL);
    fflush(nullptr);
    _exit(bad);
}
}  // namespace vf

inline uint64_t vf_rand_next_impl()
{
    auto &r = vf::rng;
    uint64_t i = r.draws++;
    if (r.fn) return r.fn(i);
    if (i < r.len) return r.script[i];
    return vf::prng(r.seed, r.idx++);
}
#ifdef VF_MAIN
extern "C" uint64_t vf_rand_next() { return vf_rand_next_impl(); }
#endif
