// Controlled scheduler for C14: threads of the code under test run one at a
// time; the compiler's thread-sanitizer hooks report every memory access here.
#pragma once
#include <cstddef>
#include <cstdint>
namespace sch {
constexpr int MAXT = 4, MAXPRE = 4, MAXCONF = 1 << 14;
struct Plan {
    int n = 2;               // threads
    int order[MAXT] = {0, 1, 2, 3};
    int team = 1;            // threads a parallel region gets
    int npre = 0;
    struct { uint64_t step; int to; } pre[MAXPRE];
    uint64_t npoints = 0;    // words whose accesses are scheduling points
    uint64_t points[MAXCONF];
};
struct Result {
    uint64_t steps, accesses, words, regions, deadlock;
    uint64_t nconf;
    uint64_t conf[MAXCONF];  // words that two threads touch, one of them writing
    bool too_many;
    uint64_t race;           // an access not ordered with another thread's (0: none)
    int racer[2];
    bool race_write;
};
// Runs op(i) for i < plan.n on threads of their own.
void run(const Plan &, Result &, void (*op)(int));
// Allocations of the calling process come from `base` from now on (null: the heap).
void arena(void *base, size_t size);
extern "C" int sch_tid();
}  // namespace sch
