// Deterministic-simulation core: every decision of a run (workload, schedule,
// fault) is one Draw() from a seeded stream that is recorded; a run is a pure
// function of its recorded choice list.
#ifndef SIM_CORE_H_
#define SIM_CORE_H_
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

typedef std::vector<uint8_t> Bytes;

struct Failure {
  std::string key;  // stable class of failure, used by the minimiser
  std::string msg;  // human readable
};

[[noreturn]] void Fail(const std::string& key, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));

// --- choices -------------------------------------------------------------
uint64_t Draw(uint64_t bound, const char* label);  // in [0,bound)
inline uint64_t Range(uint64_t lo, uint64_t hi, const char* label) {
  return lo + Draw(hi - lo + 1, label);
}
// True with probability num/den; choice 0 (the minimal one) is false.
inline bool Chance(uint32_t num, uint32_t den, const char* label) {
  return Draw(den, label) >= den - num;
}
template <typename T>
const T& Pick(const std::vector<T>& v, const char* label) {
  return v[Draw(v.size(), label)];
}
// Log-uniform-ish magnitude in [0, max].
uint64_t Magnitude(uint64_t max, const char* label);
Bytes MakePayload(uint64_t seed, size_t len);
size_t NumChoices();

// --- observation ---------------------------------------------------------
void Ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void EvHash(const void* p, size_t n);
void Count(const char* name, uint64_t n = 1);   // counters: evidence
void FaultCount(const char* name);               // counted as injected fault
void SimSteps(uint64_t n);
void MarkNontrivial();
bool Verbose();
uint64_t Fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
std::string Hex(const uint8_t* p, size_t n, size_t max = 64);
std::string Fmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// --- library scope, allocation faults, leaks ------------------------------
// While a LibScope is innermost, allocations are attributed to the library:
// they are counted as live until freed and may be failed by the fault plan.
struct LibScope { LibScope(); ~LibScope(); int saved; };
struct HarnessScope { HarnessScope(); ~HarnessScope(); int saved; };
// Fail the k-th (1-based) library allocation from now on; 0 disarms.
// nothrow_only: only allocations made with std::nothrow are counted/failed.
void ArmAllocFault(uint64_t k, bool nothrow_only, uint64_t burst = 1);
bool AllocFaultFired();
bool HugeAllocRefused();  // a library allocation above the cap was refused
void DisarmAllocFault();
int64_t LiveLibAllocs();
std::string LiveLibAllocSummary();
uint64_t LibAllocBytesPeak();
void ResetAllocPeak();
uint64_t LibAllocCount(bool nothrow_only);  // since run start

// --- virtual clock ---------------------------------------------------------
extern int64_t g_now;  // seconds returned by time()

// --- scenarios -------------------------------------------------------------
struct Scenario {
  const char* property;
  void (*fn)();
};
void RegisterScenario(const char* property, void (*fn)());
struct Registrar {
  Registrar(const char* p, void (*fn)()) { RegisterScenario(p, fn); }
};
// Runs registered scenarios interleaved at their I/O steps; each must behave
// exactly as when it runs alone.
void SideBySide(const std::vector<std::string>& props, const char* key);
extern void* (*g_actor_new)(); extern void (*g_actor_swap)(void*); extern void (*g_actor_delete)(void*);
#define SIM_SCENARIO(prop, fn) static ::sim::Registrar reg_##fn(prop, fn)

}  // namespace sim
#endif
