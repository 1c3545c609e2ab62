#include "core.h"

#include <regex>

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <fstream>
#include <new>
#include <cxxabi.h>
#include <ucontext.h>
#include <sstream>

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

namespace sim {

// ---------------------------------------------------------------- globals --
static const size_t kMaxChoices = 1 << 17;
static const int kMaxWorkers = 16;
static const int kMaxCounters = 400;
static const int kMaxFailures = 64;
static const size_t kMaxRuns = 4 << 20;

struct Counter { char name[56]; std::atomic<uint64_t> n; };
struct Slot {
  std::atomic<int64_t> run;   // -1 idle
  std::atomic<uint64_t> n;
  uint32_t kind;              // 0 none 1 failure recorded 2 ok
  uint32_t excused;           // what happens now is not this property's business
  uint64_t nhist, hist[2048]; // runs this worker executed before, oldest first (ring)
  char key[256];
  char msg[4096];
  uint64_t hash;
  uint64_t choices[kMaxChoices];
};
struct Shared {
  std::atomic<uint64_t> next_run;
  std::atomic<uint64_t> done;
  std::atomic<uint64_t> nontrivial;
  std::atomic<uint64_t> steps;
  std::atomic<int> stop;
  std::atomic<int> lock;
  std::atomic<int> ncounters;
  std::atomic<uint64_t> slow_us, slow_run;     // the costliest run
  Counter counters[kMaxCounters];
  Slot slots[kMaxWorkers + 1];
  uint64_t hashes[kMaxRuns];     // 0 = not run
};
static Shared* g_sh;
static Slot* g_slot;
static std::string* g_prop; static uint64_t g_seed;
static bool g_replay;
static std::vector<uint64_t>* g_in;   // replay input
static uint64_t g_rng[4];
static bool g_verbose;
static std::string* g_trace;
static uint64_t g_hash;
static bool g_nontrivial;
static std::vector<const char*>* g_labels;
int64_t g_now;
static int g_cpu_limit_s = 60;

bool Verbose() { return g_verbose; }

// ------------------------------------------------------------------- prng --
static uint64_t SplitMix(uint64_t* s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
static uint64_t Rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t NextRng() {
  uint64_t* s = g_rng;
  const uint64_t r = Rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t;
  s[3] = Rotl(s[3], 45);
  return r;
}
static void SeedRng(uint64_t seed) {
  for (int i = 0; i < 4; ++i) g_rng[i] = SplitMix(&seed);
}

struct Actor;
static Actor* g_actor;         // the actor executing, if any
static bool ActorDraw(uint64_t bound, uint64_t* v);
static void ActorRecord(uint64_t v);
static void ActorYield();

uint64_t Draw(uint64_t bound, const char* label) {
  if (bound == 0) bound = 1;
  uint64_t replayed;
  if (g_actor && ActorDraw(bound, &replayed)) return replayed;
  uint64_t n = g_slot->n.load(std::memory_order_relaxed);
  // A very long run stops injecting: every further choice is the minimal one.
  if (n >= kMaxChoices) { if (g_actor) ActorRecord(0); return 0; }
  uint64_t v;
  if (g_replay) {
    v = n < g_in->size() ? (*g_in)[n] : 0;
    if (v >= bound) v = bound - 1;
  } else {
    v = bound == 1 ? 0 : NextRng() % bound;
  }
  g_slot->choices[n] = v;
  g_slot->n.store(n + 1, std::memory_order_relaxed);
  if (g_verbose) {
    HarnessScope hs;
    g_labels->push_back(label);
  }
  if (g_actor) ActorRecord(v);
  return v;
}
size_t NumChoices() { return g_slot->n.load(); }

uint64_t Magnitude(uint64_t max, const char* label) {
  int bits = 0;
  while (bits < 64 && (bits == 64 ? 0 : (max >> bits))) ++bits;
  uint64_t b = Draw(bits + 1, label);
  if (b == 0) return 0;
  uint64_t lo = 1ULL << (b - 1), hi = b >= 64 ? ~0ULL : (1ULL << b) - 1;
  if (hi > max) hi = max;
  if (hi <= lo) return lo > max ? max : lo;
  return lo + Draw(hi - lo + 1 ? hi - lo + 1 : ~0ULL, label);
}

Bytes MakePayload(uint64_t seed, size_t len) {
  Bytes b(len);
  if (seed == 0) {
    for (size_t i = 0; i < len; ++i) b[i] = (uint8_t)(0x41 + i % 26);
    return b;
  }
  uint64_t s = seed * 0x9E3779B97F4A7C15ULL;
  for (size_t i = 0; i < len; i += 8) {
    uint64_t v = SplitMix(&s);
    for (size_t k = 0; k < 8 && i + k < len; ++k) b[i + k] = (uint8_t)(v >> (8 * k));
  }
  return b;
}

// ------------------------------------------------------------ observation --
uint64_t Fnv(const void* p, size_t n, uint64_t h) {
  const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; }
  return h;
}
void EvHash(const void* p, size_t n) { g_hash = Fnv(p, n, g_hash); }
void Ev(const char* fmt, ...) {
  HarnessScope hs;
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  g_hash = Fnv(buf, n, g_hash);
  if (g_verbose && g_trace->size() < (4u << 20)) {
    g_trace->append(buf, n);
    g_trace->push_back('\n');
  }
}
std::string Fmt(const char* fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0) n = 0;
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  return std::string(buf, n);
}
std::string Hex(const uint8_t* p, size_t n, size_t max) {
  std::string s;
  char b[4];
  for (size_t i = 0; i < n && i < max; ++i) { snprintf(b, 4, "%02x", p[i]); s += b; }
  if (n > max) s += "..";
  return s;
}
void Count(const char* name, uint64_t n) {
  int c = g_sh->ncounters.load(std::memory_order_acquire);
  for (int i = 0; i < c; ++i)
    if (!strncmp(g_sh->counters[i].name, name, 55)) { g_sh->counters[i].n += n; return; }
  int zero = 0;
  while (!g_sh->lock.compare_exchange_weak(zero, 1)) zero = 0;
  c = g_sh->ncounters.load();
  int i = 0;
  for (; i < c; ++i)
    if (!strncmp(g_sh->counters[i].name, name, 55)) break;
  if (i < kMaxCounters) {
    if (i == c) {
      strncpy(g_sh->counters[i].name, name, 55);
      g_sh->ncounters.store(c + 1, std::memory_order_release);
    }
    g_sh->counters[i].n += n;
  }
  g_sh->lock.store(0);
}
void FaultCount(const char* name) {
  char b[64];
  snprintf(b, sizeof b, "fault.%s", name);
  Count(b);
}
void SimSteps(uint64_t n) { g_sh->steps += n; if (g_actor) ActorYield(); }
void MarkNontrivial() { g_nontrivial = true; }

void Fail(const std::string& key, const char* fmt, ...) {
  HarnessScope hs;
  char buf[3500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Failure{key, buf};
}

// ------------------------------------------------------------- allocation --
static const uint64_t kHugeCap = 192ull << 20;
static thread_local int g_scope = 0;  // 0 harness, 1 library
static uint64_t g_fault_k, g_fault_burst;
static bool g_fault_nothrow_only, g_fault_fired, g_huge;
static int64_t g_live;
static uint64_t g_live_bytes, g_peak_bytes;
static uint64_t g_alloc_total, g_alloc_nothrow;
struct Hdr { uint32_t magic; uint32_t flags; uint64_t size; };
static const uint32_t kMagic = 0x51A110C8u;
enum { F_ARRAY = 1, F_LIB = 2 };

LibScope::LibScope() : saved(g_scope) { g_scope = 1; }
LibScope::~LibScope() { g_scope = saved; }
HarnessScope::HarnessScope() : saved(g_scope) { g_scope = 0; }
HarnessScope::~HarnessScope() { g_scope = saved; }

void ArmAllocFault(uint64_t k, bool nothrow_only, uint64_t burst) {
  g_fault_k = k; g_fault_nothrow_only = nothrow_only; g_fault_fired = false;
  g_fault_burst = burst;
}
bool AllocFaultFired() { return g_fault_fired; }
bool HugeAllocRefused() { return g_huge; }
void DisarmAllocFault() { g_fault_k = 0; }
int64_t LiveLibAllocs() { return g_live; }
uint64_t LibAllocBytesPeak() { return g_peak_bytes; }
void ResetAllocPeak() { g_peak_bytes = g_live_bytes; g_huge = false; }
uint64_t LibAllocCount(bool nt) { return nt ? g_alloc_nothrow : g_alloc_total; }
std::string LiveLibAllocSummary() {
  return Fmt("%lld live library allocations, %llu bytes", (long long)g_live,
             (unsigned long long)g_live_bytes);
}

static void* Alloc(size_t n, bool array, bool nothrow) {
  bool lib = g_scope == 1;
  if (lib) {
    ++g_alloc_total;
    if (nothrow) ++g_alloc_nothrow;
    if (g_fault_k && (nothrow || !g_fault_nothrow_only)) {
      if (--g_fault_k == 0) {
        g_fault_fired = true;
        if (g_fault_burst > 1) { --g_fault_burst; g_fault_k = 1; }
        FaultCount(nothrow ? "alloc_null" : "alloc_bad_alloc");
        if (nothrow) return nullptr;
        throw std::bad_alloc();
      }
    }
    if (n > kHugeCap) {
      g_huge = true;
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
  }
  Hdr* h = (Hdr*)malloc(sizeof(Hdr) + n);
  if (!h) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  h->magic = kMagic;
  h->flags = (array ? F_ARRAY : 0) | (lib ? F_LIB : 0);
  h->size = n;
  if (lib) {
    ++g_live;
    g_live_bytes += n;
    if (g_live_bytes > g_peak_bytes) g_peak_bytes = g_live_bytes;
  }
#ifdef SIM_ASAN
  __asan_poison_memory_region(h, sizeof(Hdr));
#endif
  return h + 1;
}
static void AllocAbort(const char* what) {
  fprintf(stderr, "ERROR: AddressSanitizer: %s (sim allocator)\n", what);
  abort();
}
#ifdef SIM_ASAN
__attribute__((no_sanitize("address"), noinline)) static uint8_t ShadowOf(const void* h) {
  static size_t scale, offset;
  if (!scale) __asan_get_shadow_mapping(&scale, &offset);
  return *(volatile uint8_t*)(((uintptr_t)h >> scale) + offset);
}
#endif
static void Free(void* p, bool array) {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1;
#ifdef SIM_ASAN
  // Our live headers carry ASan's user-poison shadow value (0xf7).  Anything
  // else here is a double free or a wild pointer: let ASan report it.
  if (ShadowOf(h) != 0xf7) {
    free(h);
    AllocAbort("bad-free");
  }
  __asan_unpoison_memory_region(h, sizeof(Hdr));
#endif
  if (h->magic != kMagic) AllocAbort("bad-free-or-header-overwrite");
  if (((h->flags & F_ARRAY) != 0) != array) AllocAbort("alloc-dealloc-mismatch");
  if (h->flags & F_LIB) { --g_live; g_live_bytes -= h->size; }
  h->magic = 0;
  free(h);
}

// --------------------------------------------------------------- scenarios --
static std::vector<Scenario>* g_scen;
void RegisterScenario(const char* p, void (*fn)()) {
  if (!g_scen) g_scen = new std::vector<Scenario>;
  g_scen->push_back({p, fn});
}

static void OnCpuLimit(int) {
  static const char m[] = "SIM-HANG: run exceeded its CPU limit\n";
  if (write(2, m, sizeof m - 1)) {}
  abort();
}

static uint64_t RunSeed(uint64_t seed, const std::string& prop, uint64_t run) {
  uint64_t s = seed * 0x9E3779B97F4A7C15ULL ^ Fnv(prop.data(), prop.size());
  uint64_t a = SplitMix(&s);
  s = a ^ (run * 0xD1B54A32D192ED03ULL);
  return SplitMix(&s);
}

// ------------------------------------------------------------ side by side --
// Each actor is a whole scenario. It first runs alone, which fixes its choices
// and its history; then all actors run interleaved on stacks of their own, a
// switch being possible at every I/O step, with those same choices.
#if defined(__x86_64__)
// A switch without system calls: callee-saved registers and the stack pointer.
extern "C" void SimSwitch(void** save, void* load);
asm(R"(
.text
.globl SimSwitch
.type SimSwitch,@function
SimSwitch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size SimSwitch,.-SimSwitch
)");
struct Ctx { void* sp; };
static Actor* g_starting;
static void FiberMain(Actor* a);
static void FiberEntry() { FiberMain(g_starting); }
static void MakeCtx(Ctx* c, void* stack, size_t size) {
  uint64_t* sp = (uint64_t*)((char*)stack + size) - 2;   // keeps the ABI's alignment at entry
  *--sp = 0;
  *--sp = (uint64_t)(void*)&FiberEntry;
  for (int i = 0; i < 6; ++i) *--sp = 0;
  c->sp = sp;
}
static void SwitchCtx(Ctx* from, Ctx* to) { SimSwitch(&from->sp, to->sp); }
#else
typedef ucontext_t Ctx;
static Actor* g_starting;
static void FiberMain(Actor* a);
static void FiberEntry() { FiberMain(g_starting); }
static void MakeCtx(Ctx* c, void* stack, size_t size) {
  getcontext(c);
  c->uc_stack.ss_sp = stack; c->uc_stack.ss_size = size; c->uc_link = nullptr;
  makecontext(c, FiberEntry, 0);
}
static void SwitchCtx(Ctx* from, Ctx* to) { swapcontext(from, to); }
#endif
struct Globals {
  int scope = 0;
  int64_t now = 1700000000;
  uint64_t hash = 1469598103934665603ULL;
  bool nontrivial = false;
  uint64_t fault_k = 0, fault_burst = 0; bool fault_nothrow = false, fault_fired = false, huge = false;
  int64_t live = 0; uint64_t live_bytes = 0, peak = 0, total = 0, nothrow = 0;
  void* eh[2] = {nullptr, nullptr};
  int err = 0;
};
static void SwapGlobals(Globals* g) {
  std::swap(g->scope, g_scope); std::swap(g->now, g_now); std::swap(g->hash, g_hash); std::swap(g->nontrivial, g_nontrivial);
  std::swap(g->fault_k, g_fault_k); std::swap(g->fault_burst, g_fault_burst); std::swap(g->fault_nothrow, g_fault_nothrow_only);
  std::swap(g->fault_fired, g_fault_fired); std::swap(g->huge, g_huge); std::swap(g->live, g_live); std::swap(g->live_bytes, g_live_bytes);
  std::swap(g->peak, g_peak_bytes); std::swap(g->total, g_alloc_total); std::swap(g->nothrow, g_alloc_nothrow);
  void** e = (void**)abi::__cxa_get_globals();
  std::swap(g->err, errno);
  std::swap(g->eh[0], e[0]); std::swap(g->eh[1], e[1]);
}
struct Actor {
  const char* name; void (*fn)();
  int index = 0;
  bool recording = false, replaying = false;
  std::vector<uint64_t> draws; size_t next = 0;
  uint64_t quantum = 0, switches = 0;
  bool finished = false, ok = true;
  Failure f; uint64_t hash = 0;
  Globals g; void* priv = nullptr;      // private state of other modules
  Ctx uc; bool started = false; void* stack = nullptr; void* fake = nullptr;
};
void* (*g_actor_new)(); void (*g_actor_swap)(void*); void (*g_actor_delete)(void*);
static Ctx g_sched_uc;
static void* g_sched_fake; static const void* g_sched_bottom; static size_t g_sched_size;
static const size_t kStack = 2 << 20;
static std::vector<void*>* g_stacks;

static bool ActorDraw(uint64_t bound, uint64_t* v) {
  Actor* a = g_actor;
  if (!a->replaying) return false;
  *v = a->next < a->draws.size() ? a->draws[a->next] : 0;
  ++a->next;
  if (*v >= bound) *v = bound - 1;
  return true;
}
static void ActorRecord(uint64_t v) { if (g_actor->recording) { HarnessScope hs; g_actor->draws.push_back(v); } }
static void EnterActor(Actor* a) {
  SwapGlobals(&a->g);
  if (g_actor_swap) g_actor_swap(a->priv);
  g_actor = a;
}
static void LeaveActor(Actor* a) {
  g_actor = nullptr;
  if (g_actor_swap) g_actor_swap(a->priv);
  SwapGlobals(&a->g);
}
static void RunActor(Actor* a) {
  try {
    a->fn();
  } catch (Failure& e) {
    a->f = e; a->ok = false;
  } catch (std::exception& e) {
    a->f = Failure{"exception", std::string("uncaught exception: ") + e.what()};
    a->ok = false;
  }
  g_scope = 0;
  a->hash = g_hash;
}
static void FiberMain(Actor* a) {
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(nullptr, &g_sched_bottom, &g_sched_size);
#endif
  RunActor(a);
  a->finished = true;
  LeaveActor(a);
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber(nullptr, g_sched_bottom, g_sched_size);
#endif
  SwitchCtx(&a->uc, &g_sched_uc);
  abort();
}
static void ActorYield() {
  Actor* a = g_actor;
  if (!a->replaying) return;
  if (a->quantum > 0) { --a->quantum; return; }
  ++a->switches;
  LeaveActor(a);
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber(&a->fake, g_sched_bottom, g_sched_size);
#endif
  SwitchCtx(&a->uc, &g_sched_uc);
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(a->fake, &g_sched_bottom, &g_sched_size);
#endif
}
static void Resume(Actor* a) {
  EnterActor(a);
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber(&g_sched_fake, a->stack, kStack);
#endif
  g_starting = a;
  SwitchCtx(&g_sched_uc, &a->uc);
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber(g_sched_fake, nullptr, nullptr);
#endif
}
void SideBySide(const std::vector<std::string>& props, const char* key) {
  const std::string K = key;
  std::vector<std::unique_ptr<Actor>> as;
  for (auto& p : props) {
    std::unique_ptr<Actor> a(new Actor);
    a->fn = nullptr;
    for (auto& s : *g_scen) if (p == s.property) { a->fn = s.fn; a->name = s.property; }
    if (!a->fn) Fail("harness:no-scenario", "%s", p.c_str());
    a->index = (int)as.size();
    // Alone.  Whatever goes wrong here concerns that scenario's own property.
    if (g_actor_new) a->priv = g_actor_new();
    a->recording = true;
    g_slot->excused = 1;
    EnterActor(a.get());
    RunActor(a.get());
    LeaveActor(a.get());
    g_slot->excused = 0;
    a->recording = false;
    if (g_actor_delete) g_actor_delete(a->priv);
    Ev("alone %s: %zu choices, history %016llx %s", a->name, a->draws.size(), (unsigned long long)a->hash, a->ok ? "ok" : a->f.key.c_str());
    if (!a->ok) { Count("skipped_runs"); return; }
    as.push_back(std::move(a));
  }
  if (!g_stacks) g_stacks = new std::vector<void*>;
  std::vector<uint64_t> want;
  for (size_t i = 0; i < as.size(); ++i) {
    Actor* a = as[i].get();
    want.push_back(a->hash);
    a->g = Globals();
    a->priv = g_actor_new ? g_actor_new() : nullptr;
    a->replaying = true;
    if (g_stacks->size() <= i) g_stacks->push_back(mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    a->stack = (*g_stacks)[i];
#ifdef SIM_ASAN
    __asan_unpoison_memory_region(a->stack, kStack);
#endif
    MakeCtx(&a->uc, a->stack, kStack);
  }
  const uint64_t style = Draw(4, "sb.style");
  size_t left = as.size();
  uint64_t switches = 0;
  std::vector<Actor*> ready;
  for (auto& a : as) ready.push_back(a.get());
  while (left) {
    Actor* a = ready[Draw(ready.size(), "sb.who")];
    a->quantum = style == 0 ? 0 : style == 1 ? Draw(4, "sb.q") : style == 2 ? Magnitude(64, "sb.q") : Magnitude(1000, "sb.q");
    ++switches;
    { uint64_t h = a->index; g_hash = Fnv(&h, 8, g_hash); }
    if (g_verbose) g_trace->append(Fmt("-> %s#%d (%llu)\n", a->name, a->index, (unsigned long long)a->quantum));
    Resume(a);
    if (!a->finished) continue;
    --left;
    ready.erase(std::find(ready.begin(), ready.end(), a));
    g_hash = Fnv(&a->hash, 8, g_hash);
    if (!a->ok) Fail(K + ":" + a->name, "run next to %zu others, a %s session fails (%s: %s) that succeeds alone", as.size() - 1, a->name, a->f.key.c_str(), a->f.msg.c_str());
    if (a->hash != want[a->index] || a->next != a->draws.size())
      Fail(K + ":" + a->name, "run next to %zu others, a %s session behaves differently from when it runs alone", as.size() - 1, a->name);
  }
  for (auto& a : as) if (g_actor_delete) g_actor_delete(a->priv);
  FaultCount("preemption");
  Count("preemptions", switches);
  if (switches > 8) MarkNontrivial();
}

// Executes one run in this process. Returns true if it passed.
static bool Execute(void (*fn)(), Failure* f) {
  g_slot->n = 0;
  g_slot->kind = 0;
  g_slot->excused = 0;
  g_actor = nullptr;
  g_hash = 1469598103934665603ULL;
  g_nontrivial = false;
  g_now = 1700000000;
  g_scope = 0;
  g_fault_k = 0; g_fault_fired = false; g_huge = false;
  g_live = 0; g_live_bytes = g_peak_bytes = 0;
  g_alloc_total = g_alloc_nothrow = 0;
  struct itimerval it = {{0, 0}, {g_cpu_limit_s, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
  bool ok = true;
  try {
    fn();
  } catch (Failure& e) {
    *f = e;
    ok = false;
  } catch (std::exception& e) {
    *f = Failure{"exception", std::string("uncaught exception escaped the library: ") + e.what()};
    ok = false;
  }
  g_scope = 0;
  g_fault_k = 0;
  g_slot->hash = g_hash ? g_hash : 1;
  return ok;
}

static void StoreFailure(Slot* s, const Failure& f) {
  snprintf(s->key, sizeof s->key, "%s", f.key.c_str());
  snprintf(s->msg, sizeof s->msg, "%s", f.msg.c_str());
  s->kind = 1;
}

// Turns the stderr of a dead child into a failure class.
static Failure ClassifyCrash(const std::string& log, int status) {
  Failure f;
  std::string kind;
  size_t p;
  std::string line;
  if ((p = log.find("SIM-HANG")) != std::string::npos) kind = "hang";
  else if ((p = log.find("ERROR: AddressSanitizer:")) != std::string::npos) {
    std::string rest = log.substr(p + 25, 60);
    kind = "asan:" + rest.substr(0, rest.find_first_of(" \n"));
  } else if ((p = log.find("runtime error:")) != std::string::npos) {
    std::string rest = log.substr(p + 15, 200);
    rest = rest.substr(0, rest.find('\n'));
    std::string norm;
    for (char c : rest) norm += isdigit((unsigned char)c) ? 'N' : c;
    std::string out;
    for (char c : norm) if (!(c == 'N' && !out.empty() && out.back() == 'N')) out += c;
    kind = "ubsan:" + out.substr(0, 60);
  } else if ((p = log.find("Assertion `")) != std::string::npos) {
    std::string rest = log.substr(p + 11, 120);
    kind = "assert:" + rest.substr(0, rest.find("' failed"));
  } else if (WIFSIGNALED(status)) kind = Fmt("signal:%d", WTERMSIG(status));
  else kind = Fmt("exit:%d", WEXITSTATUS(status));
  // First frame inside the library.
  std::string frame;
  size_t q = 0;
  while ((q = log.find(" in ", q)) != std::string::npos) {
    size_t e = log.find('\n', q);
    std::string l = log.substr(q + 4, e - q - 4);
    if (l.find("/sim/") == std::string::npos &&
        (l.find("mkvparser") != std::string::npos || l.find("mkvmuxer") != std::string::npos ||
         l.find("webm") != std::string::npos || l.find("webvtt") != std::string::npos ||
         l.find("libwebm") != std::string::npos)) {
      frame = l.substr(0, l.find_first_of("(/ "));
      break;
    }
    q += 4;
  }
  for (char& c : kind) if (c == ' ') c = '_';
  f.key = "crash:" + kind;
  if (!frame.empty()) f.key += "@" + frame;
  size_t b = p == std::string::npos ? 0 : (p > 100 ? p - 100 : 0);
  f.msg = "process died: " + log.substr(b, 1800);
  return f;
}

static std::string ReadFile(const std::string& p) {
  std::ifstream in(p, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}

static uint64_t CpuUs() {
  struct timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return (uint64_t)t.tv_sec * 1000000 + (uint64_t)t.tv_nsec / 1000;
}
static double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Found { Failure f; uint64_t run; uint64_t hash; std::vector<uint64_t> choices, prefix; };

// Some failures need earlier runs in the same process (state the library keeps
// behind its users' backs).  They are part of the history then.
static void RunPrefix(void (*fn)(), const std::vector<uint64_t>& prefix) {
  for (uint64_t r : prefix) {
    g_replay = false;
    SeedRng(RunSeed(g_seed, *g_prop, r));
    Failure f;
    Execute(fn, &f);
  }
  if (!prefix.empty() && g_trace) { g_trace->clear(); g_labels->clear(); }
}


// Runs one choice list in a forked child; returns the failure (empty key=ok).
static Failure TryChoices(void (*fn)(), const std::vector<uint64_t>& c,
                          const std::string& tmp, std::vector<uint64_t>* used,
                          uint64_t* hash, const std::vector<uint64_t>& prefix = {}) {
  Slot* s = &g_sh->slots[kMaxWorkers];
  s->kind = 0;
  std::string log = tmp + "/min.log";
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    g_slot = s;
    signal(SIGPROF, OnCpuLimit);
    RunPrefix(fn, prefix);
    g_replay = true;
    g_in = new std::vector<uint64_t>(c);
    Failure f;
    if (Execute(fn, &f)) s->kind = 2; else StoreFailure(s, f);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (used) used->assign(s->choices, s->choices + std::min<uint64_t>(s->n, kMaxChoices));
  if (hash) *hash = s->hash;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->kind == 2) return Failure();
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->kind == 1) return Failure{s->key, s->msg};
  if (hash) *hash = 0;
  if (s->excused) return Failure();
  return ClassifyCrash(ReadFile(log), st);
}

static void Minimise(void (*fn)(), Found* found, const std::string& tmp, double budget) {
  double t0 = Now();
  std::vector<uint64_t> best = found->choices;
  Failure bf = found->f;
  int tries = 0;
  auto attempt = [&](std::vector<uint64_t> c) {
    if (Now() - t0 > budget) return false;
    ++tries;
    std::vector<uint64_t> used;
    Failure f = TryChoices(fn, c, tmp, &used, nullptr, found->prefix);
    if (f.key != found->f.key) return false;
    // Trailing zeros are implied on replay.
    while (!used.empty() && used.back() == 0) used.pop_back();
    if (used.size() > best.size()) return false;
    if (used.size() == best.size()) {
      uint64_t a = 0, b = 0;
      bool less = false, dec = false;
      (void)a; (void)b;
      for (size_t i = 0; i < used.size(); ++i)
        if (used[i] != best[i]) { less = used[i] < best[i]; dec = true; break; }
      if (!dec || !less) return false;
    }
    best = used;
    bf = f;
    return true;
  };
  while (!best.empty() && best.back() == 0) best.pop_back();
  bool progress = true;
  while (progress && Now() - t0 < budget) {
    progress = false;
    // delete chunks
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.size();) {
        std::vector<uint64_t> c(best.begin(), best.begin() + i);
        c.insert(c.end(), best.begin() + i + len, best.end());
        if (attempt(c)) progress = true; else i += len;
        if (Now() - t0 > budget) break;
      }
      // zero chunks
      for (size_t i = 0; i + len <= best.size(); i += len) {
        bool any = false;
        for (size_t k = i; k < i + len; ++k) any |= best[k] != 0;
        if (!any) continue;
        std::vector<uint64_t> c = best;
        for (size_t k = i; k < i + len; ++k) c[k] = 0;
        if (attempt(c)) progress = true;
        if (Now() - t0 > budget) break;
      }
      if (len == 1) break;
    }
    // reduce values
    for (size_t i = 0; i < best.size() && Now() - t0 < budget; ++i) {
      uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
      while (lo < hi && i < best.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> c = best;
        c[i] = mid;
        if (attempt(c)) { progress = true; hi = i < best.size() ? std::min(mid, best[i]) : 0; }
        else lo = mid + 1;
        if (Now() - t0 > budget) break;
      }
    }
  }
  found->choices = best;
  found->f = bf;
  fprintf(stderr, "minimised to %zu choices in %d tries (%.1fs)\n", best.size(), tries, Now() - t0);
}

static std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

static void (*FindScenario(const std::string& prop))() {
  for (auto& s : *g_scen) if (prop == s.property) return s.fn;
  fprintf(stderr, "no scenario for %s\n", prop.c_str());
  exit(2);
}

static void OneLine(std::string* s) {
  for (char& c : *s) if (c == '\n') c = ' ';
}

static int Replay(const std::string& file, bool verbose) {
  std::ifstream in(file);
  std::string line, prop, want_key;
  std::vector<uint64_t> choices, prefix;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    std::string k;
    ls >> k;
    if (k == "property") ls >> prop;
    else if (k == "key") std::getline(ls >> std::ws, want_key);
    else if (k == "seed") ls >> g_seed;
    else if (k == "prefix") { uint64_t v; while (ls >> v) prefix.push_back(v); }
    else if (k == "choices") { size_t n; ls >> n; uint64_t v; while (n-- && in >> v) choices.push_back(v); }
    else if (k == "trace") break;
  }
  void (*fn)() = FindScenario(prop);
  g_verbose = verbose;
  g_labels = new std::vector<const char*>;
  g_trace = new std::string;
  g_slot = &g_sh->slots[0];
  g_prop = new std::string(prop);
  RunPrefix(fn, prefix);
  g_replay = true;
  g_in = &choices;
  Failure f;
  bool ok = Execute(fn, &f);
  if (verbose) {
    printf("--- choices\n");
    for (size_t i = 0; i < g_labels->size(); ++i)
      printf("%zu: %s = %llu\n", i, (*g_labels)[i], (unsigned long long)g_slot->choices[i]);
    printf("--- trace\n%s--- end\n", g_trace->c_str());
  }
  OneLine(&f.msg);
  printf("REPLAY key=%s hash=%016llx\nMESSAGE %s\n", ok ? "none" : f.key.c_str(),
         (unsigned long long)g_slot->hash, f.msg.c_str());
  return ok ? 0 : 1;
}

static int Main(int argc, char** argv) {
  std::map<std::string, std::string> a;
  std::string mode = argc > 1 ? argv[1] : "";
  std::vector<std::string> pos;
  for (int i = 2; i < argc; ++i) {
    std::string s = argv[i];
    if (s.substr(0, 2) == "--" && i + 1 < argc) a[s.substr(2)] = argv[++i];
    else pos.push_back(s);
  }
  g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  signal(SIGPROF, OnCpuLimit);
  if (mode == "list") {
    for (auto& s : *g_scen) printf("%s\n", s.property);
    return 0;
  }
  if (mode == "replay") return Replay(pos.at(0), pos.size() > 1);
  if (mode == "one") {  // sim one PROP SEED RUN [v]
    std::string prop = pos.at(0);
    void (*fn)() = FindScenario(prop);
    g_verbose = pos.size() > 3;
    g_labels = new std::vector<const char*>;
    g_trace = new std::string;
    g_slot = &g_sh->slots[0];
    SeedRng(RunSeed(strtoull(pos.at(1).c_str(), 0, 0), prop, strtoull(pos.at(2).c_str(), 0, 0)));
    Failure f;
    bool ok = Execute(fn, &f);
    if (g_verbose) printf("%s", g_trace->c_str());
    printf("choices=%zu hash=%016llx %s %s\n", NumChoices(), (unsigned long long)g_slot->hash,
           ok ? "OK" : f.key.c_str(), f.msg.c_str());
    return ok ? 0 : 1;
  }
  if (mode != "run") { fprintf(stderr, "usage: sim run|replay|one|list\n"); return 2; }

  std::string prop = a["prop"], out = a["out"], tmp = a["tmp"];
  uint64_t seed = strtoull(a["seed"].c_str(), 0, 0);
  g_prop = new std::string(prop);
  g_seed = seed;
  uint64_t runs = std::min<uint64_t>(strtoull(a["runs"].c_str(), 0, 0), kMaxRuns);
  double max_s = atof(a["max-seconds"].c_str());
  double min_budget = a.count("min-seconds") ? atof(a["min-seconds"].c_str()) : 25;
  int workers = a.count("workers") ? atoi(a["workers"].c_str()) : 8;
  if (workers > kMaxWorkers) workers = kMaxWorkers;
  size_t max_distinct = a.count("max-distinct") ? atoi(a["max-distinct"].c_str()) : 4;
  void (*fn)() = FindScenario(prop);
  double t0 = Now();
  std::vector<pid_t> pids(workers, 0);
  std::vector<Found> found;
  std::map<std::string, int> fail_counts;
  uint64_t total_failures = 0, counted_failures = 0;
  size_t counted_found = 0;
  // Keys of listed findings: they neither end the exploration nor crowd out other failures.
  std::vector<std::regex> known;
  if (a.count("known") && !a["known"].empty()) {
    std::istringstream ks(a["known"]);
    std::string k;
    while (std::getline(ks, k, '\n')) if (!k.empty()) known.emplace_back(k);
  }
  auto is_known = [&](const std::string& key) {
    for (auto& k : known) if (std::regex_match(key, k)) return true;
    return false;
  };
  auto spawn = [&](int w) {
    g_sh->slots[w].run = -1;
    g_sh->slots[w].kind = 0;
    g_sh->slots[w].nhist = 0;
    g_sh->slots[w].excused = 0;
    pid_t pid = fork();
    if (pid) { pids[w] = pid; return; }
    std::string log = tmp + Fmt("/w%d.log", w);
    int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    dup2(fd, 2);
    g_slot = &g_sh->slots[w];
    while (!g_sh->stop) {
      uint64_t r = g_sh->next_run++;
      if (r >= runs) break;
      if (Now() - t0 > max_s) break;
      g_slot->run = (int64_t)r;
      SeedRng(RunSeed(seed, prop, r));
      Failure f;
      const uint64_t c0 = CpuUs();
      bool ok = Execute(fn, &f);
      const uint64_t cu = CpuUs() - c0;
      if (cu > g_sh->slow_us) { g_sh->slow_us = cu; g_sh->slow_run = r; }
      g_sh->hashes[r] = g_slot->hash;
      ++g_sh->done;
      if (g_nontrivial) ++g_sh->nontrivial;
      if (!ok) { StoreFailure(g_slot, f); _exit(7); }  // parent collects
      g_slot->hist[g_slot->nhist++ % 2048] = r;
    }
    g_slot->run = -1;
    _exit(0);
  };
  for (int w = 0; w < workers; ++w) spawn(w);
  int alive = workers;
  uint64_t excused = 0;
  while (alive) {
    int st;
    pid_t pid = waitpid(-1, &st, 0);
    if (pid < 0) break;
    int w = -1;
    for (int i = 0; i < workers; ++i) if (pids[i] == pid) w = i;
    if (w < 0) continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { --alive; continue; }
    Slot* s = &g_sh->slots[w];
    if (s->excused && !(WIFEXITED(st) && WEXITSTATUS(st) == 7)) {
      ++g_sh->done;
      Count("skipped_runs");
      if (++excused >= 300) g_sh->stop = 1;
      if (g_sh->stop) { --alive; continue; }
      spawn(w);
      continue;
    }
    Found f;
    f.run = s->run;
    for (uint64_t i = s->nhist > 2048 ? s->nhist - 2048 : 0; i < s->nhist; ++i) f.prefix.push_back(s->hist[i % 2048]);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 7 && s->kind == 1) f.f = Failure{s->key, s->msg};
    else { f.f = ClassifyCrash(ReadFile(tmp + Fmt("/w%d.log", w)), st); ++g_sh->done; }
    f.hash = s->hash;
    f.choices.assign(s->choices, s->choices + std::min<uint64_t>(s->n, kMaxChoices));
    bool listed = is_known(f.f.key);
    ++total_failures;
    if (!listed) ++counted_failures;
    if (++fail_counts[f.f.key] == 1 && (listed || counted_found < max_distinct)) {
      found.push_back(f);
      if (!listed) ++counted_found;
    } else if (fail_counts[f.f.key] < 50)
      for (auto& g : found)
        if (g.f.key == f.f.key && f.choices.size() < g.choices.size()) g = f;
    if (counted_failures >= 200 || (counted_found >= max_distinct && counted_failures >= 60)) g_sh->stop = 1;
    if (g_sh->stop) { --alive; continue; }
    spawn(w);
  }
  double explore_s = Now() - t0;
  std::set<uint64_t> distinct;
  for (uint64_t r = 0; r < runs; ++r) if (g_sh->hashes[r]) distinct.insert(g_sh->hashes[r]);

  std::string fails;
  std::sort(found.begin(), found.end(), [](const Found& x, const Found& y) { return x.f.key < y.f.key; });
  int idx = 0;
  for (auto& f : found) {
    std::vector<uint64_t> before = f.prefix;
    f.prefix.clear();
    if (TryChoices(fn, f.choices, tmp, nullptr, nullptr).key != f.f.key && !before.empty()) {
      // Does it take the runs that the process made before?
      double p0 = Now();
      bool hit = false;
      for (size_t n = 1; !hit; n *= 4) {
        if (n > before.size()) n = before.size();
        std::vector<uint64_t> c(before.end() - (long)n, before.end());
        if (TryChoices(fn, f.choices, tmp, nullptr, nullptr, c).key == f.f.key) { f.prefix = c; hit = true; }
        if (n == before.size() || Now() - p0 > 60) break;
      }
      for (size_t len = f.prefix.size() / 2; len >= 1 && Now() - p0 < 60; len /= 2)
        for (size_t i = 0; i + len <= f.prefix.size() && Now() - p0 < 60;) {
          std::vector<uint64_t> c(f.prefix.begin(), f.prefix.begin() + (long)i);
          c.insert(c.end(), f.prefix.begin() + (long)(i + len), f.prefix.end());
          if (TryChoices(fn, f.choices, tmp, nullptr, nullptr, c).key == f.f.key) f.prefix = c; else i += len;
        }
    }
    Found orig = f;
    Minimise(fn, &f, tmp, min_budget);
    // Write the replay file: minimised if it still fails, else the original.
    uint64_t h1 = 0, h2 = 0;
    Failure r1 = TryChoices(fn, f.choices, tmp, nullptr, &h1, f.prefix);
    Failure r2 = TryChoices(fn, f.choices, tmp, nullptr, &h2, f.prefix);
    bool stable = r1.key == f.f.key && r2.key == f.f.key && h1 == h2;
    std::string path = a["replay-dir"] + Fmt("/%s-%llu-%d.replay", prop.c_str(), (unsigned long long)seed, idx++);
    std::ofstream o(path);
    std::string m = f.f.msg;
    OneLine(&m);
    o << "libwebm-sim-replay 1\nproperty " << prop << "\nseed " << seed << "\nrun " << f.run
      << "\nkey " << f.f.key << "\nhash " << Fmt("%016llx", (unsigned long long)h1)
      << "\nmessage " << m;
    if (!f.prefix.empty()) { o << "\nprefix"; for (uint64_t r : f.prefix) o << " " << r; }
    o << "\nchoices " << f.choices.size() << "\n";
    for (uint64_t c : f.choices) o << c << "\n";
    o.close();
    fails += (fails.empty() ? "" : ",") + std::string("{\"key\":") + JsonStr(f.f.key) +
             ",\"message\":" + JsonStr(f.f.msg) + ",\"run\":" + std::to_string(f.run) +
             ",\"count\":" + std::to_string(fail_counts[orig.f.key]) +
             ",\"hash\":\"" + Fmt("%016llx", (unsigned long long)h1) +
             "\",\"stable\":" + (stable ? "true" : "false") +
             ",\"choices\":" + std::to_string(f.choices.size()) +
             ",\"orig_choices\":" + std::to_string(orig.choices.size()) +
             ",\"replay\":" + JsonStr(path) + "}";
  }
  std::ofstream o(out);
  o << "{\"property\":" << JsonStr(prop) << ",\"seed\":" << seed << ",\"runs_requested\":" << runs
    << ",\"runs\":" << g_sh->done.load() << ",\"nontrivial\":" << g_sh->nontrivial.load()
    << ",\"distinct_histories\":" << distinct.size() << ",\"sim_steps\":" << g_sh->steps.load()
    << ",\"explore_s\":" << explore_s << ",\"slowest_run\":" << g_sh->slow_run << ",\"slowest_run_cpu_s\":" << g_sh->slow_us * 1e-6 << ",\"total_failures\":" << total_failures
    << ",\"failures\":[" << fails << "],\"counters\":{";
  std::map<std::string, uint64_t> cs;
  for (int i = 0; i < g_sh->ncounters; ++i) cs[g_sh->counters[i].name] += g_sh->counters[i].n;
  bool first = true;
  for (auto& c : cs) { o << (first ? "" : ",") << JsonStr(c.first) << ":" << c.second; first = false; }
  o << "}}\n";
  return found.empty() ? 0 : 1;
}
}  // namespace sim

void* operator new(size_t n) { return sim::Alloc(n, false, false); }
void* operator new[](size_t n) { return sim::Alloc(n, true, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::Alloc(n, false, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::Alloc(n, true, true); }
void operator delete(void* p) noexcept { sim::Free(p, false); }
void operator delete[](void* p) noexcept { sim::Free(p, true); }
void operator delete(void* p, size_t) noexcept { sim::Free(p, false); }
void operator delete[](void* p, size_t) noexcept { sim::Free(p, true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::Free(p, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::Free(p, true); }

extern "C" time_t __wrap_time(time_t* t) {
  if (t) *t = sim::g_now;
  return sim::g_now;
}

int main(int argc, char** argv) { return sim::Main(argc, argv); }
