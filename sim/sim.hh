// Deterministic simulator for the MiniZinc driver: internal interface.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <sys/types.h>

namespace sim {

typedef uint64_t u64;
typedef int64_t i64;

// ---- allocator (alloc.cc) -------------------------------------------------
extern int g_depth;          // >0: inside simulator code (allocations go to the simulator's own arena)
extern u64 g_steps;          // product allocations so far (the compiler's step counter)
struct Scope { Scope() { ++g_depth; } ~Scope() { --g_depth; } };
struct Unscope { int d; Unscope() : d(g_depth) { g_depth = 0; } ~Unscope() { g_depth = d; } };
void layout_seed(u64 s);     // choose address/reuse policy for product allocations from now on
void alloc_tick();           // called from malloc when a scheduled event is due (core.cc)
bool alloc_fail();           // consulted when g_failcheck is set (core.cc)
extern u64 g_next_tick;      // step at which alloc_tick must be called
extern bool g_failcheck;
u64 prod_bytes_peak();

// ---- random ----------------------------------------------------------------
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
  u64 next() {
    s += 0x9E3779B97F4A7C15ull;
    u64 z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  u64 range(u64 lo, u64 hi) { return hi <= lo ? lo : lo + below(hi - lo + 1); }
};

// ---- shared result area ------------------------------------------------------
enum Kind { K_NONE = 0, K_EXIT, K_SIGNAL, K_DEADLOCK, K_BUDGET, K_ABORT, K_NOSNAP, K_CRASH, K_CPU, K_SIMERR };
struct Blob { size_t len; size_t cap; size_t off; };
const size_t OUT_CAP = 6u << 20, ERR_CAP = 2u << 20, LOG_CAP = 6u << 20, EX_CAP = 4u << 20;
struct Result {
  volatile int kind;
  int code;
  u64 t0, t1, ops, steps, gcpoints, gcruns, loghash, ilhash;
  size_t outlen, errlen, loglen, exlen;
  char out[OUT_CAP];
  char err[ERR_CAP];
  char log[LOG_CAP];
  char ex[EX_CAP];
};
extern Result* R;

void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void exf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish(int kind, int code);

// ---- snapshot points ---------------------------------------------------------
void snap_point(const char* name);   // becomes the zygote server if this is the configured point

extern std::vector<std::string> g_args;   // driver arguments
void install_streams();
void flush_streams();
void restore_streams();
bool path_map(const char* p, char* out, size_t n);   // virtual -> real path
}  // namespace sim
