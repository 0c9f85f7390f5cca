// Product and simulator allocators.  Product memory lives at a fixed address; placement and reuse order
// are a function of the layout seed only, so that heap addresses are a simulated choice and replay exactly.
#include "sim.hh"
#include <cerrno>
#include <cstring>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {
int g_depth = 0;
u64 g_steps = 0;
u64 g_next_tick = ~0ull;
bool g_failcheck = false;

static const uintptr_t PBASE = 0x100000000000ull, PSIZE = 1ull << 36;   // product arena
static const uintptr_t SBASE = 0x300000000000ull, SSIZE = 1ull << 34;   // simulator arena
static uintptr_t pcur = 0, scur = 0;
static bool inited = false;
static Rng lrng(1);
static int policy = 0;       // 0 LIFO ascending, 1 LIFO shuffled slabs, 2 random reuse, 3 descending slabs + FIFO
static u64 g_layout = 0;
static unsigned char fill_fresh = 0, fill_free = 0;
static bool do_fill = false;
static size_t live = 0, peak = 0;
u64 prod_bytes_peak() { return peak; }

[[noreturn]] static void die(const char* m) {
  ssize_t r = syscall(SYS_write, 2, m, strlen(m));
  (void)r;
  syscall(SYS_exit_group, 97);
  __builtin_unreachable();
}
static void init() {
  inited = true;
  void* p = (void*)syscall(SYS_mmap, PBASE, PSIZE, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if ((uintptr_t)p != PBASE) die("sim: cannot map product arena\n");
  p = (void*)syscall(SYS_mmap, SBASE, SSIZE, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if ((uintptr_t)p != SBASE) die("sim: cannot map simulator arena\n");
  pcur = PBASE + 4096;
  scur = SBASE + 4096;
}

struct Hdr { u64 size; uint32_t cls; uint32_t off; };   // off: distance from block start to user pointer
static const int NCLS = 160;
static size_t cls_size(int c) {
  if (c < 64) return 16 * (size_t)(c + 1);          // 16..1024
  int k = c - 64;                                     // 4 per doubling from 1024
  size_t base = (size_t)1024 << (k / 4);
  return base + base / 4 * (size_t)(k % 4 + 1);
}
static int cls_of(size_t n) {
  if (n == 0) n = 1;
  if (n <= 1024) return (int)((n + 15) / 16 - 1);
  int c = 64;
  while (cls_size(c) < n) {
    ++c;
    if (c >= NCLS) return -1;
  }
  return c;
}
struct FreeList { void** v; size_t n, cap; };
static FreeList fl[2][NCLS];
static void* bump(int ar, size_t n);
static void push(int ar, int c, void* p) {
  FreeList& f = fl[ar][c];
  if (f.n == f.cap) {
    size_t nc = f.cap ? f.cap * 2 : 32;
    void** nv = (void**)bump(1, nc * sizeof(void*));
    if (f.n) memcpy(nv, f.v, f.n * sizeof(void*));
    f.v = nv;   // the old array is abandoned (bounded by geometric growth)
    f.cap = nc;
  }
  f.v[f.n++] = p;
}
static void* bump(int ar, size_t n) {
  n = (n + 15) & ~(size_t)15;
  uintptr_t& cur = ar ? scur : pcur;
  uintptr_t r = cur;
  cur += n;
  if (cur > (ar ? SBASE + SSIZE : PBASE + PSIZE)) die("sim: arena exhausted\n");
  return (void*)r;
}
void layout_seed(u64 s) {
  g_layout = s;
  lrng = Rng(s);
  if (s == 0) {
    policy = 0;
    do_fill = false;
    return;
  }
  policy = (int)(lrng.below(4));
  do_fill = true;
  fill_fresh = (unsigned char)lrng.next();
  fill_free = (unsigned char)lrng.next();
  // random base displacement and gap
  pcur += 16 * lrng.below(1 << 16);
  // the existing free lists are shuffled so that even memory freed earlier is reused in a new order
  for (int c = 0; c < NCLS; ++c) {
    FreeList& f = fl[0][c];
    for (size_t i = f.n; i > 1; --i) {
      size_t j = lrng.below(i);
      void* t = f.v[i - 1];
      f.v[i - 1] = f.v[j];
      f.v[j] = t;
    }
  }
}
static void* raw_alloc(int ar, size_t n, int& cls) {
  cls = cls_of(n + sizeof(Hdr));
  if (cls < 0) return nullptr;
  FreeList& f = fl[ar][cls];
  size_t cs = cls_size(cls);
  if (f.n == 0) {
    size_t cnt = cs >= 16384 ? 1 : (cs >= 1024 ? 8 : 32);
    if (ar == 0 && g_layout != 0 && lrng.below(4) == 0) pcur += 16 * lrng.below(64);
    char* slab = (char*)bump(ar, cs * cnt);
    if (ar == 0 && (policy == 1 || policy == 2)) {
      int order[32];
      for (size_t i = 0; i < cnt; ++i) order[i] = (int)i;
      for (size_t i = cnt; i > 1; --i) {
        size_t j = lrng.below(i);
        int t = order[i - 1];
        order[i - 1] = order[j];
        order[j] = t;
      }
      for (size_t i = 0; i < cnt; ++i) push(ar, cls, slab + cs * (size_t)order[i]);
    } else if (ar == 0 && policy == 3) {
      for (size_t i = 0; i < cnt; ++i) push(ar, cls, slab + cs * i);   // popped from the top: descending
    } else {
      for (size_t i = cnt; i-- > 0;) push(ar, cls, slab + cs * i);
    }
  }
  size_t idx = f.n - 1;
  if (ar == 0 && policy == 2) idx = lrng.below(f.n);
  if (ar == 0 && policy == 3 && f.n > 4) idx = f.n - 1 - lrng.below(4);
  void* p = f.v[idx];
  f.v[idx] = f.v[f.n - 1];
  --f.n;
  return p;
}
static void* do_alloc(int ar, size_t n, size_t align) {
  if (!inited) init();
  size_t extra = align > 16 ? align : 0;
  int cls;
  char* b = (char*)raw_alloc(ar, n + extra, cls);
  if (!b) return nullptr;
  char* u = b + sizeof(Hdr);
  if (extra) u = (char*)(((uintptr_t)u + align - 1) & ~(uintptr_t)(align - 1));
  Hdr* h = (Hdr*)(u - sizeof(Hdr));
  h->size = n;
  h->cls = (uint32_t)cls;
  h->off = (uint32_t)(u - b);
  if (ar == 0) {
    live += n;
    if (live > peak) peak = live;
    if (do_fill) memset(u, fill_fresh, n > 65536 ? 65536 : n);
  }
  return u;
}
static void do_free(void* p) {
  if (!p) return;
  uintptr_t a = (uintptr_t)p;
  int ar;
  if (a >= PBASE && a < PBASE + PSIZE) ar = 0;
  else if (a >= SBASE && a < SBASE + SSIZE) ar = 1;
  else return;   // early ld.so memory
  Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
  if (h->cls & 0x80000000u) die("sim: double free\n");
  int cls = (int)h->cls;
  char* b = (char*)p - h->off;
  if (ar == 0) {
    live -= h->size;
    if (do_fill) memset(p, fill_free, h->size > 4096 ? 4096 : h->size);
  }
  h->cls |= 0x80000000u;
  push(ar, cls, b);
}
static inline bool step() {   // true: fail this allocation
  if (g_depth) return false;
  ++g_steps;
  if (__builtin_expect(g_steps >= g_next_tick, 0)) alloc_tick();
  if (__builtin_expect(g_failcheck, 0)) return alloc_fail();
  return false;
}
}  // namespace sim

using namespace sim;
extern "C" {
void* malloc(size_t n) {
  if (step()) { errno = ENOMEM; return nullptr; }
  void* p = do_alloc(g_depth ? 1 : 0, n, 16);
  if (!p) errno = ENOMEM;
  return p;
}
void free(void* p) { do_free(p); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = malloc(n);
  if (p) memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (n == 0) { free(p); return nullptr; }
  uintptr_t a = (uintptr_t)p;
  size_t old;
  if ((a >= PBASE && a < PBASE + PSIZE) || (a >= SBASE && a < SBASE + SSIZE)) old = ((Hdr*)((char*)p - sizeof(Hdr)))->size;
  else old = n;   // early ld.so memory (never happens in practice)
  void* q = malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
void* memalign(size_t al, size_t n) {
  if (step()) { errno = ENOMEM; return nullptr; }
  return do_alloc(g_depth ? 1 : 0, n, al < 16 ? 16 : al);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** r, size_t al, size_t n) {
  void* p = memalign(al, n);
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
void* valloc(size_t n) { return memalign(4096, n); }
void* pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~(size_t)4095); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((char*)p - sizeof(Hdr)))->size : 0; }
}
