#include <execinfo.h>
// Simulator core: virtual clock, event queue, processes, pipes, signals, threads (coroutines), files with
// fault injection, and the libc symbols the product (and libstdc++/Gecode/CBC) call.
#include "sim.hh"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <ftw.h>
#include <iostream>
#include <poll.h>
#include <pthread.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <linux/futex.h>

namespace sim {

Result* R = nullptr;
std::vector<std::string> g_args;

// ------------------------------------------------------------------ configuration
struct Fault { std::string call, pat, kind; u64 nth, last, arg, seen, fired; };
struct SigEv { int sig; bool at_op; u64 when; };
struct Cfg {
  u64 seed = 1, op_lo = 1000, op_hi = 20000, alloc_ns = 100;
  u64 maxops = 200000, maxsteps = 0;   // maxsteps: product allocations after the snapshot (0: no bound)
  u64 gc_every = 0, gc_phase = 0, gc_permille = 0, gc_max = 0, gc_skip = 0;
  std::vector<u64> gc_at;
  u64 dirorder = 0, entropy = 0;
  bool realtime_tick = true;
  u64 cpu_s = 60;
};
static Cfg C;
static std::vector<Fault>* faults;
struct OpEv { u64 op; int what; i64 arg; };   // what: 0 stall, 1 wall clock jump, 2 signal
static std::vector<OpEv>* opevs;
struct StepEv { u64 step; int what; i64 arg; };
static std::vector<StepEv>* stepevs;
static u64 af_at = 0, af_n = 0, af_fired = 0;
struct Quota { std::string pat; u64 left; int err; u64 hits; };
static std::vector<Quota>* quotas;
static Rng rng(1), drng(1);

static std::string g_snap;               // configured snapshot point
static u64 g_snap_arg = 0;
static bool g_snapped = false;
static std::string g_scratch, g_lib;     // real directories behind /simwork and /simlib
static u64 g_tmpno = 0;
static bool g_started = false;           // product main is running

// ------------------------------------------------------------------ time, log
static u64 now_ns = 1000ull * 1000000000ull;                 // monotonic
static i64 wall_off = 1700000000ll * 1000000000ll;           // wall clock = monotonic + offset
static u64 step_base = 0;
static u64 snap_time = 0, snap_step = 0;
static u64 ops = 0;

static void hash_in(u64& h, const char* p, size_t n) {
  for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
}
static void sync_time() {   // compute time consumed by product allocations
  u64 d = g_steps - step_base;
  step_base = g_steps;
  now_ns += d * C.alloc_ns;
}
void logf(const char* fmt, ...) {
  char b[4096];
  int n = snprintf(b, sizeof b, "%llu ", (unsigned long long)(now_ns - snap_time));
  va_list ap;
  va_start(ap, fmt);
  int m = vsnprintf(b + n, sizeof b - (size_t)n - 2, fmt, ap);
  va_end(ap);
  if (m > (int)sizeof b - n - 3) m = (int)sizeof b - n - 3;
  b[n + m] = '\n';
  size_t len = (size_t)(n + m + 1);
  if (!R) return;
  hash_in(R->loghash, b, len);
  hash_in(R->ilhash, b + n, (size_t)m);
  if (R->loglen + len <= LOG_CAP) {
    memcpy(R->log + R->loglen, b, len);
    R->loglen += len;
  }
}
void exf(const char* fmt, ...) {
  char b[8192];
  va_list ap;
  va_start(ap, fmt);
  int m = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (m >= (int)sizeof b) m = sizeof b - 1;
  if (R && R->exlen + (size_t)m + 1 <= EX_CAP) {
    memcpy(R->ex + R->exlen, b, (size_t)m);
    R->exlen += (size_t)m;
    R->ex[R->exlen++] = '\n';
  }
}

// ------------------------------------------------------------------ pipes, processes, fds
struct Pipe { int id; std::string buf; int writers = 0, readers = 0; std::vector<int> blocked; };
struct Act { std::string what; u64 dt; std::string data; i64 arg, arg2; };
struct Proc {
  int pid, pgid, ppid;
  bool alive = true, zombie = false, reaped = false, is_driver = false, helper = false;
  int status = 0;                 // wait status
  Pipe *out = nullptr, *err = nullptr;
  std::vector<std::string> argv;
  std::vector<Act> script;
  size_t pc = 0;
  bool script_busy = false;       // an action is scheduled or blocked
  size_t wr_off = 0;              // progress of a partial write
  bool waiting_write = false;
  u64 gen = 0;                    // invalidates scheduled continuations
  std::map<int, int> disp;        // 0 default, 1 ignore, 2 handler script
  std::map<int, std::vector<Act>> hscript;
  std::set<int> blocked, pending, fork_handlers;
  bool exec_done = false;
  u64 helper_ignore = 0;
  std::string first_model;        // content of the model file as seen by the solver
  u64 n_out = 0, n_err = 0;       // bytes accepted by the pipes
};
struct Plan {                     // scripted behaviour of a solver
  std::vector<Act> script;
  std::map<int, int> disp;
  std::map<int, std::vector<Act>> hscript;
  u64 t_setpgid = 0, t_exec = 0;
};
static std::vector<Plan>* plans;        // plan i is for the i-th started process; the last one repeats
static std::vector<Proc*>* procs;
static Proc* driver;
static const int DRIVER_PID = 1000;
static int next_pid = 2001;
static int forks = 0;

struct Fd { int kind = 0; Pipe* p = nullptr; std::string path; bool wr = false; bool nonblock = false; };   // kind 0 none,1 pipe r,2 pipe w,3 file
static std::map<int, Fd>* fds;
static std::map<FILE*, int>* files;
static int next_pipe = 1;
static bool in_child = false;            // this process plays the child side of fork()
struct ChildReport { volatile int done; int execd; int code; int pgid_set; int in_kind, in_pipe, in_eof; int out_pipe, err_pipe; size_t outlen, errlen, argvlen, dlen[2]; int blockmask_int, blockmask_term, ign_int, ign_term; int extra_fds; char data[1 << 20]; };
static ChildReport* CR = nullptr;
static bool child_closed[3];

// ------------------------------------------------------------------ events
struct Ev { u64 t, seq; int kind; int pid; u64 gen; i64 arg; };
struct EvLess { bool operator()(const Ev& a, const Ev& b) const { return a.t != b.t ? a.t < b.t : a.seq < b.seq; } };
static std::set<Ev, EvLess>* evq;
static u64 ev_seq = 0;
enum { EV_ACT = 1, EV_SIGDRV, EV_SETPGID, EV_EXEC, EV_HELPER_END };
static void schedule(u64 t, int kind, int pid, u64 gen, i64 arg) { evq->insert(Ev{t, ++ev_seq, kind, pid, gen, arg}); }

// ------------------------------------------------------------------ driver signal state
struct Disp { int kind = 0; void (*h)(int) = nullptr; void (*h3)(int, siginfo_t*, void*) = nullptr; int flags = 0; };
static Disp drv_disp[65];
static u64 drv_mask = 0, drv_pending = 0;
static bool sig_interrupted = false;     // a handler without SA_RESTART ran (blocking calls return EINTR)
static bool in_handler = false;
static u64 sig_delivered = 0;
static u64 sigs_sent = 0;

static void deliver_driver(int sig) {
  if (sig != SIGCHLD) exf("drvsig %llu %d %s", (unsigned long long)(now_ns - snap_time), sig, drv_mask & (1ull << sig) ? "pending" : drv_disp[sig].kind == 0 ? "default" : drv_disp[sig].kind == 1 ? "ignored" : "handler");
  if (drv_mask & (1ull << sig)) { drv_pending |= 1ull << sig; return; }
  Disp& d = drv_disp[sig];
  logf("driver-signal %d %s", sig, d.kind == 0 ? "default" : d.kind == 1 ? "ignored" : "handler");
  if (d.kind == 1) return;
  if (d.kind == 0) {
    if (sig == SIGCHLD || sig == SIGWINCH || sig == SIGURG || sig == SIGCONT) return;
    finish(K_SIGNAL, sig);
  }
  ++sig_delivered;
  if (!(d.flags & SA_RESTART)) sig_interrupted = true;
  void (*h)(int) = d.h;
  void (*h3)(int, siginfo_t*, void*) = d.h3;
  if (d.flags & SA_RESETHAND) d = Disp();
  int e = errno;
  in_handler = true;
  {
    Unscope u;
    if (h) h(sig);
    else if (h3) { siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = sig; h3(sig, &si, nullptr); }
  }
  in_handler = false;
  errno = e;
}
static void drain_pending() {
  for (int s = 1; s < 65; ++s)
    if ((drv_pending & (1ull << s)) && !(drv_mask & (1ull << s))) {
      drv_pending &= ~(1ull << s);
      deliver_driver(s);
    }
}

// ------------------------------------------------------------------ processes
static Proc* by_pid(int pid) {
  for (Proc* p : *procs) if (p->pid == pid) return p;
  return nullptr;
}
static void run_writers(Pipe* p);
static void pipe_drop_writer(Pipe* p) {
  if (p && p->writers > 0) --p->writers;
}
static void close_stream(Proc* p, bool err) {
  Pipe*& q = err ? p->err : p->out;
  if (q) { logf("solver %d closes %s", p->pid, err ? "stderr" : "stdout"); pipe_drop_writer(q); q = nullptr; }
}
static void die_proc(Proc* p, int status) {
  if (!p->alive) return;
  p->alive = false;
  p->gen++;
  p->zombie = !p->helper;     // helpers are reparented to init and reaped there
  p->status = status;
  logf("%s %d ends status %d", p->helper ? "helper" : "solver", p->pid, status);
  if (!p->helper) exf("procend %llu %d %d %llu", (unsigned long long)(now_ns - snap_time), p->pid, status, (unsigned long long)p->n_out);
  pipe_drop_writer(p->out);
  pipe_drop_writer(p->err);
  p->out = p->err = nullptr;
  if (!p->helper) deliver_driver(SIGCHLD);
}
static std::string sol_path(Proc* p) {
  std::string f = p->argv.size() > 1 ? p->argv[1] : "";
  size_t d = f.find_last_of('.');
  if (d != std::string::npos) f = f.substr(0, d);
  return f + ".sol";
}
static std::string slurp_real(const std::string& vpath, bool& ok) {
  char rp[4096];
  path_map(vpath.c_str(), rp, sizeof rp);
  std::string s;
  int fd = (int)syscall(SYS_openat, AT_FDCWD, rp, O_RDONLY, 0);
  ok = fd >= 0;
  if (fd < 0) return s;
  char b[65536];
  ssize_t n;
  while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, (size_t)n);
  syscall(SYS_close, fd);
  return s;
}
static void put_real(const std::string& vpath, const std::string& data) {
  char rp[4096];
  path_map(vpath.c_str(), rp, sizeof rp);
  int fd = (int)syscall(SYS_openat, AT_FDCWD, rp, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return;
  size_t o = 0;
  while (o < data.size()) {
    ssize_t n = syscall(SYS_write, fd, data.data() + o, data.size() - o);
    if (n <= 0) break;
    o += (size_t)n;
  }
  syscall(SYS_close, fd);
}
static void observe_model(Proc* p, const char* when) {
  // look at every file argument of the solver, as a real solver would
  for (size_t i = 1; i < p->argv.size(); ++i) {
    const std::string& a = p->argv[i];
    if (a.find("/tmp/") == std::string::npos) continue;
    bool ok;
    std::string s = slurp_real(a, ok);
    u64 h = 1469598103934665603ull;
    hash_in(h, s.data(), s.size());
    exf("model %s %d %s %s %zu %016llx", when, p->pid, a.c_str(), ok ? "present" : "missing", s.size(), (unsigned long long)h);
    if (i == 1 || p->first_model.empty()) p->first_model = a;
  }
}
static void step_proc(Proc* p);
static void next_act(Proc* p) {
  if (!p->alive) return;
  if (p->pc >= p->script.size()) return;      // script over: the process just stays
  u64 lo = p->script[p->pc].dt;
  schedule(now_ns + lo, EV_ACT, p->pid, p->gen, 0);
}
static void write_done(Proc* p) {
  p->wr_off = 0;
  p->waiting_write = false;
  ++p->pc;
  next_act(p);
}
static void do_write(Proc* p, Pipe* q, const std::string& data) {
  if (!q) { write_done(p); return; }
  if (q->readers == 0) {     // SIGPIPE
    logf("solver %d SIGPIPE", p->pid);
    die_proc(p, SIGPIPE);
    return;
  }
  size_t room = q->buf.size() < 65536 ? 65536 - q->buf.size() : 0;
  size_t n = std::min(room, data.size() - p->wr_off);
  q->buf.append(data, p->wr_off, n);
  p->wr_off += n;
  if (q == p->out) p->n_out += n; else p->n_err += n;
  if (n) logf("solver %d wrote %zu to pipe %d", p->pid, n, q->id);
  if (p->wr_off < data.size()) {
    p->waiting_write = true;
    q->blocked.push_back(p->pid);
    return;
  }
  write_done(p);
}
static void run_writers(Pipe* q) {
  std::vector<int> b;
  b.swap(q->blocked);
  for (int pid : b) {
    Proc* p = by_pid(pid);
    if (p && p->alive && p->waiting_write) step_proc(p);
  }
}
static void step_proc(Proc* p) {
  if (!p->alive || p->pc >= p->script.size()) return;
  Act& a = p->script[p->pc];
  if (a.what == "out") { do_write(p, p->out, a.data); return; }
  if (a.what == "err") { do_write(p, p->err, a.data); return; }
  if (a.what == "closeout") close_stream(p, false);
  else if (a.what == "closeerr") close_stream(p, true);
  else if (a.what == "sol") { put_real(sol_path(p), a.data); logf("solver %d writes result file (%zu bytes)", p->pid, a.data.size()); }
  else if (a.what == "look") observe_model(p, "look");
  else if (a.what == "loop") { p->pc = (size_t)a.arg; next_act(p); return; }
  else if (a.what == "exit") { observe_model(p, "end"); die_proc(p, (int)((a.arg & 255) << 8)); return; }
  else if (a.what == "die") { die_proc(p, (int)a.arg & 127); return; }
  else if (a.what == "helper") {
    Proc* h = new Proc;
    h->pid = next_pid++;
    h->pgid = a.arg2 ? h->pid : p->pgid;
    h->ppid = 1;
    h->helper = true;
    h->exec_done = true;
    h->out = p->out;
    h->err = p->err;
    if (h->out) ++h->out->writers;
    if (h->err) ++h->err->writers;
    procs->push_back(h);
    logf("solver %d starts helper %d group %d", p->pid, h->pid, h->pgid);
    if (a.arg > 0) schedule(now_ns + (u64)a.arg, EV_HELPER_END, h->pid, h->gen, 0);
  }
  ++p->pc;
  next_act(p);
}
static void signal_proc(Proc* p, int sig) {
  if (!p->alive) return;
  if (sig == 0) return;
  exf("got %llu %d %d %d", (unsigned long long)(now_ns - snap_time), p->pid, sig, p->helper ? 1 : 0);
  if (sig == SIGKILL) { die_proc(p, SIGKILL); return; }
  if (p->blocked.count(sig)) { p->pending.insert(sig); logf("proc %d signal %d blocked", p->pid, sig); return; }
  int d = 0;
  if (p->disp.count(sig)) d = p->disp[sig];
  if (!p->exec_done) {
    // between fork and exec: dispositions are those inherited from the driver
    if (p->fork_handlers.count(sig)) { logf("proc %d signal %d swallowed by inherited handler", p->pid, sig); exf("swallowed %d %d", p->pid, sig); return; }
    d = 0;
  }
  if (d == 1) { logf("proc %d ignores signal %d", p->pid, sig); return; }
  if (d == 2) {
    logf("proc %d handles signal %d", p->pid, sig);
    if (!p->helper) exf("handled %llu %d %d %llu", (unsigned long long)(now_ns - snap_time), p->pid, sig, (unsigned long long)p->n_out);
    p->gen++;
    // a write that had only been partly accepted stays partly written
    p->wr_off = 0;
    p->waiting_write = false;
    p->script = p->hscript[sig];
    p->pc = 0;
    p->disp[sig] = 1;
    next_act(p);
    return;
  }
  if (sig == SIGCHLD || sig == SIGCONT) return;
  observe_model(p, "killed");
  die_proc(p, sig);
}
static void run_event(const Ev& e) {
  if (e.kind == EV_SIGDRV) { deliver_driver((int)e.arg); return; }
  Proc* p = by_pid(e.pid);
  if (!p || !p->alive) return;
  if (e.kind == EV_SETPGID) { p->pgid = p->pid; logf("solver %d own group", p->pid); return; }
  if (e.gen != p->gen) return;
  switch (e.kind) {
    case EV_EXEC:
      p->exec_done = true;
      logf("solver %d running", p->pid);
      observe_model(p, "start");
      for (int s : std::set<int>(p->pending)) if (!p->blocked.count(s)) { p->pending.erase(s); signal_proc(p, s); if (!p->alive) return; }
      next_act(p);
      break;
    case EV_ACT: step_proc(p); break;
    case EV_HELPER_END: die_proc(p, 0); break;
  }
}
static bool run_due() {
  bool any = false;
  while (!evq->empty() && evq->begin()->t <= now_ns) {
    Ev e = *evq->begin();
    evq->erase(evq->begin());
    run_event(e);
    any = true;
  }
  return any;
}

// ------------------------------------------------------------------ coroutine threads
struct Thr {
  int id; ucontext_t ctx; void* (*fn)(void*); void* arg; void* ret = nullptr;
  bool done = false, started = false, ready = true, detached = false, timed = false, timedout = false;
  u64 deadline = 0, ready_at = 0;
  const void* waitaddr = nullptr;      // futex/cond/mutex address
  const void* mutex = nullptr;
  int join_waits = 0;
  bool woken = false;
};
static std::vector<Thr*>* thrs;
static Thr* cur_thr = nullptr;         // nullptr: main
static ucontext_t main_ctx;
static const void* main_waitaddr = nullptr;
static bool main_woken = false;

static void co_entry() {
  Thr* t = cur_thr;
  {
    Unscope u;
    t->ret = t->fn(t->arg);
  }
  t->done = true;
  logf("thread %d ends", t->id);
  cur_thr = nullptr;
  swapcontext(&t->ctx, &main_ctx);
}
static void switch_to(Thr* t) {   // from main only
  int e = errno, d = g_depth;
  cur_thr = t;
  t->ready = false;
  t->started = true;
  swapcontext(&main_ctx, &t->ctx);
  cur_thr = nullptr;
  g_depth = d;
  errno = e;
}
static void co_block() {          // from a coroutine: back to main until made ready
  Thr* t = cur_thr;
  int e = errno, d = g_depth;
  swapcontext(&t->ctx, &main_ctx);
  g_depth = d;
  errno = e;
}
static bool run_threads() {       // run every coroutine that can run now (main context only)
  bool any = false;
  if (cur_thr || !thrs) return false;
  for (size_t i = 0; i < thrs->size(); ++i) {
    Thr* t = (*thrs)[i];
    if (t->done) continue;
    if (!t->ready && t->timed && t->deadline <= now_ns) {
      t->timed = false;
      t->timedout = true;
      t->waitaddr = nullptr;
      t->ready = true;
      logf("thread %d timer expires", t->id);
    }
    if (t->ready && t->ready_at <= now_ns) {
      switch_to(t);
      any = true;
    }
  }
  return any;
}
static u64 next_thread_time() {
  u64 n = ~0ull;
  if (!thrs) return n;
  for (Thr* t : *thrs) {
    if (t->done) continue;
    if (t->ready) n = std::min(n, std::max(t->ready_at, now_ns));
    else if (t->timed) n = std::min(n, t->deadline);
  }
  return n;
}

// ------------------------------------------------------------------ scheduling
static void compute_next_tick() {
  // next product allocation at which something must be looked at
  u64 n = ~0ull;
  u64 t = evq->empty() ? ~0ull : evq->begin()->t;
  t = std::min(t, next_thread_time());
  if (t != ~0ull) {
    u64 dt = t > now_ns ? t - now_ns : 0;
    u64 st = C.alloc_ns ? (dt + C.alloc_ns - 1) / C.alloc_ns : ~0ull >> 1;
    n = step_base + st;
    if (n < g_steps + 1) n = g_steps + 1;
  }
  for (StepEv& e : *stepevs) if (e.step + snap_step > g_steps) n = std::min(n, e.step + snap_step);
  if (C.maxsteps && g_snapped) n = std::min(n, std::max(g_steps + 1, snap_step + C.maxsteps));
  if (!g_snapped && g_snap == "step") n = std::min(n, std::max(g_steps + 1, g_snap_arg));
  g_next_tick = n;
}
static void wall_jump(i64 d) { wall_off += d; logf("wall clock jumps %lld", (long long)d); }
static void step_events() {
  for (size_t i = 0; i < stepevs->size();) {
    StepEv e = (*stepevs)[i];
    if (e.step + snap_step <= g_steps) {
      stepevs->erase(stepevs->begin() + (long)i);
      if (e.what == 0) { now_ns += (u64)e.arg; logf("stall %lld", (long long)e.arg); exf("fired stall %llu %lld", (unsigned long long)(now_ns - snap_time), (long long)e.arg); }
      else if (e.what == 1) { wall_jump(e.arg); exf("fired walljump"); }
      else if (e.what == 2) { exf("fired sigstep"); deliver_driver((int)e.arg); }
    } else ++i;
  }
}
void alloc_tick() {
  if (!g_started || cur_thr) {
    g_next_tick = g_steps + 1000;
    return;
  }
  Scope s;
  int e = errno;
  sync_time();
  if (!g_snapped && g_snap == "step" && g_steps >= g_snap_arg) snap_point("step");
  if (C.maxsteps && g_snapped && g_steps - snap_step >= C.maxsteps) finish(K_BUDGET, 2);
  step_events();
  run_due();
  run_threads();
  compute_next_tick();
  errno = e;
}
// Whether the allocation happens below an operation of a standard stream, which turns exceptions into its error state.
static bool af_stream_ok = false;
static bool under_stream() {
  void* fr[48];
  int n = backtrace(fr, 48);
  for (int i = 2; i < n && i < 24; ++i) {
    Dl_info d;
    if (!dladdr(fr[i], &d) || !d.dli_sname) continue;
    const char* s = d.dli_sname;
    if (strstr(s, "basic_stringbuf") || strstr(s, "__ostream_insert") || strstr(s, "_ZNSo") == s || strstr(s, "_ZNSi") == s || strstr(s, "basic_filebuf") || strstr(s, "_ZStls") == s || strstr(s, "_ZStrs") == s)
      return true;
  }
  return false;
}
static void log_frames() {
  void* fr[24];
  int n = backtrace(fr, 24);
  for (int i = 2; i < n; ++i) {
    Dl_info d;
    if (dladdr(fr[i], &d) && d.dli_sname) logf("  in %s", d.dli_sname);
  }
}
bool alloc_fail() {
  if (cur_thr) return false;
  u64 k = g_steps - snap_step;
  if (k >= af_at && k < af_at + af_n) {
    Scope s;
    bool st = under_stream();
    if (st && !af_stream_ok) { if (af_n < 1000000) ++af_at; return false; }
    if (!af_fired) { exf(st ? "fired allocfail-stream" : "fired allocfail"); logf("allocation %llu fails%s", (unsigned long long)k, st ? " below a stream operation" : ""); log_frames(); }
    ++af_fired;
    return true;
  }
  return false;
}

// an operation of the product: account time, deliver what is due.  Returns false if called outside the simulation.
static u64 idle_spin = 0, last_progress_seq = 0;
static bool op_begin() {
  if (!g_started) return false;
  sync_time();
  ++ops;
  if (g_snapped && ops > C.maxops) finish(K_BUDGET, 1);
  now_ns += rng.range(C.op_lo, C.op_hi);
  for (size_t i = 0; i < opevs->size();) {
    OpEv e = (*opevs)[i];
    if (ops >= e.op) {
      opevs->erase(opevs->begin() + (long)i);
      if (e.what == 0) { now_ns += (u64)e.arg; logf("stall %lld", (long long)e.arg); exf("fired stall %llu %lld", (unsigned long long)(now_ns - snap_time), (long long)e.arg); }
      else if (e.what == 1) { wall_jump(e.arg); exf("fired walljump"); }
      else { exf("fired sigop"); deliver_driver((int)e.arg); }
    } else ++i;
  }
  run_due();
  if (!cur_thr) run_threads();
  return true;
}
static void op_end() { if (!cur_thr) { compute_next_tick(); } }

// block the current context until cond() or deadline; returns 0 ok, 1 deadline, 2 interrupted by a signal handler
static bool in_pselect = false;      // the signal mask is already open: a handler that ran since then interrupts the call
static u64 g_bytes_moved = 0;
template <class F> static int block_until(F cond, u64 deadline, bool intr) {
  if (!in_pselect) sig_interrupted = false;
  for (;;) {
    if (cond()) return 0;
    if (intr && sig_interrupted) { sig_interrupted = false; return 2; }
    if (now_ns >= deadline) return 1;
    u64 n = evq->empty() ? ~0ull : evq->begin()->t;
    n = std::min(n, next_thread_time());
    n = std::min(n, deadline);
    if (n == ~0ull) {
      logf("deadlock");
      finish(K_DEADLOCK, 0);
    }
    if (n > now_ns) now_ns = n;
    run_due();
    run_threads();
  }
}
static Fault* fault(const char* call, const std::string& path) {
  if (!g_snapped && g_snap != "start") { /* faults are only active after the snapshot */ }
  for (Fault& f : *faults) {
    if (f.call != call) continue;
    if (!f.pat.empty() && path.find(f.pat) == std::string::npos) continue;
    ++f.seen;
    if (f.seen >= f.nth && f.seen <= f.last) {
      ++f.fired;
      exf("fired %s:%s", call, f.kind.c_str());
      logf("fault %s #%llu %s", call, (unsigned long long)f.seen, f.kind.c_str());
      return &f;
    }
  }
  return nullptr;
}
static int err_of(const std::string& k) {
  static const std::map<std::string, int> m = {{"EINTR", EINTR}, {"EIO", EIO}, {"EAGAIN", EAGAIN}, {"ENOMEM", ENOMEM}, {"EMFILE", EMFILE}, {"ENFILE", ENFILE}, {"ENOSPC", ENOSPC}, {"EDQUOT", EDQUOT}, {"ENOENT", ENOENT}, {"EACCES", EACCES}, {"ENOEXEC", ENOEXEC}, {"EPERM", EPERM}, {"EBADF", EBADF}, {"EFBIG", EFBIG}, {"ECHILD", ECHILD}, {"EINVAL", EINVAL}, {"EROFS", EROFS}, {"ETXTBSY", ETXTBSY}, {"E2BIG", E2BIG}, {"ESRCH", ESRCH}, {"ESTALE", ESTALE}};
  auto it = m.find(k);
  return it == m.end() ? EIO : it->second;
}

// ------------------------------------------------------------------ end of a run
static void list_dir(const std::string& real, const std::string& rel) {
  static auto r_opendir = (DIR * (*)(const char*)) dlsym(RTLD_NEXT, "opendir");
  static auto r_readdir = (struct dirent * (*)(DIR*)) dlsym(RTLD_NEXT, "readdir");
  static auto r_closedir = (int (*)(DIR*))dlsym(RTLD_NEXT, "closedir");
  DIR* d = r_opendir(real.c_str());
  if (!d) return;
  std::vector<std::string> names;
  while (struct dirent* e = r_readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") names.push_back(n);
  }
  r_closedir(d);
  std::sort(names.begin(), names.end());
  for (auto& n : names) exf("left %s/%s", rel.c_str(), n.c_str());
}
[[noreturn]] static void finish_child(int code);
[[noreturn]] void finish(int kind, int code) {
  ++g_depth;
  if (in_child) finish_child(kind == K_EXIT ? code : kind == K_SIGNAL ? 128 + code : 255);
  sync_time();
  if (R) {
    R->t1 = now_ns;
    R->ops = ops;
    R->steps = g_steps - snap_step;
    if (procs)
      for (Proc* p : *procs)
        exf("proc %d %s %s %s status %d pgid %d", p->pid, p->helper ? "helper" : "solver", p->alive ? "alive" : "dead",
            p->helper ? "-" : p->reaped ? "reaped" : "unreaped", p->status, p->pgid);
    int open_pipes = 0;
    if (fds) for (auto& f : *fds) if (f.second.kind == 1 || f.second.kind == 2) ++open_pipes;
    exf("openpipes %d", open_pipes);
    exf("handlers %d %d", drv_disp[SIGINT].kind, drv_disp[SIGTERM].kind);
    exf("forks %d", forks);
    exf("ended %d %d", kind, code);
    list_dir(g_scratch + "/tmp", "tmp");
    // progress of each actor's script
    for (Proc* p : *procs) if (!p->helper) exf("pc %d %zu %zu wrote %llu %llu", p->pid, p->pc, p->script.size(), (unsigned long long)p->n_out, (unsigned long long)p->n_err);
    for (Fault& f : *faults) exf("fault %s %s %s seen %llu fired %llu", f.call.c_str(), f.pat.c_str(), f.kind.c_str(), (unsigned long long)f.seen, (unsigned long long)f.fired);
    R->code = code;
    R->kind = kind;
  }
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}
[[noreturn]] static void finish_child(int code) {
  auto pid_of = [&](int fd) { auto it = fds->find(fd); return it != fds->end() && it->second.kind == 2 ? it->second.p->id : 0; };
  CR->out_pipe = pid_of(1);
  CR->err_pipe = pid_of(2);
  CR->execd = 0;
  CR->code = code;
  CR->done = 1;
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}

// ------------------------------------------------------------------ scenario
static std::string unhex(const std::string& h) {
  std::string s;
  for (size_t i = 0; i + 1 < h.size(); i += 2) {
    auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    s.push_back((char)(v(h[i]) * 16 + v(h[i + 1])));
  }
  return s;
}
static std::vector<std::string> split(const std::string& l) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < l.size()) {
    while (i < l.size() && l[i] == ' ') ++i;
    size_t j = i;
    while (j < l.size() && l[j] != ' ') ++j;
    if (j > i) v.push_back(l.substr(i, j - i));
    i = j;
  }
  return v;
}
static u64 U(const std::string& s) { return strtoull(s.c_str(), nullptr, 10); }
static i64 I(const std::string& s) { return strtoll(s.c_str(), nullptr, 10); }
static Act parse_act(const std::vector<std::string>& w, size_t k) {   // w[k] = what, w[k+1] = dt, ...
  Act a;
  a.what = w[k];
  a.dt = w.size() > k + 1 ? U(w[k + 1]) : 0;
  a.arg = a.arg2 = 0;
  if (a.what == "out" || a.what == "err" || a.what == "sol") a.data = w.size() > k + 2 ? unhex(w[k + 2]) : "";
  else {
    if (w.size() > k + 2) a.arg = I(w[k + 2]);
    if (w.size() > k + 3) a.arg2 = I(w[k + 3]);
  }
  return a;
}
static void set_stdin(const std::string& s);
static void apply_scenario(const std::string& text) {
  size_t i = 0;
  if (plans->empty()) plans->push_back(Plan());
  size_t cur = 0;
  bool layout_set = false;
  while (i < text.size()) {
    size_t j = text.find('\n', i);
    if (j == std::string::npos) j = text.size();
    std::vector<std::string> w = split(text.substr(i, j - i));
    i = j + 1;
    if (w.empty() || w[0][0] == '#') continue;
    const std::string& k = w[0];
    if (k == "seed") { C.seed = U(w[1]); rng = Rng(C.seed); drng = Rng(C.seed ^ 0x5555); }
    else if (k == "opcost") { C.op_lo = U(w[1]); C.op_hi = U(w[2]); }
    else if (k == "alloccost") { sync_time(); C.alloc_ns = U(w[1]); }
    else if (k == "advance") { now_ns += U(w[1]); }
    else if (k == "maxops") C.maxops = ops + U(w[1]);
    else if (k == "maxsteps") C.maxsteps = U(w[1]);
    else if (k == "cpu") C.cpu_s = U(w[1]);
    else if (k == "layout") { layout_seed(U(w[1])); layout_set = true; }
    else if (k == "entropy") C.entropy = U(w[1]);
    else if (k == "wall") wall_off = I(w[1]);
    else if (k == "dirorder") C.dirorder = U(w[1]);
    else if (k == "plan") { cur = U(w[1]); while (plans->size() <= cur) plans->push_back(Plan()); }
    else if (k == "a") (*plans)[cur].script.push_back(parse_act(w, 1));
    else if (k == "start") { (*plans)[cur].t_setpgid = U(w[1]); (*plans)[cur].t_exec = U(w[2]); }
    else if (k == "on") (*plans)[cur].disp[(int)I(w[1])] = w[2] == "ignore" ? 1 : w[2] == "script" ? 2 : 0;
    else if (k == "s") (*plans)[cur].hscript[(int)I(w[1])].push_back(parse_act(w, 2));
    else if (k == "sig") {
      if (w[2] == "at") schedule(now_ns + U(w[3]), EV_SIGDRV, DRIVER_PID, 0, I(w[1]));
      else if (w[2] == "op") opevs->push_back(OpEv{ops + U(w[3]), 2, I(w[1])});
      else if (w[2] == "step") stepevs->push_back(StepEv{U(w[3]), 2, I(w[1])});
    }
    else if (k == "stall") {   // stall op|step n ns
      if (w[1] == "op") opevs->push_back(OpEv{ops + U(w[2]), 0, I(w[3])});
      else stepevs->push_back(StepEv{U(w[2]), 0, I(w[3])});
    }
    else if (k == "jump") {
      if (w[1] == "op") opevs->push_back(OpEv{ops + U(w[2]), 1, I(w[3])});
      else stepevs->push_back(StepEv{U(w[2]), 1, I(w[3])});
    }
    else if (k == "fault") {   // fault call pat|- nth last kind [arg]
      Fault f;
      f.call = w[1];
      f.pat = w[2] == "-" ? "" : w[2];
      f.nth = U(w[3]);
      f.last = U(w[4]);
      if (f.last == 0) f.last = ~0ull;
      f.kind = w[5];
      f.arg = w.size() > 6 ? U(w[6]) : 0;
      f.seen = f.fired = 0;
      faults->push_back(f);
    }
    else if (k == "stdin") set_stdin(w.size() > 1 ? unhex(w[1]) : "");
    else if (k == "quota") quotas->push_back(Quota{w[1] == "-" ? "" : w[1], U(w[2]), err_of(w[3]), 0});
    else if (k == "allocstream") af_stream_ok = true;
    else if (k == "allocfail") { af_at = U(w[1]); af_n = U(w[2]); g_failcheck = true; }
    else if (k == "gc") {
      if (w[1] == "every") { C.gc_every = U(w[2]); C.gc_phase = w.size() > 3 ? U(w[3]) : 0; }
      else if (w[1] == "prob") C.gc_permille = U(w[2]);
      else if (w[1] == "max") C.gc_max = U(w[2]);
      else if (w[1] == "skip") C.gc_skip = U(w[2]);
      else for (size_t q = 2; q < w.size(); ++q) C.gc_at.push_back(U(w[q]));
    }
    else { exf("bad-scenario-line %s", k.c_str()); finish(K_SIMERR, 1); }
  }
  (void)layout_set;
  std::sort(C.gc_at.begin(), C.gc_at.end());
}

// ------------------------------------------------------------------ zygote
static int ctl_in = -1, ctl_out = -1;
static bool read_full(int fd, void* b, size_t n) {
  size_t o = 0;
  while (o < n) {
    ssize_t r = syscall(SYS_read, fd, (char*)b + o, n - o);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) return false;
    o += (size_t)r;
  }
  return true;
}
static void write_full(int fd, const void* b, size_t n) {
  size_t o = 0;
  while (o < n) {
    ssize_t r = syscall(SYS_write, fd, (const char*)b + o, n - o);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) syscall(SYS_exit_group, 0);
    o += (size_t)r;
  }
}
static int real_fork() {
  static auto f = (int (*)())dlsym(RTLD_NEXT, "fork");
  return f();
}
// SIM_DBG=1: the call stack of a crash on the zygote's standard error
static const bool g_dbg = getenv("SIM_DBG") != nullptr;
static void crash_report() {
  static char alt[1 << 17];
  stack_t st = {alt, 0, sizeof alt};
  ((int (*)(const stack_t*, stack_t*))dlsym(RTLD_NEXT, "sigaltstack"))(&st, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = [](int sg) {
    static void* fr[80];
    backtrace_symbols_fd(fr, backtrace(fr, 80), 2);
    struct sigaction d;
    memset(&d, 0, sizeof d);
    ((int (*)(int, const struct sigaction*, struct sigaction*))dlsym(RTLD_NEXT, "sigaction"))(sg, &d, nullptr);
  };
  sa.sa_flags = SA_ONSTACK;
  for (int sg : {SIGSEGV, SIGBUS, SIGABRT}) ((int (*)(int, const struct sigaction*, struct sigaction*))dlsym(RTLD_NEXT, "sigaction"))(sg, &sa, nullptr);
}
static void send_result(int wstatus) {
  char h[512];
  int kind = R->kind, code = R->code;
  if (kind == K_NONE) {
    if (WIFSIGNALED(wstatus)) { kind = (WTERMSIG(wstatus) == SIGXCPU || WTERMSIG(wstatus) == SIGPROF) ? K_CPU : K_CRASH; code = WTERMSIG(wstatus); }
    else { kind = K_SIMERR; code = WEXITSTATUS(wstatus); }
  }
  int n = snprintf(h, sizeof h, "R %d %d %llu %llu %llu %llu %llu %llu %016llx %016llx %zu %zu %zu %zu\n", kind, code,
                   (unsigned long long)R->t0, (unsigned long long)R->t1, (unsigned long long)R->ops, (unsigned long long)R->steps,
                   (unsigned long long)R->gcpoints, (unsigned long long)R->gcruns, (unsigned long long)R->loghash,
                   (unsigned long long)R->ilhash, R->outlen, R->errlen, R->loglen, R->exlen);
  write_full(ctl_out, h, (size_t)n);
  write_full(ctl_out, R->out, R->outlen);
  write_full(ctl_out, R->err, R->errlen);
  write_full(ctl_out, R->log, R->loglen);
  write_full(ctl_out, R->ex, R->exlen);
}
void snap_point(const char* name) {
  if (g_snapped || g_snap != name || ctl_in < 0) return;
  if (cur_thr) return;
  Scope s;
  sync_time();
  g_snapped = true;
  snap_time = now_ns;
  snap_step = g_steps;
  ops = 0;
  char hello[128];
  int hn = snprintf(hello, sizeof hello, "SNAP %s %llu\n", name, (unsigned long long)g_steps);
  write_full(ctl_out, hello, (size_t)hn);
  for (;;) {
    char h[32];
    if (!read_full(ctl_in, h, 16)) syscall(SYS_exit_group, 0);
    h[16] = 0;
    size_t n = (size_t)strtoull(h, nullptr, 10);
    std::string text(n, '\0');
    if (!read_full(ctl_in, &text[0], n)) syscall(SYS_exit_group, 0);
    R->kind = K_NONE;
    R->code = 0;
    // output produced before the snapshot stays part of every run
    size_t o0 = R->outlen, e0 = R->errlen, l0 = R->loglen, x0 = R->exlen;
    u64 lh = R->loghash, ih = R->ilhash, gp = R->gcpoints, gr = R->gcruns;
    R->t0 = now_ns;
    int pid = real_fork();
    if (pid == 0) {
      syscall(SYS_prctl, 1 /*PR_SET_PDEATHSIG*/, SIGKILL, 0, 0, 0);
      if (g_dbg) crash_report();
      apply_scenario(text);
      struct rlimit rl = {C.cpu_s, C.cpu_s + 5};
      setrlimit(RLIMIT_CPU, &rl);
      compute_next_tick();
      run_due();
      return;
    }
    int st = 0;
    if (pid > 0) {
      while (syscall(SYS_wait4, pid, &st, 0, nullptr) < 0 && errno == EINTR) {}
    }
    send_result(st);
    R->outlen = o0; R->errlen = e0; R->loglen = l0; R->exlen = x0;
    R->loghash = lh; R->ilhash = ih; R->gcpoints = gp; R->gcruns = gr;
  }
}

// ------------------------------------------------------------------ paths
bool path_map(const char* p, char* out, size_t n) {
  if (p && strncmp(p, "/simwork", 8) == 0 && (p[8] == '/' || p[8] == 0)) { snprintf(out, n, "%s%s", g_scratch.c_str(), p + 8); return true; }
  if (p && strncmp(p, "/simlib", 7) == 0 && (p[7] == '/' || p[7] == 0)) { snprintf(out, n, "%s%s", g_lib.c_str(), p + 7); return true; }
  if (p && p[0] != '/' && g_started && p[0]) { snprintf(out, n, "%s/%s", g_scratch.c_str(), p); return true; }
  snprintf(out, n, "%s", p ? p : "");
  return false;
}
static std::string virt(const char* real) {
  std::string s = real;
  if (s.compare(0, g_scratch.size(), g_scratch) == 0) return "/simwork" + s.substr(g_scratch.size());
  if (s.compare(0, g_lib.size(), g_lib) == 0) return "/simlib" + s.substr(g_lib.size());
  return s;
}

// ------------------------------------------------------------------ streams
class OutBuf : public std::streambuf {
public:
  bool err;
  std::string b;
  bool child_gone = false;
  explicit OutBuf(bool e) : err(e) {}
  void emit() {
    if (b.empty()) return;
    std::string t;
    t.swap(b);
    if (in_child) {
      // the child side of fork: fd 1/2 are whatever dup2 made them
      auto it = fds->find(err ? 2 : 1);
      if (it != fds->end() && it->second.kind == 2) {
        size_t& l = err ? CR->errlen : CR->outlen;
        char* base = CR->data + (err ? (size_t)1 << 18 : (size_t)1 << 19);
        size_t n = std::min(t.size(), ((size_t)1 << 18) - l);
        memcpy(base + l, t.data(), n);
        l += n;
      } else if (it == fds->end() && !child_closed[err ? 2 : 1]) {   // still the driver's own stream
        size_t& l = CR->dlen[err];
        char* base = CR->data + 3 * ((size_t)1 << 18) + (err ? (size_t)1 << 17 : 0);
        size_t n = std::min(t.size(), ((size_t)1 << 17) - l);
        memcpy(base + l, t.data(), n);
        l += n;
      }
      return;
    }
    size_t& l = err ? R->errlen : R->outlen;
    size_t cap = err ? ERR_CAP : OUT_CAP;
    size_t n = std::min(t.size(), cap - l);
    memcpy((err ? R->err : R->out) + l, t.data(), n);
    u64 h = 1469598103934665603ull;
    hash_in(h, t.data(), t.size());
    l += n;
    logf("%s %zu %016llx", err ? "stderr" : "stdout", t.size(), (unsigned long long)h);
    exf("flush %s %llu %zu", err ? "err" : "out", (unsigned long long)(now_ns - snap_time), l);
  }
  int_type overflow(int_type c) override {
    Scope s;
    if (c != traits_type::eof()) { b.push_back((char)c); if (b.size() >= 4096) emit(); }
    return traits_type::not_eof(c);
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    Scope s;
    b.append(p, (size_t)n);
    if (b.size() >= 4096) emit();
    return n;
  }
  int sync() override { Scope s; sync_time(); emit(); return 0; }
};
class InBuf : public std::streambuf {
public:
  std::string data; size_t pos = 0; char cur[4096];
  int_type underflow() override {
    Scope s;
    op_begin();
    if (pos >= data.size()) { op_end(); return traits_type::eof(); }
    size_t n = std::min<size_t>(data.size() - pos, sizeof cur);
    if (Fault* f = fault("stdin", "")) {
      if (f->kind == "short") n = std::min<size_t>(n, f->arg ? f->arg : 1);
      else { stdin->_flags |= 0x20; op_end(); errno = err_of(f->kind); return traits_type::eof(); }   // as getc: EOF and the error indicator
    }
    if (C.entropy & 1) n = 1 + drng.below(n);
    memcpy(cur, data.data() + pos, n);
    pos += n;
    setg(cur, cur, cur + n);
    op_end();
    return traits_type::to_int_type(cur[0]);
  }
};
static OutBuf *ob, *eb;
static InBuf* ib;
static void set_stdin(const std::string& s) { ib->data = s; ib->pos = 0; }
static std::streambuf *o0, *e0, *l0, *i0;
void install_streams() {
  Scope s;
  ob = new OutBuf(false);
  eb = new OutBuf(true);
  ib = new InBuf;
  o0 = std::cout.rdbuf(ob);
  e0 = std::cerr.rdbuf(eb);
  l0 = std::clog.rdbuf(eb);
  i0 = std::cin.rdbuf(ib);
}
void flush_streams() { Scope s; if (ob) { ob->emit(); eb->emit(); } }
void restore_streams() {}

template <class T> static T real(const char* name) { Scope s; return (T)dlsym(RTLD_NEXT, name); }
#define REAL(name, type) static auto r_##name = real<type>(#name)

// called by main
static std::string read_file(const char* p) {
  std::string s;
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDONLY, 0);
  if (fd < 0) return s;
  char b[65536];
  ssize_t n;
  while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, (size_t)n);
  syscall(SYS_close, fd);
  return s;
}
static std::vector<std::pair<std::string, std::string>>* envs;
static void load_prefix(const char* file) {
  std::string t = read_file(file);
  size_t i = 0;
  std::string scen;
  while (i < t.size()) {
    size_t j = t.find('\n', i);
    if (j == std::string::npos) j = t.size();
    std::string l = t.substr(i, j - i);
    std::vector<std::string> w = split(l);
    i = j + 1;
    if (w.empty()) continue;
    if (w[0] == "arg") g_args.push_back(w.size() > 1 ? unhex(w[1]) : "");
    else if (w[0] == "scratch") g_scratch = unhex(w[1]);
    else if (w[0] == "lib") g_lib = unhex(w[1]);
    else if (w[0] == "env") envs->push_back({w[1], w.size() > 2 ? unhex(w[2]) : ""});
    else if (w[0] == "snap") { g_snap = w[1]; g_snap_arg = w.size() > 2 ? U(w[2]) : 0; }
    else if (w[0] == "stdin") ib->data = w.size() > 1 ? unhex(w[1]) : "";
    else if (w[0] == "ctl") { ctl_in = (int)I(w[1]); ctl_out = (int)I(w[2]); }
    else scen += l + "\n";
  }
  apply_scenario(scen);
}
static void init_all() {
  plans = new std::vector<Plan>;
  procs = new std::vector<Proc*>;
  faults = new std::vector<Fault>;
  opevs = new std::vector<OpEv>;
  stepevs = new std::vector<StepEv>;
  quotas = new std::vector<Quota>;
  fds = new std::map<int, Fd>;
  files = new std::map<FILE*, int>;
  evq = new std::set<Ev, EvLess>;
  thrs = new std::vector<Thr*>;
  envs = new std::vector<std::pair<std::string, std::string>>;
  R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  CR = (ChildReport*)mmap(nullptr, sizeof(ChildReport), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  R->loghash = R->ilhash = 1469598103934665603ull;
}
int sim_main(const char* prefix, int (*product)(int, const char**)) {
  static std::vector<const char*>* av;
  {
    Scope s;
    init_all();
    install_streams();
    load_prefix(prefix);
    clearenv();
    for (auto& e : *envs) setenv(e.first.c_str(), e.second.c_str(), 1);
    if (chdir(g_scratch.c_str()) != 0) {}
    av = new std::vector<const char*>;
    av->push_back("/simbin/minizinc");
    for (auto& a : g_args) av->push_back(a.c_str());
    g_started = true;
    snap_time = now_ns;
    compute_next_tick();
    if (g_snap == "none") {   // a single run without zygote
      g_snapped = true;
      snap_time = now_ns;
      snap_step = g_steps;
      R->t0 = now_ns;
    }
    snap_point("start");
  }
  int rc = product((int)av->size(), av->data());
  {
    Scope s;
    flush_streams();
    if (!g_snapped && ctl_out >= 0) {
      // the configured snapshot point was never reached
      write_full(ctl_out, "NOSNAP\n", 7);
      syscall(SYS_exit_group, 0);
    }
    finish(K_EXIT, rc);
  }
}
}  // namespace sim

using namespace sim;

// =====================================================================================================
// libc symbols
// =====================================================================================================
extern "C" {

// ---- garbage collection hook (guarded hook in lib/gc.cpp)
static u64 gc_requests = 0;
int mzn_sim_gc_point() {
  if (!R || !g_started) return 0;
  u64 k = ++R->gcpoints;
  bool go = false;
  if (!g_snapped && g_snap == "gc" && k >= g_snap_arg) snap_point("gc");
  if (!g_snapped) return 0;
  if (C.gc_every && k % C.gc_every == C.gc_phase % C.gc_every) go = true;
  if (C.gc_permille && drng.below(1000) < C.gc_permille) go = true;
  if (!C.gc_at.empty() && std::binary_search(C.gc_at.begin(), C.gc_at.end(), k)) go = true;
  if (go) {           // the requests that are granted: all but the first gc_skip, up to number gc_max
    u64 i = gc_requests++;
    go = i >= C.gc_skip && (!C.gc_max || i < C.gc_max);
  }
  if (go) {
    ++R->gcruns;
    hash_in(R->loghash, (const char*)&k, sizeof k);
    hash_in(R->ilhash, (const char*)&k, sizeof k);
  }
  return go ? 1 : 0;
}

// ---- clocks
static void ts_of(u64 ns, struct timespec* t) { t->tv_sec = (time_t)(ns / 1000000000ull); t->tv_nsec = (long)(ns % 1000000000ull); }
int clock_gettime(clockid_t id, struct timespec* t) {
  Scope s;
  if (!op_begin()) return (int)syscall(SYS_clock_gettime, id, t);
  u64 v = now_ns;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) v = (u64)((i64)now_ns + wall_off);
  ts_of(v, t);
  op_end();
  return 0;
}
int clock_getres(clockid_t, struct timespec* t) { if (t) { t->tv_sec = 0; t->tv_nsec = 1; } return 0; }
int gettimeofday(struct timeval* tv, void*) {
  Scope s;
  op_begin();
  u64 v = (u64)((i64)now_ns + wall_off);
  tv->tv_sec = (time_t)(v / 1000000000ull);
  tv->tv_usec = (suseconds_t)(v % 1000000000ull / 1000);
  op_end();
  return 0;
}
time_t time(time_t* t) {
  Scope s;
  op_begin();
  time_t v = (time_t)(((i64)now_ns + wall_off) / 1000000000ll);
  if (t) *t = v;
  op_end();
  return v;
}
clock_t clock() {
  Scope s;
  op_begin();
  op_end();
  return (clock_t)((now_ns - 1000ull * 1000000000ull) / 1000);
}
clock_t times(struct tms* b) {
  Scope s;
  op_begin();
  op_end();
  if (b) { memset(b, 0, sizeof *b); b->tms_utime = (clock_t)(now_ns / 10000000ull); }
  return (clock_t)(now_ns / 10000000ull);
}
int getrusage(__rusage_who_t, struct rusage* u) {
  Scope s;
  op_begin();
  op_end();
  memset(u, 0, sizeof *u);
  u64 v = now_ns - 1000ull * 1000000000ull;
  u->ru_utime.tv_sec = (time_t)(v / 1000000000ull);
  u->ru_utime.tv_usec = (suseconds_t)(v % 1000000000ull / 1000);
  return 0;
}
static int sim_sleep(u64 ns, bool intr) {
  Scope s;
  op_begin();
  u64 dl = now_ns + ns;
  if (cur_thr) {
    cur_thr->timed = true;
    cur_thr->deadline = dl;
    co_block();
    return 0;
  }
  int r = block_until([] { return false; }, dl, intr);
  op_end();
  return r;
}
int nanosleep(const struct timespec* t, struct timespec* rem) {
  if (!g_started) return (int)syscall(SYS_nanosleep, t, rem);
  int r = sim_sleep((u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec, true);
  if (r == 2) { if (rem) memset(rem, 0, sizeof *rem); errno = EINTR; return -1; }
  return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* t, struct timespec* rem) {
  u64 v = (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec;
  if (flags & TIMER_ABSTIME) {
    u64 n = id == CLOCK_REALTIME ? (u64)((i64)now_ns + wall_off) : now_ns;
    v = v > n ? v - n : 0;
  }
  int r = sim_sleep(v, true);
  (void)rem;
  return r == 2 ? EINTR : 0;
}
int usleep(useconds_t us) { int r = sim_sleep((u64)us * 1000, true); if (r == 2) { errno = EINTR; return -1; } return 0; }
unsigned sleep(unsigned sec) { sim_sleep((u64)sec * 1000000000ull, true); return 0; }

// ---- process identity
pid_t getpid() { return g_started ? DRIVER_PID : (pid_t)syscall(SYS_getpid); }
pid_t getppid() { return 999; }
pid_t getpgrp() { return DRIVER_PID; }
pid_t getpgid(pid_t p) { if (p == 0 || p == DRIVER_PID) return DRIVER_PID; Scope s; Proc* q = by_pid(p); if (q && !q->reaped) return q->pgid; errno = ESRCH; return -1; }

// ---- signals
int sigaction(int sig, const struct sigaction* a, struct sigaction* o) {
  if (!g_started || sig < 1 || sig > 64) return 0;
  Scope s;
  op_begin();
  Disp& d = drv_disp[sig];
  if (o) {
    memset(o, 0, sizeof *o);
    o->sa_handler = d.kind == 0 ? SIG_DFL : d.kind == 1 ? SIG_IGN : d.h;
    if (d.kind == 2 && d.h3) o->sa_sigaction = d.h3;
    o->sa_flags = d.flags;
  }
  if (a) {
    Disp n;
    n.flags = a->sa_flags;
    if (a->sa_handler == SIG_DFL) n.kind = 0;
    else if (a->sa_handler == SIG_IGN) n.kind = 1;
    else { n.kind = 2; if (a->sa_flags & SA_SIGINFO) n.h3 = a->sa_sigaction; else n.h = a->sa_handler; }
    d = n;
    logf("sigaction %d kind %d", sig, n.kind);
  }
  op_end();
  return 0;
}
typedef void (*sigh)(int);
sigh signal(int sig, sigh h) {
  struct sigaction a, o;
  memset(&a, 0, sizeof a);
  a.sa_handler = h;
  a.sa_flags = SA_RESTART;
  sigaction(sig, &a, &o);
  return o.sa_handler;
}
int sigaltstack(const stack_t*, stack_t* o) { if (o) memset(o, 0, sizeof *o); return 0; }
static u64 mask_of(const sigset_t* s) { u64 m = 0; for (int i = 1; i < 65; ++i) if (sigismember(s, i) == 1) m |= 1ull << i; return m; }
int pthread_sigmask(int how, const sigset_t* set, sigset_t* old) {
  if (!g_started) return 0;
  Scope s;
  op_begin();
  if (old) { sigemptyset(old); for (int i = 1; i < 65; ++i) if (drv_mask & (1ull << i)) sigaddset(old, i); }
  if (set) {
    u64 m = mask_of(set);
    if (how == SIG_BLOCK) drv_mask |= m;
    else if (how == SIG_UNBLOCK) drv_mask &= ~m;
    else drv_mask = m;
    logf("sigmask int %d term %d", (int)(drv_mask >> SIGINT & 1), (int)(drv_mask >> SIGTERM & 1));
    drain_pending();
  }
  op_end();
  return 0;
}
int sigprocmask(int how, const sigset_t* set, sigset_t* old) { return pthread_sigmask(how, set, old); }

static int send_signal(pid_t pid, bool group, int sig, const char* call) {
  op_begin();
  if (Fault* f = fault(call, "")) {
    int e = err_of(f->kind);
    logf("%s %d %d = fault", call, (int)pid, sig);
    op_end();
    errno = e;
    return -1;
  }
  ++sigs_sent;
  int n = 0;
  bool foreign = false;
  std::vector<Proc*> tg;
  bool self = false;
  if (group) {
    if (pid == 0 || pid == DRIVER_PID || pid == 1 || pid < 0) foreign = true;   // the driver's own group holds other processes
    else for (Proc* p : *procs) if (p->pgid == pid && (p->alive || p->zombie)) tg.push_back(p);
  } else {
    if (pid == DRIVER_PID) self = true;
    else if (pid <= 0) foreign = true;
    else for (Proc* p : *procs) if (p->pid == pid && (p->alive || (p->zombie && !p->reaped))) tg.push_back(p);
  }
  bool known = self || !tg.empty();
  bool own_unborn = false;   // killpg before the child has made its own group
  if (group && !known) { Proc* p = by_pid(pid); own_unborn = p && !p->reaped; }
  exf("sent %llu %s %d %d %s", (unsigned long long)(now_ns - snap_time), group ? "pg" : "pid", (int)pid, sig,
      foreign ? "foreign" : known ? "own" : own_unborn ? "nogroup" : "gone");
  logf("%s %d sig %d -> %s", call, (int)pid, sig, foreign ? "FOREIGN" : known ? "own" : own_unborn ? "nogroup" : "gone");
  for (Proc* p : tg) { signal_proc(p, sig); ++n; }
  if (self && sig) { deliver_driver(sig); ++n; }
  op_end();
  if (foreign) return 0;     // recorded only: nothing real is ever signalled
  if (!n) { errno = ESRCH; return -1; }
  return 0;
}
int kill(pid_t pid, int sig) {
  Scope s;
  if (pid < -1) return send_signal(-pid, true, sig, "kill");
  if (pid == 0) return send_signal(0, true, sig, "kill");
  return send_signal(pid, false, sig, "kill");
}
int killpg(pid_t pg, int sig) { Scope s; return send_signal(pg, true, sig, "killpg"); }
int raise(int sig) { Scope s; return send_signal(DRIVER_PID, false, sig, "kill"); }

// ---- process creation
int setpgid(pid_t pid, pid_t pg) {
  Scope s;
  op_begin();
  if (Fault* f = fault("setpgid", "")) { int e = err_of(f->kind); op_end(); errno = e; return -1; }
  if (in_child && (pid == 0) && pg == 0) CR->pgid_set = 1;
  if (!in_child && pid > 0) { Proc* p = by_pid(pid); if (p) p->pgid = pg ? pg : pid; }
  op_end();
  return 0;
}
int setsid() { if (in_child) CR->pgid_set = 1; return DRIVER_PID; }
static void start_solver(bool execd) {
  Proc* p = new Proc;
  p->pid = next_pid++;
  p->pgid = DRIVER_PID;
  p->ppid = DRIVER_PID;
  for (int sg = 1; sg < 65; ++sg) if (drv_disp[sg].kind == 2) p->fork_handlers.insert(sg);
  Plan& pl = (*plans)[std::min((size_t)forks - 1, plans->size() - 1)];
  auto pipe_of = [&](int id) -> Pipe* {
    for (auto& f : *fds) if (f.second.p && f.second.p->id == id) return f.second.p;
    return nullptr;
  };
  // argv
  size_t o = 0;
  while (o < CR->argvlen) { p->argv.push_back(std::string(CR->data + o)); o += p->argv.back().size() + 1; }
  p->out = pipe_of(CR->out_pipe);
  p->err = pipe_of(CR->err_pipe);
  if (p->out) ++p->out->writers;
  if (p->err) ++p->err->writers;
  procs->push_back(p);
  std::string al;
  for (auto& a : p->argv) { al += ' '; al += a; }
  exf("exec %d %s%s", p->pid, execd ? "ok" : "failed", al.c_str());
  exf("child %d stdin %d pipe %d eof %d stdout %d stderr %d pgid %d ignint %d ignterm %d blkint %d blkterm %d extra %d", p->pid, CR->in_kind, CR->in_pipe,
      CR->in_eof, p->out ? 1 : 0, p->err ? 1 : 0, CR->pgid_set, CR->ign_int, CR->ign_term, CR->blockmask_int, CR->blockmask_term, CR->extra_fds);
  logf("start solver %d exec %d", p->pid, (int)execd);
  if (CR->blockmask_int) p->blocked.insert(SIGINT);
  if (CR->blockmask_term) p->blocked.insert(SIGTERM);
  if (CR->pgid_set) schedule(now_ns + pl.t_setpgid, EV_SETPGID, p->pid, 0, 0);
  if (execd) {
    p->script = pl.script;
    p->disp = pl.disp;
    p->hscript = pl.hscript;
    if (CR->ign_int && !p->disp.count(SIGINT)) p->disp[SIGINT] = 1;
    if (CR->ign_term && !p->disp.count(SIGTERM)) p->disp[SIGTERM] = 1;
  } else {
    if (CR->outlen) { Act a; a.what = "out"; a.dt = 1000; a.data.assign(CR->data + ((size_t)1 << 19), CR->outlen); a.arg = a.arg2 = 0; p->script.push_back(a); }
    if (CR->errlen) { Act a; a.what = "err"; a.dt = 1000; a.data.assign(CR->data + ((size_t)1 << 18), CR->errlen); a.arg = a.arg2 = 0; p->script.push_back(a); }
    Act a; a.what = "exit"; a.dt = 1000; a.arg = CR->code; a.arg2 = 0; p->script.push_back(a);
  }
  schedule(now_ns + std::max(pl.t_exec, pl.t_setpgid + 1), EV_EXEC, p->pid, p->gen, 0);
}
pid_t fork() {
  if (!g_started) return real_fork();
  Scope s;
  snap_point("fork");
  op_begin();
  ++forks;
  if (Fault* f = fault("fork", "")) { int e = err_of(f->kind); op_end(); errno = e; return -1; }
  // The child side is executed for real (as far as exec or exit) in a throw-away copy of this process; what
  // it does to its descriptors, files and streams is then replayed by the simulated solver process.
  memset(CR, 0, offsetof(ChildReport, data));
  int pid = real_fork();
  if (pid == 0) {
    in_child = true;
    drv_pending = 0;
    syscall(SYS_prctl, 1, SIGKILL, 0, 0, 0);
    g_next_tick = ~0ull;
    opevs->clear(); stepevs->clear(); evq->clear();
    return 0;
  }
  int st = 0;
  while (syscall(SYS_wait4, pid, &st, 0, nullptr) < 0 && errno == EINTR) {}
  if (!CR->done) {
    exf("childcrash %d", st);
    CR->execd = 0;
    CR->code = 139;
  }
  for (int e = 0; e < 2; ++e)
    if (CR->dlen[e]) {
      (e ? eb : ob)->emit();
      (e ? eb : ob)->b.assign(CR->data + 3 * ((size_t)1 << 18) + (e ? (size_t)1 << 17 : 0), CR->dlen[e]);
      (e ? eb : ob)->emit();
    }
  start_solver(CR->execd != 0);
  int vp = (*procs).back()->pid;
  op_end();
  return vp;
}
pid_t vfork() { return fork(); }
static int do_exec(const char* file, char* const argv[]) {
  Scope s;
  op_begin();
  logf("exec %s", file);
  if (!in_child) { exf("exec-in-parent"); finish(K_ABORT, 2); }
  auto fdkind = [&](int fd) { auto it = fds->find(fd); return it == fds->end() ? Fd() : it->second; };
  size_t o = 0;
  for (int i = 0; argv[i]; ++i) { size_t l = strlen(argv[i]) + 1; if (o + l > ((size_t)1 << 18)) break; memcpy(CR->data + o, argv[i], l); o += l; }
  CR->argvlen = o;
  Fd f0 = fdkind(0), f1 = fdkind(1), f2 = fdkind(2);
  CR->in_kind = f0.kind;
  CR->in_pipe = f0.p ? f0.p->id : 0;
  if (f0.p) {   // end of file on stdin: no write end left open in the child or the driver
    CR->in_eof = 1;
    for (auto& f : *fds) if (f.second.kind == 2 && f.second.p == f0.p) CR->in_eof = 0;
  }
  CR->out_pipe = f1.kind == 2 ? f1.p->id : 0;
  CR->err_pipe = f2.kind == 2 ? f2.p->id : 0;
  for (auto& f : *fds) if ((f.second.kind == 1 || f.second.kind == 2) && f.first > 2) ++CR->extra_fds;
  CR->ign_int = drv_disp[SIGINT].kind == 1;
  CR->ign_term = drv_disp[SIGTERM].kind == 1;
  CR->blockmask_int = (drv_mask >> SIGINT) & 1;
  CR->blockmask_term = (drv_mask >> SIGTERM) & 1;
  if (Fault* f = fault("exec", "")) { int e = err_of(f->kind); op_end(); errno = e; return -1; }
  CR->execd = 1;
  CR->done = 1;
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}
int execvp(const char* f, char* const a[]) { return do_exec(f, a); }
int execv(const char* f, char* const a[]) { return do_exec(f, a); }
int execve(const char* f, char* const a[], char* const[]) { return do_exec(f, a); }
int execvpe(const char* f, char* const a[], char* const[]) { return do_exec(f, a); }

pid_t wait4(pid_t pid, int* st, int opt, struct rusage*) {
  Scope s;
  op_begin();
  if (Fault* f = fault("waitpid", "")) { int e = err_of(f->kind); op_end(); errno = e; return -1; }
  Proc* found = nullptr;
  bool any = false;
  auto cond = [&] {
    any = false;
    for (Proc* p : *procs) {
      if (p->helper || p->reaped) continue;
      if (pid > 0 && p->pid != pid) continue;
      if (pid < -1 && p->pgid != -pid) continue;
      any = true;
      if (p->zombie) { found = p; return true; }
    }
    return !any;
  };
  if (cond()) {
  } else if (opt & WNOHANG) {
    logf("waitpid %d nohang", (int)pid);
    op_end();
    return 0;
  } else if (block_until(cond, ~0ull, true) == 2) {
    logf("waitpid %d EINTR", (int)pid);
    op_end();
    errno = EINTR;
    return -1;
  }
  op_end();
  if (!found) { errno = ECHILD; return -1; }
  found->reaped = true;
  found->zombie = false;
  if (st) *st = found->status;
  logf("waitpid %d = %d", found->pid, found->status);
  exf("reaped %llu %d %d", (unsigned long long)(now_ns - snap_time), found->pid, found->status);
  return found->pid;
}
pid_t waitpid(pid_t pid, int* st, int opt) { return wait4(pid, st, opt, nullptr); }
pid_t wait(int* st) { return wait4(-1, st, 0, nullptr); }
int waitid(idtype_t t, id_t id, siginfo_t* info, int opt) {
  Scope s;
  op_begin();
  Proc* found = nullptr;
  auto cond = [&] {
    bool any = false;
    for (Proc* p : *procs) {
      if (p->helper || p->reaped) continue;
      if (t == P_PID && p->pid != (int)id) continue;
      any = true;
      if (p->zombie) { found = p; return true; }
    }
    return !any;
  };
  if (!cond()) {
    if (opt & WNOHANG) { if (info) memset(info, 0, sizeof *info); op_end(); return 0; }
    if (block_until(cond, ~0ull, true) == 2) { op_end(); errno = EINTR; return -1; }
  }
  op_end();
  if (!found) { errno = ECHILD; return -1; }
  if (info) {
    memset(info, 0, sizeof *info);
    info->si_pid = found->pid;
    info->si_code = (found->status & 127) ? CLD_KILLED : CLD_EXITED;
    info->si_status = (found->status & 127) ? (found->status & 127) : (found->status >> 8);
  }
  if (!(opt & WNOWAIT)) { found->reaped = true; found->zombie = false; exf("reaped %llu %d %d", (unsigned long long)(now_ns - snap_time), found->pid, found->status); }
  return 0;
}

// ---- descriptors
static int reserve_fd() { return (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0); }
int pipe2(int fd[2], int) {
  Scope s;
  op_begin();
  if (Fault* f = fault("pipe", "")) { int e = err_of(f->kind); op_end(); errno = e; return -1; }
  Pipe* p = new Pipe;
  p->id = next_pipe++;
  fd[0] = reserve_fd();
  fd[1] = reserve_fd();
  p->readers = p->writers = 1;
  Fd a;
  a.kind = 1;
  a.p = p;
  (*fds)[fd[0]] = a;
  a.kind = 2;
  (*fds)[fd[1]] = a;
  logf("pipe %d", p->id);
  op_end();
  return 0;
}
int pipe(int fd[2]) { return pipe2(fd, 0); }
static void drop(Fd& f) {
  if (f.kind == 1) { --f.p->readers; if (f.p->readers == 0 && !in_child) run_writers(f.p); }
  if (f.kind == 2) --f.p->writers;
  f = Fd();
}
int close(int fd) {
  if (!g_started || !fds) return (int)syscall(SYS_close, fd);
  Scope s;
  auto it = fds->find(fd);
  if (it != fds->end() && it->second.kind) {
    op_begin();
    if (it->second.kind != 3) logf("close pipe %d %s", it->second.p->id, it->second.kind == 1 ? "r" : "w");
    drop(it->second);
    fds->erase(fd);
    op_end();
  } else if (fd >= 0 && fd <= 2) {
    if (in_child) {
      if (child_closed[fd]) { errno = EBADF; return -1; }
      child_closed[fd] = true;
    }
    return 0;   // never close the harness's own standard descriptors
  }
  if (fd == ctl_in || fd == ctl_out) { errno = EBADF; return -1; }
  long r = syscall(SYS_close, fd);
  if (r < 0) return -1;
  return 0;
}
static int do_dup2(int a, int b) {
  Scope s;
  op_begin();
  if (Fault* f = fault("dup2", "")) { int e = err_of(f->kind); op_end(); errno = e; return -1; }
  auto it = fds->find(a);
  if (it == fds->end() || !it->second.kind) {
    op_end();
    if (b <= 2) return b;
    return (int)syscall(SYS_dup3, a, b, 0);
  }
  if (a != b) {
    Fd f = it->second;
    auto jt = fds->find(b);
    if (jt != fds->end() && jt->second.kind) drop(jt->second);
    if (f.kind == 1) ++f.p->readers;
    if (f.kind == 2) ++f.p->writers;
    (*fds)[b] = f;
    if (b > 2) syscall(SYS_dup3, a, b, 0);
  }
  op_end();
  return b;
}
int dup2(int a, int b) {
  if (!g_started) return (int)syscall(SYS_dup2, a, b);
  return do_dup2(a, b);
}
int dup3(int a, int b, int) { return dup2(a, b); }
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (g_started && fds && (cmd == F_SETFL || cmd == F_GETFL)) {
    auto it = fds->find(fd);
    if (it != fds->end() && (it->second.kind == 1 || it->second.kind == 2)) {
      if (cmd == F_SETFL) { it->second.nonblock = (arg & O_NONBLOCK) != 0; return 0; }
      return (it->second.kind == 1 ? O_RDONLY : O_WRONLY) | (it->second.nonblock ? O_NONBLOCK : 0);
    }
  }
  return (int)syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) __attribute__((alias("fcntl")));

static bool pipe_ready(Pipe* p) { return !p->buf.empty() || p->writers == 0; }
static u64 last_ev_seen = ~0ull; static int same_ev = 0; static size_t last_state = 0;
static void fast_forward(u64 deadline) {
  size_t alive = 0;
  for (Proc* p : *procs) alive += p->alive;
  size_t state = R->outlen + R->errlen + (size_t)ev_seq * 7 + evq->size() * 13 + g_bytes_moved * 31 + alive * 1009 + sig_delivered * 100003;
  if (state == last_state) ++same_ev; else { same_ev = 0; last_state = state; }
  if (same_ev > 40) {
    u64 n = evq->empty() ? ~0ull : evq->begin()->t;
    n = std::min(n, next_thread_time());
    n = std::min(n, deadline);
    if (n != ~0ull && n > now_ns) { now_ns = n; logf("fast-forward"); same_ev = 0; }
    else if (n == ~0ull && same_ev > 3000) { logf("busy loop without any pending event"); finish(K_DEADLOCK, 1); }
  }
}
static int do_select(int nfds, fd_set* rd, fd_set* wr, fd_set* ex, u64 timeout, u64* left) {
  u64 before = now_ns, hi = C.op_hi;
  op_begin();
  if (now_ns - before > hi) exf("stalled-in-wait %llu", (unsigned long long)(now_ns - snap_time));
  if (Fault* f = fault("select", "")) { if (left) *left = timeout; int e = err_of(f->kind); op_end(); errno = e; return -1; }
  u64 dl = timeout == ~0ull ? ~0ull : now_ns + timeout;
  fast_forward(dl);
  run_due();
  auto ready = [&] {
    if (rd) for (int i = 0; i < nfds; ++i)
      if (FD_ISSET(i, rd)) {
        auto it = fds->find(i);
        if (it == fds->end() || it->second.kind != 1) { if (it == fds->end()) return true; continue; }
        if (pipe_ready(it->second.p)) return true;
      }
    return false;
  };
  int r = block_until(ready, dl, true);
  if (left) *left = dl > now_ns ? dl - now_ns : 0;
  if (r == 2) { logf("select EINTR"); op_end(); errno = EINTR; return -1; }
  int n = 0;
  if (wr) FD_ZERO(wr);
  if (ex) FD_ZERO(ex);
  fd_set out;
  FD_ZERO(&out);
  std::vector<int> rdy;
  if (rd) for (int i = 0; i < nfds; ++i)
    if (FD_ISSET(i, rd)) {
      auto it = fds->find(i);
      if (it == fds->end()) { op_end(); errno = EBADF; return -1; }
      if (it->second.kind == 1 && pipe_ready(it->second.p)) rdy.push_back(i);
    }
  // two streams ready at once: reporting only one of them is the legal outcome of the other becoming ready an instant later
  if (rdy.size() > 1 && rng.below(2)) rdy = {rdy[rng.below(rdy.size())]};
  for (int i : rdy) { FD_SET(i, &out); ++n; }
  if (rd) *rd = out;
  std::string l;
  for (int i : rdy) l += " p" + std::to_string((*fds)[i].p->id);
  logf("select%s", n ? l.c_str() : " timeout");
  op_end();
  return n;
}
int select(int nfds, fd_set* rd, fd_set* wr, fd_set* ex, struct timeval* tv) {
  Scope s;
  u64 t = ~0ull, left = 0;
  if (tv) {
    if (tv->tv_sec < 0 || tv->tv_usec < 0) { op_begin(); op_end(); errno = EINVAL; return -1; }
    t = (u64)tv->tv_sec * 1000000000ull + (u64)tv->tv_usec * 1000;
  }
  int r = do_select(nfds, rd, wr, ex, t, &left);
  if (tv) { tv->tv_sec = (time_t)(left / 1000000000ull); tv->tv_usec = (suseconds_t)(left % 1000000000ull / 1000); }
  return r;
}
int pselect(int nfds, fd_set* rd, fd_set* wr, fd_set* ex, const struct timespec* ts, const sigset_t* m) {
  Scope s;
  u64 om = drv_mask;
  if (m) { sig_interrupted = false; in_pselect = true; drv_mask = mask_of(m); drain_pending(); }
  u64 t = ts ? (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec : ~0ull;
  int r = do_select(nfds, rd, wr, ex, t, nullptr);
  in_pselect = false;
  drv_mask = om;
  return r;
}
int poll(struct pollfd* p, nfds_t n, int ms) {
  if (!g_started) return (int)syscall(SYS_poll, p, n, ms);
  Scope s;
  bool ours = false;
  for (nfds_t i = 0; i < n; ++i) { auto it = fds->find(p[i].fd); if (it != fds->end() && it->second.kind == 1) ours = true; }
  if (!ours) return (int)syscall(SYS_poll, p, n, 0);
  fd_set rd;
  FD_ZERO(&rd);
  for (nfds_t i = 0; i < n; ++i) { p[i].revents = 0; if (p[i].fd >= 0 && (p[i].events & POLLIN)) FD_SET(p[i].fd, &rd); }
  int r = do_select(FD_SETSIZE, &rd, nullptr, nullptr, ms < 0 ? ~0ull : (u64)ms * 1000000ull, nullptr);
  if (r <= 0) return r;
  int c = 0;
  for (nfds_t i = 0; i < n; ++i)
    if (p[i].fd >= 0 && FD_ISSET(p[i].fd, &rd)) {
      Pipe* q = (*fds)[p[i].fd].p;
      p[i].revents = (short)((q->buf.empty() ? 0 : POLLIN) | (q->writers == 0 ? POLLHUP : 0));
      ++c;
    }
  return c;
}
int ppoll(struct pollfd* p, nfds_t n, const struct timespec* t, const sigset_t*) { return poll(p, n, t ? (int)(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1); }

ssize_t read(int fd, void* b, size_t n) {
  if (!g_started || !fds) return syscall(SYS_read, fd, b, n);
  Scope s;
  auto it = fds->find(fd);
  if (it == fds->end() || it->second.kind == 0) return syscall(SYS_read, fd, b, n);
  op_begin();
  if (it->second.kind == 1) {
    Pipe* p = it->second.p;
    size_t lim = n;
    Fault* f = fault("read", "");
    if (f && f->kind == "EAGAIN" && it->second.nonblock) f = nullptr;   // would mean that the pipe is empty
    if (f) {
      if (f->kind == "short") lim = std::max<size_t>(1, std::min<size_t>(n, f->arg));
      else { int e = err_of(f->kind); op_end(); errno = e; return -1; }
    }
    fast_forward(~0ull);
    run_due();
    if (it->second.nonblock && !pipe_ready(p)) { logf("read pipe %d EAGAIN", p->id); op_end(); errno = EAGAIN; return -1; }
    int r = block_until([&] { return pipe_ready(p); }, ~0ull, true);
    if (r == 2) { logf("read pipe %d EINTR", p->id); op_end(); errno = EINTR; return -1; }
    size_t k = std::min(lim, p->buf.size());
    memcpy(b, p->buf.data(), k);
    p->buf.erase(0, k);
    g_bytes_moved += k;
    logf("read pipe %d = %zu", p->id, k);
    if (k) run_writers(p);
    op_end();
    return (ssize_t)k;
  }
  if (it->second.kind == 3) {
    if (it->second.path == "/dev/urandom") {
      Rng r(C.entropy + 77);
      for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = (unsigned char)(r.next() & 255);
      op_end();
      return (ssize_t)n;
    }
    size_t lim = n;
    if (Fault* f = fault("readf", it->second.path)) {
      if (f->kind == "short") lim = std::max<size_t>(1, std::min<size_t>(n, f->arg));
      else if (f->kind == "eof") { op_end(); return 0; }
      else { int e = err_of(f->kind); op_end(); errno = e; return -1; }
    }
    ssize_t r = syscall(SYS_read, fd, b, lim);
    int e = errno;
    op_end();
    errno = e;
    return r;
  }
  op_end();
  errno = EBADF;
  return -1;
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
static ssize_t file_write(int fd, Fd& f, const char* b, size_t n) {
  size_t lim = n;
  if (Fault* x = fault("writef", f.path)) {
    if (x->kind == "short") lim = std::max<size_t>(1, std::min<size_t>(n, x->arg));
    else { errno = err_of(x->kind); return -1; }
  }
  for (Quota& q : *quotas) {
    if (!q.pat.empty() && f.path.find(q.pat) == std::string::npos) continue;
    if (q.left < lim) {
      if (!q.hits++) { exf("fired quota"); logf("disk full"); }
      if (q.left == 0) { errno = q.err; return -1; }
      lim = q.left;
    }
    q.left -= lim;
  }
  return syscall(SYS_write, fd, b, lim);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (!g_started || !fds) return syscall(SYS_write, fd, b, n);
  Scope s;
  auto it = fds->find(fd);
  if (it == fds->end() || it->second.kind == 0) {
    if (fd == 1 || fd == 2) { std::string t((const char*)b, n); (fd == 1 ? ob : eb)->emit(); (fd == 1 ? ob : eb)->b = t; (fd == 1 ? ob : eb)->emit(); return (ssize_t)n; }
    return syscall(SYS_write, fd, b, n);
  }
  op_begin();
  if (it->second.kind == 2) {
    ssize_t r = (ssize_t)n;
    if (in_child && (fd == 1 || fd == 2)) { OutBuf* q = fd == 1 ? ob : eb; std::string t; t.swap(q->b); q->b.assign((const char*)b, n); q->emit(); q->b = t; }
    op_end();
    return r;
  }
  ssize_t r = -1;
  if (it->second.kind == 3) r = file_write(fd, it->second, (const char*)b, n);
  else errno = EBADF;
  int e = errno;
  op_end();
  errno = e;
  return r;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!g_started || !fds) return syscall(SYS_writev, fd, v, c);
  Scope s;
  auto it = fds->find(fd);
  if (it == fds->end() || it->second.kind != 3) return syscall(SYS_writev, fd, v, c);
  std::string t;
  for (int i = 0; i < c; ++i) t.append((const char*)v[i].iov_base, v[i].iov_len);
  return write(fd, t.data(), t.size());
}
off_t lseek(int fd, off_t o, int w) {
  if (!g_started || !fds) return syscall(SYS_lseek, fd, o, w);
  Scope s;
  auto it = fds->find(fd);
  if (it != fds->end() && it->second.kind == 3) {
    op_begin();
    Fault* f = fault("seekf", it->second.path);
    op_end();
    if (f) { errno = err_of(f->kind); return -1; }
  }
  return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }

static bool harness_path(const char* vp) { return strncmp(vp, "/proc", 5) == 0 || strncmp(vp, "/sys", 4) == 0; }
static int open_common(const char* path, int flags, mode_t mode) {
  char rp[4096];
  path_map(path, rp, sizeof rp);
  std::string v = virt(rp);
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (g_started) {
    op_begin();
    Fault* f = fault(wr ? "openw" : "openr", v);
    op_end();
    if (f) { errno = err_of(f->kind); return -1; }
    // Containment: nothing the code under test opens for writing lies outside the scratch directory.
    if (wr && strcmp(rp, "/dev/null") != 0 && (strncmp(rp, g_scratch.c_str(), g_scratch.size()) != 0 || strstr(rp, "/../"))) { exf("write-outside %s", rp); errno = EROFS; return -1; }
  }
  int fd = (int)syscall(SYS_openat, AT_FDCWD, rp, flags, mode);
  if (fd >= 0 && g_started && fds) {
    Fd x;
    x.kind = 3;
    x.path = v;
    x.wr = wr;
    (*fds)[fd] = x;
  }
  return fd;
}
int open(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  Scope s;
  return open_common(path, flags, m);
}
int open64(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  Scope s;
  return open_common(path, flags, m);
}
FILE* fopen64(const char* path, const char* mode) {
  REAL(fdopen, FILE* (*)(int, const char*));
  Scope s;
  int fl = 0;
  bool plus = strchr(mode, '+') != nullptr;
  switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
  }
  int fd = open_common(path, fl, 0666);
  if (fd < 0) return nullptr;
  FILE* f = r_fdopen(fd, mode);
  if (f && files) (*files)[f] = fd;
  return f;
}
FILE* fopen(const char* path, const char* mode) { return fopen64(path, mode); }
int fclose(FILE* f) {
  REAL(fclose, int (*)(FILE*));
  Scope s;
  int err = 0;
  if (files) {
    auto it = files->find(f);
    if (it != files->end()) {
      auto jt = fds->find(it->second);
      if (jt != fds->end()) {
        if (g_started) {
          op_begin();
          Fault* x = fault(jt->second.wr ? "closew" : "closer", jt->second.path);
          if (x) {
            err = err_of(x->kind);
            off_t end = syscall(SYS_lseek, it->second, 0, SEEK_END);
            if (jt->second.wr && x->arg && end > 0) (void)!ftruncate(it->second, end > (off_t)x->arg ? end - (off_t)x->arg : 0);   // data lost on its way to the disk
          }
          op_end();
        }
        fds->erase(jt);
      }
      files->erase(it);
    }
  }
  int r = r_fclose(f);
  if (err) { errno = err; return EOF; }
  return r;
}
#define PATHFN1(name, rett, extra_decl, extra_use)                                   \
  rett name(const char* path extra_decl) {                                           \
    typedef rett (*ft)(const char* extra_decl);                                      \
    static ft r = real<ft>(#name);                                                   \
    char rp[4096];                                                                   \
    { Scope s; path_map(path, rp, sizeof rp); }                                      \
    return r(rp extra_use);                                                          \
  }
#define COMMA ,
PATHFN1(access, int, COMMA int m, COMMA m)
PATHFN1(rmdir, int, , )
PATHFN1(mkdir, int, COMMA mode_t m, COMMA m)
int utime(const char*, const struct utimbuf*) { return 0; }
int stat(const char* path, struct stat* st) {
  Scope s;
  char rp[4096];
  path_map(path, rp, sizeof rp);
  if (g_started) {
    op_begin();
    Fault* f = fault("stat", virt(rp));
    op_end();
    if (f) { errno = err_of(f->kind); return -1; }
  }
  return (int)syscall(SYS_stat, rp, st);
}
int lstat(const char* path, struct stat* st) { Scope s; char rp[4096]; path_map(path, rp, sizeof rp); return (int)syscall(SYS_lstat, rp, st); }
int stat64(const char* path, struct stat64* st) { return stat(path, (struct stat*)st); }
static int do_unlink(const char* path, bool dir_ok) {
  Scope s;
  char rp[4096];
  path_map(path, rp, sizeof rp);
  if (g_started) {
    op_begin();
    logf("unlink %s", virt(rp).c_str());
    Fault* f = fault("unlink", virt(rp));
    // a temporary file that disappears while the solver is running
    if (!in_child && procs) for (Proc* p : *procs) if (p->alive && !p->helper) for (auto& a : p->argv) if (a == virt(rp)) exf("unlinked-while-running %d %s", p->pid, a.c_str());
    if (in_child) exf("unlink-in-child %s", virt(rp).c_str());
    op_end();
    if (f) { errno = err_of(f->kind); return -1; }
  }
  // containment: nothing outside the scratch directory is ever removed
  if (strncmp(rp, g_scratch.c_str(), g_scratch.size()) != 0) { exf("unlink-outside %s", rp); errno = EPERM; return -1; }
  long r = syscall(SYS_unlink, rp);
  if (r != 0 && dir_ok && errno == EISDIR) r = syscall(SYS_rmdir, rp);
  return (int)r;
}
int unlink(const char* p) { return do_unlink(p, false); }
int remove(const char* p) { return do_unlink(p, true); }
int rename(const char* a, const char* b) { Scope s; char x[4096], y[4096]; path_map(a, x, sizeof x); path_map(b, y, sizeof y); if (strncmp(x, g_scratch.c_str(), g_scratch.size()) != 0 || strncmp(y, g_scratch.c_str(), g_scratch.size()) != 0) { errno = EROFS; return -1; } return (int)syscall(SYS_rename, x, y); }
int mkstemps(char* t, int suf) {
  Scope s;
  op_begin();
  if (Fault* f = fault("mkstemps", t)) { int e = err_of(f->kind); op_end(); errno = e; return -1; }
  size_t l = strlen(t);
  char nb[32];
  snprintf(nb, sizeof nb, "%06llu", (unsigned long long)(++g_tmpno % 1000000));
  memcpy(t + l - (size_t)suf - 6, nb, 6);
  op_end();
  return open_common(t, O_RDWR | O_CREAT | O_EXCL, 0600);
}
int mkstemp(char* t) { return mkstemps(t, 0); }
int mkostemps(char* t, int suf, int) { return mkstemps(t, suf); }
int mkostemp(char* t, int) { return mkstemps(t, 0); }
char* mkdtemp(char* t) {
  Scope s;
  op_begin();
  if (Fault* f = fault("mkdtemp", t)) { int e = err_of(f->kind); op_end(); errno = e; return nullptr; }
  size_t l = strlen(t);
  char nb[32];
  snprintf(nb, sizeof nb, "%06llu", (unsigned long long)(++g_tmpno % 1000000));
  memcpy(t + l - 6, nb, 6);
  char rp[4096];
  path_map(t, rp, sizeof rp);
  op_end();
  if (syscall(SYS_mkdir, rp, 0700) != 0) return nullptr;
  return t;
}
int nftw(const char* path, __nftw_func_t fn, int n, int flags) {
  typedef int (*ft)(const char*, __nftw_func_t, int, int);
  static ft r = real<ft>("nftw");
  char rp[4096];
  { Scope s; path_map(path, rp, sizeof rp); }
  return r(rp, fn, n, flags);
}
char* realpath(const char* path, char* out) {
  typedef char* (*ft)(const char*, char*);
  static ft r = real<ft>("realpath");
  Scope s;
  char rp[4096], res[4096];
  path_map(path, rp, sizeof rp);
  if (!r(rp, res)) return nullptr;
  std::string v = virt(res);
  if (!out) { Unscope u; out = (char*)malloc(4096); if (!out) return nullptr; }
  strcpy(out, v.c_str());
  return out;
}
char* __realpath_chk(const char* p, char* o, size_t) { return realpath(p, o); }
char* getcwd(char* b, size_t n) {
  if (!b) { b = (char*)malloc(n ? n : 4096); if (!n) n = 4096; }
  snprintf(b, n, "/simwork");
  return b;
}
ssize_t readlink(const char* path, char* b, size_t n) {
  if (strcmp(path, "/proc/self/exe") == 0 || strncmp(path, "/proc/", 6) == 0) {
    const char* v = "/simbin/minizinc";
    size_t l = std::min(strlen(v), n);
    memcpy(b, v, l);
    return (ssize_t)l;
  }
  Scope s;
  char rp[4096];
  path_map(path, rp, sizeof rp);
  return syscall(SYS_readlink, rp, b, n);
}
struct SimDir { std::vector<struct dirent>* v; size_t i; };
DIR* opendir(const char* path) {
  REAL(opendir, DIR * (*)(const char*));
  REAL(readdir, struct dirent * (*)(DIR*));
  REAL(closedir, int (*)(DIR*));
  Scope s;
  char rp[4096];
  path_map(path, rp, sizeof rp);
  if (g_started) {
    op_begin();
    Fault* f = fault("opendir", virt(rp));
    op_end();
    if (f) { errno = err_of(f->kind); return nullptr; }
  }
  DIR* d = r_opendir(rp);
  if (!d) return nullptr;
  SimDir* sd = new SimDir;
  sd->v = new std::vector<struct dirent>;
  sd->i = 0;
  while (struct dirent* e = r_readdir(d)) sd->v->push_back(*e);
  r_closedir(d);
  std::sort(sd->v->begin(), sd->v->end(), [](const struct dirent& a, const struct dirent& b) { return strcmp(a.d_name, b.d_name) < 0; });
  if (C.dirorder) {
    Rng r(C.dirorder);
    for (size_t i = sd->v->size(); i > 1; --i) std::swap((*sd->v)[i - 1], (*sd->v)[r.below(i)]);
  }
  return (DIR*)sd;
}
struct dirent* readdir(DIR* d) {
  SimDir* sd = (SimDir*)d;
  if (sd->i >= sd->v->size()) return nullptr;
  return &(*sd->v)[sd->i++];
}
int closedir(DIR* d) { Scope s; SimDir* sd = (SimDir*)d; delete sd->v; delete sd; return 0; }

// ---- entropy
ssize_t getrandom(void* b, size_t n, unsigned) { Rng r(C.entropy + 78); for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = (unsigned char)r.next(); return (ssize_t)n; }
int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }
uint32_t arc4random(void) { static Rng r(C.entropy + 79); return (uint32_t)r.next(); }
int rand() { return (int)(drng.next() & 0x7fffffff); }

// ---- termination
void exit(int code) {
  Scope s;
  if (!g_started) { syscall(SYS_exit_group, code); }
  flush_streams();
  if (!g_snapped && ctl_out >= 0) { write_full(ctl_out, "NOSNAP\n", 7); syscall(SYS_exit_group, 0); }
  finish(K_EXIT, code);
}
void _exit(int code) {
  if (!g_started) { syscall(SYS_exit_group, code); __builtin_unreachable(); }
  Scope s;
  finish(K_EXIT, code);
}
void abort() {
  Scope s;
  if (!g_started) { syscall(SYS_exit_group, 98); __builtin_unreachable(); }
  logf("abort");
  finish(K_ABORT, 6);
}

// ---- threads
int pthread_create(pthread_t* id, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  Scope s;
  op_begin();
  if (Fault* f = fault("thread", "")) { int e = err_of(f->kind); op_end(); return e; }
  Thr* t = new Thr;
  t->id = (int)thrs->size() + 1;
  t->fn = fn;
  t->arg = arg;
  getcontext(&t->ctx);
  size_t sz = 512 * 1024;
  char* st = (char*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  t->ctx.uc_stack.ss_sp = st;
  t->ctx.uc_stack.ss_size = sz;
  t->ctx.uc_link = nullptr;
  makecontext(&t->ctx, co_entry, 0);
  t->ready_at = now_ns + rng.range(0, C.op_hi * 4);
  thrs->push_back(t);
  *id = (pthread_t)(uintptr_t)(0x7000000 + t->id);
  logf("thread %d created", t->id);
  op_end();
  compute_next_tick();
  return 0;
}
int pthread_join(pthread_t id, void** ret) {
  Scope s;
  snap_point("join");
  op_begin();
  size_t k = (size_t)id - 0x7000000;
  if (k < 1 || k > thrs->size()) { op_end(); return ESRCH; }
  Thr* t = (*thrs)[k - 1];
  if (cur_thr) { exf("nested-join"); finish(K_SIMERR, 2); }
  block_until([&] { return t->done; }, ~0ull, false);
  if (ret) *ret = t->ret;
  logf("thread %d joined", t->id);
  op_end();
  return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self() { return (pthread_t)(uintptr_t)(0x7000000 + (cur_thr ? cur_thr->id : 0)); }
static void wake_addr(const void* a, int n) {
  for (Thr* t : *thrs)
    if (n > 0 && !t->done && !t->ready && t->waitaddr == a) {
      t->waitaddr = nullptr;
      t->timed = false;
      t->timedout = false;
      t->ready = true;
      t->ready_at = now_ns + rng.range(0, C.op_hi);
      --n;
    }
  if (n > 0 && main_waitaddr == a) main_woken = true;
}
// returns 0 woken, 1 timeout
static int wait_addr(const void* a, u64 deadline) {
  if (cur_thr) {
    Thr* t = cur_thr;
    t->waitaddr = a;
    t->timed = deadline != ~0ull;
    t->deadline = deadline;
    t->timedout = false;
    co_block();
    return t->timedout ? 1 : 0;
  }
  main_waitaddr = a;
  main_woken = false;
  int r = block_until([] { return main_woken; }, deadline, false);
  main_waitaddr = nullptr;
  return r;
}
static u64 abs_deadline(const struct timespec* t, bool realtime) {
  i64 v = (i64)t->tv_sec * 1000000000ll + t->tv_nsec;
  if (realtime) v -= wall_off;
  return v < 0 ? 0 : (u64)v;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && g_started && !g_depth) {
    Scope s;
    op_begin();
    int cmd = (int)a[1] & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
      if (*(volatile int*)a[0] != (int)a[2]) { op_end(); errno = EAGAIN; return -1; }
      u64 dl = ~0ull;
      const struct timespec* t = (const struct timespec*)a[3];
      if (t) dl = cmd == FUTEX_WAIT ? now_ns + (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec : abs_deadline(t, ((int)a[1] & FUTEX_CLOCK_REALTIME) != 0);
      logf("futex wait");
      int r = wait_addr((const void*)a[0], dl);
      op_end();
      if (r) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
      wake_addr((const void*)a[0], (int)a[2]);
      op_end();
      return 1;
    }
    op_end();
    errno = ENOSYS;
    return -1;
  }
  long ret;
  register long r10 __asm__("r10") = a[3];
  register long r8 __asm__("r8") = a[4];
  register long r9 __asm__("r9") = a[5];
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
  return ret;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto r_try = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  for (;;) {
    int r = r_try(m);
    if (r != EBUSY) return r;
    if (!g_started) return 0;
    Scope s;
    if (!cur_thr && (!thrs || thrs->empty())) return 0;
    wait_addr(m, now_ns + 1000000);
  }
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto r_un = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  int r = r_un(m);
  if (g_started && thrs && !thrs->empty()) { Scope s; wake_addr(m, 1); }
  return r;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 dl) {
  pthread_mutex_unlock(m);
  int r;
  {
    Scope s;
    op_begin();
    logf("cond wait");
    r = wait_addr(c, dl);
    op_end();
  }
  pthread_mutex_lock(m);
  return r ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, ~0ull); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cond_wait(c, m, abs_deadline(t, true)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* t) { return cond_wait(c, m, abs_deadline(t, id == CLOCK_REALTIME)); }
int pthread_cond_signal(pthread_cond_t* c) { if (!g_started) return 0; Scope s; wake_addr(c, 1); compute_next_tick(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!g_started) return 0; Scope s; wake_addr(c, 1 << 20); compute_next_tick(); return 0; }
int sched_yield() { return 0; }
int isatty(int) { return 0; }

}  // extern "C"
