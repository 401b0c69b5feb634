// Not instrumented (no -fsanitize-coverage): the simulator itself.
#include "simcore.h"

#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <pthread.h>
#include <semaphore.h>
#include <streambuf>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace sim
{
const char * cbName[CB_N] = {"stateEq",        "runningCost",  "terminalCost", "ineqConst", "stateEqDeriv", "runningCostDeriv",
                             "terminalCostDeriv", "ineqConstDeriv", "inputDim",     "ineqDim",   "inputLimits",  "amul",
                             "costate",        "dphidx",       "dhdu"};
const char * actName[ACT_N] = {"none", "throw", "nan", "+inf", "-inf", "huge"};
const char * clkName[CLK_N] = {"tick", "frozen", "backwards", "jump", "model", "extreme"};
const char * fillName[FILL_N] = {"zero", "ff", "7f", "random", "stale", "ones"};
const char * probeName[PR_N] = {"ddp_true",        "ddp_false",      "ddp_maxiter",    "ddp_lambda_fail", "ddp_constrained",
                                "ddp_clamped",     "ddp_zero_dim",   "ddp_alpha_lt1",  "fmpc_succeeded",  "fmpc_maxiter",
                                "fmpc_err_backward", "fmpc_err_forward", "fmpc_err_update", "fmpc_linesearch", "fmpc_zero_ineq",
                                "boxqp_clamped",   "boxqp_fail",     "gmres_full",     "cgmres_run",      "cgmres_step",
                                "compared_reused_fresh", "malformed_rejected", "aborted_by_throw", "aborted_by_bad_alloc", "dump_complete",
                                "dump_faulted",    "nested_solve",   "thread_switch",  "loop_recovered",  "convex_optimal",
                                "duration_exact",  "nonfinite_not_success", "reference_step_checked", "log_values_not_judged", "fmpc_backtracked_step_checked", "argument_by_reference_into_result", "small_gradient_end_checked", "limited_step_checked", "own_initialisation_checked", "line_search_gave_up_checked"};
const char * faultStatName[FS_N] = {"callback_throw", "callback_nan", "callback_inf", "callback_huge", "alloc_failure",
                                    "memory_fill",    "clock_anomaly", "stdout_failure", "io_open_error", "io_disk_full",
                                    "io_eio",         "io_eintr",     "io_short_write", "malformed_warm_start", "preemption",
                                    "nested_solve",   "msg_loss",     "msg_delay",    "msg_duplicate", "msg_reorder",
                                    "disturbance",    "stall",        "controller_crash", "time_jump"};

thread_local Ctx * tl_ctx = nullptr;
static Shared fallback_shared;
Shared * sh = &fallback_shared;
static uint8_t fallback_cov[COVMAP];
uint8_t * covmap = fallback_cov;

void report(const char * prop, const std::string & tag, const std::string & msg)
{
  ModelScope ms;
  for(int i = 0; i < sh->nviol; i++)
  {
    if(!strcmp(sh->viol[i].prop, prop) && tag == sh->viol[i].tag) return;
  }
  if(sh->nviol >= (int)(sizeof(sh->viol) / sizeof(sh->viol[0]))) return;
  Violation & v = sh->viol[sh->nviol];
  snprintf(v.prop, sizeof v.prop, "%s", prop);
  snprintf(v.tag, sizeof v.tag, "%s", tag.c_str());
  snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
  sh->nviol++;
}
void setPhase(int phase, int op, int flags, const std::string & kind)
{
  sh->phase = phase;
  sh->op_index = op;
  sh->op_flags = flags;
  snprintf(sh->kind, sizeof sh->kind, "%s", kind.c_str());
}
void die(const char * reason)
{
  if(!sh->crashed)
  {
    sh->crashed = 1;
    snprintf(sh->crash_reason, sizeof sh->crash_reason, "%s", reason);
  }
  _exit(70);
}
static void onSignal(int sig)
{
  const char * n = sig == SIGSEGV ? "SIGSEGV"
                   : sig == SIGABRT ? "SIGABRT (assertion, terminate or abort)"
                   : sig == SIGFPE  ? "SIGFPE"
                   : sig == SIGBUS  ? "SIGBUS"
                   : sig == SIGILL  ? "SIGILL"
                                    : "CPU time exhausted";
  die(n);
}
void installCrashHandlers()
{
  static char stk[65536];
  stack_t ss{};
  ss.ss_sp = stk;
  ss.ss_size = sizeof stk;
  sigaltstack(&ss, nullptr);
  struct sigaction sa
  {
  };
  sa.sa_handler = onSignal;
  sa.sa_flags = SA_ONSTACK;
  for(int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU, SIGALRM}) sigaction(s, &sa, nullptr);
}

// ------------------------------------------------------------------ stdout
namespace
{
struct NullBuf : std::streambuf
{
  bool failing = false;
  int overflow(int c) override
  {
    if(failing)
    {
      sh->faults[FS_STDOUT]++;
      return EOF;
    }
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char *, std::streamsize n) override
  {
    if(failing)
    {
      sh->faults[FS_STDOUT]++;
      return 0;
    }
    return n;
  }
  int sync() override { return failing ? -1 : 0; }
};
NullBuf & nullbuf()
{
  static NullBuf * b = new NullBuf;
  return *b;
}
} // namespace
void installStdout() { std::cout.rdbuf(&nullbuf()); }
void stdoutMode(bool failing)
{
  nullbuf().failing = failing;
  std::cout.clear();
}

// ------------------------------------------------------------------ region
Region::Region(Ctx & c) : saved(tl_ctx)
{
  saved_region = c.region;
  c.region = true;
  c.stop = c.sched ? c.sched->nextStop(&c) : c.budget;
  if(c.stop > c.budget) c.stop = c.budget;
  tl_ctx = &c;
}
Region::~Region()
{
  tl_ctx->region = saved_region;
  sh->steps += tl_ctx->steps;
  tl_ctx = saved;
}
double faultValue(int a)
{
  switch(a)
  {
    case ACT_NAN:
      return std::nan("");
    case ACT_PINF:
      return INFINITY;
    case ACT_NINF:
      return -INFINITY;
    case ACT_HUGE:
      return 1e200;
  }
  return 0;
}
CbGuard::CbGuard(int kind) : c(tl_ctx)
{
  if(!c) return;
  c->in_model++;
  if(c->in_model > 1) return; // a model function calling another one
  if(!c->region) return;
  c->cb[kind]++;
  c->cb_total++;
  sh->callbacks++;
  if(c->throws) c->after_throw++;
  c->log = mix(c->log, (uint64_t)kind + 17);
  if(c->clk == CLK_MODEL && kind != CB_DIM && kind != CB_KDIM)
  {
    int64_t a = c->clk_rng.range(1, 5000000);
    c->now += a;
    c->adv[kind] += a;
    c->adv_total += a;
  }
  if(c->on_cb) c->on_cb(kind);
  for(auto & f : c->faults)
  {
    if(f.kind >= 0 && f.kind != kind) continue;
    f.seen++;
    if(f.seen == f.nth || (f.persist && f.seen > f.nth))
    {
      action = f.action;
      elem = f.elem;
    }
  }
  if(action == ACT_THROW)
  {
    c->throws++;
    c->last_throw_id = c->cb_total;
    fstat(FS_THROW);
    c->log = mix(c->log, 0xdead);
    long id = c->cb_total;
    switch(id % 4)
    {
      case 0:
      {
        SimFaultRuntime f(id);
        c->in_model--;
        throw f;
      }
      case 1:
      {
        SimFaultArgument f(id);
        c->in_model--;
        throw f;
      }
      case 2:
        c->in_model--;
        throw SimFaultAlloc(id);
      default:
        c->in_model--;
        throw SimFault{id};
    }
  }
  if(action != ACT_NONE)
  {
    c->nonfinite++;
    fstat(action == ACT_NAN ? FS_NAN : action == ACT_HUGE ? FS_HUGE : FS_INF);
    c->log = mix(c->log, 0xbad0 + action);
  }
}

__attribute__((noinline)) void poisonStack(int fill, uint64_t seed)
{
  volatile unsigned char buf[49152];
  Rng r(seed);
  switch(fill)
  {
    case FILL_ZERO:
      for(size_t i = 0; i < sizeof buf; i++) buf[i] = 0;
      break;
    case FILL_FF:
      for(size_t i = 0; i < sizeof buf; i++) buf[i] = 0xff;
      break;
    case FILL_7F:
      for(size_t i = 0; i < sizeof buf; i++) buf[i] = 0x7f;
      break;
    case FILL_ONES:
      for(size_t i = 0; i < sizeof buf; i++) buf[i] = (i % 8 == 7) ? 0x3f : (i % 8 == 6) ? 0xf0 : 0;
      break;
    case FILL_RANDOM:
      for(size_t i = 0; i < sizeof buf; i++) buf[i] = (unsigned char)r.next();
      break;
    default:
      break;
  }
}

// ------------------------------------------------------------------ heap
} // namespace sim

extern "C"
{
  void * __libc_malloc(size_t);
  void __libc_free(void *);
  void * __libc_memalign(size_t, size_t);
}
namespace
{
constexpr uint64_t MAGIC = 0x51D0A11C00000000ull;
constexpr uint64_t MAGIC_MASK = 0xFFFFFFFF00000000ull;
constexpr uint64_t F_REGION = 1;
constexpr uint64_t CANARY = 0xC0FFEE0DDBA11AD5ull;
struct Hdr
{
  uint64_t magic; // magic | offset<<8 | flags
  uint64_t size;
};
long g_live = 0; // only one simulated thread runs at a time

void fillMem(void * p, size_t n, sim::Ctx * c)
{
  unsigned char * b = (unsigned char *)p;
  switch(c->fill)
  {
    case sim::FILL_ZERO:
      memset(b, 0, n);
      break;
    case sim::FILL_FF:
      memset(b, 0xff, n);
      break;
    case sim::FILL_7F:
      memset(b, 0x7f, n);
      break;
    case sim::FILL_ONES:
    {
      double one = 1.0;
      size_t i = 0;
      for(; i + 8 <= n; i += 8) memcpy(b + i, &one, 8);
      for(; i < n; i++) b[i] = 0;
      break;
    }
    case sim::FILL_RANDOM:
      for(size_t i = 0; i < n; i++) b[i] = (unsigned char)c->fill_rng.next();
      break;
    default:
      break;
  }
  if(c->fill != sim::FILL_ZERO) sim::sh->faults[sim::FS_FILL]++;
}
void * doAlloc(size_t align, size_t size, bool zero)
{
  sim::Ctx * c = sim::tl_ctx;
  bool region = c && c->region && !c->in_model;
  if(region)
  {
    c->allocs++;
    // An allocation right after a free is not failed: Eigen's resize frees the old buffer first and is left with a
    // dangling pointer when the new allocation fails (a limit of Eigen, not of the code under test).
    // Nor is the memory of an exception object: the runtime then uses its emergency pool.
    bool after_free = c->last_free || c->in_throw;
    c->last_free = false;
    if(c->alloc_fail_at > 0 && c->allocs == c->alloc_fail_at && after_free) c->alloc_fail_at++;
    if(c->alloc_fail_at > 0 && !after_free && c->allocs >= c->alloc_fail_at && c->allocs < c->alloc_fail_at + c->alloc_fail_len)
    {
      c->alloc_failed++;
      sim::sh->faults[sim::FS_ALLOC]++;
      errno = ENOMEM;
      return nullptr;
    }
  }
  size_t off = align > 16 ? align : 16;
  if(size > (size_t)1 << 40)
  {
    errno = ENOMEM;
    return nullptr;
  }
  char * base = (char *)(align > 16 ? __libc_memalign(align, size + off + 16) : __libc_malloc(size + 16 + 16));
  if(!base) return nullptr;
  char * p = base + off;
  Hdr * h = (Hdr *)(p - 16);
  h->magic = MAGIC | ((uint64_t)off << 8) | (region ? F_REGION : 0);
  h->size = size;
  memcpy(p + size, &CANARY, 8);
  memcpy(p + size + 8, &CANARY, 8);
  if(zero)
    memset(p, 0, size);
  else if(region)
    fillMem(p, size, c);
  if(region) g_live++;
  return p;
}
void doFree(void * ptr)
{
  if(!ptr) return;
  char * p = (char *)ptr;
  Hdr * h = (Hdr *)(p - 16);
  if((h->magic & MAGIC_MASK) != MAGIC)
  {
    if((h->magic & MAGIC_MASK) == ~MAGIC) sim::die("double free");
    __libc_free(ptr);
    return;
  }
  uint64_t flags = h->magic & 0xff;
  size_t off = (h->magic >> 8) & 0xffffff;
  if(flags & F_REGION)
  {
    if(memcmp(p + h->size, &CANARY, 8) || memcmp(p + h->size + 8, &CANARY, 8)) sim::die("heap buffer overrun");
    g_live--;
    if(sim::tl_ctx) sim::tl_ctx->last_free = true;
    memset(p, 0xDB, h->size);
  }
  h->magic = 0;
  __libc_free(p - off);
}
} // namespace
extern "C"
{
  void * malloc(size_t n) { return doAlloc(16, n, false); }
  void free(void * p) { doFree(p); }
  void * calloc(size_t a, size_t b)
  {
    if(b && a > (size_t)-1 / b) return nullptr;
    return doAlloc(16, a * b, true);
  }
  void * realloc(void * p, size_t n)
  {
    if(!p) return malloc(n);
    if(n == 0)
    {
      free(p);
      return nullptr;
    }
    Hdr * h = (Hdr *)((char *)p - 16);
    void * q = malloc(n);
    if(!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n);
    free(p);
    return q;
  }
  void * memalign(size_t a, size_t n) { return doAlloc(a, n, false); }
  void * aligned_alloc(size_t a, size_t n) { return doAlloc(a, n, false); }
  int posix_memalign(void ** out, size_t a, size_t n)
  {
    void * p = doAlloc(a, n, false);
    if(!p) return ENOMEM;
    *out = p;
    return 0;
  }
  void * valloc(size_t n) { return doAlloc(4096, n, false); }
  size_t malloc_usable_size(void * p) { return p ? ((Hdr *)((char *)p - 16))->size : 0; }
}
namespace sim
{
long liveRegionBlocks() { return g_live; }

// ------------------------------------------------------------------ clock
static int64_t simNow()
{
  Ctx * c = tl_ctx;
  c->clk_reads++;
  switch(c->clk)
  {
    case CLK_TICK:
      c->now += c->clk_rng.range(1, 100000);
      break;
    case CLK_FROZEN:
      sh->faults[FS_CLOCK]++;
      break;
    case CLK_BACK:
      sh->faults[FS_CLOCK]++;
      c->now -= c->clk_rng.range(1, 1000000000);
      break;
    case CLK_JUMP:
      sh->faults[FS_CLOCK]++;
      c->now += c->clk_rng.range(-3600ll * 1000000000ll, 3600ll * 1000000000ll) * c->clk_rng.range(0, 9000);
      break;
    case CLK_EXTREME:
      sh->faults[FS_CLOCK]++;
      c->now = c->clk_rng.chance(0.5) ? c->clk_rng.range(-4600000000000000000ll, -4500000000000000000ll)
                                      : c->clk_rng.range(4500000000000000000ll, 4600000000000000000ll);
      break;
    default:
      break;
  }
  return c->now;
}
static bool simClock() { return tl_ctx && tl_ctx->region && !tl_ctx->in_model; }
} // namespace sim
static int realClock(clockid_t id, struct timespec * ts) { return (int)syscall(SYS_clock_gettime, id, ts); }
namespace std
{
namespace chrono
{
inline namespace _V2
{
system_clock::time_point system_clock::now() noexcept
{
  if(sim::simClock()) return time_point(duration(sim::simNow()));
  timespec ts;
  realClock(CLOCK_REALTIME, &ts);
  return time_point(duration(ts.tv_sec * 1000000000ll + ts.tv_nsec));
}
steady_clock::time_point steady_clock::now() noexcept
{
  if(sim::simClock()) return time_point(duration(sim::simNow()));
  timespec ts;
  realClock(CLOCK_MONOTONIC, &ts);
  return time_point(duration(ts.tv_sec * 1000000000ll + ts.tv_nsec));
}
} // namespace _V2
} // namespace chrono
} // namespace std
extern "C"
{
  int clock_gettime(clockid_t id, struct timespec * ts)
  {
    if(sim::simClock())
    {
      int64_t n = sim::simNow();
      ts->tv_sec = n / 1000000000;
      ts->tv_nsec = n % 1000000000;
      return 0;
    }
    int r = realClock(id, ts);
    if(r < 0) return -1;
    return r;
  }
  int gettimeofday(struct timeval * tv, void *)
  {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
  }
  time_t time(time_t * t)
  {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if(t) *t = ts.tv_sec;
    return ts.tv_sec;
  }
}

// ------------------------------------------------------------------ files
namespace
{
struct OpenFile
{
  std::string path;
  FILE * fp;
  sim::Disk * disk;
};
constexpr int FD0 = 1000000;
std::map<int, OpenFile> & openFiles()
{
  static auto * m = new std::map<int, OpenFile>;
  return *m;
}
int g_next_fd = FD0;
bool simIo() { return sim::tl_ctx && sim::tl_ctx->region && sim::tl_ctx->disk && !sim::tl_ctx->in_model; }

ssize_t simWrite(int fd, const char * buf, size_t n)
{
  sim::ModelScope ms;
  auto it = openFiles().find(fd);
  if(it == openFiles().end())
  {
    errno = EBADF;
    return -1;
  }
  sim::Disk & d = *it->second.disk;
  d.writes++;
  const auto & f = d.fault;
  auto & st = sim::sh->faults;
  if(f.mode == 3 && d.writes == f.n)
  {
    st[sim::FS_IO_EIO]++;
    d.fired++;
    errno = EIO;
    return -1;
  }
  if((f.mode == 4 || f.mode == 6) && d.rng.chance(0.4))
  {
    st[sim::FS_IO_EINTR]++;
    d.fired++;
    errno = EINTR;
    return -1;
  }
  if((f.mode == 5 || f.mode == 6) && n > 1 && d.rng.chance(0.6))
  {
    st[sim::FS_IO_SHORT]++;
    d.fired++;
    n = (size_t)d.rng.range(1, (long)n - 1);
  }
  if(f.mode == 2)
  {
    long left = f.n - d.bytes;
    if(left <= 0)
    {
      st[sim::FS_IO_FULL]++;
      d.fired++;
      errno = ENOSPC;
      return -1;
    }
    if((long)n > left)
    {
      st[sim::FS_IO_FULL]++;
      d.fired++;
      n = (size_t)left;
    }
  }
  d.files[it->second.path].append(buf, n);
  d.bytes += (long)n;
  return (ssize_t)n;
}
bool simOpenAllowed(sim::Disk & d)
{
  d.opens++;
  if(d.fault.mode == 1 && d.opens >= d.fault.n)
  {
    sim::sh->faults[sim::FS_IO_OPEN]++;
    d.fired++;
    errno = EMFILE;
    return false;
  }
  return true;
}
ssize_t cookieWrite(void * ck, const char * b, size_t n) { return simWrite((int)(intptr_t)ck, b, n); }
int cookieClose(void * ck)
{
  sim::ModelScope ms;
  openFiles().erase((int)(intptr_t)ck);
  return 0;
}
FILE * simFopen(const char * path, const char * mode)
{
  sim::ModelScope ms;
  sim::Disk & d = *sim::tl_ctx->disk;
  if(mode[0] == 'r' && !d.files.count(path))
  {
    errno = ENOENT;
    return nullptr;
  }
  if(!simOpenAllowed(d)) return nullptr;
  if(mode[0] == 'w') d.files[path].clear();
  if(mode[0] == 'a') d.files[path];
  int fd = g_next_fd++;
  cookie_io_functions_t io{};
  io.write = cookieWrite;
  io.close = cookieClose;
  FILE * fp = fopencookie((void *)(intptr_t)fd, "w", io);
  openFiles()[fd] = OpenFile{path, fp, &d};
  return fp;
}
template<class F> F next(const char * name) { return (F)dlsym(RTLD_NEXT, name); }
} // namespace
extern "C"
{
  FILE * fopen(const char * p, const char * m)
  {
    if(simIo()) return simFopen(p, m);
    static auto f = next<FILE * (*)(const char *, const char *)>("fopen");
    return f(p, m);
  }
  FILE * fopen64(const char * p, const char * m)
  {
    if(simIo()) return simFopen(p, m);
    static auto f = next<FILE * (*)(const char *, const char *)>("fopen64");
    return f(p, m);
  }
  int fileno(FILE * fp) noexcept
  {
    for(auto & kv : openFiles())
      if(kv.second.fp == fp) return kv.first;
    static auto f = next<int (*)(FILE *)>("fileno");
    return f(fp);
  }
  ssize_t write(int fd, const void * b, size_t n)
  {
    if(fd >= FD0) return simWrite(fd, (const char *)b, n);
    return syscall(SYS_write, fd, b, n);
  }
  ssize_t writev(int fd, const struct iovec * v, int k)
  {
    if(fd >= FD0)
    {
      std::string all;
      {
        sim::ModelScope ms;
        for(int i = 0; i < k; i++) all.append((const char *)v[i].iov_base, v[i].iov_len);
      }
      ssize_t r = simWrite(fd, all.data(), all.size());
      sim::ModelScope ms;
      std::string().swap(all);
      return r;
    }
    return syscall(SYS_writev, fd, v, k);
  }
  int open(const char * p, int fl, ...)
  {
    mode_t mode = 0;
    va_list ap;
    va_start(ap, fl);
    mode = va_arg(ap, mode_t);
    va_end(ap);
    if(simIo())
    {
      sim::ModelScope ms;
      sim::Disk & d = *sim::tl_ctx->disk;
      if(!simOpenAllowed(d)) return -1;
      if(fl & O_TRUNC) d.files[p].clear();
      d.files[p];
      int fd = g_next_fd++;
      openFiles()[fd] = OpenFile{p, nullptr, &d};
      return fd;
    }
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
  }
  int close(int fd)
  {
    if(fd >= FD0)
    {
      sim::ModelScope ms;
      openFiles().erase(fd);
      return 0;
    }
    return (int)syscall(SYS_close, fd);
  }
  off64_t lseek64(int fd, off64_t o, int w) noexcept
  {
    if(fd >= FD0) return 0;
    return syscall(SYS_lseek, fd, o, w);
  }
  int rename(const char * a, const char * b) noexcept
  {
    if(simIo())
    {
      sim::ModelScope ms;
      auto & fs = sim::tl_ctx->disk->files;
      if(!fs.count(a))
      {
        errno = ENOENT;
        return -1;
      }
      fs[b] = fs[a];
      fs.erase(a);
      return 0;
    }
    return (int)syscall(SYS_rename, a, b);
  }
  int unlink(const char * a) noexcept
  {
    if(simIo())
    {
      sim::ModelScope ms;
      return sim::tl_ctx->disk->files.erase(a) ? 0 : (errno = ENOENT, -1);
    }
    return (int)syscall(SYS_unlink, a);
  }
  int remove(const char * a) noexcept
  {
    if(simIo()) return unlink(a);
    return (int)syscall(SYS_unlink, a);
  }
}

// ------------------------------------------------------------------ scheduler
namespace sim
{
struct Sched::Th
{
  pthread_t pt;
  sem_t sem;
  Ctx * c;
  std::function<void()> fn;
  bool done = false;
  Sched * s;
  int id;
};
static sem_t g_main_sem;
Sched::Sched(uint64_t seed) : rng(seed) { sem_init(&g_main_sem, 0, 0); }
Sched::~Sched() {}
void Sched::add(Ctx * c, std::function<void()> fn)
{
  auto t = std::make_unique<Th>();
  t->c = c;
  t->fn = std::move(fn);
  t->s = this;
  t->id = (int)th.size();
  sem_init(&t->sem, 0, 0);
  c->sched = this;
  c->tid = t->id;
  th.push_back(std::move(t));
}
static void semWait(sem_t * s)
{
  while(sem_wait(s) != 0) {}
}
int Sched::pickOther(int id)
{
  int cand[16], n = 0;
  for(auto & t : th)
    if(!t->done && t->id != id) cand[n++] = t->id;
  if(n == 0) return -1;
  return cand[rng.next() % n];
}
uint64_t Sched::nextStop(Ctx * c)
{
  if(switches >= max_switches) return c->budget;
  double u = rng.uni();
  uint64_t d = (uint64_t)(-std::log(1 - u) * mean) + 1;
  return c->steps + d;
}
void Sched::yield(Ctx * c, bool forced)
{
  if(!forced && switches >= max_switches) return;
  int nx = pickOther(c->tid);
  if(nx < 0) return;
  switches++;
  sh->faults[FS_PREEMPT]++;
  sh->switches++;
  trace = mix(trace, ((uint64_t)nx << 40) ^ c->steps);
  cur = nx;
  sem_post(&th[nx]->sem);
  semWait(&th[c->tid]->sem);
}
void Sched::finish(int id)
{
  th[id]->done = true;
  int nx = pickOther(id);
  if(nx < 0)
    sem_post(&g_main_sem);
  else
  {
    cur = nx;
    sem_post(&th[nx]->sem);
  }
}
static void * thMain(void * a)
{
  Sched::Th * t = (Sched::Th *)a;
  semWait(&t->sem);
  t->fn();
  t->s->finish(t->id);
  return nullptr;
}
void Sched::run()
{
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  for(auto & t : th)
    if(pthread_create(&t->pt, &at, thMain, t.get())) die("pthread_create failed");
  cur = (int)(rng.next() % th.size());
  sem_post(&th[cur]->sem);
  semWait(&g_main_sem);
  for(auto & t : th) pthread_join(t->pt, nullptr);
  for(auto & t : th) t->c->sched = nullptr;
}
static void slow(Ctx * c)
{
  if(c->steps >= c->budget) die("step budget exhausted (does not terminate)");
  if(c->sched)
  {
    c->sched->yield(c, false);
    c->stop = c->sched->nextStop(c);
    if(c->stop > c->budget) c->stop = c->budget;
  }
  else
    c->stop = c->budget;
}
} // namespace sim

extern "C" void __sanitizer_cov_trace_pc()
{
  sim::Ctx * c = sim::tl_ctx;
  if(!c) return;
  if(!c->in_model)
    sim::covmap[((uintptr_t)__builtin_return_address(0)) & (sim::COVMAP - 1)] = 1;
  if(++c->steps >= c->stop) sim::slow(c);
}

// Static-initialisation guards and mutexes: a simulated thread that would block hands over instead.
namespace __cxxabiv1
{
extern "C"
{
  void * __cxa_allocate_exception(size_t n) noexcept
  {
    static void * (*f)(size_t) = nullptr;
    if(!f) f = (void * (*)(size_t))dlsym(RTLD_NEXT, "__cxa_allocate_exception");
    sim::Ctx * c = sim::tl_ctx;
    if(c) c->in_throw = true;
    void * p = f(n);
    if(c) c->in_throw = false;
    return p;
  }
  int __cxa_guard_acquire(uint64_t * g)
  {
    volatile char * b = (volatile char *)g;
    while(true)
    {
      if(b[0]) return 0;
      if(!b[1])
      {
        b[1] = 1;
        return 1;
      }
      sim::Ctx * c = sim::tl_ctx;
      if(!c || !c->sched) return 1;
      c->sched->yield(c, true);
      if(++c->steps >= c->budget) sim::die("deadlock on static initialisation");
    }
  }
  void __cxa_guard_release(uint64_t * g) noexcept
  {
    volatile char * b = (volatile char *)g;
    b[1] = 0;
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
    b[0] = 1;
  }
  void __cxa_guard_abort(uint64_t * g) noexcept { ((volatile char *)g)[1] = 0; }
}
} // namespace __cxxabiv1
extern "C" int pthread_mutex_lock(pthread_mutex_t * m)
{
  static int (*tr)(pthread_mutex_t *) = nullptr;
  static int (*lk)(pthread_mutex_t *) = nullptr;
  sim::Ctx * c = sim::tl_ctx;
  if(!lk)
  {
    lk = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    tr = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  }
  if(!c || !c->sched) return lk(m);
  while(true)
  {
    int r = tr(m);
    if(r != EBUSY) return r;
    c->sched->yield(c, true);
    if(++c->steps >= c->budget) sim::die("deadlock on a mutex");
  }
}
