// Simulator core: every source of nondeterminism and faults seen by the code
// under test goes through here. See DESIGN.md.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

namespace sim
{
// ---------------------------------------------------------------- randomness
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  double sym(double a) { return uni(-a, a); }
  long range(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); } // inclusive
  bool chance(double p) { return uni() < p; }
  template<class T> const T & pick(const std::vector<T> & v) { return v[next() % v.size()]; }
  uint32_t seed32() { return (uint32_t)(next() >> 33); }
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
inline uint64_t hashStr(const std::string & s)
{
  uint64_t h = 1469598103934665603ull;
  for(unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
inline uint64_t dbits(double d)
{
  if(std::isnan(d)) return 0x7ff8000000000000ull;
  if(d == 0) d = 0;
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return u;
}

// ------------------------------------------------------------- model callbacks
enum Cb
{
  CB_F, // state equation
  CB_L, // running cost
  CB_PHI, // terminal cost
  CB_G, // inequality
  CB_FD, // derivative of state equation
  CB_LD, // derivative of running cost
  CB_PHID, // derivative of terminal cost
  CB_GD, // derivative of inequality
  CB_DIM, // input dimension
  CB_KDIM, // inequality dimension
  CB_LIM, // input limits
  CB_AMUL, // GMRES operator
  CB_COSTATE,
  CB_DPHIDX,
  CB_DHDU,
  CB_N
};
extern const char * cbName[CB_N];

enum Action
{
  ACT_NONE = 0,
  ACT_THROW = 1,
  ACT_NAN = 2,
  ACT_PINF = 3,
  ACT_NINF = 4,
  ACT_HUGE = 5,
  ACT_N
};
extern const char * actName[ACT_N];

struct FaultSpec
{
  int kind = -1; // Cb or -1 = any
  long nth = 1; // 1-based among calls of this kind
  int action = ACT_NONE;
  bool persist = false; // every later call as well
  int elem = 0; // which output element
  long seen = 0;
};

struct SimFault // thrown by model callbacks: bare or together with one of the standard exceptions
{
  long id;
};
struct SimFaultRuntime : SimFault, std::runtime_error
{
  SimFaultRuntime(long i) : SimFault{i}, std::runtime_error("model fault") {}
};
struct SimFaultArgument : SimFault, std::invalid_argument
{
  SimFaultArgument(long i) : SimFault{i}, std::invalid_argument("model fault") {}
};
struct SimFaultAlloc : SimFault, std::bad_alloc
{
  SimFaultAlloc(long i) : SimFault{i} {}
};

// ----------------------------------------------------------------- in-memory disk
struct IoFault
{
  int mode = 0; // 0 none, 1 open fails (nth), 2 disk full after nbytes, 3 EIO on nth write, 4 EINTR storms, 5 short
                // writes, 6 both
  long n = 0;
  uint64_t seed = 1;
};
struct Disk
{
  std::map<std::string, std::string> files;
  IoFault fault;
  Rng rng{1};
  long opens = 0, writes = 0, bytes = 0;
  long fired = 0;
  void arm(const IoFault & f)
  {
    fault = f;
    rng = Rng(f.seed);
    opens = writes = bytes = fired = 0;
  }
};

// ----------------------------------------------------------------- execution context
struct Sched;
struct Mon;
enum ClockMode
{
  CLK_TICK = 0, // small positive advance per read
  CLK_FROZEN,
  CLK_BACK, // runs backwards
  CLK_JUMP, // random large jumps both ways
  CLK_MODEL, // only model callbacks advance the clock (exactly known amounts)
  CLK_EXTREME, // near the representable limits
  CLK_N
};
extern const char * clkName[CLK_N];
enum FillMode
{
  FILL_ZERO = 0,
  FILL_FF, // NaN
  FILL_7F, // huge values
  FILL_RANDOM,
  FILL_STALE, // leave whatever is there
  FILL_ONES, // doubles 1.0
  FILL_N
};
extern const char * fillName[FILL_N];

struct Ctx
{
  // steps = basic blocks of instrumented code
  uint64_t steps = 0, stop = ~0ull, budget = ~0ull;
  bool region = false;
  int in_model = 0;
  // heap
  long allocs = 0, alloc_fail_at = -1, alloc_fail_len = 1, alloc_failed = 0;
  bool alloc_in_io = false, last_free = false, in_throw = false;
  int fill = FILL_ZERO;
  Rng fill_rng{1};
  // clock
  int clk = CLK_TICK;
  int64_t now = 1700000000000000000ll;
  Rng clk_rng{1};
  long clk_reads = 0;
  int64_t adv[CB_N] = {0};
  int64_t adv_total = 0;
  // callbacks
  long cb[CB_N] = {0};
  long cb_total = 0;
  std::vector<FaultSpec> faults;
  long throws = 0, nonfinite = 0, after_throw = 0;
  long last_throw_id = 0;
  std::function<void(int kind)> on_cb; // e.g. nested solve
  uint64_t log = 1469598103934665603ull;
  // scheduling
  Sched * sched = nullptr;
  int tid = 0;
  // disk
  Disk * disk = nullptr;
  // monitor of the running operation
  Mon * mon = nullptr;

  void resetOp()
  {
    steps = 0;
    stop = budget = ~0ull;
    allocs = 0;
    alloc_fail_at = -1;
    alloc_fail_len = 1;
    alloc_failed = 0;
    last_free = false;
    clk_reads = 0;
    std::memset(adv, 0, sizeof adv);
    adv_total = 0;
    std::memset(cb, 0, sizeof cb);
    cb_total = 0;
    faults.clear();
    throws = nonfinite = after_throw = 0;
    last_throw_id = 0;
    on_cb = nullptr;
    in_model = 0;
  }
};
extern thread_local Ctx * tl_ctx;

// Enter/leave the code under test
struct Region
{
  Ctx * saved;
  bool saved_region;
  explicit Region(Ctx & c);
  ~Region();
};
// Suspends the region (model code, harness code)
struct CbGuard
{
  Ctx * c;
  int action = ACT_NONE;
  int elem = 0;
  explicit CbGuard(int kind);
  ~CbGuard()
  {
    if(c) c->in_model--;
  }
  CbGuard(const CbGuard &) = delete;
};
struct ModelScope // harness code running inside a region without counting as a callback
{
  Ctx * c;
  ModelScope() : c(tl_ctx)
  {
    if(c) c->in_model++;
  }
  ~ModelScope()
  {
    if(c) c->in_model--;
  }
};
double faultValue(int action);

void poisonStack(int fill, uint64_t seed);
long liveRegionBlocks();

// raised as an exception out of the code under test is impossible in general, so a budget overrun ends the process
// ----------------------------------------------------------------- reporting (shared memory)
struct Violation
{
  char prop[8];
  char tag[48];
  char msg[400];
};
enum Probe
{
  PR_DDP_TRUE,
  PR_DDP_FALSE,
  PR_DDP_MAXITER,
  PR_DDP_LAMBDA_FAIL,
  PR_DDP_CONSTRAINED,
  PR_DDP_CLAMPED,
  PR_DDP_ZERO_DIM,
  PR_DDP_ALPHA_LT1,
  PR_FM_SUCC,
  PR_FM_MAXIT,
  PR_FM_ERRB,
  PR_FM_ERRF,
  PR_FM_ERRU,
  PR_FM_LS,
  PR_FM_ZERO_INEQ,
  PR_BQ_CLAMPED,
  PR_BQ_FAIL,
  PR_GM_FULL,
  PR_CG_RUN,
  PR_CG_STEP,
  PR_COMPARE_REUSED,
  PR_REJECTED,
  PR_ABORTED,
  PR_BADALLOC,
  PR_DUMP_OK,
  PR_DUMP_FAULT,
  PR_NESTED,
  PR_SWITCH,
  PR_LOOP_RECOVERED,
  PR_CONVEX_OPT,
  PR_DURATION_EXACT,
  PR_NAN_NOT_SUCCESS,
  PR_STEP_CHECKED,
  PR_CHAOTIC,
  PR_LINE_SEARCH,
  PR_ALIAS,
  PR_GRADIENT_END,
  PR_LIMITED_STEP,
  PR_INIT_VARIED,
  PR_LS_GAVE_UP,
  PR_N
};
extern const char * probeName[PR_N];
enum FaultStat
{
  FS_THROW,
  FS_NAN,
  FS_INF,
  FS_HUGE,
  FS_ALLOC,
  FS_FILL,
  FS_CLOCK,
  FS_STDOUT,
  FS_IO_OPEN,
  FS_IO_FULL,
  FS_IO_EIO,
  FS_IO_EINTR,
  FS_IO_SHORT,
  FS_MALFORMED,
  FS_PREEMPT,
  FS_NESTED,
  FS_MSG_LOSS,
  FS_MSG_DELAY,
  FS_MSG_DUP,
  FS_MSG_REORDER,
  FS_DISTURB,
  FS_STALL,
  FS_CRASH,
  FS_TIMEJUMP,
  FS_N
};
extern const char * faultStatName[FS_N];

enum Phase
{
  PH_NONE,
  PH_FRESH,
  PH_REUSED,
  PH_ENV_A,
  PH_ENV_CLOCK,
  PH_ENV_FILL,
  PH_SOLO,
  PH_THREADS,
  PH_DUMP,
  PH_LOOP,
  PH_CONVEX,
  PH_REF,
  PH_N
};
enum OpFlag
{
  OF_THROW = 1,
  OF_ALLOC = 2,
  OF_MALFORMED = 4,
  OF_NONFINITE = 8,
  OF_IO = 16
};

struct Shared
{
  int nviol;
  Violation viol[24];
  uint64_t loghash;
  uint64_t nontrivial;
  uint64_t ops;
  double simtime;
  uint64_t steps;
  uint64_t solves;
  uint64_t callbacks;
  uint64_t switches;
  uint64_t faults[FS_N];
  uint64_t probes[PR_N];
  // crash information
  int phase, op_index, op_flags;
  char kind[24];
  int crashed;
  char crash_reason[200];
  int done;
};
extern Shared * sh;
extern uint8_t * covmap; // 1<<17 bytes, shared
constexpr uint32_t COVMAP = 1u << 17;

void report(const char * prop, const std::string & tag, const std::string & msg);
inline void probe(Probe p, uint64_t n = 1) { sh->probes[p] += n; }
inline void fstat(FaultStat p, uint64_t n = 1) { sh->faults[p] += n; }
void setPhase(int phase, int op, int flags, const std::string & kind);
[[noreturn]] void die(const char * reason);
void installCrashHandlers();
void installStdout();
void stdoutMode(bool failing);

// ----------------------------------------------------------------- threads
struct Sched
{
  Rng rng;
  double mean = 200;
  long max_switches = 1000000000;
  long switches = 0;
  uint64_t trace = 1469598103934665603ull;
  struct Th;
  std::vector<std::unique_ptr<Th>> th;
  int cur = -1;
  explicit Sched(uint64_t seed);
  ~Sched();
  void add(Ctx * c, std::function<void()> fn);
  void run(); // returns when all finished
  void yield(Ctx * c, bool forced); // called by the running thread
  uint64_t nextStop(Ctx * c);
  void finish(int id);
  int pickOther(int id);
};
} // namespace sim
