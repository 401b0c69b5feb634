// Common interface of the simulated objects under test, monitors of callback traffic, outcomes.
#pragma once
#include <algorithm>
#include <memory>

#include "model.h"
#include "plan.h"

namespace sim
{
extern bool debug_trace; // set by --trace: print what solvers recorded while replaying
std::string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- outcome
enum OutKind
{
  OK_RETURN = 0,
  OK_FAULT, // SimFault reached the caller
  OK_BADALLOC,
  OK_STDEXC, // some std::exception of the library
  OK_OTHER,
  OK_NONE
};
extern const char * outName[6];
struct Outcome
{
  int kind = OK_NONE;
  long fault_id = 0;
  std::string what;
  double ret = 0;
  std::vector<double> data;
  std::vector<std::pair<size_t, std::string>> sec;
  long cb[CB_N] = {0};
  void mark(const std::string & s) { sec.push_back({data.size(), s}); }
  void add(double d) { data.push_back(d); }
  void add(const double * p, long n)
  {
    data.push_back((double)n);
    for(long i = 0; i < n; i++) data.push_back(p[i]);
  }
  void addStr(const std::string & s)
  {
    data.push_back((double)s.size());
    data.push_back((double)(hashStr(s) >> 12));
  }
  uint64_t hash() const
  {
    uint64_t h = mix(kind, dbits(ret));
    for(double d : data) h = mix(h, dbits(d));
    return h;
  }
};
// "" if equal
std::string diffOutcome(const Outcome & a, const Outcome & b, bool counts);

// ---------------------------------------------------------------- environment of one execution
struct Env
{
  Ctx * ctx = nullptr;
  int clk = CLK_TICK;
  uint64_t clkseed = 1;
  int print = 0;
  bool stdout_fail = false;
  int fill = FILL_ZERO;
  uint64_t fillseed = 1;
  int stack = -1;
  bool monitor = true;
  bool count_only = false;
  std::function<void(int)> on_cb;
};

struct PtKey
{
  int i;
  uint64_t h;
  bool operator==(const PtKey & o) const { return i == o.i && h == o.h; }
};
struct PtHash
{
  size_t operator()(const PtKey & k) const { return (size_t)mix(k.h, (uint64_t)k.i); }
};
inline uint64_t hpt(const double * x, long n, const double * u, long m)
{
  uint64_t h = 0x1234;
  for(long i = 0; i < n; i++) h = mix(h, dbits(x[i]));
  h = mix(h, 0x55);
  for(long i = 0; i < m; i++) h = mix(h, dbits(u[i]));
  return h;
}

// Monitor of the calls one DDP/FMPC solve makes to its model
struct Mon
{
  const MathModel * mm = nullptr;
  double t0 = 0;
  int N = 0;
  bool fmpc = false;
  bool bad = false; // a C16 violation was reported
  // expected first evaluation points
  std::vector<std::vector<double>> wx, wu; // FMPC: warm start x,u; DDP: only wu
  std::vector<char> seenF;
  std::unordered_map<PtKey, std::vector<std::vector<double>>, PtHash> outF;
  std::unordered_map<PtKey, std::vector<double>, PtHash> outL, outPhi;
  std::vector<std::pair<PtKey, int>> dpts; // derivative evaluation points (kind)
  std::unordered_map<PtKey, int, PtHash> phidPts;
  // last derivative data delivered per index, finite?
  std::vector<char> fdBad, ldBad1, ldBad2, gdBad, fBad, gBad;
  bool phidBad1 = false, phidBad2 = false;
  std::vector<double> warmL; // costs of the first roll-out
  double warmPhi = 0;
  bool warmPhiSeen = false;
  std::vector<char> warmLSeen;
  long calls = 0;
  bool tampered = false; // some delivered value was altered by a fault
  std::vector<char> alt[CB_N]; // by kind and index: the last delivered value was altered by a fault

  void start(const MathModel * m, double t, int n, bool f);
  // returns the horizon index, reports C16 problems
  int at(int kind, double t, const double * x, long xs, const double * u, long us);
  void outdim(int kind, double t, long got, long want, const char * what);
  void gotF(int i, const double * x, const double * u, long m, const double * out, bool altered);
  void gotL(int i, const double * x, const double * u, long m, double v, bool altered);
  void gotPhi(const double * x, double v, bool altered);
  void gotDeriv(int kind, int i, const double * x, const double * u, long m, bool bad1, bool bad2, bool altered);
  void finish(const char * who); // set inclusion checks, only after a normal return
};
inline Mon * curMon() { return tl_ctx ? tl_ctx->mon : nullptr; }

struct Args
{
  virtual ~Args() {}
  bool malformed = false;
  bool finite = true;
};

struct IObj
{
  KV desc;
  std::string kind; // ddp, fmpc, cg, boxqp, gmres
  const char * reuse_prop = "C01";
  virtual ~IObj() {}
  virtual std::shared_ptr<IObj> fresh(Env & env) const = 0;
  virtual std::shared_ptr<Args> prepare(const Op & op) = 0;
  virtual Outcome exec(const Op & op, const Args & args, Env & env) = 0;
  // results currently readable
  virtual void flatten(Outcome & o, bool durations) const = 0;
  virtual bool stuckBoxQp() const { return false; } // DDP: last search direction of the box QP was no descent direction
  virtual bool canDump() const { return false; }
  virtual void dump(const std::string &) const {}
  virtual std::vector<std::string> dumpHeader() const { return {}; }
  virtual std::vector<std::vector<double>> dumpRows() const { return {}; }
  virtual bool comparable(const Op &) const { return true; }
  // closed-loop use
  virtual void setState(Args &, const double *, double /* t */) {}
  virtual int planInput(int /* step */, double *) const { return -1; } // returns the dimension, -1 if there is none
  virtual const MathModel * model() const { return nullptr; }
  virtual double planCost() const { return 0; }
  virtual std::shared_ptr<Args> varied(const Op &, const Args &) const { return nullptr; }
  virtual double kktOf(const Args &, double * = nullptr) const { return 0; }
  // C28: this object did one iteration more than 'before' on the same problem (no faults)
  virtual void stepCheck(const IObj & /* before */, const Op &, const Args &) const {}
};
// C/GMRES controllers, step by step
struct ICg : IObj
{
  std::shared_ptr<ContModel> cm;
  virtual void params(const Op & op) = 0;
  virtual Outcome setupStep(const Op & op, Env & env, const double * x0) = 0;
  virtual Outcome update(const Op & op, Env & env, double t, const double * x, const double * nx) = 0;
  virtual std::vector<double> uList() const = 0; // column by column
  virtual std::vector<double> duVec() const = 0;
  virtual std::vector<double> u() const = 0;
  virtual std::vector<double> x() const = 0;
};
std::shared_ptr<IObj> makeObj(const KV & desc, Env & env, std::shared_ptr<IObj> share = nullptr);
// 0-3 DDP <2,1> <3,2> <2,dyn> <4,dyn>; 4-7 FMPC <2,1,3> <3,2,4> <2,dyn,dyn> <3,dyn,2>; 8 C/GMRES; 9,10 BoxQP fixed/dynamic; 11 GMRES
// weak: only the types a check needs are linked in
#define SIM_MAKE(T) __attribute__((weak)) std::shared_ptr<IObj> makeT##T(const KV & desc, Env & env, IObj * share);
SIM_MAKE(0) SIM_MAKE(1) SIM_MAKE(2) SIM_MAKE(3) SIM_MAKE(4) SIM_MAKE(5) SIM_MAKE(6) SIM_MAKE(7) SIM_MAKE(8) SIM_MAKE(9) SIM_MAKE(10) SIM_MAKE(11)
#undef SIM_MAKE
bool haveType(int t);

void armCtx(Ctx & c, const Op & op, Env & env);
// Runs fn inside the code-under-test region, classifying how it ends
template<class F>
void guarded(Ctx & c, Outcome & o, F && fn)
{
  try
  {
    Region r(c);
    fn();
    o.kind = OK_RETURN;
  }
  catch(const SimFault & f)
  {
    o.kind = OK_FAULT;
    o.fault_id = f.id;
  }
  catch(const std::bad_alloc &)
  {
    o.kind = OK_BADALLOC;
  }
  catch(const std::exception & e)
  {
    o.kind = OK_STDEXC;
    o.what = e.what();
  }
  catch(...)
  {
    o.kind = OK_OTHER;
  }
  memcpy(o.cb, c.cb, sizeof o.cb);
  sh->solves++;
}
// C08 for one finished operation
void checkAbort(const Ctx & c, const Outcome & o, const std::string & who);
bool finiteAll(const double * p, long n);
} // namespace sim
