#include "obj.h"

#include <cstdarg>

namespace sim
{
bool debug_trace = false;
const char * outName[6] = {"returned", "model exception", "bad_alloc", "std exception", "other exception", "none"};
std::string fmt(const char * f, ...)
{
  char b[600];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
std::string diffOutcome(const Outcome & a, const Outcome & b, bool counts)
{
  if(a.kind != b.kind)
    return fmt("ended with %s%s%s versus %s%s%s", outName[a.kind], a.what.empty() ? "" : ": ", a.what.c_str(), outName[b.kind],
               b.what.empty() ? "" : ": ", b.what.c_str());
  if(a.kind != OK_RETURN) return "";
  if(dbits(a.ret) != dbits(b.ret)) return fmt("status %g versus %g", a.ret, b.ret);
  size_t n = std::min(a.data.size(), b.data.size());
  size_t d = n;
  for(size_t i = 0; i < n; i++)
    if(dbits(a.data[i]) != dbits(b.data[i]))
    {
      d = i;
      break;
    }
  if(d < n || a.data.size() != b.data.size())
  {
    std::string name = "?";
    size_t off = 0;
    for(auto & s : a.sec)
      if(s.first <= d)
      {
        name = s.second;
        off = s.first;
      }
    if(d < n) return fmt("%s differs at element %zu: %.17g versus %.17g", name.c_str(), d - off, a.data[d], b.data[d]);
    return fmt("%s: different amount of result data (%zu versus %zu)", name.c_str(), a.data.size(), b.data.size());
  }
  if(counts)
    for(int k = 0; k < CB_N; k++)
      if(a.cb[k] != b.cb[k]) return fmt("number of %s calls %ld versus %ld", cbName[k], a.cb[k], b.cb[k]);
  return "";
}
bool finiteAll(const double * p, long n)
{
  for(long i = 0; i < n; i++)
    if(!std::isfinite(p[i])) return false;
  return true;
}

void armCtx(Ctx & c, const Op & op, Env & env)
{
  c.resetOp();
  c.budget = (uint64_t)op.get("budget", 3e8 * std::max(1.0, op.get("N", 10) / 8));
  c.faults = faultsOf(op);
  c.alloc_fail_at = op.geti("alloc", 0) > 0 ? op.geti("alloc") : -1;
  c.alloc_fail_len = op.geti("alen", 1);
  c.clk = env.clk;
  c.clk_rng = Rng(env.clkseed);
  c.now = 1700000000000000000ll;
  c.fill = env.fill;
  c.fill_rng = Rng(env.fillseed);
  c.on_cb = env.on_cb;
  if(!c.sched) stdoutMode(env.stdout_fail);
  if(env.stack >= 0 && !c.sched) poisonStack(env.stack, env.fillseed);
}
void checkAbort(const Ctx & c, const Outcome & o, const std::string & who)
{
  if(c.throws > 0)
  {
    probe(PR_ABORTED);
    if(o.kind != OK_FAULT || o.fault_id != c.last_throw_id)
      report("C08", who + "-throw-lost", fmt("%s: a model callback threw, but the call ended with %s %s", who.c_str(), outName[o.kind], o.what.c_str()));
    if(c.after_throw)
      report("C08", who + "-calls-after-throw", fmt("%s: %ld further model calls after a model exception", who.c_str(), c.after_throw));
  }
  else if(c.alloc_failed > 0)
  {
    probe(PR_BADALLOC);
    if(o.kind != OK_BADALLOC)
      report("C08", who + "-badalloc-lost", fmt("%s: an allocation failed, but the call ended with %s %s", who.c_str(), outName[o.kind], o.what.c_str()));
  }
  else if(o.kind == OK_FAULT || o.kind == OK_BADALLOC || o.kind == OK_OTHER)
    report("C08", who + "-spurious", fmt("%s: %s without any fault", who.c_str(), outName[o.kind]));
}

// ---------------------------------------------------------------- Mon
void Mon::start(const MathModel * m, double t, int n, bool f)
{
  *this = Mon();
  mm = m;
  t0 = t;
  N = n;
  fmpc = f;
  seenF.assign(N + 1, 0);
  fdBad.assign(N + 1, 0);
  ldBad1 = ldBad2 = gdBad = fBad = gBad = fdBad;
  for(auto & a : alt) a.assign(N + 1, 0);
  warmL.assign(N + 1, 0);
  warmLSeen.assign(N + 1, 0);
}
int Mon::at(int kind, double t, const double * x, long xs, const double * u, long us)
{
  calls++;
  double q = (t - t0) / mm->dt;
  if(!(std::fabs(q) < 1e9))
  {
    bad = true;
    report("C16", fmt("time-%s", cbName[kind]), fmt("%s called at time %.17g, start time %.17g", cbName[kind], t, t0));
    return -1;
  }
  int i = (int)std::lround(q);
  bool term = kind == CB_PHI || kind == CB_PHID;
  double tol = 1e-9 * std::max(1.0, std::fabs(t0));
  bool okrange = term ? i == N : (kind == CB_DIM || kind == CB_KDIM) ? (i >= 0 && i <= N) : (i >= 0 && i < N);
  if(std::fabs(t - (t0 + i * mm->dt)) > tol || !okrange)
  {
    bad = true;
    report("C16", fmt("time-%s", cbName[kind]),
           fmt("%s called at time %.17g; start %.17g, dt %g, horizon %d steps (step %g)", cbName[kind], t, t0, mm->dt, N, q));
    return -1;
  }
  if(kind == CB_DIM || kind == CB_KDIM || kind == CB_LIM) return i;
  if(xs != mm->n)
  {
    bad = true;
    report("C16", fmt("xdim-%s", cbName[kind]), fmt("%s got a state of dimension %ld", cbName[kind], xs));
    return -1;
  }
  if(!term && us != mm->mdim(t))
  {
    bad = true;
    report("C16", fmt("udim-%s", cbName[kind]),
           fmt("%s at step %d got an input of dimension %ld instead of %d", cbName[kind], i, us, mm->mdim(t)));
    return -1;
  }
  // the first evaluation at every step belongs to the warm start
  if(!term && !seenF[i] && !wu.empty())
  {
    seenF[i] = 1;
    bool eq = true;
    for(long j = 0; j < us; j++)
      if(dbits(u[j]) != dbits(wu[i][j])) eq = false;
    if(!wx.empty())
      for(long j = 0; j < xs; j++)
        if(dbits(x[j]) != dbits(wx[i][j])) eq = false;
    if(!eq)
    {
      bad = true;
      report("C16", "first-point", fmt("first %s call for step %d is not at the warm start's point of that step", cbName[kind], i));
    }
  }
  return i;
}
void Mon::outdim(int kind, double t, long got, long want, const char * what)
{
  if(got != want)
  {
    bad = true;
    report("C16", fmt("out-%s", cbName[kind]), fmt("%s at time %g: output %s has dimension %ld instead of %ld", cbName[kind], t, what, got, want));
  }
}
void Mon::gotF(int i, const double * x, const double * u, long m, const double * out, bool altered)
{
  if(altered) tampered = true;
  if(i < 0) return;
  auto & v = outF[PtKey{i, hpt(x, mm->n, u, m)}];
  v.push_back(std::vector<double>(out, out + mm->n));
  fBad[i] = !finiteAll(out, mm->n);
  if(altered) tampered = true;
  alt[CB_F][i] = altered;
}
void Mon::gotL(int i, const double * x, const double * u, long m, double v, bool altered)
{
  if(altered) tampered = true;
  if(i < 0) return;
  outL[PtKey{i, hpt(x, mm->n, u, m)}].push_back(v);
  if(!warmLSeen[i])
  {
    warmLSeen[i] = 1;
    warmL[i] = v;
  }
  if(altered) tampered = true;
}
void Mon::gotPhi(const double * x, double v, bool altered)
{
  outPhi[PtKey{N, hpt(x, mm->n, nullptr, 0)}].push_back(v);
  if(!warmPhiSeen)
  {
    warmPhiSeen = true;
    warmPhi = v;
  }
  if(altered) tampered = true;
}
void Mon::gotDeriv(int kind, int i, const double * x, const double * u, long m, bool bad1, bool bad2, bool altered)
{
  if(kind == CB_PHID)
  {
    phidBad1 = bad1;
    phidBad2 = bad2;
    phidPts[PtKey{N, hpt(x, mm->n, nullptr, 0)}]++;
    if(altered) tampered = true;
    alt[CB_PHID][N] = altered;
    return;
  }
  if(altered) tampered = true;
  if(i < 0) return;
  if(kind == CB_G)
    gBad[i] = bad1;
  else
  {
    dpts.push_back({PtKey{i, hpt(x, mm->n, u, m)}, kind});
    if(kind == CB_FD) fdBad[i] = bad1;
    if(kind == CB_LD)
    {
      ldBad1[i] = bad1;
      ldBad2[i] = bad2;
    }
    if(kind == CB_GD) gdBad[i] = bad1;
  }
  if(altered) tampered = true;
  alt[kind][i] = altered;
}
void Mon::finish(const char * who)
{
  if(bad) return;
  for(auto & p : dpts)
    if(!outF.count(p.first))
    {
      report("C16", fmt("%s-point-%s", who, cbName[p.second]),
             fmt("%s: %s for step %d was asked at a state/input that the state equation was never evaluated at for that step", who,
                 cbName[p.second], p.first.i));
      return;
    }
  for(auto & p : outL)
    if(!outF.count(p.first))
    {
      report("C16", fmt("%s-point-L", who), fmt("%s: running cost for step %d asked at a state/input never used for that step", who, p.first.i));
      return;
    }
  if(!fmpc)
    for(auto & p : phidPts)
      if(!outPhi.count(p.first))
      {
        report("C16", fmt("%s-point-phid", who), fmt("%s: terminal cost derivative asked at a state that is no end of a roll-out", who));
        return;
      }
}

std::shared_ptr<IObj> makeObj(const KV & d, Env & env, std::shared_ptr<IObj> share)
{
  using F = std::shared_ptr<IObj> (*)(const KV &, Env &, IObj *);
  static const F f[] = {makeT0, makeT1, makeT2, makeT3, makeT4, makeT5, makeT6, makeT7, makeT8, makeT9, makeT10, makeT11};
  int t = (int)d.geti("type");
  if(t < 0 || t > 11 || !f[t]) die("object type not built in");
  return f[t](d, env, share.get());
}
bool haveType(int t)
{
  using F = std::shared_ptr<IObj> (*)(const KV &, Env &, IObj *);
  static const F f[] = {makeT0, makeT1, makeT2, makeT3, makeT4, makeT5, makeT6, makeT7, makeT8, makeT9, makeT10, makeT11};
  return t >= 0 && t < 12 && f[t];
}
} // namespace sim
