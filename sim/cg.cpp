// C/GMRES controller as a simulated object (type 8)
#include <nmpc_cgmres/CgmresSolver.h>

#include "obj.h"
#include "refs.h"

namespace sim
{
namespace
{
using V = Eigen::VectorXd;
using RV = Eigen::Ref<Eigen::VectorXd>;
using CRV = Eigen::Ref<const Eigen::VectorXd>;

// Monitor of the calls of one C/GMRES operation
struct CgMon
{
  const ContModel * cm = nullptr;
  double dt = 0, Ts = 1, ratio = 0.5, delta = 0.002;
  int Nh = 1;
  bool in_setup = false;
  double t = 0; // time of the current update
  bool bad = false;
  std::unordered_map<uint64_t, std::vector<double>> pts; // (x,u) -> times of state equation calls since the last mark
  double horizon(double tt) const { return Ts * (1 - std::exp(-ratio * tt)); }
  void err(int kind, const char * tag, const std::string & m)
  {
    if(bad) return;
    bad = true;
    report("C16", fmt("cg-%s-%s", tag, cbName[kind]), m);
  }
  double lim() const { return t + delta + std::max(horizon(t + delta), dt) + 1e-9; }
  void call(int kind, double tt, const double * x, long xs, const double * u, long us)
  {
    if(xs != cm->n || (us >= 0 && us != cm->m))
    {
      err(kind, "dim", fmt("C/GMRES: %s called with a state of dimension %ld and an input of dimension %ld", cbName[kind], xs, us));
      die("inconsistent callback arguments");
    }
    if(kind == CB_F && in_setup) in_setup = false; // the simulation started
    if(in_setup)
    {
      if(std::fabs(tt) > 1e-12) err(kind, "time", fmt("C/GMRES: %s called at time %g during the setup for time 0", cbName[kind], tt));
      return;
    }
    if(kind == CB_F) pts[hpt(x, xs, u, us)].push_back(tt);
  }
  // run(): the current time is only known from the calls; the simulator follows it through the dphidx calls
  void check(int kind, double tt, const double * x, long xs, const double * u, long us)
  {
    if(in_setup || bad) return;
    if(kind == CB_DHDU || kind == CB_COSTATE)
    {
      auto it = pts.find(hpt(x, xs, u, us));
      bool ok = false;
      double tol = kind == CB_DHDU ? 1e-9 : Ts / Nh + 1e-9;
      if(it != pts.end())
        for(double q : it->second) ok = ok || std::fabs(q - tt) <= tol;
      if(!ok)
        err(kind, "point",
            fmt("C/GMRES: %s called at time %.12g with a state and input that do not belong to that time of the predicted trajectory", cbName[kind], tt));
    }
  }
};

struct Prob : public nmpc_cgmres::CgmresProblem
{
  std::shared_ptr<ContModel> cm;
  CgMon * mo = nullptr;
  bool direct = false; // driven update by update: the current time is known exactly
  void stateEquation(double t, const CRV & x, const CRV & u, RV dx) override
  {
    CbGuard g(CB_F);
    if(mo) mo->call(CB_F, t, x.data(), x.size(), u.data(), u.size());
    if(mo && direct && !mo->in_setup && (t < mo->t - 1e-9 || t > mo->lim()))
      mo->err(CB_F, "time", fmt("C/GMRES: state equation called at time %.12g in the update at %.12g with horizon %g", t, mo->t, mo->horizon(mo->t)));
    cm->f(t, x.data(), u.data(), dx.data());
    if(g.action) dx[g.elem % cm->n] = faultValue(g.action);
  }
  void costateEquation(double t, const CRV & l, const CRV & xu, RV dl) override
  {
    CbGuard g(CB_COSTATE);
    if(mo)
    {
      mo->call(CB_COSTATE, t, l.data(), l.size(), xu.data() + cm->n, xu.size() - cm->n);
      mo->check(CB_COSTATE, t, xu.data(), cm->n, xu.data() + cm->n, cm->m);
      if(direct && !mo->in_setup && (t < mo->t - 1e-9 || t > mo->lim()))
        mo->err(CB_COSTATE, "time", fmt("C/GMRES: costate equation called at time %.12g in the update at %.12g", t, mo->t));
    }
    cm->costate(t, l.data(), xu.data(), xu.data() + cm->n, dl.data());
    if(g.action) dl[g.elem % cm->n] = faultValue(g.action);
  }
  void calcDphiDx(double t, const CRV & x, RV p) override
  {
    CbGuard g(CB_DPHIDX);
    if(mo)
    {
      mo->call(CB_DPHIDX, t, x.data(), x.size(), nullptr, -1);
      if(direct && !mo->in_setup)
      {
        double a = mo->t + mo->horizon(mo->t), b = mo->t + mo->delta + mo->horizon(mo->t + mo->delta);
        if(std::fabs(t - a) > 1e-9 && std::fabs(t - b) > 1e-9)
          mo->err(CB_DPHIDX, "time", fmt("C/GMRES: terminal function called at time %.12g; the horizon of the update at %.12g ends at %.12g (or %.12g)", t, mo->t, a, b));
      }
    }
    cm->dphidx(t, x.data(), p.data());
    if(g.action) p[g.elem % cm->n] = faultValue(g.action);
  }
  void calcDhDu(double t, const CRV & x, const CRV & u, const CRV & l, RV h) override
  {
    CbGuard g(CB_DHDU);
    if(mo)
    {
      mo->call(CB_DHDU, t, x.data(), x.size(), u.data(), u.size());
      mo->check(CB_DHDU, t, x.data(), x.size(), u.data(), u.size());
    }
    cm->dhdu(t, x.data(), u.data(), l.data(), h.data());
    if(g.action) h[g.elem % cm->m] = faultValue(g.action);
  }
};

struct CgArgs : Args
{
  Op op;
};

struct CgObj : ICg
{
  std::shared_ptr<Prob> prob;
  nmpc_cgmres::CgmresSolver * sol = nullptr;
  int odeType = 0, simOde = -1;
  CgObj(const KV & d, Env & env, IObj * share)
  {
    desc = d;
    kind = "cg";
    reuse_prop = "C03";
    cm = std::make_shared<ContModel>();
    cm->init((uint64_t)d.get("mseed", 1), (int)d.geti("n", 2), (int)d.geti("m", 1), (int)d.geti("flavour"));
    if(d.has("tv")) cm->tv = d.get("tv");
    if(share && d.geti("shareprob"))
      prob = static_cast<CgObj *>(share)->prob;
    else
    {
      prob = std::make_shared<Prob>();
      prob->cm = cm;
      prob->dim_x_ = cm->n;
      prob->dim_u_ = cm->m;
      prob->dim_c_ = 0;
      prob->dim_uc_ = cm->m;
      prob->x_initial_ = Eigen::Map<V>(cm->x0, cm->n);
      prob->u_initial_ = Eigen::Map<V>(cm->u0, cm->m);
      prob->state_eq_param_ = Eigen::Map<V>(cm->Q, cm->n);
    }
    odeType = (int)d.geti("ode");
    simOde = (int)d.geti("simode", -1);
    auto mk = [](int t) -> std::shared_ptr<nmpc_cgmres::OdeSolver>
    {
      if(t < 0) return nullptr;
      if(t == 0) return std::make_shared<nmpc_cgmres::EulerOdeSolver>();
      return std::make_shared<nmpc_cgmres::RungeKuttaOdeSolver>();
    };
    auto o1 = mk(odeType), o2 = mk(simOde);
    Ctx & c = *env.ctx;
    c.resetOp();
    c.fill = env.fill;
    c.fill_rng = Rng(env.fillseed ^ 5);
    Region r(c);
    sol = new nmpc_cgmres::CgmresSolver(prob, o1, o2);
  }
  ~CgObj() { delete sol; }
  std::shared_ptr<IObj> fresh(Env & env) const override { return std::make_shared<CgObj>(desc, env, nullptr); }
  std::shared_ptr<Args> prepare(const Op & op) override
  {
    auto a = std::make_shared<CgArgs>();
    a->op = op;
    return a;
  }
  void params(const Op & op) override
  {
    auto & s = *sol;
    s.dt_ = op.get("dt", 0.01);
    double frac = op.get("frac", 0.5);
    if(frac == 0 && s.dt_ != 0.0078125) frac = 0.5; // only exact where the sum of time steps is
    s.sim_duration_ = (op.geti("K", 5) + frac) * s.dt_;
    s.steady_horizon_duration_ = op.get("Ts", 1.0);
    s.horizon_divide_num_ = (int)op.geti("Nh", 5);
    s.horizon_increase_ratio_ = op.get("ratio", 0.5);
    s.eq_zeta_ = op.get("zeta", 50);
    s.k_max_ = (int)op.geti("kmax", 5);
    s.finite_diff_delta_ = op.get("fdd", 0.002);
    s.dump_step_ = (int)op.geti("dump", 1);
  }
  void monStart(CgMon & m)
  {
    m.cm = cm.get();
    m.dt = sol->dt_;
    m.Ts = sol->steady_horizon_duration_;
    m.ratio = sol->horizon_increase_ratio_;
    m.delta = sol->finite_diff_delta_;
    m.Nh = sol->horizon_divide_num_;
  }
  void flatten(Outcome & o, bool) const override
  {
    o.mark("state");
    o.add(sol->x_.data(), sol->x_.size());
    o.mark("input");
    o.add(sol->u_.data(), sol->u_.size());
    o.mark("horizon inputs");
    o.add(sol->u_list_.data(), sol->u_list_.size());
  }
  long evalBound(const Op & op, long updates) const
  {
    long dim = op.geti("Nh", 5) * cm->m;
    long per = (4 + std::min(op.geti("kmax", 5), dim)) * op.geti("Nh", 5) * 4 + 8;
    return 2 * (updates * per + 400 * (cm->m + 3));
  }
  void checkCount(const Op & op, Ctx & c, long updates)
  {
    long b = evalBound(op, updates);
    if(c.cb[CB_F] > b || c.cb[CB_COSTATE] > b || c.cb[CB_DHDU] > b || c.cb[CB_DPHIDX] > b)
      report("C15", "cg-evals",
             fmt("C/GMRES made %ld state equation and %ld dh/du calls in %ld updates (bound %ld)", c.cb[CB_F], c.cb[CB_DHDU], updates, b));
  }
  Outcome exec(const Op & op, const Args &, Env & env) override
  {
    Ctx & c = *env.ctx;
    params(op);
    CgMon mon;
    monStart(mon);
    mon.in_setup = true;
    armCtx(c, op, env);
    Outcome o;
    long K = op.geti("K", 5);
    sh->simtime += K * sol->dt_;
    bool useMon = env.monitor && !desc.geti("shareprob");
    if(op.name == "run")
    {
      Disk * d = c.disk;
      if(d)
        for(const char * f : {"x", "u", "err", "param"}) d->files[std::string("/tmp/cgmres_") + f + ".dat"] = "OLD\n";
      if(d)
      {
        IoFault f;
        f.mode = (int)op.geti("io");
        f.n = op.geti("ion", 1);
        f.seed = (uint64_t)op.get("ios", 1);
        d->arm(f);
      }
      if(useMon) prob->mo = &mon;
      guarded(c, o, [&] { sol->run(); });
      probe(PR_CG_RUN);
      prob->mo = nullptr;
      if(d) d->arm(IoFault());
      checkAbort(c, o, kind);
      flatten(o, false);
      if(d && o.kind == OK_RETURN)
        for(const char * f : {"x", "u", "err", "param"})
        {
          o.mark(std::string("log file ") + f);
          o.addStr(d->files[std::string("/tmp/cgmres_") + f + ".dat"]);
        }
      if(o.kind == OK_RETURN) checkCount(op, c, K + 1);
      if(o.kind == OK_STDEXC) report("C09", "cg-rejected", fmt("C/GMRES: a well-formed run was rejected: %s", o.what.c_str()));
      return o;
    }
    // "steps": setup, then update by update with disturbances
    Rng r((uint64_t)op.get("seed", 1));
    double dist = op.get("dist", 0);
    if(useMon)
    {
      prob->mo = &mon;
      prob->direct = true;
    }
    guarded(c, o,
            [&]
            {
              sol->setup();
              V x = sol->x_, nx(cm->n), dx(cm->n);
              for(long j = 0; j < K; j++)
              {
                double t = j * sol->dt_;
                {
                  ModelScope ms;
                  mon.in_setup = false;
                  mon.t = t;
                  mon.pts.clear();
                  cm->f(t, x.data(), sol->u_.data(), dx.data());
                  for(int q = 0; q < cm->n; q++) nx[q] = x[q] + sol->dt_ * dx[q];
                  if(dist > 0 && r.chance(0.4))
                    for(int q = 0; q < cm->n; q++) nx[q] += r.sym(dist);
                }
                sol->calcControlInput(t, x, nx, sol->u_);
                x = nx;
              }
            });
    probe(PR_CG_STEP, (uint64_t)K);
    prob->mo = nullptr;
    prob->direct = false;
    checkAbort(c, o, kind);
    flatten(o, false);
    if(o.kind == OK_RETURN) checkCount(op, c, K);
    return o;
  }
  Outcome setupStep(const Op & op, Env & env, const double * x0) override
  {
    Ctx & c = *env.ctx;
    params(op);
    if(x0) prob->x_initial_ = Eigen::Map<const V>(x0, cm->n);
    armCtx(c, op, env);
    Outcome o;
    guarded(c, o, [&] { sol->setup(); });
    checkAbort(c, o, kind);
    return o;
  }
  Outcome update(const Op & op, Env & env, double t, const double * x, const double * nx) override
  {
    Ctx & c = *env.ctx;
    CgMon mon;
    monStart(mon);
    mon.t = t;
    prob->mo = &mon;
    prob->direct = true;
    armCtx(c, op, env);
    Outcome o;
    V X = Eigen::Map<const V>(x, cm->n), NX = Eigen::Map<const V>(nx, cm->n);
    guarded(c, o, [&] { sol->calcControlInput(t, X, NX, sol->u_); });
    prob->mo = nullptr;
    prob->direct = false;
    probe(PR_CG_STEP);
    checkAbort(c, o, kind);
    if(o.kind == OK_RETURN) checkCount(op, c, 1);
    return o;
  }
  std::vector<double> uList() const override { return std::vector<double>(sol->u_list_.data(), sol->u_list_.data() + sol->u_list_.size()); }
  std::vector<double> duVec() const override { return std::vector<double>(sol->delta_u_vec_.data(), sol->delta_u_vec_.data() + sol->delta_u_vec_.size()); }
  std::vector<double> u() const override { return std::vector<double>(sol->u_.data(), sol->u_.data() + sol->u_.size()); }
  std::vector<double> x() const override { return std::vector<double>(sol->x_.data(), sol->x_.data() + sol->x_.size()); }
};
} // namespace
std::shared_ptr<IObj> makeT8(const KV & d, Env & env, IObj * share) { return std::make_shared<CgObj>(d, env, share); }
} // namespace sim
