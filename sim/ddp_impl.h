#pragma once
#include <unordered_map>

#include <nmpc_ddp/DDPSolver.h>

#include "prob.h"

namespace sim
{
template<int N, int M>
struct DdpProb : public CommonProb<nmpc_ddp::DDPProblem<N, M>, N, M>
{
  using B = CommonProb<nmpc_ddp::DDPProblem<N, M>, N, M>;
  using B::B;
  using B::calcStateEqDeriv;
  using typename B::U;
  using typename B::UU;
  using typename B::X;
  using typename B::XU;
  using typename B::XX;
  void calcStateEqDeriv(double t,
                        const X & x,
                        const U & u,
                        Eigen::Ref<XX> Fx,
                        Eigen::Ref<XU> Fu,
                        std::vector<XX> & Fxx,
                        std::vector<UU> & Fuu,
                        std::vector<XU> & Fxu) const override
  {
    B::calcStateEqDeriv(t, x, u, Fx, Fu);
    ModelScope ms;
    if(auto * mo = curMon())
    {
      mo->outdim(CB_FD, t, (long)Fxx.size(), N, "Fxx");
      mo->outdim(CB_FD, t, (long)Fuu.size(), N, "Fuu");
      mo->outdim(CB_FD, t, (long)Fxu.size(), N, "Fxu");
      for(auto & a : Fuu) mo->outdim(CB_FD, t, a.cols(), this->mm->mdim(t), "Fuu[i]");
      for(auto & a : Fxu) mo->outdim(CB_FD, t, a.cols(), this->mm->mdim(t), "Fxu[i]");
    }
    for(auto & a : Fxx) a.setZero();
    for(auto & a : Fuu) a.setZero();
    for(auto & a : Fxu) a.setZero();
  }
};

template<int N>
struct DdpArgs : Args
{
  double t = 0;
  int T = 1;
  double x[MX] = {0};
  std::vector<std::vector<double>> u;
};

// The input limits in force: the user may install another function before any solve
struct Lim
{
  double sc = 1;
  int kind = 0;
  static Lim of(const KV & op)
  {
    Lim l;
    l.sc = op.get("lims", 1);
    l.kind = (int)op.geti("limk");
    return l;
  }
  bool operator==(const Lim & o) const { return sc == o.sc && kind == o.kind; }
  void get(const MathModel & mm, double t, int m, double * lo, double * hi) const
  {
    mm.lim(t, m, lo, hi);
    for(int j = 0; j < m; j++)
    {
      lo[j] *= sc;
      hi[j] *= sc;
      if(kind == 1 && j % 2 == 0) hi[j] = lo[j]; // a fixed input
      if(kind == 2) (j % 2 ? lo : hi)[j] = j % 2 ? -INFINITY : INFINITY; // bounded on one side
      if(kind == 3) lo[j] += 0.8, hi[j] += 0.8; // zero may be outside
    }
  }
};

// Reference backward pass: relative size of the feedforward step at a plan, with regularisation lambda.
// returns -1 if the reference cannot factorise.
inline double refKRel(const MathModel & mm, double t0, int T, const std::vector<const double *> & xs, const std::vector<std::vector<double>> & us,
                      double lambda, int reg, bool con, const Lim & lim)
{
  int n = mm.n;
  Eigen::VectorXd Vx(n);
  Eigen::MatrixXd Vxx(n, n);
  mm.phid(t0 + T * mm.dt, xs[T], Vx.data(), Vxx.data());
  double krel = 0;
  for(int i = T - 1; i >= 0; i--)
  {
    double t = t0 + i * mm.dt;
    int m = (int)us[i].size();
    Eigen::MatrixXd Fx(n, n), Fu(n, m), Lxx(n, n), Luu(m, m), Lxu(n, m);
    Eigen::VectorXd Lx(n), Lu(m);
    mm.fd(t, xs[i], us[i].data(), m, Fx.data(), Fu.data());
    mm.Ld(t, xs[i], us[i].data(), m, Lx.data(), Lu.data(), Lxx.data(), Luu.data(), Lxu.data());
    Eigen::VectorXd Qx = Lx + Fx.transpose() * Vx;
    Eigen::MatrixXd Qxx = Lxx + Fx.transpose() * Vxx * Fx;
    if(m == 0)
    {
      Vx = Qx;
      Vxx = Qxx;
      continue;
    }
    Eigen::VectorXd Qu = Lu + Fu.transpose() * Vx;
    Eigen::MatrixXd Qux = Lxu.transpose() + Fu.transpose() * Vxx * Fx, Quu = Luu + Fu.transpose() * Vxx * Fu;
    Eigen::MatrixXd Vr = Vxx;
    if(reg == 2) Vr.diagonal().array() += lambda;
    Eigen::MatrixXd Quxr = Lxu.transpose() + Fu.transpose() * Vr * Fx, QuuF = Luu + Fu.transpose() * Vr * Fu;
    if(reg == 1) QuuF.diagonal().array() += lambda;
    Eigen::VectorXd k = Eigen::VectorXd::Zero(m);
    Eigen::MatrixXd K = Eigen::MatrixXd::Zero(m, n);
    if(!con)
    {
      Eigen::LLT<Eigen::MatrixXd> llt(QuuF);
      if(llt.info() != Eigen::Success) return -1;
      k = -llt.solve(Qu);
      K = -llt.solve(Quxr);
    }
    else
    {
      // exact box QP by enumeration of the active set
      Eigen::VectorXd lo(m), hi(m);
      lim.get(mm, t, m, lo.data(), hi.data());
      for(int j = 0; j < m; j++)
      {
        lo[j] -= us[i][j];
        hi[j] -= us[i][j];
      }
      Eigen::LLT<Eigen::MatrixXd> full(QuuF);
      if(full.info() != Eigen::Success) return -1;
      int comb = 1;
      for(int j = 0; j < m; j++) comb *= 3;
      double best = 1e300;
      std::vector<int> bestfree;
      for(int cmb = 0; cmb < comb; cmb++)
      {
        std::vector<int> fr;
        Eigen::VectorXd v = Eigen::VectorXd::Zero(m);
        int q = cmb;
        for(int j = 0; j < m; j++, q /= 3)
        {
          if(q % 3 == 0)
            fr.push_back(j);
          else
            v[j] = q % 3 == 1 ? lo[j] : hi[j];
        }
        if(!fr.empty())
        {
          Eigen::MatrixXd H(fr.size(), fr.size());
          Eigen::VectorXd g(fr.size());
          Eigen::VectorXd gg = Qu + QuuF * v;
          for(size_t a = 0; a < fr.size(); a++)
          {
            g[a] = gg[fr[a]];
            for(size_t b = 0; b < fr.size(); b++) H(a, b) = QuuF(fr[a], fr[b]);
          }
          Eigen::VectorXd s = H.llt().solve(-g);
          for(size_t a = 0; a < fr.size(); a++) v[fr[a]] = s[a];
        }
        bool feas = true;
        for(int j = 0; j < m; j++)
          if(v[j] < lo[j] - 1e-9 || v[j] > hi[j] + 1e-9) feas = false;
        if(!feas) continue;
        double o = v.dot(Qu) + 0.5 * v.dot(QuuF * v);
        if(o < best)
        {
          best = o;
          k = v;
          bestfree = fr;
        }
      }
      if(best > 1e299) return -1;
      if(!bestfree.empty())
      {
        size_t f = bestfree.size();
        Eigen::MatrixXd H(f, f), Q(f, n);
        for(size_t a = 0; a < f; a++)
        {
          Q.row(a) = Quxr.row(bestfree[a]);
          for(size_t b = 0; b < f; b++) H(a, b) = QuuF(bestfree[a], bestfree[b]);
        }
        Eigen::MatrixXd s = H.llt().solve(-Q);
        for(size_t a = 0; a < f; a++) K.row(bestfree[a]) = s.row(a);
      }
    }
    Vx = Qx + K.transpose() * Quu * k + K.transpose() * Qu + Qux.transpose() * k;
    Eigen::MatrixXd V = Qxx + K.transpose() * Quu * K + K.transpose() * Qux + Qux.transpose() * K;
    Vxx = 0.5 * (V + V.transpose());
    double un = 0;
    for(double v : us[i]) un += v * v;
    krel = std::max(krel, k.norm() / (std::sqrt(un) + 1));
  }
  return krel;
}

// Exact minimiser of a strictly convex box QP by enumeration of the active set. Returns false when the active set
// is too close to call, or when the box-QP of the library stops short of the minimum (judged by C23, not here).
inline bool refBox(const Eigen::MatrixXd & H, const Eigen::VectorXd & g, const Eigen::VectorXd & lo, const Eigen::VectorXd & hi, const Eigen::VectorXd & guess, Eigen::VectorXd & k,
                   std::vector<int> & free)
{
  int m = (int)g.size(), comb = 1, found = 0;
  for(int j = 0; j < m; j++) comb *= 3;
  double gs = 1 + g.cwiseAbs().maxCoeff();
  for(int cmb = 0; cmb < comb; cmb++)
  {
    std::vector<int> fr;
    Eigen::VectorXd v = Eigen::VectorXd::Zero(m);
    bool use = true;
    int q = cmb;
    for(int j = 0; j < m; j++, q /= 3)
      if(q % 3 == 0)
        fr.push_back(j);
      else
      {
        v[j] = q % 3 == 1 ? lo[j] : hi[j];
        if(!std::isfinite(v[j]) || (q % 3 == 2 && lo[j] == hi[j])) use = false;
      }
    if(!use) continue;
    Eigen::VectorXd gg = g + H * v;
    if(!fr.empty())
    {
      Eigen::MatrixXd Hf(fr.size(), fr.size());
      Eigen::VectorXd gf(fr.size());
      for(size_t a = 0; a < fr.size(); a++)
      {
        gf[a] = gg[fr[a]];
        for(size_t b = 0; b < fr.size(); b++) Hf(a, b) = H(fr[a], fr[b]);
      }
      Eigen::VectorXd s = Hf.fullPivLu().solve(-gf);
      for(size_t a = 0; a < fr.size(); a++) v[fr[a]] = s[a];
    }
    gg = g + H * v;
    q = cmb;
    bool ok = true, clear = true;
    for(int j = 0; j < m && ok; j++, q /= 3)
    {
      double e = 1e-6 * (1 + std::fabs(v[j])), ge = 1e-6 * gs;
      if(q % 3 == 0)
      {
        if(lo[j] == hi[j] || v[j] < lo[j] - e || v[j] > hi[j] + e) ok = false;
        if(v[j] < lo[j] + e || v[j] > hi[j] - e) clear = false;
      }
      else if(lo[j] == hi[j])
      {
        if(std::fabs(gg[j]) < ge) clear = false;
      }
      else
      {
        double d = q % 3 == 1 ? gg[j] : -gg[j];
        if(d < -ge) ok = false;
        if(d < ge) clear = false;
      }
    }
    if(!ok) continue;
    if(!clear || found++) return false;
    k = v;
    free = fr;
  }
  if(!found) return false;
  nmpc_ddp::BoxQP<Eigen::Dynamic> qp(m);
  Eigen::VectorXd z = qp.solve(H, g, lo, hi, guess);
  // stopping on a small improvement leaves the free set one step behind
  if(std::vector<int>(qp.free_idxs_.begin(), qp.free_idxs_.end()) != free) return false;
  return qp.retval_ > 0 && (z - k).cwiseAbs().maxCoeff() <= 1e-7 * (1 + k.cwiseAbs().maxCoeff());
}

// Reference iteration: gains, expected cost change, conditioning
struct RefPass
{
  bool ok = false;
  double krel = 0, dV0 = 0, dV1 = 0, cond = 1; // cond: largest condition number of a factorised matrix
  double margin = 1e300; // smallest eigenvalue of a factorised matrix
  bool clamped = false;  // an input is held at its limit
  bool unsure = false;   // left the region where rounding stays small: no judgement
  std::vector<Eigen::VectorXd> k;
  std::vector<Eigen::MatrixXd> K;
};
inline RefPass refBackward(const MathModel & mm, double t0, int T, const std::vector<std::vector<double>> & xs, const std::vector<std::vector<double>> & us, double lambda, int reg,
                           double wiggle = 0, const Lim * lim = nullptr)
{
  RefPass r;
  int wc = 0;
  // wiggle: relative disturbance of the value function, to see how far rounding can reach
  auto w = [&] { return 1 + wiggle * ((wc++ * 7919 % 13) - 6) / 6.0; };
  int n = mm.n;
  r.k.resize(T);
  r.K.resize(T);
  Eigen::VectorXd Vx(n);
  Eigen::MatrixXd Vxx(n, n);
  mm.phid(t0 + T * mm.dt, xs[T].data(), Vx.data(), Vxx.data());
  for(int i = T - 1; i >= 0; i--)
  {
    double t = t0 + i * mm.dt;
    int m = (int)us[i].size();
    Eigen::MatrixXd Fx(n, n), Fu(n, m), Lxx(n, n), Luu(m, m), Lxu(n, m);
    Eigen::VectorXd Lx(n), Lu(m);
    mm.fd(t, xs[i].data(), us[i].data(), m, Fx.data(), Fu.data());
    mm.Ld(t, xs[i].data(), us[i].data(), m, Lx.data(), Lu.data(), Lxx.data(), Luu.data(), Lxu.data());
    Eigen::VectorXd Qx = Lx + Fx.transpose() * Vx, Qu = Lu + Fu.transpose() * Vx;
    Eigen::MatrixXd Qxx = Lxx + Fx.transpose() * Vxx * Fx, Qux = Lxu.transpose() + Fu.transpose() * Vxx * Fx, Quu = Luu + Fu.transpose() * Vxx * Fu;
    Eigen::MatrixXd Vr = Vxx;
    if(reg == 2) Vr.diagonal().array() += lambda;
    Eigen::MatrixXd Quxr = Lxu.transpose() + Fu.transpose() * Vr * Fx, QuuF = Luu + Fu.transpose() * Vr * Fu;
    if(reg == 1) QuuF.diagonal().array() += lambda;
    Eigen::VectorXd k = Eigen::VectorXd::Zero(m);
    Eigen::MatrixXd K = Eigen::MatrixXd::Zero(m, n);
    if(m > 0)
    {
      if(!QuuF.allFinite())
      {
        r.unsure = true;
        return r;
      }
      Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(0.5 * (QuuF + QuuF.transpose()));
      double lo = es.eigenvalues()[0], hi = es.eigenvalues()[m - 1];
      r.margin = std::min(r.margin, lo / std::max(1.0, std::fabs(hi)));
      if(lim && lo < 1e-9)
      {
        // Which free blocks the box-QP met depends on its path. It surely met the whole matrix (and has to refuse it) if its first
        // point holds no input at a limit.
        Eigen::VectorXd lb(m), ub(m), guess = Eigen::VectorXd::Zero(m);
        lim->get(mm, t, m, lb.data(), ub.data());
        bool inside = lo < -1e-9;
        for(int j = 0; j < m; j++)
        {
          lb[j] -= us[i][j], ub[j] -= us[i][j];
          if(i + 1 < T && r.k[i + 1].size() == m) guess[j] = r.k[i + 1][j];
          for(double g : {0.0, guess[j]})
            if(!(g > lb[j] + 1e-6 && g < ub[j] - 1e-6)) inside = false;
        }
        if(!inside) r.unsure = true;
        return r;
      }
      if(lo <= 0) return r;
      r.cond = std::max(r.cond, hi / lo);
      if(!lim)
      {
        auto lu = QuuF.fullPivLu();
        k = -lu.solve(Qu);
        K = -lu.solve(Quxr);
      }
      else
      {
        Eigen::VectorXd lb(m), ub(m), guess = Eigen::VectorXd::Zero(m);
        lim->get(mm, t, m, lb.data(), ub.data());
        for(int j = 0; j < m; j++) lb[j] -= us[i][j], ub[j] -= us[i][j];
        if(i + 1 < T && r.k[i + 1].size() == m) guess = r.k[i + 1];
        std::vector<int> fr;
        if(!refBox(QuuF, Qu, lb, ub, guess, k, fr))
        {
          r.unsure = true;
          return r;
        }
        if((int)fr.size() < m) r.clamped = true;
        if(!fr.empty())
        {
          Eigen::MatrixXd Hf(fr.size(), fr.size()), Q(fr.size(), n);
          for(size_t p = 0; p < fr.size(); p++)
          {
            Q.row(p) = Quxr.row(fr[p]);
            for(size_t q = 0; q < fr.size(); q++) Hf(p, q) = QuuF(fr[p], fr[q]);
          }
          Eigen::MatrixXd s = Hf.fullPivLu().solve(-Q);
          for(size_t p = 0; p < fr.size(); p++) K.row(fr[p]) = s.row(p);
        }
      }
    }
    r.dV0 += k.dot(Qu);
    r.dV1 += 0.5 * k.dot(Quu * k);
    Vx = Qx + K.transpose() * (Quu * k) + K.transpose() * Qu + Qux.transpose() * k;
    Eigen::MatrixXd V = Qxx + K.transpose() * Quu * K + K.transpose() * Qux + Qux.transpose() * K;
    Vxx = 0.5 * (V + V.transpose());
    if(!Vx.allFinite() || !Vxx.allFinite() || Vxx.cwiseAbs().maxCoeff() > 1e8)
    {
      r.unsure = true;
      return r;
    }
    if(wiggle != 0)
    {
      double vm = Vxx.cwiseAbs().maxCoeff(), gm = Vx.cwiseAbs().maxCoeff();
      for(int p = 0; p < n; p++)
      {
        Vx[p] += gm * (w() - 1);
        for(int q = p; q < n; q++) Vxx(p, q) = Vxx(q, p) = Vxx(p, q) + vm * (w() - 1);
      }
    }
    double un = 0;
    for(double v : us[i]) un += v * v;
    r.krel = std::max(r.krel, k.norm() / (std::sqrt(un) + 1));
    r.k[i] = k;
    r.K[i] = K;
  }
  r.ok = true;
  return r;
}

template<int N, int M>
struct DdpObj : IObj
{
  using Solver = nmpc_ddp::DDPSolver<N, M>;
  using Prob = DdpProb<N, M>;
  using X = typename Solver::StateDimVector;
  using U = typename Solver::InputDimVector;
  std::shared_ptr<MathModel> mm;
  std::shared_ptr<Prob> prob;
  Solver * sol = nullptr;
  bool solved = false;
  Lim lim;

  void installLimits()
  {
    auto p = prob;
    Lim l = lim;
    sol->setInputLimitsFunc(
        [p, l](double t)
        {
          CbGuard g(CB_LIM);
          Mon * mo = curMon();
          if(mo) mo->at(CB_LIM, t, nullptr, 0, nullptr, 0);
          int m = p->mm->mdim(t);
          double lo[MU], hi[MU];
          l.get(*p->mm, t, m, lo, hi);
          if(g.action && m) (g.elem & 1 ? lo : hi)[g.elem / 2 % m] = faultValue(g.action);
          if(mo && g.action) mo->tampered = true;
          std::array<U, 2> a;
          a[0] = Eigen::Map<Eigen::VectorXd>(lo, m);
          a[1] = Eigen::Map<Eigen::VectorXd>(hi, m);
          return a;
        });
  }
  void create(Env & env)
  {
    auto p = prob;
    Ctx & c = *env.ctx;
    c.resetOp();
    c.fill = env.fill;
    c.fill_rng = Rng(env.fillseed ^ 5);
    {
      Region r(c);
      sol = new Solver(p);
      installLimits();
    }
  }
  DdpObj(const KV & d, Env & env, IObj * share)
  {
    desc = d;
    kind = "ddp";
    reuse_prop = "C01";
    if(share)
    {
      auto * o = static_cast<DdpObj *>(share);
      mm = o->mm;
      prob = o->prob;
    }
    else
    {
      mm = std::make_shared<MathModel>();
      mm->init((uint64_t)d.get("mseed", 1), N, M == Eigen::Dynamic ? -1 : M, 0, (int)d.geti("flavour"), 1);
      if(d.has("refamp")) mm->ref_amp = d.get("refamp");
      if(d.has("dom")) mm->dom = std::fabs(d.get("dom")), mm->domval = d.get("dom") > 0 ? std::nan("") : HUGE_VAL;
      if(d.has("tv")) mm->tv = d.get("tv");
      mm->all_zero_dim = d.geti("zerodim") != 0;
      prob = std::make_shared<Prob>(mm);
    }
    create(env);
  }
  ~DdpObj() { delete sol; }
  std::shared_ptr<IObj> fresh(Env & env) const override
  {
    return std::make_shared<DdpObj>(desc, env, const_cast<DdpObj *>(this));
  }

  std::shared_ptr<Args> prepare(const Op & op) override
  {
    auto a = std::make_shared<DdpArgs<N>>();
    Rng r((uint64_t)op.get("seed", 1));
    a->T = (int)op.geti("N", 5);
    a->t = mm->dt * (op.get("ti") + op.get("tf"));
    const auto & cd = sol->controlData();
    double xs = op.get("xs", 1.5);
    for(int i = 0; i < MX; i++) a->x[i] = r.sym(xs);
    int src = solved ? (int)op.geti("src") : 0; // only a finished solve leaves a plan worth reading
    if(op.geti("xsrc") && solved && (int)cd.x_list.size() > 1)
      for(int i = 0; i < N; i++) a->x[i] = cd.x_list[1][i] + (op.geti("alias") ? 0 : 0.02 * r.sym(1));
    if(op.geti("xsrc") == 2 && solved && !cd.x_list.empty())
      for(int i = 0; i < N; i++) a->x[i] = cd.x_list[0][i];
    double us = op.get("us", 0.5);
    for(int i = 0; i < a->T; i++)
    {
      int m = mm->mdim(a->t + i * mm->dt);
      std::vector<double> u(m);
      for(double & v : u) v = r.sym(us);
      if(src)
      {
        int j = src == 1 ? i + 1 : i;
        if(j >= (int)cd.u_list.size()) j = (int)cd.u_list.size() - 1;
        if(j >= 0 && cd.u_list[j].size() == m)
          for(int q = 0; q < m; q++) u[q] = std::isfinite(cd.u_list[j][q]) ? cd.u_list[j][q] : 0;
      }
      if(op.geti("ufeas"))
      {
        double lo[MU], hi[MU];
        Lim::of(op).get(*mm, a->t + i * mm->dt, m, lo, hi);
        for(int q = 0; q < m; q++) u[q] = std::min(std::max(u[q], lo[q]), hi[q]);
      }
      a->u.push_back(u);
    }
    int mal = (int)op.geti("mal");
    if(mal)
    {
      a->malformed = true;
      int at = (int)r.range(0, std::max(0, a->T - 1));
      if(M != Eigen::Dynamic && mal > 3) mal = 1 + mal % 3;
      switch(mal)
      {
        case 1:
          if(!a->u.empty())
            a->u.pop_back();
          else
            a->u.push_back({});
          break;
        case 2:
          a->u.push_back(a->u.empty() ? std::vector<double>(M == Eigen::Dynamic ? 1 : M) : a->u.back());
          break;
        case 3:
          if(a->u.empty())
            a->u.push_back(std::vector<double>(M == Eigen::Dynamic ? 1 : M));
          else
            a->u.clear();
          break;
        case 4:
          if(a->T)
            a->u[at].push_back(0.1);
          else
            a->u.push_back({});
          break;
        case 5:
          if(a->T && !a->u[at].empty())
            a->u[at].pop_back();
          else if(a->T)
            a->u[at].push_back(0.1);
          else
            a->u.push_back({});
          break;
        default:
          if(a->T)
            a->u[at].assign(a->u[at].size() + 2, 0.0);
          else
            a->u.push_back({});
      }
    }
    return a;
  }
  void configure(const Op & op, const DdpArgs<N> & a, Env & env)
  {
    auto & c = sol->config();
    using Cfg = typename Solver::Configuration;
    c = Cfg();
    c.print_level = env.print;
    c.horizon_steps = a.T;
    c.max_iter = (int)op.geti("maxit", 20);
    c.with_input_constraint = op.geti("con") != 0;
    c.use_state_eq_second_derivative = op.geti("second") != 0;
    c.reg_type = (int)op.geti("reg", 1);
    c.initial_lambda = op.get("lam", 1e-4);
    c.initial_dlambda = op.get("dlam", 1.0);
    c.lambda_factor = op.get("lfac", 1.6);
    c.lambda_max = op.get("lmax", 1e10);
    c.lambda_min = op.get("lmin", 1e-6);
    c.lambda_thre = op.get("lthre", 1e-5);
    c.k_rel_norm_thre = op.get("kthre", 1e-4);
    c.cost_update_thre = op.get("cthre", 1e-7);
    c.cost_update_ratio_thre = op.get("crat", 0);
    if(op.has("nalpha"))
    {
      int na = (int)op.geti("nalpha");
      c.alpha_list.resize(na);
      for(int i = 0; i < na; i++) c.alpha_list[i] = std::pow(10, na == 1 ? 0 : -3.0 * i / (na - 1));
    }
  }
  void flatten(Outcome & o, bool dur) const override
  {
    const auto & cd = sol->controlData();
    o.mark("planned states");
    o.add((double)cd.x_list.size());
    for(auto & x : cd.x_list) o.add(x.data(), x.size());
    o.mark("planned inputs");
    o.add((double)cd.u_list.size());
    for(auto & u : cd.u_list) o.add(u.data(), u.size());
    o.mark("cost list");
    o.add(cd.cost_list.data(), cd.cost_list.size());
    o.mark("trace");
    o.add((double)sol->traceDataList().size());
    for(auto & t : sol->traceDataList())
    {
      for(double v : {(double)t.iter, t.cost, t.lambda, t.dlambda, t.alpha, t.k_rel_norm, t.cost_update_actual, t.cost_update_expected,
                      t.cost_update_ratio})
        o.add(v);
      if(dur)
        for(double v : {t.duration_derivative, t.duration_backward, t.duration_forward}) o.add(v);
    }
    if(dur)
    {
      const auto & d = sol->computationDuration();
      for(double v : {d.solve, d.setup, d.opt, d.derivative, d.backward, d.forward, d.Q, d.reg, d.gain}) o.add(v);
    }
  }
  Outcome exec(const Op & op, const Args & args_, Env & env) override
  {
    const auto & a = static_cast<const DdpArgs<N> &>(args_);
    Ctx & c = *env.ctx;
    configure(op, a, env);
    if(!(Lim::of(op) == lim))
    {
      c.resetOp();
      Region r(c);
      lim = Lim::of(op);
      installLimits();
    }
    std::vector<U> ul;
    for(auto & u : a.u)
    {
      U v;
      if(M == Eigen::Dynamic)
        v = Eigen::Map<const Eigen::VectorXd>(u.data(), (long)u.size());
      else
        for(int q = 0; q < (int)v.size(); q++) v[q] = q < (int)u.size() ? u[q] : 0;
      ul.push_back(v);
    }
    X x0 = Eigen::Map<const X>(a.x);
    Outcome before;
    if(a.malformed) flatten(before, false);
    Mon mon;
    mon.start(mm.get(), a.t, a.T, false);
    if(!a.malformed) mon.wu = a.u;
    armCtx(c, op, env);
    c.mon = env.monitor && !a.malformed ? &mon : nullptr;
    Outcome o;
    bool ret = false;
    // the arguments may be references into the result of the previous solve
    const X * xa = &x0;
    const std::vector<U> * ua = &ul;
    if(op.geti("alias") && !a.malformed)
    {
      const auto & cd = sol->controlData();
      bool same = !ul.empty() && cd.u_list.size() == ul.size();
      for(size_t i = 0; same && i < ul.size(); i++)
        same = cd.u_list[i].size() == ul[i].size() && !memcmp(cd.u_list[i].data(), ul[i].data(), sizeof(double) * ul[i].size());
      if(same) ua = &cd.u_list, probe(PR_ALIAS);
      if(cd.x_list.size() > 1 && !memcmp(cd.x_list[1].data(), x0.data(), sizeof(double) * N)) xa = &cd.x_list[1], probe(PR_ALIAS);
    }
    guarded(c, o, [&] { ret = sol->solve(a.t, *xa, *ua); });
    if(!a.malformed) solved = o.kind == OK_RETURN;
    if(debug_trace)
    {
      fprintf(stderr, "DDP solve: outcome %d ret %d\n", o.kind, ret);
      for(auto & t : sol->traceDataList())
        fprintf(stderr, "  %d cost %.10g lam %g dlam %g alpha %g k %g act %g exp %g rat %g\n", t.iter, t.cost, t.lambda, t.dlambda, t.alpha, t.k_rel_norm, t.cost_update_actual, t.cost_update_expected, t.cost_update_ratio);
    }
    c.mon = nullptr;
    o.ret = ret;
    sh->simtime += a.T * mm->dt;
    checkAbort(c, o, kind);
    if(a.malformed)
    {
      fstat(FS_MALFORMED);
      Outcome after;
      flatten(after, false);
      before.kind = after.kind = OK_RETURN;
      if(o.kind == OK_RETURN)
        report("C09", "ddp-accepted", fmt("DDP: a malformed warm start (kind %ld) was accepted", op.geti("mal")));
      else if(o.kind == OK_STDEXC)
      {
        probe(PR_REJECTED);
        // only the plan (states, inputs, costs) is promised to stay
        size_t lim = after.sec.size() > 3 ? after.sec[3].first : after.data.size();
        bool same = before.data.size() >= lim;
        for(size_t i = 0; same && i < lim; i++)
          if(dbits(before.data[i]) != dbits(after.data[i])) same = false;
        if(!same) report("C09", "ddp-plan-damaged", "DDP: the plan readable before a rejected solve changed");
      }
      flatten(o, false);
      return o;
    }
    if(o.kind == OK_STDEXC && !op.geti("second"))
      report("C09", "ddp-rejected", fmt("DDP: a well-formed solve was rejected: %s", o.what.c_str()));
    flatten(o, false);
    if(o.kind == OK_RETURN) check(op, a, c, mon, ret, env);
    if(o.kind == OK_RETURN) checkDur(c, env, op, a);
    if(o.kind == OK_RETURN) checkTrace(mon, ret, env);
    return o;
  }

  void check(const Op & op, const DdpArgs<N> & a, Ctx & c, Mon & mon, bool ret, Env & env)
  {
    const auto & cd = sol->controlData();
    const auto & tr = sol->traceDataList();
    const auto & cfg = sol->config();
    int T = a.T;
    probe(ret ? PR_DDP_TRUE : PR_DDP_FALSE);
    if((int)tr.size() - 1 == cfg.max_iter && !ret) probe(PR_DDP_MAXITER);
    if(!ret && (int)tr.size() - 1 < cfg.max_iter) probe(PR_DDP_LAMBDA_FAIL);
    // sizes
    if((int)cd.x_list.size() != T + 1 || (int)cd.u_list.size() != T || cd.cost_list.size() != T + 1)
    {
      report("C10", "sizes", fmt("DDP plan has %zu states, %zu inputs, %ld costs for horizon %d", cd.x_list.size(), cd.u_list.size(), (long)cd.cost_list.size(), T));
      return;
    }
    bool changed = false;
    for(int i = 0; i < T; i++)
    {
      double t = a.t + i * mm->dt;
      if(cd.u_list[i].size() != mm->mdim(t))
      {
        report("C10", "udim", fmt("DDP plan input %d has dimension %ld instead of %d", i, (long)cd.u_list[i].size(), mm->mdim(t)));
        return;
      }
      if(mm->mdim(t) == 0) probe(PR_DDP_ZERO_DIM);
      for(long q = 0; q < cd.u_list[i].size(); q++)
        if(dbits(cd.u_list[i][q]) != dbits(a.u[i][q])) changed = true;
    }
    for(auto & r : tr)
      if(r.alpha > 0 && r.alpha < 1) probe(PR_DDP_ALPHA_LT1);
    // C15
    long iters = (long)tr.size() - 1;
    if(iters > cfg.max_iter) report("C15", "ddp-iters", fmt("DDP recorded %ld iterations, max_iter %d", iters, cfg.max_iter));
    long na = cfg.alpha_list.size();
    long it = cfg.max_iter;
    if(c.cb[CB_F] > 2 * ((1 + it * na) * (long)T) || c.cb[CB_L] > 2 * ((1 + it * na) * (long)T) || c.cb[CB_PHI] > 2 * (1 + it * na)
       || c.cb[CB_FD] > 2 * it * T || c.cb[CB_LD] > 2 * it * T || c.cb[CB_PHID] > 2 * it)
      report("C15", "ddp-evals",
             fmt("DDP made %ld stateEq, %ld runningCost, %ld derivative calls; horizon %d, max_iter %d, %ld line-search steps", c.cb[CB_F], c.cb[CB_L],
                 c.cb[CB_FD], T, cfg.max_iter, na));
    // once a callback came at a wrong time or with wrong dimensions its records are of no use; without faults the model itself tells
    if(env.monitor && !(mon.bad && mon.tampered))
    {
      // C16
      mon.finish("ddp");
      // C10
      bool ok = true;
      std::string why;
      for(int i = 0; i < N; i++)
        if(dbits(cd.x_list[0][i]) != dbits(a.x[i])) ok = false, why = "the plan does not start at the given state";
      for(int i = 0; ok && i < T; i++)
      {
        double t = a.t + i * mm->dt;
        const double *x = cd.x_list[i].data(), *u = cd.u_list[i].data();
        long m = cd.u_list[i].size();
        PtKey k{i, hpt(x, N, u, m)};
        bool f = false;
        auto itf = mon.outF.find(k);
        if(itf != mon.outF.end())
          for(auto & v : itf->second)
          {
            bool e = true;
            for(int q = 0; q < N; q++)
              if(dbits(v[q]) != dbits(cd.x_list[i + 1][q])) e = false;
            f = f || e;
          }
        if(!f)
        {
          double out[MX];
          mm->f(t, x, u, (int)m, out);
          f = true;
          for(int q = 0; q < N; q++)
            if(!(std::fabs(out[q] - cd.x_list[i + 1][q]) <= 1e-9 * (1 + std::fabs(out[q])))) f = false;
        }
        if(!f)
        {
          ok = false;
          why = fmt("planned state %d is not the state equation's result for state and input %d", i + 1, i);
          break;
        }
        f = false;
        auto itl = mon.outL.find(k);
        if(itl != mon.outL.end())
          for(double v : itl->second) f = f || dbits(v) == dbits(cd.cost_list[i]);
        if(!f)
        {
          double v = mm->L(t, x, u, (int)m);
          f = std::fabs(v - cd.cost_list[i]) <= 1e-9 * (1 + std::fabs(v));
        }
        if(!f)
        {
          ok = false;
          why = fmt("cost %d of the plan (%.12g) is not the running cost of its state and input", i, cd.cost_list[i]);
        }
      }
      if(ok)
      {
        const double * x = cd.x_list[T].data();
        bool f = false;
        auto itp = mon.outPhi.find(PtKey{T, hpt(x, N, nullptr, 0)});
        if(itp != mon.outPhi.end())
          for(double v : itp->second) f = f || dbits(v) == dbits(cd.cost_list[T]);
        if(!f)
        {
          double v = mm->phi(a.t + T * mm->dt, x);
          f = std::fabs(v - cd.cost_list[T]) <= 1e-9 * (1 + std::fabs(v));
        }
        if(!f) ok = false, why = fmt("the last cost of the plan (%.12g) is not the terminal cost of its last state", cd.cost_list[T]);
      }
      if(!ok) report("C10", "rollout", "DDP: " + why);
      if(mon.bad)
      {
        double x[MX], nx[MX];
        for(int q = 0; q < N; q++) x[q] = a.x[q];
        for(int i = 0; i < T; i++)
        {
          double t = a.t + i * mm->dt;
          mon.warmL[i] = mm->L(t, x, a.u[i].data(), (int)a.u[i].size());
          mm->f(t, x, a.u[i].data(), (int)a.u[i].size(), nx);
          for(int q = 0; q < N; q++) x[q] = nx[q];
        }
        mon.warmPhi = mm->phi(a.t + T * mm->dt, x);
      }
      double warm = mon.warmPhi, fin = 0;
      for(int i = 0; i < T; i++) warm += mon.warmL[i];
      double scale = std::fabs(mon.warmPhi);
      for(int i = 0; i < T; i++) scale += std::fabs(mon.warmL[i]);
      for(int i = 0; i <= T; i++) fin += cd.cost_list[i];
      if(std::isfinite(warm) && !(fin <= warm + 1e-10 * (1 + scale)))
        report("C10", "cost-above-warm-start", fmt("DDP plan costs %.17g, its warm start %.17g", fin, warm));

      // C11
      if(cfg.with_input_constraint && !c.nonfinite)
      {
        probe(PR_DDP_CONSTRAINED);
        bool warmok = true;
        auto inside = [&](int i, const double * u, long m, double tol)
        {
          double lo[MU], hi[MU];
          lim.get(*mm, a.t + i * mm->dt, (int)m, lo, hi);
          for(long q = 0; q < m; q++)
            if(!(u[q] >= lo[q] - tol * (1 + std::fabs(lo[q])) && u[q] <= hi[q] + tol * (1 + std::fabs(hi[q])))) return false;
          return true;
        };
        for(int i = 0; i < T; i++)
          if(!inside(i, a.u[i].data(), (long)a.u[i].size(), 0)) warmok = false;
        if(warmok || changed)
        {
          for(int i = 0; i < T; i++)
          {
            if(!inside(i, cd.u_list[i].data(), cd.u_list[i].size(), 1e-12))
            {
              double lo[MU], hi[MU];
              lim.get(*mm, a.t + i * mm->dt, (int)cd.u_list[i].size(), lo, hi);
              report("C11", "limits", fmt("DDP planned input at step %d: first component %.12g, limits [%.12g, %.12g]", i, cd.u_list[i][0], lo[0], hi[0]));
              break;
            }
            double lo[MU], hi[MU];
            lim.get(*mm, a.t + i * mm->dt, (int)cd.u_list[i].size(), lo, hi);
            for(long q = 0; q < cd.u_list[i].size(); q++)
              if(cd.u_list[i][q] == lo[q] || cd.u_list[i][q] == hi[q])
              {
                probe(PR_DDP_CLAMPED);
                break;
              }
          }
        }
      }

      // C12
      bool planfin = true;
      for(auto & x : cd.x_list) planfin = planfin && finiteAll(x.data(), x.size());
      for(auto & u : cd.u_list) planfin = planfin && finiteAll(u.data(), u.size());
      planfin = planfin && finiteAll(cd.cost_list.data(), cd.cost_list.size());
      bool used = false;
      for(int i = 0; i < T; i++)
        if(mon.fdBad[i] || mon.ldBad1[i] || mon.ldBad2[i]) used = true;
      if(mon.phidBad1 || mon.phidBad2) used = true;
      if((used || !planfin) && !ret) probe(PR_NAN_NOT_SUCCESS);
      if(ret && used) report("C12", "nonfinite-data", "DDP returned true although derivatives used in its last iteration were not finite");
      if(ret && !planfin) report("C12", "nonfinite-plan", "DDP returned true with a plan that is not finite");
      if(ret && planfin && !used && iters < 1) report("C12", "no-iteration", "DDP returned true without any iteration");
      if(ret && planfin && !used && iters >= 1)
      {
        // (a) an accepted update with a small cost decrease, or (b) small feedforward term and regularisation
        const auto & prev = tr[tr.size() - 2];
        const auto & last = tr.back();
        double dec = prev.cost - fin;
        bool acc_a = (changed || last.cost_update_ratio > cfg.cost_update_ratio_thre) && last.cost_update_actual < cfg.cost_update_thre + 1e-12 * (1 + scale)
                     && std::fabs(dec - last.cost_update_actual) <= 1e-9 * (1 + std::fabs(prev.cost) + scale);
        // a plan that was just updated: previous plan had another cost or the update kept it equal
        bool maybe_b = last.k_rel_norm < cfg.k_rel_norm_thre;
        bool b_ok = false;
        if(maybe_b && c.nonfinite == 0)
        {
          std::vector<const double *> xs;
          std::vector<std::vector<double>> us;
          for(auto & x : cd.x_list) xs.push_back(x.data());
          for(auto & u : cd.u_list) us.push_back(std::vector<double>(u.data(), u.data() + u.size()));
          double kr = refKRel(*mm, a.t, T, xs, us, std::min(prev.lambda, cfg.lambda_thre), cfg.reg_type, cfg.with_input_constraint, lim);
          double thr = cfg.with_input_constraint ? 10 * cfg.k_rel_norm_thre + 1e-3 : cfg.k_rel_norm_thre * 1.01 + 1e-7;
          b_ok = kr < 0 || kr < thr;
          if(!b_ok && last.k_rel_norm < cfg.k_rel_norm_thre && !acc_a)
            report("C12", "gradient", fmt("DDP returned true for a small gradient (%g), but the reference relative feedforward update of the returned plan is %g (threshold %g)",
                                          last.k_rel_norm, kr, cfg.k_rel_norm_thre));
        }
        else if(maybe_b)
          b_ok = true;
        if(!acc_a && !b_ok && !maybe_b)
          report("C12", "criterion", fmt("DDP returned true, but the last iteration shows k_rel_norm %g (threshold %g) and cost update %g (threshold %g)", last.k_rel_norm,
                                         cfg.k_rel_norm_thre, last.cost_update_actual, cfg.cost_update_thre));
        // without input limits the reference tells whether some small regularisation made the backward pass possible
        if(!acc_a && maybe_b && c.nonfinite == 0 && !cfg.with_input_constraint && prev.lambda < cfg.lambda_thre && last.alpha == 0)
        {
          auto xs = rowsOfT(cd.x_list), us = rowsOfT(cd.u_list);
          bool possible = false;
          double l = prev.lambda, d = prev.dlambda;
          for(int q = 0; q < 1000 && !possible && l < cfg.lambda_thre; q++)
          {
            RefPass r = refBackward(*mm, a.t, T, xs, us, l, cfg.reg_type);
            if(r.ok || r.unsure || !(r.margin < -1e-9)) possible = true;
            d = std::max(d * cfg.lambda_factor, cfg.lambda_factor);
            l = std::max(l * d, cfg.lambda_min);
          }
          if(!possible)
            report("C12", "lambda", fmt("DDP returned true for a small gradient, but no regularisation from %g up to the threshold %g makes the backward pass possible", prev.lambda, cfg.lambda_thre));
          else
            probe(PR_GRADIENT_END);
        }
        // regularisation must be small for the gradient criterion: it can only have grown since the previous row
        if(!acc_a && maybe_b && !(prev.lambda < cfg.lambda_thre))
          report("C12", "lambda", fmt("DDP returned true for a small gradient with regularisation %g (threshold %g)", prev.lambda, cfg.lambda_thre));
      }
    }
    (void)op;
  }

  // C27: the trace against the plan and the configuration
  void checkTrace(Mon & mon, bool ret, Env & env)
  {
    const auto & cd = sol->controlData();
    const auto & tr = sol->traceDataList();
    const auto & cfg = sol->config();
    if(tr.empty()) return report("C27", "ddp-rows", "DDP: no trace after a solve");
    for(size_t i = 0; i < tr.size(); i++)
      if(tr[i].iter != (int)i) return report("C27", "ddp-rows", fmt("DDP: row %zu of the trace says iteration %d", i, tr[i].iter));
    double fin = cd.cost_list.sum(), scale = cd.cost_list.cwiseAbs().sum();
    if(env.monitor && !mon.bad)
    {
      double warm = mon.warmPhi, sc = std::fabs(mon.warmPhi);
      for(double v : mon.warmL) warm += v, sc += std::fabs(v);
      scale = std::max(scale, sc);
      if(std::isfinite(warm) && std::isfinite(sc) && !(std::fabs(tr[0].cost - warm) <= 1e-9 * (1 + sc)))
        return report("C27", "ddp-first", fmt("DDP: the trace starts at cost %.12g, the warm start costs %.12g", tr[0].cost, warm));
    }
    if(tr[0].lambda != cfg.initial_lambda || tr[0].dlambda != cfg.initial_dlambda)
      return report("C27", "ddp-first", fmt("DDP: the trace starts at regularisation %g, %g", tr[0].lambda, tr[0].dlambda));
    size_t full = tr.size();
    // the last iteration ends before the line search when it terminates on a small gradient or fails in the backward pass
    if(tr.size() > 1 && tr.back().alpha == 0) full--;
    double cost = tr[0].cost, lam = tr[0].lambda, dlam = tr[0].dlambda;
    auto near = [](double p, double q) { return p == q || std::fabs(p - q) <= 1e-9 * std::max(std::fabs(p), std::fabs(q)); };
    for(size_t i = 1; i < full; i++)
    {
      const auto & t = tr[i];
      double tol = 1e-9 * (1 + scale + std::fabs(cost));
      bool fine = std::isfinite(cost) && std::isfinite(scale);
      bool inlist = false;
      for(long q = 0; q < cfg.alpha_list.size(); q++) inlist = inlist || cfg.alpha_list[q] == t.alpha;
      if(!inlist) return report("C27", "ddp-alpha", fmt("DDP: iteration %zu records step length %g, which is not configured", i, t.alpha));
      if(fine && !(t.cost <= cost + tol)) return report("C27", "ddp-cost", fmt("DDP: the cost rises from %.12g to %.12g in iteration %zu", cost, t.cost, i));
      bool same = t.cost == cost, moved = std::fabs(cost - t.cost_update_actual - t.cost) <= tol;
      if(fine && !same && !moved) return report("C27", "ddp-cost", fmt("DDP: cost %.12g, then %.12g, but the recorded update in iteration %zu is %.12g", cost, t.cost, i, t.cost_update_actual));
      if(t.cost_update_expected > 0 && std::isfinite(t.cost_update_actual) && !near(t.cost_update_ratio, t.cost_update_actual / t.cost_update_expected))
        return report("C27", "ddp-ratio", fmt("DDP: iteration %zu records ratio %g for an actual update %g and an expected one of %g", i, t.cost_update_ratio, t.cost_update_actual, t.cost_update_expected));
      // regularisation: raised for every failed backward pass, then lowered after an accepted step or raised after a refused one
      bool okl = false;
      double l = lam, d = dlam;
      bool must_acc = fine && std::fabs(t.cost - cost) > tol, must_rej = fine && t.cost == cost && t.cost_update_actual > tol;
      for(int m = 0; m < 400 && !okl && l <= cfg.lambda_max * (1 + 1e-9); m++)
      {
        double da = std::min(d / cfg.lambda_factor, 1 / cfg.lambda_factor), la = l >= cfg.lambda_min ? l * da : 0;
        double dr = std::max(d * cfg.lambda_factor, cfg.lambda_factor), lr = std::max(l * dr, cfg.lambda_min);
        // at the edge of lambda_min rounding decides
        bool edge = near(l, cfg.lambda_min) && (t.lambda == 0 || near(t.lambda, l * da));
        if(!must_rej && near(t.dlambda, da) && (near(t.lambda, la) || edge)) okl = true;
        if(!must_acc && near(t.dlambda, dr) && near(t.lambda, lr)) okl = true;
        d = dr;
        l = lr;
      }
      if(!okl) return report("C27", "ddp-lambda", fmt("DDP: regularisation goes from (%g, %g) to (%g, %g) in iteration %zu (cost %g to %g), not as configured", lam, dlam, t.lambda, t.dlambda, i, cost, t.cost));
      cost = t.cost;
      lam = t.lambda;
      dlam = t.dlambda;
    }
    if(std::isfinite(fin) && !(std::fabs(fin - cost) <= 1e-9 * (1 + scale))) return report("C27", "ddp-last", fmt("DDP: the trace ends at cost %.12g, the plan costs %.12g", cost, fin));
    (void)ret;
  }
  template<class L> static std::vector<std::vector<double>> rowsOfT(const L & l)
  {
    std::vector<std::vector<double>> v;
    for(auto & e : l) v.push_back(std::vector<double>(e.data(), e.data() + e.size()));
    return v;
  }
  // cost of the reference roll-out with step length alpha; infinity if it leaves the region where rounding stays small
  double refForward(const DdpArgs<N> & a, const RefPass & r, double alpha, const std::vector<std::vector<double>> & xs, const std::vector<std::vector<double>> & us,
                    std::vector<std::vector<double>> & nu, double & big) const
  {
    int n = N;
    Eigen::VectorXd x = Eigen::Map<const Eigen::VectorXd>(xs[0].data(), n);
    double cost = 0;
    nu.clear();
    for(int i = 0; i < a.T; i++)
    {
      double t = a.t + i * mm->dt;
      Eigen::VectorXd u = Eigen::Map<const Eigen::VectorXd>(us[i].data(), (long)us[i].size()) + alpha * r.k[i] + r.K[i] * (x - Eigen::Map<const Eigen::VectorXd>(xs[i].data(), n));
      if(sol->config().with_input_constraint && u.size())
      {
        Eigen::VectorXd lb(u.size()), ub(u.size());
        lim.get(*mm, t, (int)u.size(), lb.data(), ub.data());
        u = u.cwiseMax(lb).cwiseMin(ub).eval();
      }
      nu.push_back(std::vector<double>(u.data(), u.data() + u.size()));
      double out[MX], c = mm->L(t, x.data(), u.data(), (int)u.size());
      mm->f(t, x.data(), u.data(), (int)u.size(), out);
      cost += c;
      big = std::max(big, std::fabs(c));
      x = Eigen::Map<Eigen::VectorXd>(out, n);
      if(!x.allFinite() || x.cwiseAbs().maxCoeff() > 1e3 || (u.size() && u.cwiseAbs().maxCoeff() > 1e3)) return INFINITY;
    }
    double c = mm->phi(a.t + a.T * mm->dt, x.data());
    big = std::max(big, std::fabs(c));
    return cost + c;
  }
  void stepCheck(const IObj & before_, const Op &, const Args & args_) const override
  {
    const auto & a = static_cast<const DdpArgs<N> &>(args_);
    const auto & b = static_cast<const DdpObj &>(before_);
    const auto & cfg = sol->config();
    const Lim * lp = cfg.with_input_constraint ? &lim : nullptr;
    const auto & tr = sol->traceDataList();
    if(tr.size() != b.sol->traceDataList().size() + 1 || tr.size() < 2) return;
    const auto & row = tr.back();
    const auto & prev = tr[tr.size() - 2];
    auto xs = rowsOfT(b.sol->controlData().x_list), us = rowsOfT(b.sol->controlData().u_list), ua = rowsOfT(sol->controlData().u_list);
    for(auto & x : xs)
      for(double v : x)
        if(!(std::fabs(v) < 1e3)) return;
    double l = prev.lambda, d = prev.dlambda;
    RefPass r, w;
    bool skip = false;
    for(int m = 0;; m++)
    {
      r = refBackward(*mm, a.t, a.T, xs, us, l, cfg.reg_type, 0, lp);
      w = refBackward(*mm, a.t, a.T, xs, us, l, cfg.reg_type, 1e-12, lp);
      auto off = [](double p, double q, double s) { return !(std::fabs(p - q) <= 1e-6 * (1e-3 + s)); };
      if(std::fabs(r.margin) < 1e-9 || r.cond > 1e7 || r.unsure || w.unsure || r.ok != w.ok) skip = true; // too close to call
      if(r.ok && (off(r.krel, w.krel, r.krel) || off(r.dV0, w.dV0, std::fabs(r.dV0)) || off(r.dV1, w.dV1, std::fabs(r.dV1)))) skip = true;
      if(r.ok || skip) break;
      d = std::max(d * cfg.lambda_factor, cfg.lambda_factor);
      l = std::max(l * d, cfg.lambda_min);
      if(l > cfg.lambda_max) break;
    }
    if(skip) return;
    if(!r.ok)
    {
      if(row.alpha != 0) report("C28", "ddp-backward", "DDP made a step although no allowed regularisation makes the backward pass possible");
      return;
    }
    probe(PR_STEP_CHECKED);
    if(lp && r.clamped) probe(PR_LIMITED_STEP);
    // the box-QP leaves a gradient below its own threshold alone
    double kabs = lp ? 1e-6 * std::max(1.0, r.cond) : 0;
    if(row.alpha == 0 && !(row.k_rel_norm > 0) && r.krel > 1e-9 + kabs)
      return report("C28", "ddp-backward", fmt("DDP gave up in the backward pass although regularisation %g makes it possible", l));
    double tol = 1e-6 * (1 + r.cond * 1e-3);
    if(!(std::fabs(row.k_rel_norm - r.krel) <= tol * (1e-3 + r.krel) + kabs))
      return report("C28", "ddp-k", fmt("DDP records relative feedforward update %.9g in iteration %d, the reference method gives %.9g (regularisation %g)", row.k_rel_norm, row.iter, r.krel, l));
    if(row.alpha == 0) return;
    double e = -row.alpha * (r.dV0 + row.alpha * r.dV1), es = row.alpha * std::fabs(r.dV0) + row.alpha * row.alpha * std::fabs(r.dV1);
    if(!(std::fabs(row.cost_update_expected - e) <= tol * (1e-6 + es)))
      return report("C28", "ddp-expected", fmt("DDP expects cost update %.9g in iteration %d, the reference method %.9g", row.cost_update_expected, row.iter, e));
    double c0 = 0, big = 0;
    for(int i = 0; i < a.T; i++) c0 += mm->L(a.t + i * mm->dt, xs[i].data(), us[i].data(), (int)us[i].size()), big = std::max(big, std::fabs(c0));
    c0 += mm->phi(a.t + a.T * mm->dt, xs[a.T].data());
    big = std::max(big, std::fabs(c0));
    bool accepted = ua != us;
    for(long q = 0; q < cfg.alpha_list.size(); q++)
    {
      double al = cfg.alpha_list[q];
      std::vector<std::vector<double>> nu;
      double bg = big, c = refForward(a, r, al, xs, us, nu, bg);
      if(accepted && al == row.alpha)
      {
        std::vector<std::vector<double>> nw;
        double bw = big, cw = refForward(a, w, al, xs, us, nw, bw);
        if(!std::isfinite(c) || !std::isfinite(cw)) return;
        double act = c0 - c, ex = -al * (r.dV0 + al * r.dV1), mg = 1e-6 * (1e-3 + bg);
        if(ex > mg && std::fabs(act) > mg && act / ex < cfg.cost_update_ratio_thre - 1e-3)
          return report("C28", "ddp-accepted", fmt("DDP took step length %g in iteration %d, which lowers the cost by %g of %g expected (ratio demanded: %g)", al, row.iter, act, ex, cfg.cost_update_ratio_thre));
        for(int i = 0; i < a.T; i++)
          for(size_t z = 0; z < nu[i].size(); z++)
            if(!(std::fabs(nu[i][z] - nw[i][z]) <= 10 * tol * (1 + std::fabs(nu[i][z])))) return; // too sensitive to judge
        for(int i = 0; i < a.T; i++)
          for(size_t z = 0; z < nu[i].size(); z++)
            if(!(std::fabs(nu[i][z] - ua[i][z]) <= 100 * tol * (1 + std::fabs(nu[i][z]))))
              return report("C28", "ddp-step", fmt("DDP input %d after iteration %d is %.9g, the reference method gives %.9g (step length %g)", i, row.iter, ua[i][z], nu[i][z], al));
        return;
      }
      double act = c0 - c, ex = -al * (r.dV0 + al * r.dV1);
      double mg = 1e-6 * (1e-3 + bg);
      if(std::isfinite(c) && ex > mg && act > mg && act / ex > cfg.cost_update_ratio_thre + 1e-3)
        return report("C28", "ddp-refused", fmt("DDP refused step length %g in iteration %d, which lowers the cost by %g (expected %g)", al, row.iter, act, ex));
    }
  }
  void checkDur(Ctx & c, Env & env, const Op & op, const DdpArgs<N> & a)
  {
    if(env.clk != CLK_MODEL && env.clk != CLK_TICK) return;
    const auto & d = sol->computationDuration();
    const auto & tr = sol->traceDataList();
    double tol = 1e-6;
    auto bad = [&](const char * tag, const std::string & m) { report("C20", fmt("ddp-%s", tag), "DDP: " + m); };
    // with a clock that advances at every read, an interval read twice differs by the reads in between
    const double rd = env.clk == CLK_TICK ? 0.2 : 0;
    if(std::fabs(d.setup + d.opt - d.solve) > tol * (1 + d.solve) + 2 * rd) bad("sum", fmt("setup %g + opt %g != solve %g", d.setup, d.opt, d.solve));
    double sd = 0, sb = 0, sf = 0;
    for(auto & t : tr)
    {
      sd += t.duration_derivative;
      sb += t.duration_backward;
      sf += t.duration_forward;
      if(t.duration_derivative < 0 || t.duration_backward < 0 || t.duration_forward < 0) bad("negative", "negative duration in the trace");
    }
    double e = tol * (1 + d.solve);
    const double et = e + rd * (double)tr.size();
    if(std::fabs(sd - d.derivative) > et || std::fabs(sb - d.backward) > et || std::fabs(sf - d.forward) > et)
      bad("trace-sum", fmt("per-iteration durations add up to %g/%g/%g, totals are %g/%g/%g", sd, sb, sf, d.derivative, d.backward, d.forward));
    if(d.derivative + d.backward + d.forward > d.opt + e) bad("phases", fmt("phases %g+%g+%g exceed opt %g", d.derivative, d.backward, d.forward, d.opt));
    // a solve that failed inside a pass does not account that pass
    bool failed_pass = op.kv.size() && tr.size() > 1 && tr.back().duration_backward == 0;
    if(!failed_pass && d.Q + d.reg + d.gain > d.backward + e) bad("sub", fmt("Q %g + reg %g + gain %g exceed backward %g", d.Q, d.reg, d.gain, d.backward));
    for(double v : {d.solve, d.setup, d.opt, d.derivative, d.backward, d.forward, d.Q, d.reg, d.gain})
      if(v < 0 || !std::isfinite(v)) bad("negative", fmt("duration %g with a clock that never runs backwards", v));
    if(env.clk == CLK_MODEL)
    {
      double ms = 1e-6;
      double tot = c.adv_total * ms;
      double e2 = 1e-6 * (1 + tot);
      double der = (c.adv[CB_FD] + c.adv[CB_LD] + c.adv[CB_PHID]) * ms;
      double roll = (c.adv[CB_F] + c.adv[CB_L] + c.adv[CB_PHI]) * ms;
      if(std::fabs(d.solve - tot) > e2) bad("total", fmt("solve duration %g ms, the clock advanced %g ms", d.solve, tot));
      if(std::fabs(d.derivative - der) > e2) bad("derivative", fmt("derivative duration %g ms, the clock advanced %g ms", d.derivative, der));
      // the input limits may be asked for in both passes
      double lim = c.adv[CB_LIM] * ms;
      if(d.forward + d.setup < roll - e2 || d.forward + d.setup > roll + lim + e2)
        bad("forward", fmt("setup %g + forward %g ms, the clock advanced %g ms in roll-outs and %g ms in the limits function", d.setup, d.forward, roll, lim));
      probe(PR_DURATION_EXACT);
    }
    (void)a;
  }
  void setState(Args & a_, const double * x, double t) override
  {
    auto & a = static_cast<DdpArgs<N> &>(a_);
    for(int i = 0; i < N; i++) a.x[i] = x[i];
    a.t = t;
  }
  int planInput(int i, double * u) const override
  {
    const auto & ul = sol->controlData().u_list;
    if(i < 0 || i >= (int)ul.size()) return -1;
    for(long q = 0; q < ul[i].size(); q++) u[q] = ul[i][q];
    return (int)ul[i].size();
  }
  const MathModel * model() const override { return mm.get(); }
  bool stuckBoxQp() const override
  {
    const auto & tr = sol->traceDataList();
    return sol->config().with_input_constraint && tr.size() > 1 && tr[1].cost_update_expected < 0 && tr.back().cost_update_expected < 0;
  }
  double planCost() const override { return sol->controlData().cost_list.sum(); }
  bool canDump() const override { return true; }
  void dump(const std::string & p) const override { sol->dumpTraceDataList(p); }
  std::vector<std::string> dumpHeader() const override
  {
    return {"iter",       "cost",
            "lambda",     "dlambda",
            "alpha",      "k_rel_norm",
            "cost_update_actual", "cost_update_expected",
            "cost_update_ratio",  "duration_derivative",
            "duration_backward",  "duration_forward"};
  }
  std::vector<std::vector<double>> dumpRows() const override
  {
    std::vector<std::vector<double>> rows;
    for(auto & t : sol->traceDataList())
      rows.push_back({(double)t.iter, t.cost, t.lambda, t.dlambda, t.alpha, t.k_rel_norm, t.cost_update_actual, t.cost_update_expected, t.cost_update_ratio,
                      t.duration_derivative, t.duration_backward, t.duration_forward});
    return rows;
  }
};
} // namespace sim
