// Problem classes handed to the solvers: the seam between library and simulated model.
#pragma once
#include <nmpc_ddp/DDPProblem.h>

#include "obj.h"

namespace sim
{
template<class Base, int N, int M>
struct CommonProb : public Base
{
  using X = Eigen::Matrix<double, N, 1>;
  using U = Eigen::Matrix<double, M, 1>;
  using XX = Eigen::Matrix<double, N, N>;
  using UU = Eigen::Matrix<double, M, M>;
  using XU = Eigen::Matrix<double, N, M>;
  std::shared_ptr<MathModel> mm;
  explicit CommonProb(std::shared_ptr<MathModel> m) : Base(m->dt), mm(m) {}
  using Base::inputDim;
  int inputDim(double t) const override
  {
    CbGuard g(CB_DIM);
    if(auto * mo = curMon()) mo->at(CB_DIM, t, nullptr, 0, nullptr, 0);
    return mm->mdim(t);
  }
  X stateEq(double t, const X & x, const U & u) const override
  {
    CbGuard g(CB_F);
    Mon * mo = curMon();
    int i = mo ? mo->at(CB_F, t, x.data(), x.size(), u.data(), u.size()) : -1;
    X out;
    mm->f(t, x.data(), u.data(), (int)u.size(), out.data());
    if(g.action) out[g.elem % N] = faultValue(g.action);
    if(mo) mo->gotF(i, x.data(), u.data(), u.size(), out.data(), g.action != 0);
    return out;
  }
  double runningCost(double t, const X & x, const U & u) const override
  {
    CbGuard g(CB_L);
    Mon * mo = curMon();
    int i = mo ? mo->at(CB_L, t, x.data(), x.size(), u.data(), u.size()) : -1;
    double v = mm->L(t, x.data(), u.data(), (int)u.size());
    if(g.action) v = faultValue(g.action);
    if(mo) mo->gotL(i, x.data(), u.data(), u.size(), v, g.action != 0);
    return v;
  }
  double terminalCost(double t, const X & x) const override
  {
    CbGuard g(CB_PHI);
    Mon * mo = curMon();
    int i = mo ? mo->at(CB_PHI, t, x.data(), x.size(), nullptr, 0) : -1;
    double v = mm->phi(t, x.data());
    if(g.action) v = faultValue(g.action);
    if(mo && i >= 0) mo->gotPhi(x.data(), v, g.action != 0);
    return v;
  }
  void calcStateEqDeriv(double t, const X & x, const U & u, Eigen::Ref<XX> Fx, Eigen::Ref<XU> Fu) const override
  {
    CbGuard g(CB_FD);
    Mon * mo = curMon();
    int mu = (int)u.size();
    int i = -1;
    if(mo)
    {
      i = mo->at(CB_FD, t, x.data(), x.size(), u.data(), mu);
      mo->outdim(CB_FD, t, Fu.cols(), mm->mdim(t), "Fu");
      if(mo->bad) die("inconsistent callback arguments");
    }
    double fx[MX * MX], fu[MX * MU];
    mm->fd(t, x.data(), u.data(), mu, fx, fu);
    if(g.action)
    {
      int e = g.elem % (N * N + N * mu);
      (e < N * N ? fx[e] : fu[e - N * N]) = faultValue(g.action);
    }
    Fx = Eigen::Map<XX>(fx);
    Fu = Eigen::Map<Eigen::Matrix<double, N, Eigen::Dynamic>>(fu, N, mu);
    if(mo) mo->gotDeriv(CB_FD, i, x.data(), u.data(), mu, !finiteAll(fx, N * N) || !finiteAll(fu, N * mu), false, g.action != 0);
  }
  void calcRunningCostDeriv(double t, const X & x, const U & u, Eigen::Ref<X> Lx, Eigen::Ref<U> Lu) const override
  {
    XX xx;
    UU uu(u.size(), u.size());
    XU xu(N, u.size());
    calcRunningCostDeriv(t, x, u, Lx, Lu, xx, uu, xu);
  }
  void calcRunningCostDeriv(double t,
                            const X & x,
                            const U & u,
                            Eigen::Ref<X> Lx,
                            Eigen::Ref<U> Lu,
                            Eigen::Ref<XX> Lxx,
                            Eigen::Ref<UU> Luu,
                            Eigen::Ref<XU> Lxu) const override
  {
    CbGuard g(CB_LD);
    Mon * mo = curMon();
    int mu = (int)u.size();
    int i = -1;
    if(mo)
    {
      i = mo->at(CB_LD, t, x.data(), x.size(), u.data(), mu);
      int md = mm->mdim(t);
      mo->outdim(CB_LD, t, Lu.size(), md, "Lu");
      mo->outdim(CB_LD, t, Luu.rows(), md, "Luu");
      mo->outdim(CB_LD, t, Luu.cols(), md, "Luu");
      mo->outdim(CB_LD, t, Lxu.cols(), md, "Lxu");
      if(mo->bad) die("inconsistent callback arguments");
    }
    double a[MX], b[MU], c[MX * MX], d[MU * MU], e[MX * MU];
    mm->Ld(t, x.data(), u.data(), mu, a, b, c, d, e);
    if(g.action)
    {
      double * all[5] = {a, b, c, d, e};
      int sz[5] = {N, mu, N * N, mu * mu, N * mu};
      int tot = 0;
      for(int q : sz) tot += q;
      int q = g.elem % tot;
      for(int s = 0; s < 5; s++)
      {
        if(q < sz[s])
        {
          all[s][q] = faultValue(g.action);
          break;
        }
        q -= sz[s];
      }
    }
    Lx = Eigen::Map<X>(a);
    Lu = Eigen::Map<Eigen::VectorXd>(b, mu);
    Lxx = Eigen::Map<XX>(c);
    Luu = Eigen::Map<Eigen::MatrixXd>(d, mu, mu);
    Lxu = Eigen::Map<Eigen::Matrix<double, N, Eigen::Dynamic>>(e, N, mu);
    if(mo)
      mo->gotDeriv(CB_LD, i, x.data(), u.data(), mu, !finiteAll(a, N) || !finiteAll(b, mu),
                   !finiteAll(c, N * N) || !finiteAll(d, mu * mu) || !finiteAll(e, N * mu), g.action != 0);
  }
  void calcTerminalCostDeriv(double t, const X & x, Eigen::Ref<X> px) const override
  {
    XX xx;
    calcTerminalCostDeriv(t, x, px, xx);
  }
  void calcTerminalCostDeriv(double t, const X & x, Eigen::Ref<X> px, Eigen::Ref<XX> pxx) const override
  {
    CbGuard g(CB_PHID);
    Mon * mo = curMon();
    int i = mo ? mo->at(CB_PHID, t, x.data(), x.size(), nullptr, 0) : -1;
    double a[MX], b[MX * MX];
    mm->phid(t, x.data(), a, b);
    if(g.action)
    {
      int e = g.elem % (N + N * N);
      (e < N ? a[e] : b[e - N]) = faultValue(g.action);
    }
    px = Eigen::Map<X>(a);
    pxx = Eigen::Map<XX>(b);
    if(mo && i >= 0) mo->gotDeriv(CB_PHID, i, x.data(), nullptr, 0, !finiteAll(a, N), !finiteAll(b, N * N), g.action != 0);
  }
};
} // namespace sim
