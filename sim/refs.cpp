#include "refs.h"

#include <Eigen/Dense>

namespace sim
{
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;

template<class F> static V ode(int type, F f, double t, const V & x, double h)
{
  if(type == 0) return x + h * f(t, x);
  V k1 = f(t, x), k2 = f(t + h / 2, x + h / 2 * k1), k3 = f(t + h / 2, x + h / 2 * k2), k4 = f(t + h, x + h * k3);
  return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
}
void odeStep(const ContModel & cm, int type, double t, const double * x, const double * u, double dt, double * nx)
{
  V X = Eigen::Map<const V>(x, cm.n);
  V r = ode(
      type,
      [&](double tt, const V & y)
      {
        V d(cm.n);
        cm.f(tt, y.data(), u, d.data());
        return d;
      },
      t, X, dt);
  for(int i = 0; i < cm.n; i++) nx[i] = r[i];
}
std::vector<double> cgF(const ContModel & cm, const CgParams & p, double t, const double * x, const std::vector<double> & U)
{
  double h = p.Ts * (1 - std::exp(-p.ratio * t)) / p.Nh;
  std::vector<V> X(p.Nh + 1), Lm(p.Nh + 1);
  X[0] = Eigen::Map<const V>(x, cm.n);
  for(int i = 0; i < p.Nh; i++)
  {
    const double * u = &U[i * cm.m];
    X[i + 1] = ode(
        p.ode,
        [&](double tt, const V & y)
        {
          V d(cm.n);
          cm.f(tt, y.data(), u, d.data());
          return d;
        },
        t + i * h, X[i], h);
  }
  Lm[p.Nh].resize(cm.n);
  cm.dphidx(t + p.Nh * h, X[p.Nh].data(), Lm[p.Nh].data());
  std::vector<double> out(p.Nh * cm.m);
  for(int i = p.Nh - 1; i >= 0; i--)
  {
    const double * u = &U[i * cm.m];
    Lm[i] = ode(
        p.ode,
        [&](double tt, const V & l)
        {
          V d(cm.n);
          cm.costate(tt, l.data(), X[i].data(), u, d.data());
          return d;
        },
        t + (i + 1) * h, Lm[i + 1], -h);
    cm.dhdu(t + i * h, X[i].data(), u, Lm[i + 1].data(), &out[i * cm.m]);
  }
  return out;
}
bool cgUpdate(const ContModel & cm, const CgParams & p, double t, const double * x, const double * nx, std::vector<double> & U, std::vector<double> & du)
{
  int n = p.Nh * cm.m;
  auto F = [&](double tt, const std::vector<double> & xx, const V & u)
  {
    std::vector<double> uu(u.data(), u.data() + n);
    auto r = cgF(cm, p, tt, xx.data(), uu);
    return V(Eigen::Map<V>(r.data(), n));
  };
  std::vector<double> x0(x, x + cm.n), x1(cm.n);
  for(int i = 0; i < cm.n; i++) x1[i] = (1 - p.fdd / p.dt) * x[i] + p.fdd / p.dt * nx[i];
  V u = Eigen::Map<V>(U.data(), n), d = Eigen::Map<V>(du.data(), n);
  V F0 = F(t, x0, u), F1 = F(t + p.fdd, x1, u);
  V b = ((1 - p.zeta * p.fdd) * F0 - F1) / p.fdd;
  auto A = [&](const V & v) { return V((F(t + p.fdd, x1, u + p.fdd * v) - F1) / p.fdd); };
  int kmax = std::min(p.kmax, n);
  V r = b - A(d);
  std::vector<V> Q;
  double beta = r.norm();
  bool good = true;
  if(beta > 1e-10 * b.norm() && beta > 0)
  {
    Q.push_back(r / beta);
    M H = M::Zero(kmax + 1, kmax);
    V y;
    int k = 0;
    double rho = beta;
    while(rho > 1e-10 * b.norm() && k < kmax)
    {
      V w = A(Q[k]);
      double wn = w.norm();
      for(int pass = 0; pass < 2; pass++)
        for(int j = 0; j <= k; j++)
        {
          double h = Q[j].dot(w);
          H(j, k) += h;
          w -= h * Q[j];
        }
      H(k + 1, k) = w.norm();
      k++;
      Q.push_back(w.norm() > 0 ? V(w / w.norm()) : V(V::Zero(n)));
      V g = V::Zero(k + 1);
      g[0] = beta;
      Eigen::ColPivHouseholderQR<M> qr(H.topLeftCorner(k + 1, k));
      y = qr.solve(g);
      rho = (g - H.topLeftCorner(k + 1, k) * y).norm();
      double dmin = qr.matrixR().diagonal().cwiseAbs().minCoeff(), dmax = qr.matrixR().diagonal().cwiseAbs().maxCoeff();
      if(!(dmin > 1e-8 * dmax)) good = false;
    }
    for(int j = 0; j < k; j++) d += y[j] * Q[j];
  }
  u += p.dt * d;
  for(int i = 0; i < n; i++)
  {
    U[i] = u[i];
    du[i] = d[i];
  }
  return good && u.allFinite();
}

// ------------------------------------------------------------------ LQ
static void lqGrad(const MathModel & mm, double t0, int T, const double * x0, const V & U, V & grad)
{
  int n = mm.n;
  std::vector<V> X(T + 1);
  std::vector<int> off(T + 1, 0);
  for(int i = 0; i < T; i++) off[i + 1] = off[i] + mm.mdim(t0 + i * mm.dt);
  X[0] = Eigen::Map<const V>(x0, n);
  for(int i = 0; i < T; i++)
  {
    X[i + 1].resize(n);
    mm.f(t0 + i * mm.dt, X[i].data(), U.data() + off[i], off[i + 1] - off[i], X[i + 1].data());
  }
  V l(n);
  M pxx(n, n);
  mm.phid(t0 + T * mm.dt, X[T].data(), l.data(), pxx.data());
  grad = V::Zero(off[T]);
  for(int i = T - 1; i >= 0; i--)
  {
    int m = off[i + 1] - off[i];
    double t = t0 + i * mm.dt;
    M A(n, n), B(n, m), c(n, n), d(m, m), e(n, m);
    V a(n), b(m);
    mm.fd(t, X[i].data(), U.data() + off[i], m, A.data(), B.data());
    mm.Ld(t, X[i].data(), U.data() + off[i], m, a.data(), b.data(), c.data(), d.data(), e.data());
    if(m) grad.segment(off[i], m) = b + B.transpose() * l;
    l = a + A.transpose() * l;
  }
}
double lqCost(const MathModel & mm, double t0, int T, const double * x0, const std::vector<double> & U)
{
  double x[MX], nx[MX], s = 0;
  for(int i = 0; i < mm.n; i++) x[i] = x0[i];
  size_t o = 0;
  for(int i = 0; i < T; i++)
  {
    double t = t0 + i * mm.dt;
    int m = mm.mdim(t);
    s += mm.L(t, x, U.data() + o, m);
    mm.f(t, x, U.data() + o, m, nx);
    o += m;
    for(int q = 0; q < mm.n; q++) x[q] = nx[q];
  }
  return s + mm.phi(t0 + T * mm.dt, x);
}
double lqOptimal(const MathModel & mm, double t0, int T, const double * x0, bool con)
{
  int D = 0;
  for(int i = 0; i < T; i++) D += mm.mdim(t0 + i * mm.dt);
  V z = V::Zero(D), g, gj;
  if(D)
  {
    lqGrad(mm, t0, T, x0, z, g);
    M H(D, D);
    for(int j = 0; j < D; j++)
    {
      V e = V::Zero(D);
      e[j] = 1;
      lqGrad(mm, t0, T, x0, e, gj);
      H.col(j) = gj - g;
    }
    H = 0.5 * (H + H.transpose()).eval();
    z = H.ldlt().solve(-g);
    if(con)
    {
      V lo(D), hi(D);
      int o = 0;
      for(int i = 0; i < T; i++)
      {
        int m = mm.mdim(t0 + i * mm.dt);
        mm.lim(t0 + i * mm.dt, m, lo.data() + o, hi.data() + o);
        o += m;
      }
      z = z.cwiseMax(lo).cwiseMin(hi);
      for(int it = 0; it < 20000; it++)
      {
        double ch = 0;
        for(int j = 0; j < D; j++)
        {
          double v = z[j] - (g[j] + H.row(j).dot(z)) / H(j, j);
          v = std::min(std::max(v, lo[j]), hi[j]);
          ch = std::max(ch, std::fabs(v - z[j]));
          z[j] = v;
        }
        if(ch < 1e-13) break;
      }
    }
  }
  return lqCost(mm, t0, T, x0, std::vector<double>(z.data(), z.data() + D));
}
double lqRadius(const MathModel & mm, int T, double scale, bool open)
{
  int n = mm.n, m = mm.mdim(0);
  M A(n, n), B(n, m), Q(n, n), R(m, m), S(n, m), P(n, n);
  V a(n), b(m), x = V::Zero(n), u = V::Zero(m);
  mm.fd(0, x.data(), u.data(), m, A.data(), B.data());
  if(open) return A.eigenvalues().cwiseAbs().maxCoeff();
  mm.Ld(0, x.data(), u.data(), m, a.data(), b.data(), Q.data(), R.data(), S.data());
  Q *= scale;
  R *= scale;
  S *= scale;
  mm.phid(0, x.data(), a.data(), P.data());
  M K(m, n);
  for(int i = 0; i < T; i++)
  {
    M G = R + B.transpose() * P * B, H = S.transpose() + B.transpose() * P * A;
    K = -G.ldlt().solve(H);
    P = (Q + A.transpose() * P * A + H.transpose() * K).eval();
    P = 0.5 * (P + P.transpose()).eval();
  }
  return (A + B * K).eigenvalues().cwiseAbs().maxCoeff();
}
double cgRate(const ContModel & cm, double Ts)
{
  int n = cm.n, m = cm.m;
  M A(n, n), B(n, m), Q = M::Zero(n, n), P = M::Zero(n, n), Ri = M::Zero(m, m);
  for(int i = 0; i < n; i++)
  {
    for(int j = 0; j < n; j++) A(i, j) = cm.A[i][j];
    for(int j = 0; j < m; j++) B(i, j) = cm.B[i][j];
    Q(i, i) = cm.Q[i];
    P(i, i) = cm.S[i];
  }
  for(int j = 0; j < m; j++) Ri(j, j) = 1 / cm.R[j];
  M G = B * Ri * B.transpose();
  M A2 = A + cm.nl * M::Identity(n, n);
  double worst = -1e9;
  int steps = 200;
  double h = Ts / steps;
  for(int k = 0; k <= steps; k++)
  {
    if(k % 20 == 0)
      for(const M & X : {A, A2}) worst = std::max(worst, (X - G * P).eval().eigenvalues().real().maxCoeff());
    P = (P + h * (A.transpose() * P + P * A - P * G * P + Q)).eval();
  }
  return worst;
}
} // namespace sim
