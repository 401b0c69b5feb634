#include "model.h"

namespace sim
{
void MathModel::init(uint64_t sd, int n_, int m_, int k_, int fl, double gx)
{
  seed = sd;
  n = n_;
  m = m_;
  k = k_;
  dyn_m = m_ < 0;
  dyn_k = k_ < 0;
  flavour = fl;
  Rng r(sd);
  const double dts[] = {0.05, 0.1, 0.2};
  dt = dts[r.range(0, 2)];
  block = (int)r.range(1, 5);
  for(auto & a : A0)
    for(double & v : a) v = r.sym(1.0);
  for(auto & a : A1)
    for(double & v : a) v = r.sym(1.0);
  for(int i = 0; i < MX; i++) A0[i][i] += (fl == 3 ? 1.5 : -0.5);
  if(fl == 4 || fl == 5) // plants for closed loops: stable and unstable
    for(int i = 0; i < MX; i++)
      for(int j = 0; j < MX; j++) A0[i][j] = 0.4 * A0[i][j] + (i == j ? (fl == 4 ? -0.3 : 0.6) : 0);
  for(auto & a : B0)
    for(double & v : a) v = r.sym(1.5);
  for(auto & a : B1)
    for(double & v : a) v = r.sym(1.0);
  for(int i = 0; i < MX; i++)
    for(int j = 0; j < MU; j++)
      if(i % MU == j) B0[i][j] += 1.0;
  for(double & v : c0) v = r.sym(0.3);
  nl = (fl == 1 || fl == 2) ? r.uni(0.3, 1.5) : 0;
  double M[MZ][MZ];
  for(auto & a : M)
    for(double & v : a) v = r.sym(1.0);
  for(int i = 0; i < MZ; i++)
    for(int j = 0; j < MZ; j++)
    {
      double s = 0;
      for(int q = 0; q < MZ; q++) s += M[i][q] * M[j][q];
      W[i][j] = 0.2 * s + (i == j ? 0.4 : 0);
    }
  for(int i = 0; i < MX; i++)
    for(int j = 0; j < MX; j++) Wf[i][j] = 2 * W[i][j];
  for(int j = 0; j < MZ; j++)
  {
    ra[j] = r.uni(0.2, 1.0);
    rw[j] = r.uni(0.2, 1.5);
    rp[j] = r.uni(0, 6);
  }
  for(int j = 0; j < MG; j++)
  {
    for(int i = 0; i < MX; i++) C0[j][i] = gx * r.sym(0.6);
    for(int i = 0; i < MU; i++) D0[j][i] = r.sym(1.0);
    d0[j] = r.uni(0.6, 2.0);
  }
  gnl = (fl == 1) ? 0.1 * gx : 0;
  wcos = fl == 2 ? r.uni(0.1, 1.0) : 0;
  ucos = fl == 2 ? r.uni(0.05, 0.6) : 0;
  for(int j = 0; j < MU; j++)
  {
    lo0[j] = -r.uni(0.1, 1.5);
    hi0[j] = r.uni(0.1, 1.5);
  }
  wA = r.uni(0.3, 2);
  wB = r.uni(0.3, 2);
  pA = r.uni(0, 6);
  pB = r.uni(0, 6);
}
int MathModel::mdim(double t) const
{
  if(!dyn_m) return m;
  if(all_zero_dim) return 0;
  long b = idx(t);
  b = b >= 0 ? b / block : (b - block + 1) / block;
  uint64_t h = mix(seed ^ 0x77, (uint64_t)b);
  return (int)(h % 8 == 0 ? 0 : 1 + (h >> 8) % 3);
}
int MathModel::kdim(double t) const
{
  if(!dyn_k) return k;
  if(all_zero_dim) return 0;
  long b = idx(t);
  int bl = block + 1;
  b = b >= 0 ? b / bl : (b - bl + 1) / bl;
  uint64_t h = mix(seed ^ 0x99, (uint64_t)b);
  return (int)(h % 6 == 0 ? 0 : 1 + (h >> 8) % 4);
}
void MathModel::f(double t, const double * x, const double * u, int mu, double * out) const
{
  double a = sA(t), b = sB(t);
  for(int i = 0; i < n; i++)
  {
    double s = c0[i] * ref_amp;
    for(int j = 0; j < n; j++) s += (A0[i][j] + a * A1[i][j]) * x[j];
    for(int j = 0; j < mu; j++) s += (B0[i][j] + b * B1[i][j]) * u[j];
    if(nl != 0) s += nl * std::sin(x[(i + 1) % n]);
    out[i] = x[i] + dt * s;
  }
}
void MathModel::fd(double t, const double * x, const double *, int mu, double * Fx, double * Fu) const
{
  double a = sA(t), b = sB(t);
  for(int j = 0; j < n; j++)
    for(int i = 0; i < n; i++)
    {
      double v = (i == j ? 1.0 : 0.0) + dt * (A0[i][j] + a * A1[i][j]);
      if(nl != 0 && j == (i + 1) % n) v += dt * nl * std::cos(x[j]);
      Fx[j * n + i] = v;
    }
  for(int j = 0; j < mu; j++)
    for(int i = 0; i < n; i++) Fu[j * n + i] = dt * (B0[i][j] + b * B1[i][j]);
}
double MathModel::L(double t, const double * x, const double * u, int mu) const
{
  if(dom > 0)
  {
    for(int i = 0; i < n; i++)
      if(!(std::fabs(x[i]) <= dom)) return domval;
    for(int j = 0; j < mu; j++)
      if(!(std::fabs(u[j]) <= dom)) return domval;
  }
  double z[MZ];
  for(int i = 0; i < n; i++) z[i] = x[i] - ref(i, t);
  for(int j = 0; j < mu; j++) z[n + j] = u[j] - 0.3 * ref(MX + j, t);
  double s = 0;
  auto w = [&](int q) { return q < n ? q : MX + q - n; };
  for(int i = 0; i < n + mu; i++)
    for(int j = 0; j < n + mu; j++) s += 0.5 * W[w(i)][w(j)] * z[i] * z[j];
  if(wcos != 0) s += wcos * std::cos(2 * x[0]);
  if(ucos != 0)
    for(int j = 0; j < mu; j++) s += ucos * std::cos(2 * u[j]);
  return s;
}
void MathModel::Ld(double t, const double * x, const double * u, int mu, double * Lx, double * Lu, double * Lxx, double * Luu, double * Lxu) const
{
  double z[MZ];
  for(int i = 0; i < n; i++) z[i] = x[i] - ref(i, t);
  for(int j = 0; j < mu; j++) z[n + j] = u[j] - 0.3 * ref(MX + j, t);
  auto w = [&](int q) { return q < n ? q : MX + q - n; };
  for(int i = 0; i < n + mu; i++)
  {
    double s = 0;
    for(int j = 0; j < n + mu; j++) s += W[w(i)][w(j)] * z[j];
    if(i < n)
      Lx[i] = s;
    else
      Lu[i - n] = s;
  }
  for(int j = 0; j < n; j++)
    for(int i = 0; i < n; i++) Lxx[j * n + i] = W[i][j];
  for(int j = 0; j < mu; j++)
    for(int i = 0; i < mu; i++) Luu[j * mu + i] = W[MX + i][MX + j];
  for(int j = 0; j < mu; j++)
    for(int i = 0; i < n; i++) Lxu[j * n + i] = W[i][MX + j];
  if(wcos != 0)
  {
    Lx[0] -= 2 * wcos * std::sin(2 * x[0]);
    Lxx[0] -= 4 * wcos * std::cos(2 * x[0]);
  }
  if(ucos != 0)
    for(int j = 0; j < mu; j++)
    {
      Lu[j] -= 2 * ucos * std::sin(2 * u[j]);
      Luu[j * mu + j] -= 4 * ucos * std::cos(2 * u[j]);
    }
}
double MathModel::phi(double t, const double * x) const
{
  double s = 0;
  for(int i = 0; i < n; i++)
    for(int j = 0; j < n; j++) s += 0.5 * Wf[i][j] * (x[i] - ref(i, t)) * (x[j] - ref(j, t));
  return s;
}
void MathModel::phid(double t, const double * x, double * px, double * pxx) const
{
  for(int i = 0; i < n; i++)
  {
    px[i] = 0;
    for(int j = 0; j < n; j++)
    {
      px[i] += Wf[i][j] * (x[j] - ref(j, t));
      pxx[j * n + i] = Wf[i][j];
    }
  }
}
void MathModel::g(double t, const double * x, const double * u, int mu, int kg, double * out) const
{
  for(int q = 0; q < kg; q++)
  {
    double s = -d0[q] - 0.2 * (1 + std::sin(0.9 * t + q));
    for(int i = 0; i < n; i++) s += C0[q][i] * x[i];
    for(int j = 0; j < mu; j++) s += D0[q][j] * u[j];
    if(gnl != 0) s += gnl * x[0] * x[0];
    out[q] = s;
  }
}
void MathModel::gd(double, const double * x, const double *, int mu, int kg, double * C, double * D) const
{
  for(int q = 0; q < kg; q++)
  {
    for(int i = 0; i < n; i++) C[i * kg + q] = C0[q][i];
    if(gnl != 0) C[q] += 2 * gnl * x[0];
    for(int j = 0; j < mu; j++) D[j * kg + q] = D0[q][j];
  }
}
void MathModel::lim(double t, int mu, double * lo, double * hi) const
{
  for(int j = 0; j < mu; j++)
  {
    double s = 1 + 0.5 * std::sin(1.3 * t + j);
    lo[j] = lo0[j] * s;
    hi[j] = hi0[j] * s;
  }
}

void ContModel::init(uint64_t sd, int n_, int m_, int fl)
{
  seed = sd;
  n = n_;
  m = m_;
  Rng r(sd ^ 0xC6);
  for(auto & a : A)
    for(double & v : a) v = r.sym(0.8);
  for(int i = 0; i < MX; i++) A[i][i] -= 0.6;
  for(auto & a : B)
    for(double & v : a) v = r.sym(1.0);
  for(int i = 0; i < MX; i++)
    for(int j = 0; j < MU; j++)
      if(i % MU == j) B[i][j] += 1.0;
  for(double & v : Q) v = r.uni(0.5, 2);
  for(double & v : R) v = r.uni(0.3, 2);
  for(double & v : S) v = r.uni(0.2, 2);
  nl = fl ? r.uni(0.2, 0.8) : 0;
  tv = r.uni(0, 0.3);
  for(double & v : x0) v = r.sym(1.5);
  for(double & v : u0) v = r.sym(0.5);
  un = fl == 2 ? r.uni(0.2, 1.5) : 0;
}
void ContModel::f(double t, const double * x, const double * u, double * dx) const
{
  for(int i = 0; i < n; i++)
  {
    double s = 0;
    for(int j = 0; j < n; j++) s += A[i][j] * x[j];
    for(int j = 0; j < m; j++) s += bt(t) * B[i][j] * u[j];
    if(nl != 0) s += nl * std::sin(x[i]);
    dx[i] = s;
  }
}
void ContModel::costate(double t, const double * l, const double * x, const double *, double * dl) const
{
  for(int i = 0; i < n; i++)
  {
    double s = qt(t) * Q[i] * x[i];
    for(int j = 0; j < n; j++) s += A[j][i] * l[j];
    if(nl != 0) s += nl * std::cos(x[i]) * l[i];
    dl[i] = -s;
  }
}
void ContModel::dphidx(double t, const double * x, double * p) const
{
  for(int i = 0; i < n; i++) p[i] = qt(t) * S[i] * x[i];
}
void ContModel::dhdu(double t, const double *, const double * u, const double * l, double * h) const
{
  for(int j = 0; j < m; j++)
  {
    double s = R[j] * qt(t) * u[j] + un * u[j] * u[j] * u[j];
    for(int i = 0; i < n; i++) s += bt(t) * B[i][j] * l[i];
    h[j] = s;
  }
}
} // namespace sim
