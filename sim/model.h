// Seeded mathematical models used as plant / problem definition (plain arrays, column major).
#pragma once
#include "simcore.h"

namespace sim
{
constexpr int MX = 4, MU = 3, MG = 4, MZ = MX + MU;

// Discrete-time model for DDP and FMPC
struct MathModel
{
  int n = 2, m = 1, k = 0;
  bool dyn_m = false, dyn_k = false;
  int flavour = 0; // 0 linear-quadratic, 1 nonlinear dynamics, 2 nonconvex cost, 3 unstable, 4/5 linear loop plants (stable/unstable)
  double dt = 0.1;
  uint64_t seed = 1;
  int block = 3; // length of dimension blocks
  bool all_zero_dim = false;
  double ref_amp = 1; // 0: regulate to zero
  double tv = 0.3; // time variation
  double dom = 0, domval = 0; // the running cost is domval (NaN or infinity) where a coordinate exceeds dom
  // parameters
  double A0[MX][MX], A1[MX][MX], B0[MX][MU], B1[MX][MU], c0[MX], nl = 0, W[MZ][MZ], Wf[MX][MX], ra[MZ], rw[MZ], rp[MZ];
  double C0[MG][MX], D0[MG][MU], d0[MG], gnl = 0, wcos = 0, ucos = 0, lo0[MU], hi0[MU];
  double wA, wB, pA, pB;

  void init(uint64_t seed, int n, int m, int k, int flavour, double gx);
  int mdim(double t) const;
  int kdim(double t) const;
  long idx(double t) const { return std::lround(t / dt); }
  double sA(double t) const { return tv * std::sin(wA * t + pA); }
  double sB(double t) const { return tv * std::sin(wB * t + pB); }
  double ref(int j, double t) const { return ref_amp * ra[j] * std::sin(rw[j] * t + rp[j]); }
  void f(double t, const double * x, const double * u, int mu, double * out) const;
  void fd(double t, const double * x, const double * u, int mu, double * Fx, double * Fu) const;
  double L(double t, const double * x, const double * u, int mu) const;
  void Ld(double t, const double * x, const double * u, int mu, double * Lx, double * Lu, double * Lxx, double * Luu, double * Lxu) const;
  double phi(double t, const double * x) const;
  void phid(double t, const double * x, double * px, double * pxx) const;
  void g(double t, const double * x, const double * u, int mu, int kg, double * out) const;
  void gd(double t, const double * x, const double * u, int mu, int kg, double * C, double * D) const;
  void lim(double t, int mu, double * lo, double * hi) const;
};

// Continuous-time model for C/GMRES
struct ContModel
{
  int n = 2, m = 1;
  uint64_t seed = 1;
  double A[MX][MX], B[MX][MU], Q[MX], R[MU], S[MX], nl = 0, tv = 0, un = 0;
  double x0[MX], u0[MU];
  void init(uint64_t seed, int n, int m, int flavour);
  void f(double t, const double * x, const double * u, double * dx) const;
  void costate(double t, const double * l, const double * x, const double * u, double * dl) const; // -dH/dx
  void dphidx(double t, const double * x, double * p) const;
  void dhdu(double t, const double * x, const double * u, const double * l, double * h) const;
  double bt(double t) const { return 1 + 0.5 * tv * std::sin(1.1 * t + 1); }
  double qt(double t) const { return 1 + tv * std::sin(0.7 * t); }
};
} // namespace sim
