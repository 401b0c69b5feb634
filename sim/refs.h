// Independent reference computations (oracles)
#pragma once
#include "model.h"

namespace sim
{
struct CgParams
{
  double dt, Ts, ratio, zeta, fdd;
  int Nh, kmax, ode;
};
// Optimality residual of the discretised horizon
std::vector<double> cgF(const ContModel & cm, const CgParams & p, double t, const double * x, const std::vector<double> & U);
// One continuation update; du is the warm start and becomes the solution; returns false if the reference is not trustworthy
bool cgUpdate(const ContModel & cm, const CgParams & p, double t, const double * x, const double * nx, std::vector<double> & U, std::vector<double> & du);
void odeStep(const ContModel & cm, int ode, double t, const double * x, const double * u, double dt, double * nx);

// Optimal cost of a linear-quadratic problem (optionally with input limits); adjoint gradients, condensed quadratic program
double lqOptimal(const MathModel & mm, double t0, int T, const double * x0, bool con);
double lqCost(const MathModel & mm, double t0, int T, const double * x0, const std::vector<double> & U);
// spectral radius estimate of the linearised closed loop under the T-step optimal feedback (time-invariant models)
// scale: factor of the running cost; open: the open loop instead
double lqRadius(const MathModel & mm, int T, double scale, bool open);
// largest real part of the closed-loop eigenvalues under the ideal receding-horizon law, over horizons from 0 to Ts
double cgRate(const ContModel & cm, double Ts);
} // namespace sim
