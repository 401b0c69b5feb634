// Box-QP solvers as simulated objects (types 9: fixed size, 10: dynamic size)
#include <array>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <unordered_map>

#include <nmpc_ddp/BoxQP.h>

#include "obj.h"

namespace sim
{
namespace
{
struct BqArgs : Args
{
  Eigen::MatrixXd H;
  Eigen::VectorXd g, lo, hi, x0;
  bool guess = false;
  double poison = 0;
};
// Minimiser over the box of a strictly convex quadratic, by exact coordinate descent
double boxMinimum(const Eigen::MatrixXd & H, const Eigen::VectorXd & g, const Eigen::VectorXd & lo, const Eigen::VectorXd & hi)
{
  long n = g.size();
  Eigen::VectorXd x = Eigen::VectorXd::Zero(n).cwiseMin(hi).cwiseMax(lo);
  for(int it = 0; it < 20000; it++)
  {
    double ch = 0;
    for(long i = 0; i < n; i++)
    {
      double gr = g[i] + H.row(i).dot(x);
      double v = std::min(hi[i], std::max(lo[i], x[i] - gr / H(i, i)));
      ch = std::max(ch, std::abs(v - x[i]));
      x[i] = v;
    }
    if(ch < 1e-14 * (1 + x.cwiseAbs().maxCoeff())) break;
  }
  return x.dot(g) + 0.5 * x.dot(H * x);
}
template<int D>
struct BqObj : IObj
{
  using S = nmpc_ddp::BoxQP<D>;
  S * sol = nullptr;
  int n;
  BqObj(const KV & d, Env & env, IObj *)
  {
    desc = d;
    kind = "boxqp";
    reuse_prop = "C04";
    n = D == Eigen::Dynamic ? (int)d.geti("n", 3) : D;
    Ctx & c = *env.ctx;
    c.resetOp();
    c.fill = env.fill;
    c.fill_rng = Rng(env.fillseed ^ 5);
    Region r(c);
    sol = new S(n);
  }
  ~BqObj() { delete sol; }
  std::shared_ptr<IObj> fresh(Env & env) const override { return std::make_shared<BqObj>(desc, env, nullptr); }
  std::shared_ptr<Args> prepare(const Op & op) override
  {
    auto a = std::make_shared<BqArgs>();
    Rng r((uint64_t)op.get("seed", 1));
    int hk = (int)op.geti("hk");
    Eigen::MatrixXd M(n, n);
    for(int i = 0; i < n * n; i++) M.data()[i] = r.sym(1);
    a->H = M * M.transpose();
    if(hk == 0)
      a->H.diagonal().array() += 0.3;
    else if(hk == 1)
      a->H.diagonal().array() -= 0.6; // usually indefinite
    else
      a->H *= 1e-3, a->H.diagonal().array() += 1e-6; // badly scaled
    a->g.resize(n);
    a->lo.resize(n);
    a->hi.resize(n);
    a->x0.resize(n);
    double gs = op.get("gs", 1);
    for(int i = 0; i < n; i++)
    {
      a->g[i] = r.sym(gs);
      a->lo[i] = -r.uni(0.05, 1);
      a->hi[i] = r.uni(0.05, 1);
      if(r.chance(0.1)) a->hi[i] = a->lo[i];
      if(r.chance(0.1)) a->lo[i] = -1e10;
      a->x0[i] = r.sym(1.5);
      if(r.chance(0.2)) a->x0[i] = a->hi[i];
    }
    a->guess = op.geti("guess") != 0;
    int nf = (int)op.geti("nf");
    if(nf) // non-finite model data
    {
      double v = nf % 3 == 1 ? NAN : nf % 3 == 2 ? INFINITY : 1e200;
      if(nf > 3)
        a->g[r.range(0, n - 1)] = v;
      else
        a->H(r.range(0, n - 1), r.range(0, n - 1)) = v;
      fstat(nf % 3 == 1 ? FS_NAN : nf % 3 == 2 ? FS_INF : FS_HUGE);
    }
    return a;
  }
  void flat(Outcome & o) const
  {
    o.mark("status");
    o.add(sol->retval_);
    o.mark("free set");
    o.add((double)sol->free_idxs_.size());
    for(int i : sol->free_idxs_) o.add(i);
    o.mark("trace");
    o.add((double)sol->traceDataList().size());
    for(auto & t : sol->traceDataList())
    {
      o.add(t.iter);
      o.add(t.obj);
      o.add(t.factorization_num);
      o.add(t.step_num);
      o.add(t.x.data(), t.x.size());
      o.add(t.search_dir.data(), t.search_dir.size());
      for(int i = 0; i < t.clamped_flag.size(); i++) o.add(t.clamped_flag[i]);
    }
  }
  void flatten(Outcome & o, bool) const override { flat(o); }
  // C23: is what the solver returned, and says about it, true of this problem?
  void truth(const Op & op, const BqArgs & a, const Eigen::VectorXd & x)
  {
    const int rv = sol->retval_;
    if(!x.allFinite() || (x.array() < a.lo.array()).any() || (x.array() > a.hi.array()).any())
      return report("C23", "boxqp-box", fmt("the answer is not inside the box (retval %d)", rv));
    auto objf = [&](const Eigen::VectorXd & v) { return v.dot(a.g) + 0.5 * v.dot(a.H * v); };
    Eigen::VectorXd s = (a.guess ? a.x0 : Eigen::VectorXd(Eigen::VectorXd::Zero(n))).cwiseMin(a.hi).cwiseMax(a.lo);
    double f = objf(x), fs = objf(s);
    double sc = std::abs(a.g.dot(x)) + x.cwiseAbs().dot(a.H.cwiseAbs() * x.cwiseAbs()) + std::abs(fs);
    // retval 2: the line search ran out of steps; the candidate may be above within rounding of the step
    if(f > fs + 1e-9 * (1e-6 + sc)) return report("C23", "boxqp-worse", fmt("objective %.12g of the answer is above %.12g of the initial guess (retval %d)", f, fs, rv));
    Eigen::VectorXd gr = a.g + a.H * x;
    auto clamped = [&](int i) { return (x[i] == a.lo[i] && gr[i] > -1e-12) || (x[i] == a.hi[i] && gr[i] < 1e-12); };
    double gn = 0;
    for(int i = 0; i < n; i++)
      if(!clamped(i)) gn += gr[i] * gr[i];
    gn = std::sqrt(gn);
    double gsc = a.g.cwiseAbs().maxCoeff() + (a.H.cwiseAbs() * x.cwiseAbs()).maxCoeff();
    if(rv == 5 && gn > sol->config().grad_thre + 1e-9 * gsc) return report("C23", "boxqp-optimal", fmt("gradient norm %.3g reported as below %.3g", gn, sol->config().grad_thre));
    if(rv == 6 && gn > 1e-9 * gsc) return report("C23", "boxqp-clamped", fmt("all dimensions reported clamped with free gradient %.3g", gn));
    std::vector<int> fi = sol->free_idxs_;
    for(size_t i = 0; i < fi.size(); i++)
      if(fi[i] < 0 || fi[i] >= n || (i && fi[i] <= fi[i - 1])) return report("C23", "boxqp-free", "the free set is not an increasing list of dimensions");
    bool spd = op.geti("hk") != 1;
    if(rv == 0) return report("C23", "boxqp-unfinished", "the status says the computation is not finished");
    if(spd && rv < 0) return report("C23", "boxqp-failed", fmt("retval %d for a positive definite Hessian", rv));
    if(rv > 0 && !fi.empty())
    {
      long m = (long)fi.size();
      Eigen::MatrixXd Hf(m, m);
      for(long i = 0; i < m; i++)
        for(long j = 0; j < m; j++) Hf(i, j) = a.H(fi[i], fi[j]);
      if(!sol->llt_free_ || sol->llt_free_->rows() != m || sol->llt_free_->info() != Eigen::Success
         || (sol->llt_free_->reconstructedMatrix() - Hf).cwiseAbs().maxCoeff() > 1e-9 * Hf.cwiseAbs().maxCoeff())
        return report("C23", "boxqp-factor", fmt("the kept factorisation is not that of the free block (retval %d)", rv));
    }
    // dimensions outside the free set rest on a bound with the gradient pushing outwards (as of the last iteration)
    if(rv >= 4)
    {
      std::vector<char> fr(n, 0);
      for(int i : fi) fr[i] = 1;
      for(int i = 0; i < n; i++)
        if(!fr[i] && x[i] != a.lo[i] && x[i] != a.hi[i]) return report("C23", "boxqp-free", fmt("dimension %d is neither free nor on a bound (retval %d)", i, rv));
    }
    // trace: starts at the clamped guess, then points of the box with their objectives, which never rise
    const auto & tr = sol->traceDataList();
    if(tr.empty() || tr[0].x.size() != n || (tr[0].x - s).cwiseAbs().maxCoeff() > 0) return report("C23", "boxqp-trace", "the trace does not start at the clamped initial guess");
    size_t full = tr.size() - (rv == 1 ? 0 : 1); // the iteration that ends the solve before its step leaves an empty row
    for(size_t i = 0; i < tr.size(); i++)
      if(tr[i].iter != (int)i) return report("C23", "boxqp-trace", fmt("row %zu of the trace says iteration %d", i, tr[i].iter));
    for(size_t i = 0; i < full; i++)
    {
      const Eigen::VectorXd v = tr[i].x;
      double o = objf(v), os = std::abs(a.g.dot(v)) + v.cwiseAbs().dot(a.H.cwiseAbs() * v.cwiseAbs());
      if((v.array() < a.lo.array()).any() || (v.array() > a.hi.array()).any()) return report("C23", "boxqp-trace", fmt("row %zu of the trace lies outside the box", i));
      if(!(std::abs(tr[i].obj - o) <= 1e-9 * (1e-9 + os))) return report("C23", "boxqp-trace", fmt("row %zu of the trace says objective %.12g, it is %.12g", i, tr[i].obj, o));
      if(i && !(tr[i].obj <= tr[i - 1].obj + 1e-9 * (1e-6 + os + sc))) return report("C23", "boxqp-trace", fmt("the objective rises from %.12g to %.12g in the trace", tr[i - 1].obj, tr[i].obj));
    }
    if(rv == 1 && (long)tr.size() != sol->config().max_iter + 1) return report("C23", "boxqp-limit", fmt("the iteration limit %d is reported after %zu iterations", sol->config().max_iter, tr.size() - 1));
    if(rv == 4 && tr.size() > 2 && tr.size() >= full + 1)
    {
      // the step that ended it improved less than demanded
      double last = tr[full - 1].obj;
      if(!(last - f <= sol->config().rel_improve_thre * std::abs(last) + 1e-9 * (1e-6 + sc)))
        return report("C23", "boxqp-improvement", fmt("a small improvement is reported, but the last step improves %.12g to %.12g", last, f));
    }
    if(spd && rv > 0 && op.geti("maxit", 500) >= 100 && !op.has("gthre") && !op.has("rthre") && !op.has("sfac") && !op.has("arm"))
    {
      double best = boxMinimum(a.H, a.g, a.lo, a.hi);
      if(f < best - 1e-9 * sc - 1e-12) return; // the reference is not trustworthy here
      if(f > best + 1e-6 * (std::abs(best) + std::abs(fs - best)) + 1e-9)
        report("C23", rv == 5 || rv == 6 ? "boxqp-minimum" : "boxqp-gap", fmt("objective %.12g, minimum %.12g, from %.12g (retval %d)", f, best, fs, rv));
    }
  }
  Outcome exec(const Op & op, const Args & a_, Env & env) override
  {
    const auto & a = static_cast<const BqArgs &>(a_);
    Ctx & c = *env.ctx;
    sol->config() = typename S::Configuration();
    sol->config().print_level = env.print;
    sol->config().max_iter = (int)op.geti("maxit", 500);
    sol->config().grad_thre = op.get("gthre", sol->config().grad_thre);
    sol->config().rel_improve_thre = op.get("rthre", sol->config().rel_improve_thre);
    sol->config().step_factor = op.get("sfac", sol->config().step_factor);
    sol->config().min_step = op.get("minstep", sol->config().min_step);
    sol->config().armijo_param = op.get("arm", sol->config().armijo_param);
    typename S::VarVarDimMatrix H = a.H;
    typename S::VarDimVector g = a.g, lo = a.lo, hi = a.hi, x0 = a.x0, x;
    armCtx(c, op, env);
    Outcome o;
    guarded(c, o, [&] { x = a.guess ? sol->solve(H, g, lo, hi, x0) : sol->solve(H, g, lo, hi); });
    checkAbort(c, o, kind);
    if(o.kind == OK_STDEXC) report("C09", "boxqp-rejected", fmt("BoxQP threw %s", o.what.c_str()));
    if(o.kind == OK_RETURN)
    {
      o.mark("solution");
      o.add(x.data(), x.size());
      flat(o);
      probe(sol->retval_ < 0 ? PR_BQ_FAIL : PR_BQ_CLAMPED, sol->retval_ < 0 || sol->free_idxs_.size() < (size_t)n);
      if((long)sol->traceDataList().size() > sol->config().max_iter + 1)
        report("C15", "boxqp-iters", fmt("BoxQP recorded %zu iterations, max_iter %d", sol->traceDataList().size() - 1, sol->config().max_iter));
      for(auto & t : sol->traceDataList())
        if(t.step_num > 2 + std::log(sol->config().min_step) / std::log(sol->config().step_factor)) report("C15", "boxqp-steps", fmt("BoxQP used %d line-search steps", t.step_num));
      if(!op.geti("nf")) truth(op, a, x);
    }
    return o;
  }
};
} // namespace
std::shared_ptr<IObj> makeT9(const KV & d, Env & env, IObj * s) { return std::make_shared<BqObj<3>>(d, env, s); }
std::shared_ptr<IObj> makeT10(const KV & d, Env & env, IObj * s) { return std::make_shared<BqObj<Eigen::Dynamic>>(d, env, s); }
} // namespace sim
