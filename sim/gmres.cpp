// GMRES as a simulated object (type 11)
#include <functional>
#include <iostream>
#include <vector>

#include <Eigen/SVD>
#include <nmpc_cgmres/Gmres.h>

#include "obj.h"

namespace sim
{
namespace
{
struct GmArgs : Args
{
  Eigen::MatrixXd A;
  Eigen::VectorXd b, x0;
};
struct GmObj : IObj
{
  nmpc_cgmres::Gmres * sol = nullptr;
  GmObj(const KV & d, Env & env, IObj *)
  {
    desc = d;
    kind = "gmres";
    reuse_prop = "C04";
    Ctx & c = *env.ctx;
    c.resetOp();
    Region r(c);
    sol = new nmpc_cgmres::Gmres;
  }
  ~GmObj() { delete sol; }
  std::shared_ptr<IObj> fresh(Env & env) const override { return std::make_shared<GmObj>(desc, env, nullptr); }
  std::shared_ptr<Args> prepare(const Op & op) override
  {
    auto a = std::make_shared<GmArgs>();
    Rng r((uint64_t)op.get("seed", 1));
    int n = (int)op.geti("n", 4);
    a->A.resize(n, n);
    a->b.resize(n);
    a->x0.resize(n);
    for(int i = 0; i < n * n; i++) a->A.data()[i] = r.sym(1);
    a->A.diagonal().array() += op.geti("hk") == 1 ? 0.0 : 2.0;
    for(int i = 0; i < n; i++)
    {
      a->b[i] = r.sym(1);
      a->x0[i] = op.geti("guess") ? r.sym(1) : 0;
    }
    int ak = (int)op.geti("ak");
    if(ak == 1) // converges in two iterations
    {
      a->A.setIdentity();
      a->A += 0.5 * Eigen::VectorXd::Ones(n) * a->b.transpose() / n;
    }
    if(ak == 2) // cyclic shift: may make no progress until the last iteration
    {
      a->A.setZero();
      for(int i = 0; i < n; i++) a->A((i + 1) % n, i) = 1;
      if(r.chance(0.5)) a->b.setZero(), a->b[r.range(0, n - 1)] = 1;
    }
    if(ak == 3) a->A = (a->A + a->A.transpose()).eval(); // symmetric
    if(ak == 4) a->A.setIdentity();
    a->b *= op.get("bs", 1);
    a->x0 *= op.get("bs", 1) == 0 ? 1 : op.get("bs", 1);
    if(op.geti("guess") == 2) a->x0 = a->A.fullPivLu().solve(a->b); // nothing to do
    return a;
  }
  void flat(Outcome & o) const
  {
    o.mark("error history");
    o.add(sol->err_list_.data(), (long)sol->err_list_.size());
  }
  void flatten(Outcome & o, bool) const override { flat(o); }
  // C24: do the answer and the reported residuals belong to this system?
  void truth(const GmArgs & a, const Eigen::VectorXd & x, long lim, double eps)
  {
    const auto & e = sol->err_list_;
    double bn = a.b.norm(), r0 = (a.b - a.A * a.x0).norm(), rn = (a.b - a.A * x).norm();
    Eigen::JacobiSVD<Eigen::MatrixXd> svd(a.A);
    auto sv = svd.singularValues();
    double cond = sv[0] / std::max(1e-300, sv[sv.size() - 1]);
    if(cond > 1e4) return;
    double tol = 1e-13 * cond * (bn + sv[0] * a.x0.norm() + r0);
    if(e.empty()) return report("C24", "gmres-history", "no residual history");
    if(!(std::abs(e[0] - r0) <= tol)) return report("C24", "gmres-history", fmt("first residual recorded as %.12g, it is %.12g", e[0], r0));
    for(size_t i = 1; i < e.size(); i++)
      if(!(e[i] <= e[i - 1] + tol)) return report("C24", "gmres-history", fmt("residual %zu recorded as %.12g after %.12g", i, e[i], e[i - 1]));
    if(!(std::abs(e.back() - rn) <= 1e-6 * rn + 10 * tol)) return report("C24", "gmres-residual", fmt("last residual recorded as %.12g, it is %.12g", e.back(), rn));
    if((long)e.size() - 1 > lim) return report("C24", "gmres-stop", fmt("%zu iterations, limit %ld", e.size() - 1, lim));
    for(size_t i = 0; i + 1 < e.size(); i++)
      if(e[i] <= eps * bn * (1 - 1e-9)) return report("C24", "gmres-stop", fmt("iterated on although residual %.6g was within tolerance %.6g", e[i], eps * bn));
    if((long)e.size() - 1 < lim && !(e.back() <= eps * bn * (1 + 1e-9) + tol)) return report("C24", "gmres-stop", fmt("stopped after %zu of %ld iterations with residual %.6g, tolerance %.6g", e.size() - 1, lim, e.back(), eps * bn));
    if(lim == a.b.size() && !(rn <= eps * bn + 10 * tol)) return report("C24", "gmres-unsolved", fmt("residual %.6g after as many iterations as unknowns, tolerance %.6g", rn, eps * bn));
  }
  Outcome exec(const Op & op, const Args & a_, Env & env) override
  {
    const auto & a = static_cast<const GmArgs &>(a_);
    Ctx & c = *env.ctx;
    sol->make_triangular_ = op.geti("tri", 1) != 0;
    sol->apply_reorth_ = op.geti("reo", 1) != 0;
    Eigen::VectorXd x = a.x0;
    int kmax = (int)op.geti("kmax", 100);
    double eps = op.get("eps", 1e-10);
    armCtx(c, op, env);
    Outcome o;
    bool dense = op.geti("dense") != 0, tampered = false;
    nmpc_cgmres::Gmres::AmulFunc f = [&](const Eigen::Ref<const Eigen::VectorXd> & v) -> Eigen::VectorXd
    {
      CbGuard g(CB_AMUL);
      Eigen::VectorXd r = a.A * v;
      tampered |= g.action != 0;
      if(g.action) r[g.elem % r.size()] = faultValue(g.action);
      return r;
    };
    guarded(c, o,
            [&]
            {
              if(dense)
                sol->solve(Eigen::Ref<const Eigen::MatrixXd>(a.A), a.b, x, kmax, eps);
              else
                sol->solve(f, a.b, x, kmax, eps);
            });
    checkAbort(c, o, kind);
    if(o.kind == OK_RETURN)
    {
      o.mark("solution");
      o.add(x.data(), x.size());
      flat(o);
      long lim = std::min<long>(kmax, a.b.size());
      if((long)sol->err_list_.size() > lim + 1 || c.cb[CB_AMUL] > 2 * (lim + 1))
        report("C15", "gmres-iters", fmt("GMRES made %zu iterations and %ld operator calls, limit %ld", sol->err_list_.size() - 1, c.cb[CB_AMUL], lim));
      if((long)sol->err_list_.size() == lim + 1) probe(PR_GM_FULL);
      if(!tampered) truth(a, x, lim, eps);
    }
    return o;
  }
};
} // namespace
std::shared_ptr<IObj> makeT11(const KV & d, Env & env, IObj * s) { return std::make_shared<GmObj>(d, env, s); }
} // namespace sim
