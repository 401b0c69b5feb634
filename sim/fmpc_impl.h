#pragma once
#include <nmpc_fmpc/FmpcSolver.h>

#include "prob.h"

namespace sim
{
template<int N, int M, int K>
struct FmpcProb : public CommonProb<nmpc_fmpc::FmpcProblem<N, M, K>, N, M>
{
  using B = CommonProb<nmpc_fmpc::FmpcProblem<N, M, K>, N, M>;
  using B::B;
  using typename B::U;
  using typename B::X;
  using G = Eigen::Matrix<double, K, 1>;
  using GX = Eigen::Matrix<double, K, N>;
  using GU = Eigen::Matrix<double, K, M>;
  using nmpc_fmpc::FmpcProblem<N, M, K>::ineqDim;
  int ineqDim(double t) const override
  {
    CbGuard g(CB_KDIM);
    if(auto * mo = curMon()) mo->at(CB_KDIM, t, nullptr, 0, nullptr, 0);
    return this->mm->kdim(t);
  }
  G ineqConst(double t, const X & x, const U & u) const override
  {
    CbGuard g(CB_G);
    Mon * mo = curMon();
    int i = mo ? mo->at(CB_G, t, x.data(), x.size(), u.data(), u.size()) : -1;
    int k = this->mm->kdim(t);
    double out[MG];
    this->mm->g(t, x.data(), u.data(), (int)u.size(), k, out);
    if(g.action && k) out[g.elem % k] = faultValue(g.action);
    if(mo) mo->gotDeriv(CB_G, i, x.data(), u.data(), u.size(), !finiteAll(out, k), false, g.action != 0);
    return Eigen::Map<Eigen::VectorXd>(out, k);
  }
  void calcIneqConstDeriv(double t, const X & x, const U & u, Eigen::Ref<GX> C, Eigen::Ref<GU> D) const override
  {
    CbGuard g(CB_GD);
    Mon * mo = curMon();
    int mu = (int)u.size(), k = this->mm->kdim(t), i = -1;
    if(mo)
    {
      i = mo->at(CB_GD, t, x.data(), x.size(), u.data(), mu);
      mo->outdim(CB_GD, t, C.rows(), k, "C");
      mo->outdim(CB_GD, t, D.rows(), k, "D");
      mo->outdim(CB_GD, t, D.cols(), this->mm->mdim(t), "D");
      if(mo->bad) die("inconsistent callback arguments");
    }
    double c[MG * MX], d[MG * MU];
    this->mm->gd(t, x.data(), u.data(), mu, k, c, d);
    if(g.action && k)
    {
      int e = g.elem % (k * N + k * mu);
      (e < k * N ? c[e] : d[e - k * N]) = faultValue(g.action);
    }
    C = Eigen::Map<Eigen::MatrixXd>(c, k, N);
    D = Eigen::Map<Eigen::MatrixXd>(d, k, mu);
    if(mo) mo->gotDeriv(CB_GD, i, x.data(), u.data(), mu, !finiteAll(c, k * N) || !finiteAll(d, k * mu), false, g.action != 0);
  }
};

using VV = std::vector<std::vector<double>>;
template<int N>
struct FmpcArgs : Args
{
  double t = 0;
  int T = 1;
  double x0[MX] = {0};
  VV x, u, l, s, n;
};

template<int N, int M, int K>
struct FmpcObj : IObj
{
  using Solver = nmpc_fmpc::FmpcSolver<N, M, K>;
  using Prob = FmpcProb<N, M, K>;
  using Var = typename Solver::Variable;
  using Status = typename Solver::Status;
  using X = typename Solver::StateDimVector;
  using U = typename Solver::InputDimVector;
  using G = typename Solver::IneqDimVector;
  std::shared_ptr<MathModel> mm;
  std::shared_ptr<Prob> prob;
  Solver * sol = nullptr;
  bool solved = false;

  void create(Env & env)
  {
    auto p = prob;
    Ctx & c = *env.ctx;
    c.resetOp();
    c.fill = env.fill;
    c.fill_rng = Rng(env.fillseed ^ 5);
    Region r(c);
    sol = new Solver(p);
  }
  FmpcObj(const KV & d, Env & env, IObj * share)
  {
    desc = d;
    kind = "fmpc";
    reuse_prop = "C02";
    if(share)
    {
      auto * o = static_cast<FmpcObj *>(share);
      mm = o->mm;
      prob = o->prob;
    }
    else
    {
      mm = std::make_shared<MathModel>();
      mm->init((uint64_t)d.get("mseed", 1), N, M == Eigen::Dynamic ? -1 : M, K == Eigen::Dynamic ? -1 : K, (int)d.geti("flavour"), d.get("gx", 1));
      if(d.has("refamp")) mm->ref_amp = d.get("refamp");
      if(d.has("dom")) mm->dom = std::fabs(d.get("dom")), mm->domval = d.get("dom") > 0 ? std::nan("") : HUGE_VAL;
      if(d.has("tv")) mm->tv = d.get("tv");
      mm->all_zero_dim = d.geti("zerodim") != 0;
      prob = std::make_shared<Prob>(mm);
    }
    create(env);
  }
  ~FmpcObj() { delete sol; }
  std::shared_ptr<IObj> fresh(Env & env) const override
  {
    return std::make_shared<FmpcObj>(desc, env, const_cast<FmpcObj *>(this));
  }
  bool comparable(const Op & op) const override { return op.geti("upd", 1) || op.geti("init"); }
  // A solve that initialises slacks and multipliers itself must not care what the caller put there
  std::shared_ptr<Args> varied(const Op & op, const Args & args_) const override
  {
    const auto & a = static_cast<const FmpcArgs<N> &>(args_);
    if(!op.geti("init") || a.malformed) return nullptr;
    Rng r((uint64_t)op.get("seed", 1) ^ 0x51ac);
    if(r.chance(0.4)) return nullptr;
    auto b = std::make_shared<FmpcArgs<N>>(a);
    double scale = std::pow(10.0, r.sym(4)), neg = r.chance(0.3) ? 0.3 : 0;
    for(auto * l : {&b->s, &b->n})
    {
      if(r.chance(0.3)) continue;
      for(auto & e : *l)
        for(double & q : e) q = (r.chance(neg) ? -1 : 1) * r.uni(0, scale);
    }
    probe(PR_INIT_VARIED);
    return b;
  }

  std::shared_ptr<Args> prepare(const Op & op) override
  {
    auto a = std::make_shared<FmpcArgs<N>>();
    Rng r((uint64_t)op.get("seed", 1));
    int T = a->T = (int)op.geti("N", 5);
    a->t = mm->dt * (op.get("ti") + op.get("tf"));
    const Var & v = sol->variable();
    for(int i = 0; i < MX; i++) a->x0[i] = r.sym(op.get("xs", 1.0));
    if(op.geti("xsrc") && solved && v.x_list.size() > 1)
      for(int i = 0; i < N; i++) a->x0[i] = v.x_list[1][i] + (op.geti("alias") ? 0 : 0.02 * r.sym(1));
    if(op.geti("xsrc") == 2 && solved && !v.x_list.empty())
      for(int i = 0; i < N; i++) a->x0[i] = v.x_list[0][i];
    int src = solved ? (int)op.geti("src") : 0; // only a finished solve leaves variables worth reading
    int zs = (int)op.geti("zs"); // exact zeros among slacks (1) or multipliers (2)
    double slo = op.get("slo", 0.05), shi = op.get("shi", 1.0);
    double us = op.get("us", 0.5), ws = op.get("ws", 0.5), ls = op.get("ls0", 0.5);
    auto pick = [&](int i, int n) { return std::min(src == 1 ? i + 1 : i, n - 1); };
    auto take = [&](std::vector<double> & o, const double * p, long n)
    {
      if((long)o.size() != n) return;
      for(long q = 0; q < n; q++)
        if(std::isfinite(p[q])) o[q] = p[q];
    };
    for(int i = 0; i <= T; i++)
    {
      std::vector<double> x(N), l(N);
      for(double & q : x) q = r.sym(ws);
      for(double & q : l) q = r.sym(ls);
      if(src)
      {
        int j = pick(i, (int)v.x_list.size());
        if(j >= 0) take(x, v.x_list[j].data(), N);
        j = pick(i, (int)v.lambda_list.size());
        if(j >= 0) take(l, v.lambda_list[j].data(), N);
      }
      a->x.push_back(x);
      a->l.push_back(l);
      if(i == T) break;
      double t = a->t + i * mm->dt;
      std::vector<double> u(mm->mdim(t)), s(mm->kdim(t)), n(mm->kdim(t));
      for(double & q : u) q = r.sym(us);
      for(double & q : s) q = r.uni(slo, shi);
      for(double & q : n) q = r.uni(slo, shi);
      if(src)
      {
        int j = pick(i, (int)v.u_list.size());
        if(j >= 0) take(u, v.u_list[j].data(), v.u_list[j].size());
        j = pick(i, (int)v.s_list.size());
        if(j >= 0) take(s, v.s_list[j].data(), v.s_list[j].size());
        j = pick(i, (int)v.nu_list.size());
        if(j >= 0) take(n, v.nu_list[j].data(), v.nu_list[j].size());
        for(double & q : s) q = std::fabs(q);
        for(double & q : n) q = std::fabs(q);
      }
      if((zs & 1) && !s.empty() && r.chance(0.3)) s[r.range(0, (long)s.size() - 1)] = 0;
      if((zs & 2) && !n.empty() && r.chance(0.3)) n[r.range(0, (long)n.size() - 1)] = 0;
      a->u.push_back(u);
      a->s.push_back(s);
      a->n.push_back(n);
    }
    int mal = (int)op.geti("mal");
    if(mal)
    {
      a->malformed = true;
      bool init = op.geti("init") != 0;
      int at = (int)r.range(0, std::max(0, T - 1));
      auto longer = [](VV & w, int d) { w.push_back(w.empty() ? std::vector<double>(d > 0 ? d : 1) : w.back()); };
      // kinds that cannot be expressed with this instance become wrong lengths
      if(mal == 6 && (M != Eigen::Dynamic || T == 0)) mal = 2;
      if((mal == 7 || mal == 8) && (K != Eigen::Dynamic || init || T == 0)) mal = mal == 7 ? 4 : 5;
      if((mal == 9 || mal == 10) && (init || T == 0)) mal = mal == 9 ? 1 : 3;
      if(mal == 9 || mal == 10)
      {
        for(int q = 0; q < T && a->s[at].empty(); q++) at = (at + 1) % T;
        if(a->s[at].empty()) mal = 12;
      }
      switch(mal)
      {
        case 1:
          a->x.pop_back();
          break;
        case 2:
          if(a->u.empty() || r.chance(0.5))
            longer(a->u, M);
          else
            a->u.pop_back();
          break;
        case 3:
          if(r.chance(0.5))
            a->l.pop_back();
          else
            longer(a->l, N);
          break;
        case 4:
          if(a->s.empty() || r.chance(0.3))
            longer(a->s, K);
          else
            a->s.pop_back();
          break;
        case 5:
          if(a->n.empty() || r.chance(0.3))
            longer(a->n, K);
          else
            a->n.pop_back();
          break;
        case 6:
          a->u[at].push_back(0.1);
          break;
        case 7:
          a->s[at].push_back(0.1);
          break;
        case 8:
          if(a->n[at].empty() || r.chance(0.5))
            a->n[at].push_back(0.1);
          else
            a->n[at].pop_back();
          break;
        case 9:
          a->s[at][r.range(0, (long)a->s[at].size() - 1)] = -r.uni(1e-9, 1);
          break;
        case 10:
          a->n[at][r.range(0, (long)a->n[at].size() - 1)] = -r.uni(1e-9, 1);
          break;
        case 11:
          a->x.clear();
          a->u.clear();
          a->l.clear();
          a->s.clear();
          a->n.clear();
          break;
        default:
          longer(a->x, N);
      }
    }
    return a;
  }
  void configure(const Op & op, const FmpcArgs<N> & a, Env & env)
  {
    auto & c = sol->config();
    using Cfg = typename Solver::Configuration;
    c = Cfg();
    c.print_level = env.print;
    c.horizon_steps = a.T;
    c.max_iter = (int)op.geti("maxit", 10);
    c.kkt_error_thre = op.get("kthre", 1e-4);
    c.check_nan = op.geti("nan", 1) != 0;
    c.init_complementary_variable = op.geti("init") != 0;
    c.update_barrier_eps = op.geti("upd", 1) != 0;
    c.break_if_llt_fails = op.geti("brk") != 0;
    c.enable_line_search = op.geti("ls") != 0;
    c.merit_const_scale_from_lagrange_multipliers = op.geti("mls") != 0;
  }
  template<class L> static void addList(Outcome & o, const char * n, const L & l)
  {
    o.mark(n);
    o.add((double)l.size());
    for(auto & e : l) o.add(e.data(), e.size());
  }
  void flatten(Outcome & o, bool dur) const override
  {
    const Var & v = sol->variable();
    addList(o, "state sequence", v.x_list);
    addList(o, "input sequence", v.u_list);
    addList(o, "lambda sequence", v.lambda_list);
    addList(o, "slack sequence", v.s_list);
    addList(o, "nu sequence", v.nu_list);
    o.mark("trace");
    o.add((double)sol->traceDataList().size());
    for(auto & t : sol->traceDataList())
    {
      o.add(t.iter);
      o.add(t.kkt_error);
      if(dur)
        for(double q : {t.duration_coeff, t.duration_backward, t.duration_forward, t.duration_update}) o.add(q);
    }
    if(dur)
    {
      const auto & d = sol->computationDuration();
      for(double q : {d.solve, d.setup, d.opt, d.coeff, d.backward, d.forward, d.update, d.gain_pre, d.gain_solve, d.gain_post, d.fraction}) o.add(q);
    }
  }
  template<class V, class L> static void toList(const VV & w, L & l)
  {
    l.clear();
    for(auto & e : w)
    {
      V v;
      if(V::SizeAtCompileTime == Eigen::Dynamic)
        v = Eigen::Map<const Eigen::VectorXd>(e.data(), (long)e.size());
      else
        for(int q = 0; q < (int)v.size(); q++) v[q] = q < (int)e.size() ? e[q] : 0;
      l.push_back(v);
    }
  }
  Outcome exec(const Op & op, const Args & args_, Env & env) override
  {
    const auto & a = static_cast<const FmpcArgs<N> &>(args_);
    Ctx & c = *env.ctx;
    configure(op, a, env);
    Var v(a.T);
    toList<X>(a.x, v.x_list);
    toList<X>(a.l, v.lambda_list);
    toList<U>(a.u, v.u_list);
    toList<G>(a.s, v.s_list);
    toList<G>(a.n, v.nu_list);
    X x0 = Eigen::Map<const X>(a.x0);
    Mon mon;
    mon.start(mm.get(), a.t, a.T, true);
    if(!a.malformed)
    {
      mon.wu = a.u;
      mon.wx = a.x;
    }
    armCtx(c, op, env);
    c.mon = env.monitor && !a.malformed ? &mon : nullptr;
    Outcome o;
    Status st = Status::Uninitialized;
    // the arguments may be references into the result of the previous solve
    const X * xa = &x0;
    const Var * va = &v;
    if(op.geti("alias") && !a.malformed)
    {
      const Var & w = sol->variable();
      bool same = w.horizon_steps == v.horizon_steps;
      auto eq = [&](const auto & p, const auto & q)
      {
        same = same && p.size() == q.size();
        for(size_t i = 0; same && i < p.size(); i++) same = p[i].size() == q[i].size() && !memcmp(p[i].data(), q[i].data(), sizeof(double) * p[i].size());
      };
      eq(w.x_list, v.x_list);
      eq(w.u_list, v.u_list);
      eq(w.lambda_list, v.lambda_list);
      eq(w.s_list, v.s_list);
      eq(w.nu_list, v.nu_list);
      if(same) va = &w, probe(PR_ALIAS);
      if(w.x_list.size() > 1 && !memcmp(w.x_list[1].data(), x0.data(), sizeof(double) * N)) xa = &w.x_list[1], probe(PR_ALIAS);
    }
    guarded(c, o, [&] { st = sol->solve(a.t, *xa, *va); });
    if(!a.malformed) solved = o.kind == OK_RETURN;
    if(debug_trace)
    {
      fprintf(stderr, "FMPC solve: outcome %d status %d\n", o.kind, (int)st);
      for(auto & t : sol->traceDataList()) fprintf(stderr, "  %d kkt %.10g\n", t.iter, t.kkt_error);
    }
    c.mon = nullptr;
    o.ret = (double)(int)st;
    sh->simtime += a.T * mm->dt;
    checkAbort(c, o, kind);
    if(a.malformed)
    {
      fstat(FS_MALFORMED);
      if(o.kind == OK_RETURN)
        report("C09", "fmpc-accepted", fmt("FMPC: a malformed warm start (kind %ld) was accepted", op.geti("mal")));
      else if(o.kind == OK_STDEXC)
        probe(PR_REJECTED);
      flatten(o, false);
      return o;
    }
    if(o.kind == OK_STDEXC) report("C09", "fmpc-rejected", fmt("FMPC: a well-formed solve was rejected: %s", o.what.c_str()));
    flatten(o, false);
    if(o.kind == OK_RETURN) check(op, a, c, mon, (int)st, env);
    if(o.kind == OK_RETURN) checkDur(c, env, (int)st);
    return o;
  }
  using DV = Eigen::VectorXd;
  using DM = Eigen::MatrixXd;
  template<class L> static std::vector<DV> dyn(const L & l)
  {
    std::vector<DV> r;
    for(auto & e : l) r.push_back(Eigen::Map<const DV>(e.data(), e.size()));
    return r;
  }
  static std::vector<DV> dynv(const VV & l)
  {
    std::vector<DV> r;
    for(auto & e : l) r.push_back(Eigen::Map<const DV>(e.data(), (long)e.size()));
    return r;
  }
  double refKkt(const FmpcArgs<N> & a, const std::vector<DV> & x, const std::vector<DV> & u, const std::vector<DV> & l, const std::vector<DV> & s,
                const std::vector<DV> & n, double * noise = nullptr) const
  {
    double dt = mm->dt, e = 0;
    // what the order of summation may change: the size of the summands before they cancel
    double mag = 0;
    int T = a.T;
    e += (Eigen::Map<const DV>(a.x0, N) - x[0]).squaredNorm();
    for(int i = 0; i < T; i++)
    {
      double t = a.t + i * dt;
      int mu = (int)u[i].size(), k = (int)s[i].size();
      DV f(N), g(k), Lx(N), Lu(mu);
      DM A(N, N), B(N, mu), C(k, N), D(k, mu), Lxx(N, N), Luu(mu, mu), Lxu(N, mu);
      mm->f(t, x[i].data(), u[i].data(), mu, f.data());
      mm->g(t, x[i].data(), u[i].data(), mu, k, g.data());
      mm->fd(t, x[i].data(), u[i].data(), mu, A.data(), B.data());
      mm->gd(t, x[i].data(), u[i].data(), mu, k, C.data(), D.data());
      mm->Ld(t, x[i].data(), u[i].data(), mu, Lx.data(), Lu.data(), Lxx.data(), Luu.data(), Lxu.data());
      e += (f - x[i + 1]).squaredNorm();
      e += (g + s[i]).squaredNorm();
      DV lx = dt * Lx - l[i] + A.transpose() * l[i + 1];
      DV lu = dt * Lu + B.transpose() * l[i + 1];
      if(k)
      {
        lx += C.transpose() * n[i];
        lu += D.transpose() * n[i];
      }
      e += lx.squaredNorm() + lu.squaredNorm();
      if(noise)
      {
        DV mx = dt * Lx.cwiseAbs() + l[i].cwiseAbs() + A.cwiseAbs().transpose() * l[i + 1].cwiseAbs();
        DV mu_ = dt * Lu.cwiseAbs() + B.cwiseAbs().transpose() * l[i + 1].cwiseAbs();
        if(k)
        {
          mx += C.cwiseAbs().transpose() * n[i].cwiseAbs();
          mu_ += D.cwiseAbs().transpose() * n[i].cwiseAbs();
        }
        mag += mx.squaredNorm() + mu_.squaredNorm();
      }
      for(int q = 0; q < k; q++)
      {
        double p = std::max(0.0, s[i][q] * n[i][q]);
        e += p * p;
      }
    }
    DV px(N);
    DM pxx(N, N);
    mm->phid(a.t + T * dt, x[T].data(), px.data(), pxx.data());
    e += (px - l[T]).squaredNorm();
    if(noise) *noise = 1e-13 * std::sqrt(mag);
    return std::sqrt(e);
  }
  bool coeffBad() const
  {
    const auto & cl = sol->coeffList();
    auto b = [](const auto & m) { return !finiteAll(m.data(), m.size()); };
    for(size_t i = 0; i < cl.size(); i++)
    {
      const auto & c = cl[i];
      if(b(c.Lx) || b(c.Lxx) || b(c.Lx_bar) || b(c.s) || b(c.P)) return true;
      if(i + 1 < cl.size())
        if(b(c.A) || b(c.B) || b(c.C) || b(c.D) || b(c.Lu) || b(c.Luu) || b(c.Lxu) || b(c.x_bar) || b(c.g_bar) || b(c.Lu_bar) || b(c.k) || b(c.K))
          return true;
    }
    return false;
  }
  // The search direction the library must have computed, recomputed from its gains. Result: 0 fine, 1 not finite (or
  // near overflow), 2 no admissible step length
  int direction(const FmpcArgs<N> & a) const
  {
    const Var & v = sol->variable();
    const auto & cl = sol->coeffList();
    DV dx = Eigen::Map<const DV>(a.x0, N) - v.x_list[0];
    bool inf = false, nostep = false;
    auto chk = [&](const DV & d)
    {
      for(long q = 0; q < d.size(); q++)
        if(!(std::fabs(d[q]) < 1e290)) inf = true;
    };
    for(int i = 0; i <= a.T; i++)
    {
      const auto & c = cl[i];
      chk(dx);
      DV dl = c.P * dx - c.s;
      chk(dl);
      if(i == a.T) break;
      DV du = c.K * dx + c.k;
      chk(du);
      DV ds = -1 * (c.C * dx + c.D * du + c.g_bar);
      chk(ds);
      for(long q = 0; q < ds.size(); q++)
      {
        double s = v.s_list[i][q], n = v.nu_list[i][q];
        for(double eps : {0.0, 1e6})
        {
          double dn = -(n * (ds[q] + s) - eps) / s;
          if(!(std::fabs(dn) < 1e290)) inf = true;
          if(n <= 0 || n / std::fabs(dn) < 1e-250) nostep = true;
        }
        if(s <= 0 || s / std::fabs(ds[q]) < 1e-250) nostep = true;
      }
      DV nx = c.A * dx + c.B * du + c.x_bar;
      dx = nx;
    }
    return inf ? 1 : nostep ? 2 : 0;
  }
  void check(const Op & op, const FmpcArgs<N> & a, Ctx & c, Mon & mon, int st, Env & env)
  {
    const Var & v = sol->variable();
    const auto & tr = sol->traceDataList();
    const auto & cfg = sol->config();
    int T = a.T;
    const Probe ps[] = {PR_N, PR_FM_SUCC, PR_FM_ERRF, PR_FM_ERRB, PR_FM_ERRU, PR_FM_MAXIT};
    if(st >= 1 && st <= 5) probe(ps[st]);
    if(cfg.enable_line_search) probe(PR_FM_LS);
    int totk = 0;
    for(auto & s : a.s) totk += (int)s.size();
    if(totk == 0) probe(PR_FM_ZERO_INEQ);

    // C15
    long it = cfg.max_iter, ls = cfg.enable_line_search ? 40 : 0;
    if((long)tr.size() > std::max(0l, it)) report("C15", "fmpc-iters", fmt("FMPC recorded %zu iterations, max_iter %ld", tr.size(), it));
    long per = 2 * (T * (it * (1 + ls) + 1));
    if(c.cb[CB_F] > per || c.cb[CB_L] > per || c.cb[CB_G] > per + 2 * T || c.cb[CB_FD] > 2 * it * T || c.cb[CB_LD] > 2 * it * T || c.cb[CB_GD] > 2 * it * T
       || c.cb[CB_PHID] > 2 * it || c.cb[CB_PHI] > 2 * (it * (1 + ls)))
      report("C15", "fmpc-evals", fmt("FMPC made %ld stateEq and %ld derivative calls; horizon %d, max_iter %ld", c.cb[CB_F], c.cb[CB_FD], T, it));

    if(!env.monitor) return;
    mon.finish("fmpc");

    // C14
    bool sizes = (int)v.x_list.size() == T + 1 && (int)v.lambda_list.size() == T + 1 && (int)v.u_list.size() == T && (int)v.s_list.size() == T
                 && (int)v.nu_list.size() == T;
    for(int i = 0; sizes && i < T; i++)
    {
      double t = a.t + i * mm->dt;
      sizes = v.u_list[i].size() == mm->mdim(t) && v.s_list[i].size() == mm->kdim(t) && v.nu_list[i].size() == mm->kdim(t);
    }
    if(!sizes)
    {
      report("C14", "sizes", "FMPC: the variables have wrong lengths or dimensions after a solve");
      return;
    }
    bool initbad = false;
    if(cfg.init_complementary_variable)
      for(auto & f : c.faults)
        if((f.kind == CB_G || f.kind < 0) && f.action != ACT_THROW) initbad = true;
    if(cfg.check_nan && !initbad)
    {
      bool fin = true, neg = false;
      auto lookF = [&](const auto & l)
      {
        for(auto & e : l) fin = fin && finiteAll(e.data(), e.size());
      };
      lookF(v.x_list);
      lookF(v.u_list);
      lookF(v.lambda_list);
      lookF(v.s_list);
      lookF(v.nu_list);
      for(auto & e : v.s_list)
        for(long q = 0; q < e.size(); q++) neg = neg || e[q] < 0;
      for(auto & e : v.nu_list)
        for(long q = 0; q < e.size(); q++) neg = neg || e[q] < 0;
      if(!fin) report("C14", "nonfinite", fmt("FMPC: variables are not finite after a solve with NaN checking (status %d)", st));
      if(neg) report("C14", "negative", fmt("FMPC: a slack variable or multiplier is negative after a solve (status %d)", st));
    }

    // C13
    if(it < 1 || (mon.bad && mon.tampered)) return;
    double thr = cfg.kkt_error_thre;
    bool anyalt = mon.phidBad1;
    bool lastbad = mon.phidBad1;
    for(int i = 0; i < T; i++)
    {
      for(int k : {CB_F, CB_G, CB_FD, CB_LD, CB_GD}) anyalt = anyalt || mon.alt[k][i];
      lastbad = lastbad || mon.fBad[i] || mon.gBad[i] || mon.fdBad[i] || mon.ldBad1[i] || mon.gdBad[i];
    }
    anyalt = anyalt || mon.alt[CB_PHID][T];
    if(st < 1 || st > 5) report("C13", "status", fmt("FMPC returned the intermediate status %d", st));
    if(tr.empty()) report("C13", "trace", "FMPC recorded no iteration");
    bool met = false;
    for(size_t i = 0; i < tr.size(); i++)
      if(tr[i].kkt_error <= thr) met = true;
    if(lastbad && st != 1) probe(PR_NAN_NOT_SUCCESS);
    if(st == 1)
    {
      if(lastbad) report("C13", "nonfinite", "FMPC returned Succeeded although the model data of its last iteration was not finite");
      if(!anyalt)
      {
        double nz = 0, e = refKkt(a, dyn(v.x_list), dyn(v.u_list), dyn(v.lambda_list), dyn(v.s_list), dyn(v.nu_list), &nz);
        if(!(e <= thr * (1 + 1e-6) + 1e-12 + nz))
          report("C13", "kkt", fmt("FMPC returned Succeeded with KKT error %.12g, threshold %.12g (trace says %.12g)", e, thr, tr.empty() ? -1 : tr.back().kkt_error));
      }
    }
    if(!tr.empty() && !mon.tampered && !cfg.init_complementary_variable)
    {
      double nz = 0, e = refKkt(a, dynv(a.x), dynv(a.u), dynv(a.l), dynv(a.s), dynv(a.n), &nz);
      // overflowing data has no residual to compare
      if(e < 1e100 && !(std::fabs(e - tr[0].kkt_error) <= 1e-7 * (1 + e) + nz))
        report("C13", "kkt-trace", fmt("FMPC recorded KKT error %.12g for the warm start, recomputed %.12g", tr[0].kkt_error, e));
    }
    for(size_t i = 0; i < tr.size(); i++)
      if(tr[i].iter != (int)i + 1)
      {
        report("C27", "fmpc-rows", fmt("FMPC: row %zu of the trace says iteration %d", i, tr[i].iter));
        break;
      }
    if(st == 5)
    {
      if((long)tr.size() != it) report("C13", "maxiter-early", fmt("FMPC returned MaxIterationReached after %zu of %ld iterations", tr.size(), it));
      if(met) report("C13", "maxiter-met", "FMPC returned MaxIterationReached although an iteration met the KKT threshold");
    }
    if(st >= 2 && st <= 4 && met) report("C13", "error-met", "FMPC returned an error status although an iteration met the KKT threshold");
    if(st == 3 && !cfg.break_if_llt_fails)
    {
      if(!cfg.check_nan || !coeffBad())
        report("C13", "backward", "FMPC returned ErrorInBackward although all coefficients are finite (or NaN checking is off)");
    }
    if(st == 2)
    {
      if(!cfg.check_nan || (!coeffBad() && direction(a) != 1))
        report("C13", "forward", "FMPC returned ErrorInForward although the search direction is finite (or NaN checking is off)");
    }
    if(st == 4)
    {
      int d = direction(a);
      if(d == 0 && !coeffBad()) report("C13", "update", "FMPC returned ErrorInUpdate although a positive step length exists");
    }
    (void)op;
  }
  void checkDur(Ctx & c, Env & env, int st)
  {
    if(env.clk != CLK_MODEL && env.clk != CLK_TICK) return;
    if(st != 1 && st != 5) return;
    const auto & d = sol->computationDuration();
    const auto & tr = sol->traceDataList();
    auto bad = [&](const char * tag, const std::string & m) { report("C20", fmt("fmpc-%s", tag), "FMPC: " + m); };
    double e = 1e-6 * (1 + d.solve);
    // with a clock that advances at every read, an interval read twice differs by the reads in between
    const double rd = env.clk == CLK_TICK ? 0.2 : 0, et = e + rd * (double)tr.size();
    if(std::fabs(d.setup + d.opt - d.solve) > e + 2 * rd) bad("sum", fmt("setup %g + opt %g != solve %g", d.setup, d.opt, d.solve));
    double sc = 0, sb = 0, sf = 0, su = 0;
    for(auto & t : tr)
    {
      sc += t.duration_coeff;
      sb += t.duration_backward;
      sf += t.duration_forward;
      su += t.duration_update;
      for(double q : {t.duration_coeff, t.duration_backward, t.duration_forward, t.duration_update})
        if(q < 0 || !std::isfinite(q)) bad("negative", "negative duration in the trace");
    }
    if(std::fabs(sc - d.coeff) > et || std::fabs(sb - d.backward) > et || std::fabs(sf - d.forward) > et || std::fabs(su - d.update) > et)
      bad("trace-sum", fmt("per-iteration durations add up to %g/%g/%g/%g, totals are %g/%g/%g/%g", sc, sb, sf, su, d.coeff, d.backward, d.forward, d.update));
    if(d.coeff + d.backward + d.forward + d.update > d.opt + e)
      bad("phases", fmt("phases %g+%g+%g+%g exceed opt %g", d.coeff, d.backward, d.forward, d.update, d.opt));
    if(d.gain_pre + d.gain_solve + d.gain_post > d.backward + e)
      bad("sub", fmt("gain_pre %g + gain_solve %g + gain_post %g exceed backward %g", d.gain_pre, d.gain_solve, d.gain_post, d.backward));
    if(d.fraction > d.update + e) bad("fraction", fmt("fraction %g exceeds update %g", d.fraction, d.update));
    for(double q : {d.solve, d.setup, d.opt, d.coeff, d.backward, d.forward, d.update, d.gain_pre, d.gain_solve, d.gain_post, d.fraction})
      if(q < 0 || !std::isfinite(q)) bad("negative", fmt("duration %g with a clock that never runs backwards", q));
    if(env.clk == CLK_MODEL)
    {
      double ms = 1e-6, tot = c.adv_total * ms, e2 = 1e-6 * (1 + tot);
      double der = (c.adv[CB_FD] + c.adv[CB_LD] + c.adv[CB_GD] + c.adv[CB_PHID]) * ms;
      if(std::fabs(d.solve - tot) > e2) bad("total", fmt("solve duration %g ms, the clock advanced %g ms", d.solve, tot));
      if(std::fabs(d.setup + d.coeff + d.update - tot) > e2)
        bad("split", fmt("setup %g + coeff %g + update %g ms, the clock advanced %g ms", d.setup, d.coeff, d.update, tot));
      if(d.coeff < der - e2) bad("coeff", fmt("coeff duration %g ms, derivative calls alone took %g ms", d.coeff, der));
      if(!sol->config().init_complementary_variable && !sol->config().enable_line_search && std::fabs(d.coeff - tot) > e2)
        bad("coeff", fmt("coeff duration %g ms, the clock advanced %g ms", d.coeff, tot));
      probe(PR_DURATION_EXACT);
    }
  }
  void setState(Args & a_, const double * x, double t) override
  {
    auto & a = static_cast<FmpcArgs<N> &>(a_);
    for(int i = 0; i < N; i++) a.x0[i] = x[i];
    a.t = t;
  }
  int planInput(int i, double * u) const override
  {
    const auto & ul = sol->variable().u_list;
    if(i < 0 || i >= (int)ul.size()) return -1;
    for(long q = 0; q < ul[i].size(); q++) u[q] = ul[i][q];
    return (int)ul[i].size();
  }
  const MathModel * model() const override { return mm.get(); }
  double kktOf(const Args & a, double * noise = nullptr) const override
  {
    const Var & v = sol->variable();
    return refKkt(static_cast<const FmpcArgs<N> &>(a), dyn(v.x_list), dyn(v.u_list), dyn(v.lambda_list), dyn(v.s_list), dyn(v.nu_list), noise);
  }
  void stepCheck(const IObj & before_, const Op & op, const Args & args_) const override
  {
    const auto & a = static_cast<const FmpcArgs<N> &>(args_);
    const auto & b = static_cast<const FmpcObj &>(before_);
    const auto & cfg = sol->config();
    if(sol->traceDataList().size() != b.sol->traceDataList().size() + 1) return;
    const Var &v = b.sol->variable(), &w = sol->variable();
    auto x = dyn(v.x_list), u = dyn(v.u_list), l = dyn(v.lambda_list), s = dyn(v.s_list), n = dyn(v.nu_list);
    auto x1 = dyn(w.x_list), u1 = dyn(w.u_list), l1 = dyn(w.lambda_list), s1 = dyn(w.s_list), n1 = dyn(w.nu_list);
    int T = a.T;
    double dt = mm->dt;
    long dim = (T + 1) * 2 * N, g = 0;
    double sn = 0;
    for(int i = 0; i < T; i++)
    {
      dim += u[i].size() + 2 * s[i].size();
      g += s[i].size();
      sn += s[i].dot(n[i]);
      for(long q = 0; q < s[i].size(); q++)
        if(!(s[i][q] > 1e-10) || !(n[i][q] > 1e-14) || !(s[i][q] < 1e6) || !(n[i][q] < 1e6)) return; // too close to the boundary to compare
    }
    if(dim > 220) return;
    double eps = cfg.update_barrier_eps ? std::min(1e6, std::max(1e-8, 0.5 * (g ? sn / g : 0.0))) : 1e-4;
    DM J = DM::Zero(dim, dim);
    DV rhs = DV::Zero(dim);
    // columns: x (T+1), lambda (T+1), then per step u, s, nu
    auto cx = [&](int i) { return (long)i * N; };
    auto cl = [&](int i) { return (long)(T + 1 + i) * N; };
    std::vector<long> cu(T), cs(T), cn(T);
    long at = 2 * (T + 1) * N, row = 0;
    for(int i = 0; i < T; i++)
    {
      cu[i] = at;
      cs[i] = cu[i] + u[i].size();
      cn[i] = cs[i] + s[i].size();
      at = cn[i] + s[i].size();
    }
    DM I = DM::Identity(N, N);
    J.block(row, cx(0), N, N) = I;
    rhs.segment(row, N) = Eigen::Map<const DV>(a.x0, N) - x[0];
    row += N;
    for(int i = 0; i < T; i++)
    {
      double t = a.t + i * dt;
      int mu = (int)u[i].size(), k = (int)s[i].size();
      DV f(N), gg(k), Lx(N), Lu(mu);
      DM A(N, N), B(N, mu), C(k, N), D(k, mu), Lxx(N, N), Luu(mu, mu), Lxu(N, mu);
      mm->f(t, x[i].data(), u[i].data(), mu, f.data());
      mm->g(t, x[i].data(), u[i].data(), mu, k, gg.data());
      mm->fd(t, x[i].data(), u[i].data(), mu, A.data(), B.data());
      mm->gd(t, x[i].data(), u[i].data(), mu, k, C.data(), D.data());
      mm->Ld(t, x[i].data(), u[i].data(), mu, Lx.data(), Lu.data(), Lxx.data(), Luu.data(), Lxu.data());
      J.block(row, cx(i), N, N) = A;
      if(mu) J.block(row, cu[i], N, mu) = B;
      J.block(row, cx(i + 1), N, N) = -I;
      rhs.segment(row, N) = x[i + 1] - f;
      row += N;
      J.block(row, cx(i), N, N) = dt * Lxx;
      if(mu) J.block(row, cu[i], N, mu) = dt * Lxu;
      J.block(row, cl(i), N, N) = -I;
      J.block(row, cl(i + 1), N, N) = A.transpose();
      if(k) J.block(row, cn[i], N, k) = C.transpose();
      DV lx = dt * Lx - l[i] + A.transpose() * l[i + 1];
      if(k) lx += C.transpose() * n[i];
      rhs.segment(row, N) = -lx;
      row += N;
      if(mu)
      {
        J.block(row, cu[i], mu, mu) = dt * Luu;
        J.block(row, cx(i), mu, N) = dt * Lxu.transpose();
        J.block(row, cl(i + 1), mu, N) = B.transpose();
        if(k) J.block(row, cn[i], mu, k) = D.transpose();
        DV lu = dt * Lu + B.transpose() * l[i + 1];
        if(k) lu += D.transpose() * n[i];
        rhs.segment(row, mu) = -lu;
        row += mu;
      }
      if(k)
      {
        J.block(row, cx(i), k, N) = C;
        if(mu) J.block(row, cu[i], k, mu) = D;
        J.block(row, cs[i], k, k) = DM::Identity(k, k);
        rhs.segment(row, k) = -(gg + s[i]);
        row += k;
        for(int q = 0; q < k; q++, row++)
        {
          J(row, cs[i] + q) = n[i][q];
          J(row, cn[i] + q) = s[i][q];
          rhs[row] = eps - s[i][q] * n[i][q];
        }
      }
    }
    DV px(N);
    DM pxx(N, N);
    mm->phid(a.t + T * dt, x[T].data(), px.data(), pxx.data());
    J.block(row, cx(T), N, N) = pxx;
    J.block(row, cl(T), N, N) = -I;
    rhs.segment(row, N) = l[T] - px;
    row += N;
    if(row != dim) die("reference KKT system has the wrong size");
    if(!J.allFinite() || !rhs.allFinite() || J.cwiseAbs().maxCoeff() > 1e6) return;
    // rows scaled: complementarity rows differ by orders of magnitude
    for(long i = 0; i < dim; i++)
    {
      double m = J.row(i).cwiseAbs().maxCoeff();
      if(m > 0) J.row(i) /= m, rhs[i] /= m;
    }
    Eigen::PartialPivLU<DM> lu(J);
    double rc = lu.rcond();
    if(!(rc > 1e-8)) return;
    DV dz = lu.solve(rhs);
    dz += lu.solve(rhs - J * dz);
    double norm = dz.norm();
    if(!(norm < 1e5) || norm < 1e-6) return;
    double vs = 1, vn = 1;
    for(int i = 0; i <= T; i++) vs = std::max(vs, x[i].cwiseAbs().maxCoeff()), vn = std::max(vn, l[i].cwiseAbs().maxCoeff());
    for(int i = 0; i < T; i++) vs += u[i].norm() + s[i].norm(), vn += n[i].norm();
    double tol = 1e-5 + 1e-12 / rc;
    // what rounding can do to a component of the direction
    // (eliminating the multipliers puts nu / s into the matrices of the recursion, and recovering them
    // multiplies what that left on the constraints by nu / s once more)
    double ratio = 1;
    for(int i = 0; i < T; i++)
      for(long q = 0; q < s[i].size(); q++) ratio = std::max(ratio, n[i][q] / s[i][q]);
    double noise = (1e-9 + 1e-14 / rc + 1e-15 * ratio) * (vs + vn) + (1e-2 * tol + 1e-15 * ratio + 1e-16 * ratio * ratio) * norm;
    double smin = 1, smax = 1, nmin = 1, nmax = 1; // fraction to the boundary, from and to
    for(int i = 0; i < T; i++)
      for(long q = 0; q < s[i].size(); q++)
      {
        auto lim = [&](double v, double d, double & lo, double & hi)
        {
          if(d - noise < 0) lo = std::min(lo, 0.995 * v / (noise - d));
          if(d + noise < 0) hi = std::min(hi, 0.995 * v / -(d + noise));
        };
        lim(s[i][q], dz[cs[i] + q], smin, smax);
        lim(n[i][q], dz[cn[i] + q], nmin, nmax);
      }
    // observed step and its share of the reference direction
    double ps = 0, pp = 0, qs = 0, qq = 0;
    auto acc = [](const DV & d, const DV & ref, double & n1, double & n2)
    {
      n1 += d.dot(ref);
      n2 += ref.squaredNorm();
    };
    for(int i = 0; i <= T; i++)
    {
      acc(x1[i] - x[i], dz.segment(cx(i), N), ps, pp);
      acc(l1[i] - l[i], dz.segment(cl(i), N), qs, qq);
      if(i == T) break;
      acc(u1[i] - u[i], dz.segment(cu[i], u[i].size()), ps, pp);
      acc(s1[i] - s[i], dz.segment(cs[i], s[i].size()), ps, pp);
      acc(n1[i] - n[i], dz.segment(cn[i], s[i].size()), qs, qq);
    }
    if(pp < 1e-16 || qq < 1e-16) return;
    double as = ps / pp, an = qs / qq;
    if(std::sqrt(pp) < 1e3 * noise || std::sqrt(qq) < 1e3 * noise) return; // no direction to speak of
    probe(PR_STEP_CHECKED);
    auto cmp = [&](const char * name, int i, const DV & d, const DV & ref, double al, double nrm)
    {
      for(long q = 0; q < d.size(); q++)
        if(!(std::fabs(d[q] - al * ref[q]) <= tol * std::fabs(al) * std::sqrt(nrm) + 10 * noise))
        {
          report("C28", "fmpc-direction", fmt("FMPC changes %s[%d] by %.9g, the Newton step of the KKT conditions times the common step length %.6g is %.9g", name, i, d[q], al, al * ref[q]));
          return false;
        }
      return true;
    };
    for(int i = 0; i <= T; i++)
    {
      if(!cmp("x", i, x1[i] - x[i], dz.segment(cx(i), N), as, pp)) return;
      if(!cmp("lambda", i, l1[i] - l[i], dz.segment(cl(i), N), an, qq)) return;
      if(i == T) break;
      if(!cmp("u", i, u1[i] - u[i], dz.segment(cu[i], u[i].size()), as, pp)) return;
      if(!cmp("s", i, s1[i] - s[i], dz.segment(cs[i], s[i].size()), as, pp)) return;
      if(!cmp("nu", i, n1[i] - n[i], dz.segment(cn[i], s[i].size()), an, qq)) return;
    }
    // the share is an average over all components
    double te = 1e-3 + 10 * tol, es = 20 * noise / std::sqrt(pp), en = 20 * noise / std::sqrt(qq);
    if(!(as > -es && as <= smax * (1 + te) + es && an >= nmin * (1 - te) - en && an <= nmax * (1 + te) + en))
      return report("C28", "fmpc-length", fmt("FMPC step lengths %.9g and %.9g, the fraction to the boundary allows %.9g and is %.9g", as, an, smax, nmax));
    if(!cfg.enable_line_search && !(as >= smin * (1 - te) - es))
      return report("C28", "fmpc-length", fmt("FMPC step length %.9g without line search, the fraction to the boundary gives %.9g", as, smin));
    if(cfg.enable_line_search)
    {
      // L1 merit function of the perturbed problem, and its derivative along the direction
      double cnst = 0, dobj = 0, dcon = 0, scale = 1e-3;
      bool sharp = true; // no constraint at its kink
      auto con = [&](const DV & c, const DV & jd, const DV & mag)
      {
        for(long q = 0; q < c.size(); q++)
        {
          cnst += std::fabs(c[q]);
          dcon += c[q] >= 0 ? jd[q] : -jd[q];
          if(std::fabs(c[q]) < 1e-7 && mag[q] > 1e-10) sharp = false;
        }
      };
      auto merit = [&](const std::vector<DV> & X, const std::vector<DV> & U, const std::vector<DV> & S, double sc)
      {
        double ob = mm->phi(a.t + T * dt, X[T].data()), cn1 = 0;
        cn1 += (Eigen::Map<const DV>(a.x0, N) - X[0]).cwiseAbs().sum();
        for(int i = 0; i < T; i++)
        {
          double t = a.t + i * dt;
          int mu = (int)U[i].size(), k = (int)S[i].size();
          DV f(N), gg(k);
          mm->f(t, X[i].data(), U[i].data(), mu, f.data());
          mm->g(t, X[i].data(), U[i].data(), mu, k, gg.data());
          ob += dt * mm->L(t, X[i].data(), U[i].data(), mu);
          for(int q = 0; q < k; q++) ob -= eps * std::log(S[i][q]);
          cn1 += (f - X[i + 1]).cwiseAbs().sum() + (gg + S[i]).cwiseAbs().sum();
        }
        return ob + sc * cn1;
      };
      {
        DV c0 = Eigen::Map<const DV>(a.x0, N) - x[0];
        con(c0, -dz.segment(cx(0), N), dz.segment(cx(0), N).cwiseAbs());
      }
      for(int i = 0; i < T; i++)
      {
        double t = a.t + i * dt;
        int mu = (int)u[i].size(), k = (int)s[i].size();
        DV f(N), gg(k), Lx(N), Lu(mu), dx = dz.segment(cx(i), N), du = dz.segment(cu[i], mu), ds = dz.segment(cs[i], k), dxn = dz.segment(cx(i + 1), N);
        DM A(N, N), B(N, mu), C(k, N), D(k, mu), Lxx(N, N), Luu(mu, mu), Lxu(N, mu);
        mm->f(t, x[i].data(), u[i].data(), mu, f.data());
        mm->g(t, x[i].data(), u[i].data(), mu, k, gg.data());
        mm->fd(t, x[i].data(), u[i].data(), mu, A.data(), B.data());
        mm->gd(t, x[i].data(), u[i].data(), mu, k, C.data(), D.data());
        mm->Ld(t, x[i].data(), u[i].data(), mu, Lx.data(), Lu.data(), Lxx.data(), Luu.data(), Lxu.data());
        dobj += dt * Lx.dot(dx) + dt * Lu.dot(du);
        for(int q = 0; q < k; q++) dobj -= eps * ds[q] / s[i][q];
        DV bu = DV::Zero(N), cd = DV::Zero(k);
        if(mu) bu = B * du;
        if(mu && k) cd = D * du;
        con(f - x[i + 1], A * dx + bu - dxn, (A * dx).cwiseAbs() + bu.cwiseAbs() + dxn.cwiseAbs());
        con(gg + s[i], C * dx + cd + ds, (C * dx).cwiseAbs() + cd.cwiseAbs() + ds.cwiseAbs());
      }
      dobj += px.dot(dz.segment(cx(T), N));
      if(!sharp || cnst < 1e-6) return;
      if(cfg.merit_const_scale_from_lagrange_multipliers)
      {
        for(auto & e : l) scale = std::max(scale, e.cwiseAbs().maxCoeff());
        for(auto & e : n)
          if(e.size()) scale = std::max(scale, e.cwiseAbs().maxCoeff());
      }
      else
        scale = std::max(scale, dobj / (0.5 * cnst));
      double D = dobj + scale * dcon, m0 = merit(x, u, s, scale), m1 = merit(x1, u1, s1, scale);
      auto step = [&](double al)
      {
        std::vector<DV> X = x, U = u, S = s;
        for(int i = 0; i <= T; i++)
        {
          X[i] += al * dz.segment(cx(i), N);
          if(i == T) break;
          U[i] += al * dz.segment(cu[i], u[i].size());
          S[i] += al * dz.segment(cs[i], s[i].size());
        }
        return merit(X, U, S, scale);
      };
      double band = 1e-6 * (std::fabs(m0) + scale * cnst) + 1e-3 * as * (std::fabs(D) + std::fabs(dobj) + scale * std::fabs(dcon)) * 1e-2 + 10 * noise * (1 + scale);
      if(!std::isfinite(m0) || !std::isfinite(D) || !std::isfinite(band)) return;
      if(as < 1e-8)
      {
        // the line search gave up: none of the longer steps may have been good
        if(smax - smin > 1e-3 * smax) return;
        for(double al = smax; al > 1e-7; al /= 2)
        {
          double m2 = step(al), b2 = 1e-6 * (std::fabs(m0) + scale * cnst) + 1e-4 * al * (std::fabs(D) + std::fabs(dobj) + scale * std::fabs(dcon)) + 10 * noise * (1 + scale);
          if(std::isfinite(m2) && m2 < m0 + 1e-3 * al * D - b2)
            return report("C28", "fmpc-merit", fmt("FMPC line search gives up (step length %.9g) though %.9g gives merit %.9g from %.9g, derivative %.9g", as, al, m2, m0, D));
        }
        probe(PR_LS_GAVE_UP);
        return;
      }
      if(!(m1 < m0 + 1e-3 * as * D + band))
        return report("C28", "fmpc-merit", fmt("FMPC line search accepts step length %.9g: merit %.9g after %.9g, derivative %.9g", as, m1, m0, D));
      if(as < smin * (1 - 1e-2) - es)
      {
        double back = std::log2(smax / as);
        if(smax - smin < 1e-3 * smax && std::fabs(back - std::round(back)) > 0.05)
          return report("C28", "fmpc-length", fmt("FMPC line search takes step length %.9g from %.9g, not a repeated halving", as, smax));
        double m2 = step(2 * as);
        if(std::isfinite(m2) && m2 < m0 + 2e-3 * as * D - band)
          return report("C28", "fmpc-merit", fmt("FMPC line search goes down to step length %.9g though twice as much already gives merit %.9g from %.9g, derivative %.9g", as, m2, m0, D));
        probe(PR_LINE_SEARCH);
      }
    }
    (void)op;
  }
  bool canDump() const override { return true; }
  void dump(const std::string & p) const override { sol->dumpTraceDataList(p); }
  std::vector<std::string> dumpHeader() const override
  {
    return {"iter", "kkt_error", "duration_coeff", "duration_backward", "duration_forward", "duration_update"};
  }
  std::vector<std::vector<double>> dumpRows() const override
  {
    std::vector<std::vector<double>> rows;
    for(auto & t : sol->traceDataList())
      rows.push_back({(double)t.iter, t.kkt_error, t.duration_coeff, t.duration_backward, t.duration_forward, t.duration_update});
    return rows;
  }
};
} // namespace sim
