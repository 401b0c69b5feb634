// Seeded generation of plans: one (property, seed) pair is one plan.
#include "obj.h"
#include "refs.h"
#include "worlds.h"

namespace sim
{
namespace
{
using D = std::vector<double>;
const int DDPK[] = {CB_F, CB_L, CB_PHI, CB_FD, CB_LD, CB_PHID, CB_LIM};
const int FMK[] = {CB_F, CB_G, CB_FD, CB_LD, CB_PHID, CB_GD, CB_L, CB_PHI};
const int CGK[] = {CB_F, CB_COSTATE, CB_DPHIDX, CB_DHDU};

struct G
{
  Rng r;
  bool th;
  explicit G(uint64_t s, bool t) : r(s), th(t) {}
  bool ch(double p) { return r.chance(p); }
  double pk(const D & v) { return r.pick(v); }
  long logU(double hi) { return (long)std::floor(std::exp(r.uni(0, std::log(hi)))); }
  int type(const std::vector<int> & want)
  {
    std::vector<int> v;
    for(int t : want)
      if(haveType(t)) v.push_back(t);
    if(v.empty()) die("no such object type linked");
    return r.pick(v);
  }
  // ------------------------------------------------------------ objects
  static bool isDdp(int t) { return t < 4; }
  static bool isFm(int t) { return t >= 4 && t < 8; }
  static bool isCg(int t) { return t == 8; }
  KV obj(int t)
  {
    KV o;
    o.set("type", t);
    o.set("mseed", (double)r.range(1, 1000000));
    if(t < 8)
    {
      o.set("flavour", pk({0, 0, 1, 1, 2, 3}));
      if(ch(0.3)) o.set("refamp", 0);
      if(ch(0.2)) o.set("tv", 0);
      if(((t == 2 || t == 3) && ch(0.03)) || (t == 6 && ch(0.04))) o.set("zerodim", 1);
    }
    else if(t == 8)
    {
      o.set("n", (double)r.range(1, 4));
      o.set("m", (double)r.range(1, 3));
      o.set("flavour", (double)r.range(0, 2));
      if(ch(0.5)) o.set("tv", 0.4);
      o.set("ode", (double)r.range(0, 1));
      o.set("simode", (double)r.range(-1, 1));
    }
    else if(t == 10)
      o.set("n", (double)(ch(0.03) ? r.range(8, 15) : r.range(1, 6)));
    return o;
  }
  // ------------------------------------------------------------ faults
  void fault(Op & op, int j, int kind, int action, double maxn)
  {
    std::string p = "f" + std::to_string(j);
    op.set(p + "k", kind);
    op.set(p + "n", (double)logU(maxn));
    op.set(p + "a", action);
    op.set(p + "e", (double)r.range(0, 15));
    if(action != ACT_THROW && ch(0.35)) op.set(p + "p", 1);
  }
  int kindFor(int t, bool dims)
  {
    if(isDdp(t)) return dims && t >= 2 && ch(0.1) ? CB_DIM : DDPK[r.range(0, 6)];
    if(isFm(t)) return dims && t >= 6 && ch(0.12) ? (t == 6 && ch(0.5) ? CB_KDIM : CB_DIM) : FMK[ch(0.85) ? r.range(0, 5) : r.range(6, 7)];
    if(isCg(t)) return CGK[r.range(0, 3)];
    return CB_AMUL;
  }
  int nonfin() { return (int)pk({ACT_NAN, ACT_NAN, ACT_PINF, ACT_NINF, ACT_HUGE}); }
  double maxN(int t, const Op & op)
  {
    if(t < 8) return 20 + 12.0 * op.get("N", 5) * std::max(1.0, op.get("maxit", 5)) / 4;
    if(t == 8) return 50 + 40.0 * op.get("K", 5);
    return 12;
  }
  void throwFault(Op & op, int t) { fault(op, 0, kindFor(t, true), ACT_THROW, maxN(t, op)); }
  void nonfinFaults(Op & op, int t)
  {
    int n = (int)r.range(1, 2);
    if(t == 9 || t == 10)
    {
      op.set("nf", (double)r.range(1, 6));
      return;
    }
    for(int j = 0; j < n; j++) fault(op, j, kindFor(t, false), nonfin(), maxN(t, op));
  }
  void alloc(Op & op, int t)
  {
    op.set("alloc", (double)logU(t < 8 ? 1500 : t == 8 ? 3000 : 60));
    if(ch(0.2)) op.set("alen", (double)r.range(2, 1000));
  }
  // ------------------------------------------------------------ operations
  Op ddp(int t)
  {
    Op o;
    o.name = "solve";
    o.set("seed", r.seed32());
    o.set("N", ch(0.04) ? (ch(0.15) ? (th && ch(0.3) ? 150 : 70) : 20) : r.range(1, 12));
    o.set("ti", ch(0.3) ? 0 : ch(0.02) ? r.range(20000, 80000) : r.range(-5, 60));
    if(t < 2 && ch(0.2)) o.set("tf", 0.25);
    o.set("maxit", pk({1, 2, 3, 5, 10, 20, 50}));
    o.set("reg", r.range(1, 2));
    o.set("lam", pk({1e-6, 1e-6, 1e-4, 1e-2, 1}));
    if(ch(0.3)) o.set("lmax", pk({1e2, 1e3, 1e1}));
    o.set("kthre", pk({1e-4, 1e-2, 1e-6}));
    o.set("cthre", pk({1e-7, 1e-3, 0}));
    if(ch(0.3)) o.set("lthre", pk({1e-3, 1e-7, 1}));
    if(ch(0.3)) o.set("crat", pk({0.1, 0.5, 0.9}));
    if(ch(0.2)) o.set("lfac", pk({1.2, 2, 10}));
    if(ch(0.2)) o.set("nalpha", (double)r.range(1, 6));
    if(ch(0.05)) o.set("second", 1);
    o.set("src", pk({0, 0, 1, 2}));
    if(o.geti("src") && ch(0.7)) o.set("xsrc", 1);
    o.set("xs", pk({0.3, 1.5, 4}));
    o.set("us", pk({0, 0.2, 1, 4}));
    o.set("con", ch(0.4));
    if(o.geti("con") && ch(0.5)) o.set("ufeas", 1);
    if(ch(0.2)) o.set("lims", pk({0.3, 0.7, 2}));
    if(ch(0.15)) o.set("limk", (double)r.range(1, 3));
    if(ch(0.1)) o.set("dlam", pk({0.5, 2, 1.6}));
    if(ch(0.1)) o.set("lmin", pk({1e-8, 1e-4}));
    return o;
  }
  Op fmpc(int)
  {
    Op o;
    o.name = "solve";
    o.set("seed", r.seed32());
    o.set("N", ch(0.04) ? (ch(0.15) ? (th && ch(0.3) ? 120 : 60) : 20) : r.range(1, 10));
    o.set("ti", ch(0.3) ? 0 : ch(0.02) ? r.range(20000, 80000) : r.range(-5, 60));
    o.set("maxit", pk({1, 2, 3, 5, 10, 10, 20, 30}));
    o.set("kthre", pk({1e-4, 1e-4, 1e-2, 1e-6, 1}));
    o.set("xs", pk({0.2, 1, 3}));
    o.set("us", pk({0, 0.5, 2}));
    o.set("ws", pk({0, 0.5, 2}));
    o.set("ls0", pk({0, 0.5, 2}));
    o.set("src", pk({0, 0, 1, 2}));
    if(o.geti("src") && ch(0.7)) o.set("xsrc", 1);
    if(ch(0.15)) o.set("zs", (double)r.range(1, 3));
    if(ch(0.15))
    {
      o.set("slo", 1e-8);
      o.set("shi", 1e-3);
    }
    o.set("nan", ch(0.9));
    o.set("init", ch(0.4));
    o.set("upd", ch(0.85));
    o.set("brk", ch(0.25));
    o.set("ls", ch(0.35));
    if(o.geti("ls")) o.set("mls", ch(0.4));
    return o;
  }
  Op cg(bool run)
  {
    Op o;
    o.name = run ? "run" : "steps";
    o.set("seed", r.seed32());
    o.set("dt", pk({0.01, 0.005, 0.02}));
    o.set("K", (double)(ch(0.1) ? r.range(10, 40) : r.range(1, 10)));
    o.set("Ts", pk({0.3, 1, 1}));
    o.set("Nh", (double)r.range(1, 8));
    o.set("ratio", pk({0.5, 0.1, 2}));
    o.set("zeta", pk({50, 50, 10, 100}));
    o.set("kmax", (double)r.range(1, 6));
    o.set("fdd", pk({0.002, 0.0005}));
    if(ch(0.2))
    {
      // the parameters the solver ships with
      o.set("dt", 0.001);
      o.set("Nh", 25);
      o.set("zeta", 1000);
      o.set("kmax", 5);
      o.set("fdd", 0.002);
      o.set("ratio", 0.5);
      o.set("Ts", 1);
    }
    else if(ch(0.15))
      o.set("dt", pk({0.001, 0.002, 0.05}));
    if(run && ch(0.1)) o.set("dt", 0.0078125), o.set("frac", 0); // the last time is exactly the end of the run
    else if(run && ch(0.3)) o.set("frac", pk({0.1, 0.9}));
    if(run) o.set("dump", (double)r.range(1, 4));
    if(!run && ch(0.6)) o.set("dist", pk({0.05, 0.3}));
    return o;
  }
  Op bq(const KV &)
  {
    Op o;
    o.name = "solve";
    o.set("seed", r.seed32());
    o.set("hk", pk({0, 0, 0, 1, 2}));
    o.set("gs", pk({0.3, 1, 3}));
    o.set("guess", ch(0.5));
    if(ch(0.2)) o.set("maxit", (double)r.range(1, 5));
    if(ch(0.2)) o.set("gthre", pk({1e-4, 1e-2, 1e-10}));
    if(ch(0.2)) o.set("rthre", pk({0, 1e-12, 1e-3}));
    if(ch(0.2)) o.set("sfac", pk({0.3, 0.9}));
    if(ch(0.2)) o.set("arm", pk({0.01, 0.4}));
    if(ch(0.1)) o.set("minstep", 1e-12);
    return o;
  }
  Op gm()
  {
    Op o;
    o.name = "solve";
    o.set("seed", r.seed32());
    o.set("n", (double)(ch(0.02) ? r.range(20, 40) : r.range(1, 12)));
    o.set("hk", ch(0.3));
    o.set("guess", ch(0.5));
    o.set("tri", ch(0.6));
    o.set("reo", ch(0.6));
    o.set("kmax", pk({100, 100, 1, 2, 3, 5, 8}));
    if(ch(0.3)) o.set("ak", pk({1, 2, 3, 4}));
    if(ch(0.2)) o.set("bs", pk({1e-8, 1e-4, 1e4, 1e8, 0}));
    if(ch(0.05)) o.set("guess", 2);
    if(ch(0.03)) o.set("kmax", 0);
    o.set("eps", pk({1e-10, 1e-10, 1e-4, 1e-1, 1e-15, 0}));
    o.set("dense", ch(0.2));
    return o;
  }
  Op opFor(const KV & ob, bool cgrun = false)
  {
    int t = (int)ob.geti("type");
    if(isDdp(t)) return ddp(t);
    if(isFm(t)) return fmpc(t);
    if(isCg(t)) return cg(cgrun);
    if(t == 11) return gm();
    return bq(ob);
  }
  void malform(Op & o, int t) { o.set("mal", (double)r.range(1, isDdp(t) ? 6 : 12)); }
  Op dump()
  {
    Op o;
    o.name = "dump";
    o.set("old", ch(0.8));
    o.set("oldlen", pk({0, 10, 5000}));
    if(ch(0.85))
    {
      o.set("io", (double)r.range(1, 6));
      int m = (int)o.geti("io");
      o.set("ion", m == 1 ? 1 : m == 2 ? (double)logU(6000) : m == 3 ? (double)r.range(1, 2) : r.range(1, 40));
      o.set("ios", r.seed32());
    }
    return o;
  }
  // ------------------------------------------------------------ worlds
  Plan histOf(const std::vector<int> & types, int nobj, int nops)
  {
    Plan p;
    p.world = "hist";
    for(int i = 0; i < nobj; i++) p.objs.push_back(obj(type(types)));
    for(int i = 0; i < nops; i++)
    {
      int ob = (int)r.range(0, nobj - 1);
      Op o = opFor(p.objs[ob], ch(0.4));
      o.obj = ob;
      p.ops.push_back(o);
    }
    if(ch(0.5))
    {
      p.set("fill", pk({0, 1, 2, 3, 5}));
      p.set("fillseed", r.seed32());
    }
    if(ch(0.3)) p.set("clk", (double)r.range(0, CLK_N - 1));
    p.set("clkseed", r.seed32());
    return p;
  }
  int typeOf(const Plan & p, const Op & o) { return (int)p.objs[o.obj].geti("type"); }
  // histories in which a reused object is compared with a new one
  Plan reuse(const std::vector<int> & types)
  {
    Plan p = histOf(types, 1, (int)(ch(0.02) ? r.range(8, 16) : r.range(2, th ? 10 : 6)));
    for(size_t i = 0; i < p.ops.size(); i++)
    {
      Op & o = p.ops[i];
      int t = typeOf(p, o);
      double q = r.uni();
      bool last = i + 1 == p.ops.size();
      if(last && ch(0.7)) continue; // a plain operation at the end
      if(q < 0.25)
      {
        if(t < 9 || t == 11) throwFault(o, t);
      }
      else if(q < 0.40)
        nonfinFaults(o, t);
      else if(q < 0.48 && t < 8)
        malform(o, t);
      else if(q < 0.60 && !(o.name == "run"))
        alloc(o, t);
    }
    // the result of the previous solve given back by reference
    for(size_t i = 1; i < p.ops.size(); i++)
      if(typeOf(p, p.ops[i]) < 8 && ch(0.12))
      {
        Op & o = p.ops[i];
        o.set("alias", 1);
        o.set("src", 2);
        o.set("xsrc", ch(0.8));
        o.kv.erase("ufeas");
        o.kv.erase("zs");
        if(ch(0.9)) o.set("N", p.ops[i - 1].get("N"));
        if(typeOf(p, o) == 2 || typeOf(p, o) == 3 || typeOf(p, o) == 6 || typeOf(p, o) == 7) o.set("ti", p.ops[i - 1].get("ti"));
      }
    // the same state and plan again, at another time or with other settings
    for(size_t i = 1; i < p.ops.size(); i++)
      if(typeOf(p, p.ops[i]) < 8 && !p.ops[i].geti("alias") && ch(0.1))
      {
        Op & o = p.ops[i];
        o.set("src", 2);
        o.set("xsrc", 2);
        o.kv.erase("ufeas");
        o.kv.erase("zs");
        o.set("N", p.ops[i - 1].get("N"));
        if(ch(0.5)) p.objs[o.obj].set("tv", 0);
      }
    // the same settings again, so that stale contents have the right size
    for(size_t i = 1; i < p.ops.size(); i++)
      if(ch(0.3))
      {
        Op & a = p.ops[i - 1];
        Op b = p.ops[i];
        b.name = a.name;
        for(auto & e : a.kv)
          if(e.first[0] != 'f' && e.first != "mal" && e.first != "alloc" && e.first != "alen" && e.first != "seed" && e.first != "nf") b.kv[e.first] = e.second;
        if(b.name == "run") b.kv.erase("alloc");
        p.ops[i] = b;
      }
    return p;
  }
};
} // namespace

Plan genPlan(const std::string & prop, uint64_t seed, bool th)
{
  uint64_t h = mix(hashStr(prop), seed);
  G g(h, th);
  Rng & r = g.r;
  static const std::vector<int> DDP{0, 1, 2, 3}, FM{4, 5, 6, 7}, MPC{0, 1, 2, 3, 4, 5, 6, 7}, ALL{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, CG{8}, LIN{9, 10, 11};
  auto mixed = [&]() -> std::vector<int>
  {
    double q = r.uni();
    if(q < 0.38) return DDP;
    if(q < 0.74) return FM;
    if(q < 0.88) return CG;
    return LIN;
  };
  Plan p;
  if(prop == "C01") return g.reuse(DDP);
  if(prop == "C02") return g.reuse(FM);
  if(prop == "C03") return g.reuse(CG);
  if(prop == "C04") return g.reuse(LIN);
  if(prop == "C27" || prop == "C28")
  {
    p = g.histOf(r.chance(0.5) ? DDP : FM, 1, (int)r.range(1, 3));
    p.world = "trace";
    bool dom = g.ch(prop == "C28" ? 0.2 : 0.1); // a cost that is only defined in a box
    if(dom) p.objs[0].set("dom", (g.ch(0.7) ? 1 : -1) * r.uni(0.5, 2.5));
    for(auto & o : p.ops)
    {
      int t = g.typeOf(p, o);
      if(dom && t >= 4) o.set("ls", 1);
      o.set("cut", r.uni());
      if(prop == "C28")
      {
        if(o.geti("maxit") == 1 && g.ch(0.5)) o.set("maxit", 4);
        o.kv.erase("second");
      }
      if(g.ch(prop == "C28" ? 0.03 : 0.25)) g.nonfinFaults(o, t);
    }
    return p;
  }
  if(prop == "C23") return g.reuse({9, 10});
  if(prop == "C24") return g.reuse({11});
  if(prop == "C05" || prop == "C06")
  {
    p = g.histOf(mixed(), 1, (int)r.range(1, 4));
    p.kv.clear();
    p.world = "env";
    p.set("mode", prop == "C05" ? 5 : 6);
    p.set("clkseed", r.seed32());
    p.set("fillseed", r.seed32());
    for(auto & o : p.ops)
    {
      int t = g.typeOf(p, o);
      double q = r.uni();
      if(q < 0.1 && (t < 9 || t == 11)) g.throwFault(o, t);
      else if(q < 0.3) g.nonfinFaults(o, t);
      else if(q < 0.36 && t < 8) g.malform(o, t);
      if(t < 8 && r.chance(0.03)) o.set("maxit", 0);
    }
    if(prop == "C05")
    {
      if(g.ch(0.75)) p.set("clk", (double)r.range(1, CLK_N - 1));
      if(g.ch(0.6) || !p.has("clk")) p.set("print", (double)r.range(1, 4));
      if(g.ch(0.4)) p.set("outfail", 1);
    }
    else
    {
      p.set("fill", g.pk({1, 2, 3, 5}));
      if(g.ch(0.6)) p.set("stack", (double)r.range(1, 3));
    }
    return p;
  }
  if(prop == "C07")
  {
    bool nested = g.ch(0.3);
    p.world = nested ? "nested" : "threads";
    int n = nested ? 2 : (int)r.range(2, 3);
    bool share = !nested && g.ch(0.5);
    for(int i = 0; i < n; i++)
    {
      if(i && share)
        p.objs.push_back(p.objs[0]);
      else if(i && g.ch(0.5)) // the same kind, hence the same code
      {
        KV o = g.obj((int)p.objs[0].geti("type"));
        p.objs.push_back(o);
      }
      else
        p.objs.push_back(g.obj(g.type(mixed())));
      if(share && p.objs[i].geti("type") == 8) p.objs[i].set("shareprob", 1);
    }
    if(share) p.set("share", 1);
    for(int i = 0; i < n; i++)
    {
      int k = (int)r.range(1, 2);
      for(int j = 0; j < k; j++)
      {
        Op o = g.opFor(p.objs[i], false);
        o.obj = i;
        int t = g.typeOf(p, o);
        if(o.has("maxit") && t < 8) o.set("maxit", std::min(o.get("maxit"), 10.0));
        if(t == 8) o.set("K", std::min(o.get("K"), 4.0));
        double q = r.uni();
        if(q < 0.1 && (t < 9 || t == 11)) g.throwFault(o, t);
        else if(q < 0.2) g.nonfinFaults(o, t);
        else if(q < 0.25 && t < 8) g.malform(o, t);
        if(nested && i == 0) o.set("nest", (double)g.logU(60));
        if(!nested && t < 8 && g.ch(0.2)) o.set("dump", 1);
        p.ops.push_back(o);
      }
    }
    p.set("sseed", r.seed32());
    p.set("mean", g.pk({3, 10, 40, 200, 1000}));
    return p;
  }
  if(prop == "C08")
  {
    p = g.histOf(mixed(), (int)r.range(1, 2), (int)r.range(1, 4));
    p.set("cmp", 0);
    p.set("leak", 1);
    for(auto & o : p.ops)
    {
      int t = g.typeOf(p, o);
      double q = r.uni();
      if(q < 0.45 && (t < 9 || t == 11)) g.throwFault(o, t);
      else if(q < 0.85 && o.name != "run") g.alloc(o, t);
      else if(q < 0.92 && t < 8) g.malform(o, t);
    }
    return p;
  }
  if(prop == "C09")
  {
    p = g.histOf(g.ch(0.45) ? DDP : FM, 1, (int)r.range(1, 4));
    p.set("cmp", 0);
    for(auto & o : p.ops)
      if(g.ch(0.6)) g.malform(o, g.typeOf(p, o));
    return p;
  }
  if(prop == "C10" || prop == "C11" || prop == "C12" || prop == "C13" || prop == "C14")
  {
    p = g.histOf(prop >= "C13" ? FM : DDP, 1, (int)r.range(1, 4));
    p.set("cmp", 0);
    for(auto & o : p.ops)
    {
      int t = g.typeOf(p, o);
      double q = r.uni();
      if(q < (prop == "C11" ? 0.1 : prop == "C14" ? 0.5 : 0.35)) g.nonfinFaults(o, t);
      else if(q < (prop == "C11" ? 0.2 : 0.55)) g.throwFault(o, t);
      else if(q < 0.6) g.alloc(o, t);
      else if(q < 0.63) g.malform(o, t);
      if(prop == "C11")
      {
        o.set("con", 1);
        if(g.ch(0.7)) o.set("ufeas", 1);
      }
      if(prop == "C12") o.kv.erase("second");
      if(prop == "C14") o.set("nan", 1);
    }
    return p;
  }
  if(prop == "C15" || prop == "C16")
  {
    p = g.histOf(prop == "C15" ? mixed() : g.ch(0.4) ? DDP : g.ch(0.7) ? FM : CG, 1, (int)r.range(1, 4));
    p.set("cmp", 0);
    for(auto & o : p.ops)
    {
      int t = g.typeOf(p, o);
      double q = r.uni();
      if(q < (prop == "C15" ? 0.75 : 0.25)) g.nonfinFaults(o, t);
      else if(q < (prop == "C15" ? 0.8 : 0.4))
      {
        if(t < 9 || t == 11) g.throwFault(o, t);
      }
      if(prop == "C16" && t < 8 && g.ch(0.15)) o.set("second", 1);
    }
    return p;
  }
  if(prop == "C17")
  {
    p.world = "loop";
    KV o;
    Op op;
    op.name = "loop";
    op.set("seed", r.seed32());
    std::vector<int> avail;
    for(int t : {0, 1, 4, 5, 8, 8})
      if(haveType(t)) avail.push_back(t);
    int t = r.pick(avail);
    o.set("type", t);
    if(t < 8)
    {
      int N = (int)r.range(8, 12);
      bool fm = t >= 4, con = !fm && g.ch(0.35);
      bool unstable = !con && !fm && g.ch(0.6);
      o.set("refamp", 0);
      o.set("tv", 0);
      if(fm) o.set("gx", 0);
      // Only plants for which the exact receding-horizon law contracts (and, with bounded inputs, that are stable).
      double rho = 1;
      for(int q = 0; q < 1000; q++)
      {
        if(q == 300) unstable = false;
        o.set("flavour", unstable ? 5 : 4);
        o.set("mseed", (double)r.range(1, 1000000));
        MathModel mm;
        mm.init((uint64_t)o.get("mseed"), t == 0 || t == 4 ? 2 : 3, t == 0 || t == 4 ? 1 : 2, fm ? (t == 4 ? 3 : 4) : 0, (int)o.geti("flavour"), 0);
        mm.ref_amp = 0;
        mm.tv = 0;
        rho = lqRadius(mm, N, fm ? mm.dt : 1, false);
        if(rho <= 0.95 && (unstable || lqRadius(mm, N, 1, true) <= 0.99)) break;
      }
      op.set("rho", rho);
      op.set("N", N);
      op.set("con", con);
      op.set("maxit", fm ? 30 : 10);
      op.set("lam", 1e-6);
      if(fm) op.set("kthre", 1e-4);
      op.set("damp", fm ? 0.1 : 0.4);
    }
    else
    {
      o = g.obj(8);
      o.set("tv", 0);
      for(int q = 0; q < 1000; q++)
      {
        o.set("flavour", (double)r.range(0, 1));
        o.set("mseed", (double)r.range(1, 1000000));
        ContModel cm;
        cm.init((uint64_t)o.get("mseed"), (int)o.geti("n"), (int)o.geti("m"), (int)o.geti("flavour"));
        if(cgRate(cm, 1) <= -0.8) break;
      }
      op.set("dt", 0.01);
      op.set("Ts", 1);
      op.set("Nh", (double)r.range(5, 10));
      op.set("ratio", 0.5);
      op.set("zeta", 50);
      op.set("kmax", 5);
      op.set("fdd", 0.002);
      op.set("quiet_steps", 600);
      op.set("damp", 0.1);
    }
    op.set("fault_steps", (double)r.range(10, 40));
    for(const char * k : {"loss", "delay", "dup", "dist", "stall", "crash", "abort"})
      if(g.ch(0.6)) op.set(k, g.pk({0.05, 0.15, 0.3}));
    p.objs.push_back(o);
    p.ops.push_back(op);
    return p;
  }
  if(prop == "C18")
  {
    p = g.histOf(MPC, 1, (int)r.range(1, 3));
    p.set("cmp", 0);
    Plan q = p;
    q.ops.clear();
    if(g.ch(0.05)) q.ops.push_back(g.dump());
    for(auto & o : p.ops)
    {
      int t = g.typeOf(p, o);
      double z = r.uni();
      if(z < 0.2) g.nonfinFaults(o, t);
      else if(z < 0.3) g.throwFault(o, t);
      else if(z < 0.35) g.malform(o, t);
      q.ops.push_back(o);
      Op d = g.dump();
      d.obj = o.obj;
      q.ops.push_back(d);
    }
    return q;
  }
  if(prop == "C19")
  {
    p.world = "cglogs";
    p.objs.push_back(g.obj(8));
    int n = (int)r.range(1, 3);
    for(int i = 0; i < n; i++)
    {
      Op o = g.cg(true);
      if(g.ch(0.8))
      {
        int m = (int)r.range(1, 6);
        o.set("io", m);
        o.set("ion", m == 1 ? (double)r.range(1, 4) : m == 2 ? (double)g.logU(4000) : m == 3 ? (double)r.range(1, 4) : r.range(1, 40));
        o.set("ios", r.seed32());
      }
      p.ops.push_back(o);
    }
    return p;
  }
  if(prop == "C20")
  {
    p = g.histOf(MPC, 1, (int)r.range(1, 4));
    p.set("cmp", 0);
    p.set("clk", g.ch(0.7) ? CLK_MODEL : CLK_TICK);
    for(auto & o : p.ops)
    {
      int t = g.typeOf(p, o);
      double z = r.uni();
      if(z < 0.15) g.nonfinFaults(o, t);
      else if(z < 0.3) g.throwFault(o, t);
      else if(z < 0.35) g.malform(o, t);
      else if(z < 0.4) g.alloc(o, t);
    }
    return p;
  }
  if(prop == "C21")
  {
    p.world = "cgref";
    p.objs.push_back(g.obj(8));
    Op o = g.cg(false);
    o.set("K", (double)r.range(3, th ? 60 : 25));
    if(g.ch(0.3)) o.set("t0", g.pk({0.5, 2, 10, 60}));
    o.set("dist", g.pk({0.05, 0.2}));
    o.set("pd", g.pk({0.1, 0.3, 0.7}));
    if(g.ch(0.3))
    {
      g.fault(o, 0, CGK[r.range(0, 3)], ACT_THROW, 60);
      o.set("fstep", (double)r.range(1, o.geti("K")));
    }
    else if(g.ch(0.2))
    {
      g.alloc(o, 8);
      o.set("alloc", (double)g.logU(200));
      o.set("astep", (double)r.range(1, o.geti("K")));
    }
    else if(g.ch(0.4))
    {
      // the error decays if the closed loop settles: choose such a plant
      KV & ob = p.objs[0];
      for(int q = 0; q < 300; q++)
      {
        ContModel cm;
        if(ob.geti("flavour") == 2) ob.set("flavour", 1);
        cm.init((uint64_t)ob.get("mseed"), (int)ob.geti("n"), (int)ob.geti("m"), (int)ob.geti("flavour"));
        if(cgRate(cm, o.get("Ts")) <= -0.5)
        {
          o.set("quiet", 150);
          o.set("t0", 0);
          break;
        }
        ob.set("mseed", (double)r.range(1, 1000000));
      }
    }
    p.ops.push_back(o);
    return p;
  }
  if(prop == "C22")
  {
    p.world = "convex";
    int t = g.type(MPC);
    KV ob = g.obj(t);
    ob.set("flavour", 0);
    ob.kv.erase("zerodim");
    if(t >= 4) ob.set("gx", 0);
    p.objs.push_back(ob);
    int n = (int)r.range(1, 4);
    for(int i = 0; i < n; i++)
    {
      Op o = g.opFor(ob);
      double z = r.uni();
      if(z < 0.3) g.nonfinFaults(o, t);
      else if(z < 0.6) g.throwFault(o, t);
      else if(z < 0.7) g.malform(o, t);
      else if(z < 0.85) g.alloc(o, t);
      p.ops.push_back(o);
    }
    Op f;
    f.name = "final";
    f.set("seed", r.seed32());
    f.set("N", (double)r.range(1, 10));
    f.set("ti", (double)r.range(-5, 60));
    f.set("solves", 8);
    f.set("src", g.pk({0, 2}));
    f.set("xs", t < 4 ? 1.5 : 0.5);
    if(t < 4)
    {
      f.set("con", g.ch(0.5));
      f.set("maxit", 50);
      f.set("lam", 1e-6);
      f.set("kthre", 1e-4);
      f.set("reg", (double)r.range(1, 2));
      f.set("us", 0.3);
    }
    else
    {
      f.set("maxit", 30);
      f.set("kthre", 1e-4);
      f.set("ls", g.ch(0.3));
      f.set("us", 0.3);
      f.set("ws", 0.3);
      f.set("ls0", 0.3);
    }
    p.ops.push_back(f);
    return p;
  }
  die("unknown property");
}
} // namespace sim
