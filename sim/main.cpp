// Driver: seeded search, replay, minimisation. One forked process per simulated run.
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "obj.h"
#include "worlds.h"

using namespace sim;

namespace
{
template<class T> T * shared(size_t n = 1)
{
  void * p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if(p == MAP_FAILED) _exit(2);
  return (T *)p;
}
struct Viol
{
  std::string prop, tag, msg;
};
struct Result
{
  std::vector<Viol> v;
  uint64_t hash = 0;
  bool crashed = false, harness = false;
  std::string reason;
};
std::string crashTag(const Shared & s) { return std::string("crash-") + s.kind; }

// Runs one plan (given as text or generated from prop and seed) in a child process; sh is the shared result area
Result runOne(const Plan * plan, const std::string & prop, uint64_t seed, bool th)
{
  memset((void *)sh, 0, sizeof(Shared));
  sh->loghash = 1469598103934665603ull;
  Result res;
  pid_t pid = fork();
  if(pid < 0)
  {
    res.harness = true;
    res.reason = "fork failed";
    return res;
  }
  if(pid == 0)
  {
    struct rlimit rl = {30, 40};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    installCrashHandlers();
    installStdout();
    if(!debug_trace) fclose(stderr);
    try
    {
      Plan p = plan ? *plan : genPlan(prop, seed, th);
      runPlan(p);
    }
    catch(const std::exception & e)
    {
      die((std::string("harness exception ") + e.what()).c_str());
    }
    catch(...)
    {
      die("harness exception");
    }
    sh->done = 1;
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  for(int i = 0; i < sh->nviol; i++) res.v.push_back({sh->viol[i].prop, sh->viol[i].tag, sh->viol[i].msg});
  res.hash = sh->loghash;
  if(!sh->done)
  {
    res.crashed = true;
    res.reason = sh->crashed ? sh->crash_reason : WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exited unexpectedly";
    if(res.reason.find("harness") != std::string::npos || res.reason.find("unknown") != std::string::npos || res.reason.find("no such object") != std::string::npos)
    {
      res.harness = true;
      return res;
    }
    Plan p = plan ? *plan : genPlan(prop, seed, th);
    auto cp = crashProps(*sh, p);
    if(!prop.empty() && res.reason.find("inconsistent callback") == std::string::npos) cp.push_back(prop);
    std::set<std::string> seen;
    for(auto & c : cp)
      if(seen.insert(c).second)
        res.v.push_back({c, crashTag(*sh), "operation " + std::to_string(sh->op_index) + " (" + sh->kind + "): " + res.reason});
  }
  return res;
}
std::string esc(const std::string & s)
{
  std::string o;
  for(unsigned char c : s)
  {
    if(c == '"' || c == '\\')
      o += '\\', o += (char)c;
    else if(c == '\n')
      o += "\\n";
    else if(c < 32)
      o += ' ';
    else
      o += (char)c;
  }
  return o;
}
uint64_t seedOf(uint64_t base, long i) { return mix(base * 0x9E3779B97F4A7C15ull + 77, (uint64_t)i) >> 12; }

struct WorkerStats
{
  long runs, distinct_dummy, crashes, harness, mismatch, checked;
  uint64_t nontrivial, ops, steps, solves, callbacks, switches, faults[FS_N], probes[PR_N], faulted_runs;
  double simtime;
  long done;
};

bool hasViol(const Result & r, const std::string & prop, const std::string & tag)
{
  for(auto & v : r.v)
    if(v.prop == prop && (tag.empty() || v.tag == tag)) return true;
  return false;
}

// ------------------------------------------------------------------ minimisation
Plan minimise(Plan best, const std::string & prop, const std::string & tag, long maxTrials, long & trials)
{
  trials = 0;
  auto bad = [&](const Plan & p)
  {
    if(trials >= maxTrials) return false;
    trials++;
    Result r = runOne(&p, prop, 0, false);
    return !r.harness && hasViol(r, prop, tag);
  };
  bool progress = true;
  while(progress && trials < maxTrials)
  {
    progress = false;
    // drop operations
    for(size_t i = best.ops.size(); i-- > 0 && best.ops.size() > 1;)
    {
      Plan c = best;
      c.ops.erase(c.ops.begin() + (long)i);
      if(bad(c)) best = c, progress = true;
    }
    // drop objects nobody uses
    for(size_t o = best.objs.size(); o-- > 1;)
    {
      if(best.world == "nested") break;
      bool used = false;
      for(auto & op : best.ops) used = used || op.obj == (int)o;
      if(used) continue;
      Plan c = best;
      c.objs.erase(c.objs.begin() + (long)o);
      for(auto & op : c.ops)
        if(op.obj > (int)o) op.obj--;
      if(bad(c)) best = c, progress = true;
    }
    // drop fault groups and other keys
    auto each = [&](auto get)
    {
      std::vector<std::string> keys;
      for(auto & e : get(best).kv) keys.push_back(e.first);
      for(auto & k : keys)
      {
        if(!get(best).has(k)) continue;
        Plan c = best;
        KV & kv = get(c);
        if(k[0] == 'f' && k.size() == 3 && isdigit(k[1]))
        {
          if(k[2] != 'a') continue;
          for(const char * s : {"k", "n", "a", "p", "e"}) kv.kv.erase(k.substr(0, 2) + s);
        }
        else if(k == "type" || k == "mode" || k == "nest")
          continue;
        else
          kv.kv.erase(k);
        if(bad(c)) best = c, progress = true;
      }
      // shrink numbers
      for(auto & e : std::map<std::string, double>(get(best).kv))
      {
        const std::string & k = e.first;
        bool fn = k[0] == 'f' && k.size() == 3 && isdigit(k[1]) && (k[2] == 'n' || k[2] == 'e');
        if(!(fn || k == "N" || k == "K" || k == "maxit" || k == "alloc" || k == "ion" || k == "fault_steps" || k == "maxsw")) continue;
        for(int step = 0; step < 6; step++)
        {
          double cur = get(best).get(k);
          double nv = step % 2 == 0 ? std::floor(cur / 2) : cur - 1;
          if(nv < 1 || nv == cur) continue;
          Plan c = best;
          get(c).set(k, nv);
          if(bad(c)) best = c, progress = true;
        }
      }
    };
    each([](Plan & p) -> KV & { return p; });
    for(size_t i = 0; i < best.objs.size(); i++) each([i](Plan & p) -> KV & { return p.objs[i]; });
    for(size_t i = 0; i < best.ops.size(); i++) each([i](Plan & p) -> KV & { return p.ops[i]; });
    if(best.world == "threads" && best.ops.size())
    {
      // fewer context switches
      for(long m : {0L, 1L, 2L, 4L, 8L, 16L, 32L, 64L, 128L, 256L, 1024L})
      {
        if(best.has("maxsw") && best.geti("maxsw") <= m) break;
        Plan c = best;
        c.set("maxsw", (double)m);
        if(bad(c))
        {
          best = c;
          progress = true;
          break;
        }
      }
    }
  }
  return best;
}
double wall()
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}
} // namespace

int main(int argc, char ** argv)
{
  if(!getenv("SIM_NOASLR"))
  {
    setenv("SIM_NOASLR", "1", 1);
    if(personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> a;
  for(int i = 1; i < argc; i++)
  {
    std::string k = argv[i];
    if(k.compare(0, 2, "--") == 0)
    {
      std::string v = "1";
      if(i + 1 < argc && std::string(argv[i + 1]).compare(0, 2, "--") != 0) v = argv[++i];
      a[k.substr(2)] = v;
    }
  }
  sh = shared<Shared>();
  covmap = shared<uint8_t>(COVMAP);
  std::string prop = a["prop"];
  bool th = a["tier"] == "thorough";

  if(a.count("gen"))
  {
    std::cout << genPlan(prop, strtoull(a["gen"].c_str(), nullptr, 10), th).text();
    return 0;
  }
  if(a.count("replay"))
  {
    std::ifstream is(a["replay"]);
    std::stringstream ss;
    ss << is.rdbuf();
    Plan p = Plan::parse(ss.str());
    debug_trace = a.count("trace") != 0;
    Result r = runOne(&p, prop, 0, th);
    for(auto & v : r.v) printf("V %s %s %s\n", v.prop.c_str(), v.tag.c_str(), v.msg.c_str());
    if(r.crashed) printf("CRASH %s\n", r.reason.c_str());
    printf("HASH %016lx\n", (unsigned long)r.hash);
    return r.harness ? 2 : r.v.empty() ? 0 : 1;
  }
  if(a.count("minimise"))
  {
    std::ifstream is(a["minimise"]);
    std::stringstream ss;
    ss << is.rdbuf();
    Plan p = Plan::parse(ss.str());
    long trials = 0;
    Plan m = minimise(p, prop, a["tag"], a.count("trials") ? atol(a["trials"].c_str()) : 400, trials);
    std::cout << m.text();
    fprintf(stderr, "trials %ld\n", trials);
    return 0;
  }
  // ---------------------------------------------------------------- search
  uint64_t base = a.count("seed") ? strtoull(a["seed"].c_str(), nullptr, 10) : 1;
  long count = a.count("count") ? atol(a["count"].c_str()) : 100;
  int W = a.count("workers") ? atoi(a["workers"].c_str()) : 8;
  double tlimit = a.count("seconds") ? atof(a["seconds"].c_str()) : 1e9;
  long recheck = a.count("recheck") ? atol(a["recheck"].c_str()) : 50;
  bool keepgoing = a.count("keepgoing") != 0;
  std::string out = a["out"];
  double t0 = wall();
  auto * st = shared<WorkerStats>(W);
  auto * cov = shared<uint8_t>(COVMAP);
  std::vector<pid_t> pids;
  for(int w = 0; w < W; w++)
  {
    pid_t pid = fork();
    if(pid == 0)
    {
      sh = shared<Shared>();
      covmap = shared<uint8_t>(COVMAP);
      WorkerStats & s = st[w];
      FILE * hf = fopen((out + ".h" + std::to_string(w)).c_str(), "wb");
      FILE * vf = fopen((out + ".v" + std::to_string(w)).c_str(), "wb");
      std::set<std::string> seenOther;
      for(long i = w; i < count; i += W)
      {
        if(wall() - t0 > tlimit) break;
        uint64_t sd = seedOf(base, i);
        Result r = runOne(nullptr, prop, sd, th);
        Shared one = *sh;
        if(recheck && (i / W) % recheck == 0)
        {
          Result r2 = runOne(nullptr, prop, sd, th);
          s.checked++;
          if(r2.hash != r.hash || r2.v.size() != r.v.size())
          {
            s.mismatch++;
            fprintf(vf, "M\t%ld\t%lu\n", i, (unsigned long)sd);
          }
        }
        s.runs++;
        if(r.harness)
        {
          s.harness++;
          fprintf(vf, "E\t%ld\t%lu\t%s\n", i, (unsigned long)sd, r.reason.c_str());
        }
        if(r.crashed) s.crashes++;
        s.nontrivial += one.nontrivial;
        s.ops += one.ops;
        s.steps += one.steps;
        s.solves += one.solves;
        s.callbacks += one.callbacks;
        s.switches += one.switches;
        s.simtime += one.simtime;
        bool any = false;
        for(int q = 0; q < FS_N; q++) s.faults[q] += one.faults[q], any = any || one.faults[q];
        s.faulted_runs += any;
        for(int q = 0; q < PR_N; q++) s.probes[q] += one.probes[q];
        uint64_t rec[2] = {r.hash, one.nontrivial};
        fwrite(rec, 16, 1, hf);
        bool mine = false;
        for(auto & v : r.v)
        {
          std::string m = v.msg;
          std::replace(m.begin(), m.end(), '\n', ' ');
          std::replace(m.begin(), m.end(), '\t', ' ');
          if(v.prop == prop)
            mine = true;
          else if(!seenOther.insert(v.prop + v.tag).second)
            continue;
          fprintf(vf, "V\t%ld\t%lu\t%s\t%s\t%s\n", i, (unsigned long)sd, v.prop.c_str(), v.tag.c_str(), m.c_str());
        }
        fflush(vf);
        if(mine && !keepgoing) break;
      }
      for(uint32_t i = 0; i < COVMAP; i++)
        if(covmap[i]) cov[i] = 1;
      fclose(hf);
      fclose(vf);
      s.done = 1;
      _exit(0);
    }
    pids.push_back(pid);
  }
  bool okw = true;
  for(pid_t p : pids)
  {
    int s;
    waitpid(p, &s, 0);
  }
  WorkerStats t{};
  std::set<uint64_t> distinct;
  long distinctNT = 0;
  std::string viols;
  std::vector<std::string> vl;
  for(int w = 0; w < W; w++)
  {
    okw = okw && st[w].done;
    t.runs += st[w].runs;
    t.crashes += st[w].crashes;
    t.harness += st[w].harness;
    t.mismatch += st[w].mismatch;
    t.checked += st[w].checked;
    t.nontrivial += st[w].nontrivial;
    t.ops += st[w].ops;
    t.steps += st[w].steps;
    t.solves += st[w].solves;
    t.callbacks += st[w].callbacks;
    t.switches += st[w].switches;
    t.simtime += st[w].simtime;
    t.faulted_runs += st[w].faulted_runs;
    for(int q = 0; q < FS_N; q++) t.faults[q] += st[w].faults[q];
    for(int q = 0; q < PR_N; q++) t.probes[q] += st[w].probes[q];
    std::string hn = out + ".h" + std::to_string(w), vn = out + ".v" + std::to_string(w);
    FILE * f = fopen(hn.c_str(), "rb");
    uint64_t rec[2];
    while(f && fread(rec, 16, 1, f) == 1)
      if(rec[1] && distinct.insert(rec[0]).second) distinctNT++;
    if(f) fclose(f);
    unlink(hn.c_str());
    std::ifstream is(vn);
    std::string line;
    while(std::getline(is, line)) vl.push_back(line);
    unlink(vn.c_str());
  }
  std::sort(vl.begin(), vl.end(),
            [](const std::string & x, const std::string & y)
            {
              long i = atol(x.c_str() + 2), j = atol(y.c_str() + 2);
              return i != j ? i < j : x < y;
            });
  long blocks = 0;
  for(uint32_t i = 0; i < COVMAP; i++) blocks += cov[i] != 0;
  double el = wall() - t0;
  FILE * f = fopen(out.c_str(), "w");
  fprintf(f, "{\"runs\":%ld,\"distinct\":%ld,\"nontrivial\":%lu,\"ops\":%lu,\"solves\":%lu,\"callbacks\":%lu,\"steps\":%lu,\"switches\":%lu,\"simtime\":%.6g,"
             "\"faulted_runs\":%lu,\"crashes\":%ld,\"harness_errors\":%ld,\"determinism_checked\":%ld,\"determinism_mismatch\":%ld,\"blocks\":%ld,\"elapsed\":%.3f,\"workers_ok\":%s,",
          t.runs, distinctNT, (unsigned long)t.nontrivial, (unsigned long)t.ops, (unsigned long)t.solves, (unsigned long)t.callbacks, (unsigned long)t.steps,
          (unsigned long)t.switches, t.simtime, (unsigned long)t.faulted_runs, t.crashes, t.harness, t.checked, t.mismatch, blocks, el, okw ? "true" : "false");
  fprintf(f, "\"faults\":{");
  bool first = true;
  for(int q = 0; q < FS_N; q++)
    if(t.faults[q]) fprintf(f, "%s\"%s\":%lu", first ? "" : ",", faultStatName[q], (unsigned long)t.faults[q]), first = false;
  fprintf(f, "},\"probes\":{");
  first = true;
  for(int q = 0; q < PR_N; q++)
    if(t.probes[q]) fprintf(f, "%s\"%s\":%lu", first ? "" : ",", probeName[q], (unsigned long)t.probes[q]), first = false;
  fprintf(f, "},\"events\":[");
  for(size_t i = 0; i < vl.size() && i < 5000; i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc([&] { std::string s = vl[i]; std::replace(s.begin(), s.end(), '\t', '|'); return s; }()).c_str());
  fprintf(f, "]}\n");
  fclose(f);
  return okw ? 0 : 2;
}
