// A plan is everything that decides one simulated execution. It is plain text (the replay file) and a pure function of
// the seed when generated.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "simcore.h"

namespace sim
{
struct KV
{
  std::map<std::string, double> kv;
  double get(const std::string & k, double d = 0) const
  {
    auto it = kv.find(k);
    return it == kv.end() ? d : it->second;
  }
  long geti(const std::string & k, long d = 0) const { return (long)get(k, (double)d); }
  bool has(const std::string & k) const { return kv.count(k) != 0; }
  void set(const std::string & k, double v) { kv[k] = v; }
  std::string text() const
  {
    std::string s;
    char b[64];
    for(auto & e : kv)
    {
      snprintf(b, sizeof b, "%.17g", e.second);
      s += " " + e.first + "=" + b;
    }
    return s;
  }
};
struct Op : KV
{
  std::string name;
  int obj = 0;
};
struct Plan : KV
{
  std::string world;
  std::vector<KV> objs; // object descriptions
  std::vector<Op> ops;
  std::string text() const
  {
    std::string s = "world " + world + kvtext() + "\n";
    for(auto & o : objs) s += "obj" + o.text() + "\n";
    for(auto & o : ops) s += "op " + o.name + " " + std::to_string(o.obj) + o.text() + "\n";
    return s;
  }
  std::string kvtext() const { return KV::text(); }
  static void parseKv(std::istringstream & is, KV & kv)
  {
    std::string tok;
    while(is >> tok)
    {
      size_t e = tok.find('=');
      if(e == std::string::npos) continue;
      kv.kv[tok.substr(0, e)] = strtod(tok.c_str() + e + 1, nullptr);
    }
  }
  static Plan parse(const std::string & text)
  {
    Plan p;
    std::istringstream ls(text);
    std::string line;
    while(std::getline(ls, line))
    {
      if(line.empty() || line[0] == '#') continue;
      std::istringstream is(line);
      std::string w;
      is >> w;
      if(w == "world")
      {
        is >> p.world;
        parseKv(is, p);
      }
      else if(w == "obj")
      {
        KV o;
        parseKv(is, o);
        p.objs.push_back(o);
      }
      else if(w == "op")
      {
        Op o;
        is >> o.name >> o.obj;
        parseKv(is, o);
        p.ops.push_back(o);
      }
    }
    return p;
  }
};

// faults of an operation: keys f<j>k f<j>n f<j>a f<j>p f<j>e
inline std::vector<FaultSpec> faultsOf(const Op & op)
{
  std::vector<FaultSpec> v;
  for(int j = 0; j < 4; j++)
  {
    std::string p = "f" + std::to_string(j);
    if(!op.has(p + "a")) continue;
    FaultSpec f;
    f.kind = (int)op.geti(p + "k", -1);
    f.nth = op.geti(p + "n", 1);
    f.action = (int)op.geti(p + "a");
    f.persist = op.geti(p + "p") != 0;
    f.elem = (int)op.geti(p + "e");
    if(f.action > 0) v.push_back(f);
  }
  return v;
}
inline int opFlags(const Op & op)
{
  int fl = 0;
  for(auto & f : faultsOf(op)) fl |= f.action == ACT_THROW ? OF_THROW : OF_NONFINITE;
  if(op.geti("alloc")) fl |= OF_ALLOC;
  if(op.geti("mal")) fl |= OF_MALFORMED;
  if(op.geti("io")) fl |= OF_IO;
  return fl;
}
} // namespace sim
