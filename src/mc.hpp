// Stateless explicit enumeration of executions on the real code.
//
// A "suite" is a function body(C&) that performs one execution; every nondeterministic decision is taken with
// c.choose(n).  explore() runs the body once for every possible vector of choices (depth-first), i.e. it enumerates the
// whole bounded choice tree; the tree is sharded over worker processes by the prefix of the first choices.
// The body drives the real library objects and a reference model side by side and compares every observation.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <Eigen/Core>

#ifdef MC_COV
extern "C" void __gcov_dump(void);
#endif
namespace mc
{

struct Violation
{
  std::string key, msg;
};
struct Skip
{
};
struct Prune
{
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  return h;
}
inline uint64_t hashD(uint64_t h, double d)
{
  // quantised so that rounding noise does not create states
  if(std::isnan(d)) return mix(h, 0x7ff8);
  if(std::isinf(d)) return mix(h, d > 0 ? 1 : 2);
  double q = std::nearbyint(d * 1e7);
  if(q == 0) q = 0;
  uint64_t b;
  std::memcpy(&b, &q, 8);
  return mix(h, b);
}
template<typename D>
uint64_t hashM(uint64_t h, const Eigen::DenseBase<D> & m)
{
  h = mix(h, uint64_t(m.rows()) * 131 + uint64_t(m.cols()));
  for(Eigen::Index i = 0; i < m.rows(); ++i)
    for(Eigen::Index j = 0; j < m.cols(); ++j) h = hashD(h, m(i, j));
  return h;
}

template<typename D>
std::string str(const Eigen::DenseBase<D> & m)
{
  std::ostringstream o;
  o.precision(12);
  o << "[";
  for(Eigen::Index i = 0; i < m.rows(); ++i)
  {
    if(i) o << "; ";
    for(Eigen::Index j = 0; j < m.cols(); ++j) o << (j ? " " : "") << m(i, j);
  }
  o << "]";
  return o.str();
}
inline std::string str(double d)
{
  std::ostringstream o;
  o.precision(12);
  o << d;
  return o.str();
}
inline std::string str(long d)
{
  return std::to_string(d);
}
inline std::string str(int d)
{
  return std::to_string(d);
}

class C
{
public:
  std::vector<int> path; // choices taken / forced
  std::vector<int> arity;
  size_t pos = 0;
  bool tracing = false;
  std::vector<std::string> trace;
  uint64_t transitions = 0;
  std::unordered_set<uint64_t> * states = nullptr;
  std::unordered_set<uint64_t> * outcomes = nullptr;
  int tier = 0; // 0 quick, 1 thorough
  // sharding
  size_t splitDepth = 0;
  std::function<bool()> mine;
  std::function<void(C &)> onChoose;

  bool thorough() const
  {
    return tier > 0;
  }
  /// picks value by tier
  int t(int quick, int thor) const
  {
    return tier > 0 ? thor : quick;
  }
  int choose(int n)
  {
    if(n <= 0) throw Prune();
    if(pos < path.size())
    {
      arity[pos] = n;
      int r = path[pos++];
      if(r >= n) throw std::logic_error("replay: choice out of range");
      if(pos == splitDepth && mine && !mine()) throw Skip();
      return r;
    }
    path.push_back(0);
    arity.push_back(n);
    ++pos;
    if(pos == splitDepth && mine && !mine()) throw Skip();
    return 0;
  }
  bool flag()
  {
    return choose(2) == 1;
  }
  template<typename T>
  const T & pick(const std::vector<T> & v)
  {
    return v[size_t(choose(int(v.size())))];
  }
  template<typename F>
  void step(F && f)
  {
    ++transitions;
    if(tracing) trace.push_back(f());
  }
  template<typename F>
  void note(F && f)
  {
    if(tracing) trace.push_back(f());
  }
  void state(uint64_t h)
  {
    if(states) states->insert(h);
  }
  void outcome(uint64_t h)
  {
    if(outcomes) outcomes->insert(h);
  }
  [[noreturn]] void fail(const std::string & key, const std::string & msg)
  {
    throw Violation{key, msg};
  }
  void require(bool ok, const char * key)
  {
    if(!ok) fail(key, key);
  }
  template<typename F>
  void require(bool ok, const char * key, F && f)
  {
    if(!ok) fail(key, f());
  }
  /// numeric agreement up to rounding: |a-b| <= tol*(1+scale), scale = magnitude of the expected value
  template<typename A, typename B>
  void near(const Eigen::DenseBase<A> & got, const Eigen::DenseBase<B> & want, double tol, const char * key)
  {
    bool ok = got.rows() == want.rows() && got.cols() == want.cols();
    if(ok && got.size() > 0)
    {
      double sc = 0;
      for(Eigen::Index i = 0; i < want.rows(); ++i)
        for(Eigen::Index j = 0; j < want.cols(); ++j)
        {
          double w = std::fabs(want(i, j));
          if(w > sc) sc = w;
        }
      for(Eigen::Index i = 0; ok && i < want.rows(); ++i)
        for(Eigen::Index j = 0; ok && j < want.cols(); ++j)
        {
          double d = std::fabs(got(i, j) - want(i, j));
          if(!(d <= tol * (1 + sc))) ok = false;
        }
    }
    if(!ok) fail(key, std::string(key) + ": got " + str(got) + " expected " + str(want));
  }
  void near(double got, double want, double tol, const char * key)
  {
    if(!(std::fabs(got - want) <= tol * (1 + std::fabs(want))))
      fail(key, std::string(key) + ": got " + str(got) + " expected " + str(want));
  }
};

struct SuiteResult
{
  std::string name;
  uint64_t executions = 0, transitions = 0, states = 0, outcomes = 0, maxdepth = 0, pruned = 0;
  bool complete = true;
  double secs = 0;
  std::vector<std::string> sample;
};

struct Suite
{
  std::string name;
  std::function<void(C &)> body;
  int splitDepth;
  int tierMin;
};

struct Found
{
  std::string suite, key, msg;
  std::vector<int> path;
};

inline std::vector<Suite> & suites()
{
  static std::vector<Suite> s;
  return s;
}
struct Reg
{
  Reg(const char * n, std::function<void(C &)> b, int split = 2, int tierMin = 0)
  {
    suites().push_back({n, b, split, tierMin});
  }
};

// ---- worker-side globals used from signal handlers
namespace detail
{
inline C *& cur()
{
  static C * c = nullptr;
  return c;
}
inline char *& crashFile()
{
  static char * f = nullptr;
  return f;
}
inline volatile uint64_t & execCount()
{
  static volatile uint64_t n = 0;
  return n;
}
inline void dumpCrash(const char * what)
{
  FILE * f = std::fopen(crashFile(), "w");
  if(f)
  {
    std::fprintf(f, "%s\n", what);
    C * c = cur();
    if(c)
      for(size_t i = 0; i < c->pos && i < c->path.size(); ++i) std::fprintf(f, "%d ", c->path[i]);
    std::fprintf(f, "\n");
    std::fclose(f);
  }
}
inline void onSignal(int s)
{
  char b[64];
  std::snprintf(b, sizeof b, "crash (signal %d)", s);
  dumpCrash(b);
  _exit(3);
}
inline void onAlarm(int)
{
  static uint64_t last = ~0ull;
  static int same = 0;
  uint64_t n = execCount();
  if(n == last)
  {
    if(++same >= 6)
    {
      dumpCrash("hang (one execution ran for more than 60 s)");
      _exit(3);
    }
  }
  else
  {
    same = 0;
    last = n;
  }
}
inline std::string esc(const std::string & s)
{
  std::string o;
  for(char ch : s)
  {
    if(ch == '"' || ch == '\\')
      o += '\\', o += ch;
    else if((unsigned char)ch < 32)
      o += ' ';
    else
      o += ch;
  }
  return o;
}
} // namespace detail

inline double now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

/// runs one execution; returns true when a violation was found
inline bool runOne(const Suite & s, C & c, Found & f)
{
  using namespace detail;
  cur() = &c;
  try
  {
    s.body(c);
  }
  catch(const Violation & v)
  {
    f = {s.name, v.key, v.msg, std::vector<int>(c.path.begin(), c.path.begin() + long(c.pos))};
    return true;
  }
  catch(const Skip &)
  {
    throw;
  }
  catch(const Prune &)
  {
    throw;
  }
  catch(const std::exception & e)
  {
    f = {s.name, "exception", std::string("unexpected exception: ") + e.what(),
         std::vector<int>(c.path.begin(), c.path.begin() + long(c.pos))};
    return true;
  }
  return false;
}

inline void worker(const Suite & s, int w, int n, int tier, double deadline, const std::string & out)
{
  using namespace detail;
  std::string cf = out + ".crash";
  crashFile() = strdup(cf.c_str());
  for(int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(sig, onSignal);
  signal(SIGALRM, onAlarm);
  struct itimerval it;
  it.it_interval = {10, 0};
  it.it_value = {10, 0};
  setitimer(ITIMER_REAL, &it, nullptr);
  std::set_terminate([]() {
    dumpCrash("crash (std::terminate)");
    _exit(3);
  });

  std::unordered_set<uint64_t> states, outcomes;
  std::vector<int> path, arity, lastPrefix;
  uint64_t ordinal = 0, executions = 0, transitions = 0, maxdepth = 0, pruned = 0;
  bool complete = true, havePrefix = false;
  std::vector<Found> found;
  std::set<std::string> keys;
  C c;
  c.tier = tier;
  c.states = &states;
  c.outcomes = &outcomes;
  c.splitDepth = size_t(s.splitDepth);
  bool decision = true;
  c.mine = [&]() -> bool {
    std::vector<int> pre(c.path.begin(), c.path.begin() + long(c.splitDepth));
    if(!havePrefix || pre != lastPrefix)
    {
      havePrefix = true;
      lastPrefix = pre;
      decision = (ordinal++ % uint64_t(n)) == uint64_t(w);
    }
    return decision;
  };
  std::vector<int> samplePath;
  while(true)
  {
    c.path = path;
    c.arity.assign(path.size(), 0);
    c.pos = 0;
    c.transitions = 0;
    Found f;
    bool skipped = false, wasPruned = false, v = false;
    try
    {
      v = runOne(s, c, f);
    }
    catch(const Skip &)
    {
      skipped = true;
    }
    catch(const Prune &)
    {
      wasPruned = true;
    }
    ++execCount();
    // executions too short to be sharded belong to worker 0
    bool shortRun = !skipped && c.pos < c.splitDepth;
    if(!skipped && !(shortRun && w != 0))
    {
      if(wasPruned)
        ++pruned;
      else
      {
        ++executions;
        transitions += c.transitions;
        if(c.pos > maxdepth) maxdepth = c.pos;
        if(samplePath.empty() || executions == 100) samplePath.assign(c.path.begin(), c.path.begin() + long(c.pos));
      }
      if(v && keys.insert(f.key).second) found.push_back(f);
    }
    if(found.size() >= (std::getenv("MC_FAST") ? 1u : 25u)) break;
    // next path
    path.assign(c.path.begin(), c.path.begin() + long(c.pos));
    arity.assign(c.arity.begin(), c.arity.begin() + long(c.pos));
    while(!path.empty() && path.back() + 1 >= arity.back())
    {
      path.pop_back();
      arity.pop_back();
    }
    if(path.empty()) break;
    ++path.back();
    if((executions & 63) == 0 && now() > deadline)
    {
      complete = false;
      break;
    }
  }
  std::ofstream o(out);
  o << executions << " " << transitions << " " << maxdepth << " " << pruned << " " << complete << "\n";
  o << samplePath.size();
  for(int x : samplePath) o << " " << x;
  o << "\n" << found.size() << "\n";
  for(auto & f : found)
  {
    o << f.path.size();
    for(int x : f.path) o << " " << x;
    o << "\n" << detail::esc(f.key) << "\n" << detail::esc(f.msg) << "\n";
  }
  o.close();
  std::ofstream b(out + ".bin", std::ios::binary);
  uint64_t ns = states.size(), no = outcomes.size();
  b.write((char *)&ns, 8);
  for(uint64_t h : states) b.write((const char *)&h, 8);
  b.write((char *)&no, 8);
  for(uint64_t h : outcomes) b.write((const char *)&h, 8);
  b.close();
}

inline std::vector<std::string> replayTrace(const Suite & s, const std::vector<int> & path, int tier, Found * f = nullptr)
{
  C c;
  c.tier = tier;
  c.path = path;
  c.arity.assign(path.size(), 0);
  c.tracing = true;
  Found g;
  try
  {
    runOne(s, c, g);
  }
  catch(const Prune &)
  {
  }
  catch(const Skip &)
  {
  }
  if(f) *f = g;
  return c.trace;
}

/// replays in a child process, so that a crashing trace cannot take the reporter down
inline std::vector<std::string> safeReplay(const Suite & s, const std::vector<int> & path, int tier, const std::string & work)
{
  std::string of = work + "/replay";
  std::fflush(nullptr);
  pid_t p = fork();
  if(p == 0)
  {
    alarm(120);
    std::cout.rdbuf(nullptr);
    auto t = replayTrace(s, path, tier);
    std::ofstream o(of);
    for(auto & l : t) o << detail::esc(l) << "\n";
    o.close();
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  std::vector<std::string> r;
  std::ifstream i(of);
  std::string l;
  while(std::getline(i, l)) r.push_back(l);
  i.close();
  unlink(of.c_str());
  return r;
}

/// scratch directory of this run (removed by check.py)
inline std::string & workDir()
{
  static std::string d = ".";
  return d;
}

/// harness main: --tier quick|thorough --out FILE.json --work DIR [--suite NAME] [--replay SUITE PATH...]
inline int main_(int argc, char ** argv)
{
  int tier = 0, nw = 8;
  double budget = 780;
  std::string out, work = ".", only;
  bool replay = false, list = false;
  std::vector<int> rpath;
  std::string rsuite;
  for(int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if(a == "--tier")
      tier = std::string(argv[++i]) == "thorough";
    else if(a == "--out")
      out = argv[++i];
    else if(a == "--work")
      workDir() = work = argv[++i];
    else if(a == "--suite")
      only = argv[++i];
    else if(a == "--workers")
      nw = atoi(argv[++i]);
    else if(a == "--budget")
      budget = atof(argv[++i]);
    else if(a == "--list")
      list = true;
    else if(a == "--replay")
    {
      replay = true;
      rsuite = argv[++i];
      for(++i; i < argc; ++i) rpath.push_back(atoi(argv[i]));
    }
  }
  if(list)
  {
    for(auto & s : suites()) std::cout << s.name << "\n";
    return 0;
  }
  if(replay)
  {
    for(auto & s : suites())
      if(s.name == rsuite)
      {
        Found f;
        auto t = replayTrace(s, rpath, tier, &f);
        for(auto & l : t) std::cout << "  " << l << "\n";
        if(!f.key.empty())
        {
          std::cout << "VIOLATED " << f.key << ": " << f.msg << "\n";
          return 1;
        }
        std::cout << "held\n";
        return 0;
      }
    std::cerr << "no such suite\n";
    return 2;
  }
  std::vector<SuiteResult> res;
  std::vector<Found> found;
  double start = now(), deadline = start + budget;
  for(auto & s : suites())
  {
    if(!only.empty() && s.name != only) continue;
    if(s.tierMin > tier) continue;
    if(std::getenv("MC_FAST") && !found.empty()) break; // development aid: the first violation is enough
    double t0 = now();
    SuiteResult r;
    r.name = s.name;
    std::vector<pid_t> pids;
    std::fflush(nullptr);
    for(int w = 0; w < nw; ++w)
    {
      pid_t p = fork();
      if(p == 0)
      {
        std::cout.rdbuf(nullptr); // the library prints diagnostics we do not need
        worker(s, w, nw, tier, deadline, work + "/w" + std::to_string(w));
#ifdef MC_COV
        __gcov_dump();
#endif
        _exit(0);
      }
      pids.push_back(p);
    }
    std::unordered_set<uint64_t> st, oc;
    for(int w = 0; w < nw; ++w)
    {
      int status = 0;
      waitpid(pids[size_t(w)], &status, 0);
      std::string of = work + "/w" + std::to_string(w);
      if(WIFEXITED(status) && WEXITSTATUS(status) == 0)
      {
        std::ifstream i(of);
        uint64_t e, t, d, p;
        bool comp;
        i >> e >> t >> d >> p >> comp;
        r.executions += e;
        r.transitions += t;
        r.pruned += p;
        r.maxdepth = std::max(r.maxdepth, d);
        r.complete = r.complete && comp;
        size_t n;
        i >> n;
        std::vector<int> sp(n);
        for(auto & x : sp) i >> x;
        if(w == 0 && e > 0) r.sample = safeReplay(s, sp, tier, work);
        size_t nf;
        i >> nf;
        for(size_t k = 0; k < nf; ++k)
        {
          Found f;
          f.suite = s.name;
          i >> n;
          f.path.resize(n);
          for(auto & x : f.path) i >> x;
          std::string line;
          std::getline(i, line);
          std::getline(i, f.key);
          std::getline(i, f.msg);
          found.push_back(f);
        }
        std::ifstream b(of + ".bin", std::ios::binary);
        for(auto * set : {&st, &oc})
        {
          uint64_t cnt = 0, h;
          b.read((char *)&cnt, 8);
          for(uint64_t k = 0; k < cnt; ++k)
          {
            b.read((char *)&h, 8);
            set->insert(h);
          }
        }
      }
      else
      {
        Found f;
        f.suite = s.name;
        std::ifstream i(of + ".crash");
        std::string what, line;
        std::getline(i, what);
        std::getline(i, line);
        std::istringstream ls(line);
        int x;
        while(ls >> x) f.path.push_back(x);
        f.key = "crash";
        f.msg = what.empty() ? "worker died" : what;
        found.push_back(f);
        r.complete = false;
      }
      unlink(of.c_str());
      unlink((of + ".bin").c_str());
      unlink((of + ".crash").c_str());
    }
    r.states = st.size();
    r.outcomes = oc.size();
    r.secs = now() - t0;
    res.push_back(r);
    std::cerr << "suite " << r.name << ": executions=" << r.executions << " transitions=" << r.transitions
              << " states=" << r.states << " outcomes=" << r.outcomes << " depth=" << r.maxdepth
              << " pruned=" << r.pruned << " complete=" << r.complete << " " << r.secs << "s\n";
  }
  // violations: one per suite+key
  std::map<std::string, Found> uniq;
  for(auto & f : found)
  {
    std::string k = f.suite + "/" + f.key;
    auto it = uniq.find(k);
    if(it == uniq.end() || f.path.size() < it->second.path.size()) uniq[k] = f;
  }
  std::ostringstream j;
  j << "{\"suites\":[";
  bool first = true;
  for(auto & r : res)
  {
    j << (first ? "" : ",") << "{\"name\":\"" << r.name << "\",\"executions\":" << r.executions
      << ",\"transitions\":" << r.transitions << ",\"states\":" << r.states << ",\"outcomes\":" << r.outcomes
      << ",\"max_choices\":" << r.maxdepth << ",\"pruned\":" << r.pruned
      << ",\"complete\":" << (r.complete ? "true" : "false") << ",\"secs\":" << r.secs << ",\"sample\":[";
    for(size_t k = 0; k < r.sample.size() && k < 60; ++k)
      j << (k ? "," : "") << "\"" << detail::esc(r.sample[k]) << "\"";
    j << "]}";
    first = false;
  }
  j << "],\"violations\":[";
  first = true;
  for(auto & kv : uniq)
  {
    auto & f = kv.second;
    std::vector<std::string> tr;
    if(f.key != "crash")
      for(auto & s : suites())
        if(s.name == f.suite) tr = safeReplay(s, f.path, tier, work);
    j << (first ? "" : ",") << "{\"suite\":\"" << f.suite << "\",\"key\":\"" << detail::esc(f.key) << "\",\"msg\":\""
      << detail::esc(f.msg) << "\",\"path\":[";
    for(size_t k = 0; k < f.path.size(); ++k) j << (k ? "," : "") << f.path[k];
    j << "],\"trace\":[";
    for(size_t k = 0; k < tr.size(); ++k) j << (k ? "," : "") << "\"" << detail::esc(tr[k]) << "\"";
    j << "]}";
    first = false;
  }
  j << "]}\n";
  if(!out.empty())
  {
    std::ofstream o(out);
    o << j.str();
  }
  else
    std::cout << j.str();
  return uniq.empty() ? 0 : 1;
}

} // namespace mc

#define MC_SUITE(name, split)                                  \
  static void suite_##name(mc::C & c);                         \
  static mc::Reg reg_##name(#name, suite_##name, split);       \
  static void suite_##name(mc::C & c)
#define MC_SUITE_T(name, split)                                \
  static void suite_##name(mc::C & c);                         \
  static mc::Reg reg_##name(#name, suite_##name, split, 1);    \
  static void suite_##name(mc::C & c)
#define MC_MAIN()                                              \
  int main(int argc, char ** argv)                             \
  {                                                            \
    return mc::main_(argc, argv);                              \
  }
