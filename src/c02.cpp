// C02: recorded series survive file and text round trips; the logger is faithful.
#include "mc.hpp"
#include <state-observation/tools/definitions.hpp>
#include <state-observation/tools/logger.hpp>
#include <sys/stat.h>
using namespace stateObservation;
using mc::C;

namespace
{
/// scratch files of this process, in the directory of the run
struct Scratch
{
  std::string dir;
  std::set<std::string> files;
  std::string file(const std::string & n)
  {
    files.insert(dir + "/" + n);
    return dir + "/" + n;
  }
  void clean()
  {
    for(auto & f : files) ::unlink(f.c_str());
  }
};
Scratch & scratch()
{
  static std::map<pid_t, Scratch> m;
  Scratch & s = m[getpid()];
  if(s.dir.empty())
  {
    s.dir = mc::workDir() + "/files-" + std::to_string(getpid());
    ::mkdir(s.dir.c_str(), 0700);
  }
  return s;
}

const double vals[] = {0, 1, -1, 0.5, -2.25, 123456, -0.000123456, 1e-12, -3e20, 1. / 3., 2. / 3. * 1e5, 7, -0.};
const int nvals = int(sizeof(vals) / sizeof(vals[0]));
const double printed = 1e-5; // the default precision prints six significant digits

template<typename A, typename B>
void same(C & c, const A & got, const B & want, const char * key)
{
  bool ok = got.rows() == want.rows() && got.cols() == want.cols();
  for(Index i = 0; ok && i < want.rows(); ++i)
    for(Index j = 0; ok && j < want.cols(); ++j)
      ok = std::fabs(got(i, j) - want(i, j)) <= printed * std::fabs(want(i, j));
  if(!ok) c.fail(key, std::string(key) + ": got " + mc::str(got) + " expected " + mc::str(want));
}
Matrix content(int rows, int cols, int id)
{
  Matrix m(rows, cols);
  for(int i = 0; i < rows; ++i)
    for(int j = 0; j < cols; ++j) m(i, j) = vals[(id * 5 + 3 * i + 7 * j) % nvals];
  if(rows * cols > 0) m(0, 0) += id; // distinct elements
  return m;
}
struct Series
{
  long first = 0;
  std::vector<Matrix> v;
};
template<typename A>
void compareSeries(C & c, const A & a, const Series & s, const char * what)
{
  std::string w(what);
  if(a.size() != s.v.size())
    c.fail(w + ": number of elements", w + ": " + std::to_string(a.size()) + " elements, expected " + std::to_string(s.v.size()));
  if(s.v.empty()) return;
  if(a.getFirstIndex() != s.first) c.fail(w + ": first index", w + ": first index " + std::to_string(a.getFirstIndex()) + " expected " + std::to_string(s.first));
  if(a.getNextIndex() != s.first + long(s.v.size())) c.fail(w + ": next index", w + ": next index");
  for(size_t i = 0; i < s.v.size(); ++i) same(c, Matrix(a[s.first + long(i)]), s.v[i], what);
}

// histories of pushing, writing (overwriting/appending, clearing or not) and reading back
template<typename M>
struct Kind;
template<>
struct Kind<Vector>
{
  static const bool vec = true;
};
template<>
struct Kind<Matrix>
{
  static const bool vec = false;
};
template<>
struct Kind<Matrix3>
{
  static const bool vec = false;
};

template<typename M>
void files(C & c, const std::vector<std::pair<int, int>> & shapes, int depth)
{
  typedef IndexedMatrixArrayT<M> A;
  auto sh = c.pick(shapes);
  long first = c.pick(std::vector<long>{0, 1, 7, -3, 3000000000L});
  Scratch & sc = scratch();
  std::string f = sc.file("series");
  sc.clean();
  A a;
  Series mem, file;
  mem.first = first;
  int id = 0;
  bool contiguous = true;
  bool exists = false;
  auto push = [&] {
    Matrix m = content(sh.first, sh.second, ++id);
    if(mem.v.empty())
    {
      a.setValue(M(m), mem.first);
    }
    else
      a.pushBack(M(m));
    mem.v.push_back(m);
  };
  for(int k = 0; k < depth; ++k)
  {
    int op = c.choose(7);
    if(op < 2)
    {
      c.step([&] { return op ? "push three" : "push"; });
      for(int i = 0; i < (op ? 3 : 1); ++i) push();
    }
    else if(op < 6)
    {
      bool cl = op & 1, app = op >= 4;
      c.step([&] { return std::string("write") + (cl ? " and clear" : "") + (app ? ", appending" : ""); });
      if(k % 2)
        a.writeInFile(f, cl, app);
      else
        a.writeInFile(f.c_str(), cl, app);
      exists = true;
      if(!app)
      {
        file = mem;
        contiguous = true;
      }
      else
      {
        if(file.v.empty())
        {
          file.first = mem.first;
          contiguous = true;
        }
        else if(!mem.v.empty() && mem.first != file.first + long(file.v.size()))
          contiguous = false;
        file.v.insert(file.v.end(), mem.v.begin(), mem.v.end());
      }
      if(cl)
      {
        mem.first += long(mem.v.size());
        mem.v.clear();
        if(id > 0) c.require(a.getNextIndex() == mem.first, "time index after clearing");
      }
      compareSeries(c, a, mem, "series in memory after writing");
    }
    else
    {
      if(!exists || !contiguous) throw mc::Prune();
      c.step([&] { return "read back"; });
      A b;
      if(k % 2) b.setValue(M(content(sh.first, sh.second, 99)), 40); // reading replaces whatever there was
      if(k % 2)
        b.readFromFile(f, sh.first, sh.second);
      else
        b.readFromFile(f.c_str(), sh.first, sh.second, true);
      compareSeries(c, b, file, "series read back");
      // every line read as a vector
      IndexedVectorArray v;
      if(k % 2)
        v.readVectorsFromFile(f);
      else
        v.readVectorsFromFile(f.c_str(), true);
      Series rows;
      rows.first = file.first;
      for(auto & m : file.v)
      {
        Matrix r(m.size(), 1);
        Index q = 0;
        for(Index i = 0; i < m.rows(); ++i)
          for(Index j = 0; j < m.cols(); ++j) r(q++, 0) = m(i, j);
        rows.v.push_back(r);
      }
      compareSeries(c, v, rows, "lines read back as vectors");
      // the stamps read as data
      IndexedVectorArray u;
      u.readVectorsFromFile(f, false);
      Series st;
      for(size_t i = 0; i < rows.v.size(); ++i)
      {
        Matrix r(rows.v[i].rows() + 1, 1);
        r(0, 0) = double(file.first + long(i));
        r.bottomRows(rows.v[i].rows()) = rows.v[i];
        st.v.push_back(r);
      }
      compareSeries(c, u, st, "stamped lines read as vectors");
      if(first < 1000000)
      {
        IndexedVectorArray w;
        w.readFromFile(f, sh.first * sh.second + 1, 1, false);
        compareSeries(c, w, st, "stamped lines read as matrices");
      }
      c.state(mc::mix(uint64_t(file.first), file.v.size() * 64 + mem.v.size()));
    }
  }
}
MC_SUITE(vector_files, 2)
{
  files<Vector>(c, {{1, 1}, {2, 1}, {3, 1}}, c.t(5, 6));
}
// series whose elements have different lengths (none included)
MC_SUITE(varied_vector_files, 2)
{
  long first = c.pick(std::vector<long>{0, 7, -3});
  Scratch & sc = scratch();
  std::string f = sc.file("varied");
  sc.clean();
  IndexedVectorArray a;
  Series mem, file;
  mem.first = first;
  const int n = 1 + c.choose(c.t(4, 5));
  int half = c.choose(n + 1); // the elements after this one are appended to the file
  bool cl = c.flag();
  for(int i = 0; i <= n; ++i)
  {
    if(i == half || i == n)
    {
      bool app = i == n && half < n && half > 0;
      c.step([&] { return std::string("write") + (app ? ", appending" : "") + (cl ? " and clear" : ""); });
      a.writeInFile(f, cl, app);
      if(!app) file = mem;
      else if(cl) file.v.insert(file.v.end(), mem.v.begin(), mem.v.end());
      else file.v.insert(file.v.end(), mem.v.begin(), mem.v.end());
      if(app && !cl) return; // the time stamps of the file are not consecutive
      if(cl)
      {
        mem.first += long(mem.v.size());
        mem.v.clear();
      }
      compareSeries(c, a, mem, "series in memory after writing");
    }
    if(i == n) break;
    Matrix m = content(c.choose(4), 1, i + 1);
    c.step([&] { return "push an element of length " + std::to_string(m.rows()); });
    if(i == 0)
      a.setValue(Vector(m), first);
    else
      a.pushBack(Vector(m));
    mem.v.push_back(m);
  }
  if(half == n && cl) return; // the file was overwritten by an empty series
  IndexedVectorArray b;
  b.readVectorsFromFile(f);
  compareSeries(c, b, file, "vectors of different lengths read back");
  c.state(mc::mix(uint64_t(first), uint64_t(file.v.size() * 8 + size_t(half))));
}
MC_SUITE(matrix_files, 2)
{
  files<Matrix>(c, {{1, 3}, {2, 2}, {3, 2}}, c.t(5, 6));
}
MC_SUITE(matrix3_files, 2)
{
  files<Matrix3>(c, {{3, 3}}, c.t(5, 6));
}

// files written by others: with and without stamps, with and without a final end of line
MC_SUITE(foreign_files, 2)
{
  int n = c.choose(5), rows = 1 + c.choose(3), cols = 1 + c.choose(2), first = c.choose(3);
  bool stamps = c.flag(), last = c.flag(), oneLine = c.flag();
  if(!stamps) first = 0;
  Scratch & sc = scratch();
  std::string f = sc.file("foreign");
  Series s, flat;
  s.first = flat.first = first;
  {
    std::ofstream o(f);
    for(int i = 0; i < n; ++i)
    {
      Matrix m = content(rows, cols, i);
      s.v.push_back(m);
      if(stamps) o << first + i << " ";
      Matrix r(m.size(), 1);
      for(int a = 0; a < rows; ++a)
      {
        for(int b = 0; b < cols; ++b)
        {
          o << m(a, b);
          if(b + 1 < cols) o << " ";
          r(a * cols + b, 0) = m(a, b);
        }
        if(a + 1 < rows) o << (oneLine ? "\t" : "\n");
      }
      flat.v.push_back(r);
      if(i + 1 < n || last) o << "\n";
    }
  }
  c.step([&] { return "read a file of " + std::to_string(n) + " elements " + (stamps ? "with" : "without") + " stamps"; });
  IndexedMatrixArray a;
  a.readFromFile(f, rows, cols, stamps);
  compareSeries(c, a, s, "foreign file");
  if(oneLine && last)
  {
    IndexedVectorArray v;
    v.readVectorsFromFile(f, stamps);
    compareSeries(c, v, flat, "foreign file read as vectors");
  }
  c.state(mc::mix(uint64_t(n * 100 + rows * 10 + cols), uint64_t(first * 8 + stamps * 4 + last * 2 + oneLine)));
}

// text conversions
MC_SUITE(text, 2)
{
  int rows = 1 + c.choose(3), cols = 1 + c.choose(3);
  Matrix m(rows, cols);
  int a = c.choose(nvals), b = c.choose(nvals), d = c.choose(nvals);
  int q = 0;
  for(int i = 0; i < rows; ++i)
    for(int j = 0; j < cols; ++j) m(i, j) = vals[(q % 3 == 0 ? a : q % 3 == 1 ? b : d)], ++q;
  c.step([&] { return "to text and back: " + mc::str(m); });
  same(c, tools::stringToMatrix(tools::matrixToString(m), rows, cols), m, "matrix to text and back");
  Vector v(rows);
  for(int i = 0; i < rows; ++i) v(i) = vals[i == 0 ? a : i == 1 ? b : d];
  std::string t = tools::vectorToString(v);
  same(c, tools::stringToVector(t), v, "vector to text and back");
  same(c, tools::stringToVector(t, rows), v, "vector of known length to text and back");
  same(c, tools::stringToVector(t + " "), v, "vector to text and back");
  c.require(tools::stringToVector("").size() == 0, "vector from an empty text");
  c.state(mc::hashM(1, m));
}

// ---- logger ---------------------------------------------------------------------------------------------------------
struct Variables
{
  Matrix m = Matrix::Zero(2, 3), m2 = Matrix::Zero(1, 1);
  Vector v = Vector::Zero(2);
  Matrix3 m3 = Matrix3::Zero();
  Vector3 v3 = Vector3::Zero();
  int i = 0;
  unsigned u = 0;
  long l = 0;
  double d = 0;
  float f = 0;
  void change(int k)
  {
    m = content(2 + k % 2, 3, k);
    m2 = content(1, 1, k + 1);
    v = content(2, 1, k + 2);
    m3 = content(3, 3, k + 3);
    v3 = content(3, 1, k + 4);
    i = -k;
    u = 4000000000u - unsigned(k);
    l = 5000000000L + k;
    d = 0.5 * k;
    f = 0.25f * float(k);
  }
};
Matrix one(double d)
{
  return Matrix::Constant(1, 1, d);
}
const int nvar = 10;
Matrix valueOf(const Variables & x, int w)
{
  switch(w)
  {
    case 0: return x.m;
    case 1: return x.v;
    case 2: return x.m3;
    case 3: return x.v3;
    case 4: return one(x.i);
    case 5: return one(x.u);
    case 6: return one(double(x.l));
    case 7: return one(x.d);
    case 8: return one(x.f);
    default: return x.m2;
  }
}
const void * addressOf(const Variables & x, int w)
{
  switch(w)
  {
    case 0: return &x.m;
    case 1: return &x.v;
    case 2: return &x.m3;
    case 3: return &x.v3;
    case 4: return &x.i;
    case 5: return &x.u;
    case 6: return &x.l;
    case 7: return &x.d;
    case 8: return &x.f;
    default: return &x.m2;
  }
}
template<typename F>
void onVariable(Variables & x, int w, F && f)
{
  switch(w)
  {
    case 0: f(x.m); break;
    case 1: f(x.v); break;
    case 2: f(x.m3); break;
    case 3: f(x.v3); break;
    case 4: f(x.i); break;
    case 5: f(x.u); break;
    case 6: f(x.l); break;
    case 7: f(x.d); break;
    case 8: f(x.f); break;
    default: f(x.m2); break;
  }
}
template<typename F>
bool refuses(F && f)
{
  try
  {
    f();
  }
  catch(const std::exception &)
  {
    return true;
  }
  return false;
}

void loggerHistory(C & c, int wa, int wb, int depth)
{
  Scratch & sc = scratch();
  std::string fa = sc.file("a.log"), fb = sc.file("b.log");
  sc.clean();
  Variables x[2], y[2]; // y: where variables move to
  struct Log
  {
    bool on = false, named = false, moved = false;
    Series s, file;
    bool saved = false, contiguous = true;
  } log[2];
  tools::Logger L;
  L.setPath(sc.dir);
  int w[2] = {wa, wb};
  auto var = [&](int q) -> Variables & { return log[q].moved ? y[q] : x[q]; };
  int id = 0;
  auto record = [&](int q) {
    Log & g = log[q];
    Matrix v = valueOf(var(q), w[q]);
    g.s.v.push_back(v);
  };
  for(int k = 0; k < depth; ++k)
  {
    for(int q = 0; q < 2; ++q) var(q).change(++id);
    int op = c.choose(12);
    switch(op)
    {
      case 0:
      case 1:
      {
        const bool again = log[op].on; // recording once more changes nothing
        bool named = again ? log[op].named : c.flag(), ptr = c.flag();
        c.step([&] { return std::string("record variable ") + "ab"[op] + (named ? " with a file" : "") + (ptr ? " by address" : ""); });
        onVariable(var(op), w[op], [&](auto & r) {
          const auto & cr = r;
          std::string n = named ? (op ? "b.log" : "a.log") : "";
          if(ptr && k % 2)
            L.record(&cr, n);
          else if(ptr)
            L.record(&r, n);
          else
            L.record(r, n);
        });
        if(again) break;
        bool saved = log[op].saved, moved = log[op].moved, cont = log[op].contiguous;
        Series file = log[op].file;
        log[op] = Log();
        log[op].on = true;
        log[op].named = named;
        log[op].moved = moved;
        log[op].saved = saved;
        log[op].file = file;
        log[op].contiguous = cont;
        break;
      }
      case 2:
        c.step([&] { return "push all"; });
        L.push();
        for(int q = 0; q < 2; ++q)
          if(log[q].on) record(q);
        break;
      case 3:
      case 4:
      {
        int q = op - 3;
        bool ptr = c.flag();
        c.step([&] { return std::string("push variable ") + "ab"[q]; });
        auto go = [&] {
          onVariable(var(q), w[q], [&](auto & r) {
            const auto & cr = r;
            if(ptr && k % 2)
              L.push(&r);
            else if(ptr)
              L.push(&cr);
            else
              L.push(cr);
          });
        };
        if(!log[q].on)
        {
          c.require(refuses(go), "pushing a variable that is not recorded is refused");
          break;
        }
        go();
        record(q);
        break;
      }
      case 5:
        c.step([&] { return "clear logs"; });
        L.clearLogs();
        for(auto & g : log)
        {
          g.s.first += long(g.s.v.size());
          g.s.v.clear();
        }
        break;
      case 6:
        c.step([&] { return "clear tracking"; });
        L.clearTracking();
        for(auto & g : log) g.on = false;
        break;
      case 7:
      case 8:
      {
        int q = op - 7;
        if(!log[q].on) throw mc::Prune();
        c.step([&] { return std::string("variable moved ") + "ab"[q]; });
        const void * old = addressOf(var(q), w[q]);
        int how = c.choose(3); // elsewhere, to where it already is, or to a variable of another type
        if(how != 1) log[q].moved = !log[q].moved;
        if(how == 2) w[q] = (w[q] + 1 + q) % nvar;
        var(q).change(++id);
        onVariable(var(q), w[q], [&](auto & r) {
          const auto & cr = r;
          L.updateAddress(old, &cr);
        });
        break;
      }
      default:
      {
        bool cl = op == 10, app = op == 11;
        c.step([&] { return std::string("save") + (cl ? " and clear" : "") + (app ? ", appending" : ""); });
        L.save(cl, app);
        for(auto & g : log)
          if(g.on && g.named)
          {
            g.saved = true;
            if(!app)
            {
              g.file = g.s;
              g.contiguous = true;
            }
            else
            {
              if(g.file.v.empty())
                g.file.first = g.s.first;
              else if(!g.s.v.empty() && g.s.first != g.file.first + long(g.file.v.size()))
                g.contiguous = false;
              g.file.v.insert(g.file.v.end(), g.s.v.begin(), g.s.v.end());
            }
            if(cl)
            {
              g.s.first += long(g.s.v.size());
              g.s.v.clear();
            }
          }
        break;
      }
    }
    for(int q = 0; q < 2; ++q)
    {
      const void * ad = addressOf(var(q), w[q]);
      const tools::Logger & cL = L;
      if(log[q].on)
      {
        compareSeries(c, L.getRecord(ad), log[q].s, "record");
        c.require(&cL.getRecord(ad) == &L.getRecord(ad), "the record differs through a constant logger");
        c.require(L.getRecord(ad).getNextIndex() == log[q].s.first + long(log[q].s.v.size()), "next time index of a record");
        c.state(mc::mix(uint64_t(w[q]) * 64 + log[q].s.v.size(), uint64_t(log[q].s.first) * 8 + log[q].moved * 4 + log[q].named));
      }
      else if(k + 1 == depth)
        c.require(refuses([&] { L.getRecord(ad); }), "the record of an unknown variable is refused");
    }
  }
  // what was saved
  for(int q = 0; q < 2; ++q)
  {
    std::ifstream in(q ? fb : fa);
    if(!log[q].saved)
      c.require(!in.is_open(), "a file was written for a variable never saved");
    else
    {
      c.require(in.is_open(), "a saved log has no file");
      if(log[q].contiguous)
      {
        IndexedVectorArray v;
        v.readVectorsFromFile(q ? fb : fa);
        Series rows;
        rows.first = log[q].file.first;
        for(auto & m : log[q].file.v)
        {
          Matrix r(m.size(), 1);
          Index p = 0;
          for(Index i = 0; i < m.rows(); ++i)
            for(Index j = 0; j < m.cols(); ++j) r(p++, 0) = m(i, j);
          rows.v.push_back(r);
        }
        compareSeries(c, v, rows, "saved log");
      }
    }
  }
}
// every history for one pair of types; every pair of types for shorter histories
MC_SUITE(logger_histories, 3)
{
  loggerHistory(c, 0, 7, c.t(5, 6));
}
MC_SUITE(logger_types, 3)
{
  int a = c.choose(nvar), b = c.choose(nvar);
  loggerHistory(c, a, b, c.t(3, 4));
}
// long and wide series written in pieces
template<typename M>
void longFile(C & c, int rows, int cols)
{
  typedef IndexedMatrixArrayT<M> A;
  const long first = c.pick(std::vector<long>{0, -150, 99990});
  const int n = c.pick(std::vector<int>{99, 260}), piece = c.pick(std::vector<int>{1, 7, 64, 1000});
  const bool clear = c.flag();
  Scratch & sc = scratch();
  std::string f = sc.file("long");
  sc.clean();
  A a;
  Series all;
  all.first = first;
  for(int i = 0; i < n; ++i)
  {
    Matrix m = content(rows, cols, i + 1);
    if(i == 0)
      a.setValue(M(m), first);
    else
      a.pushBack(M(m));
    all.v.push_back(m);
    if(clear && (i + 1) % piece == 0) a.writeInFile(f, true, true);
  }
  c.step([&] { return "a series of " + std::to_string(n) + " elements written and read back"; });
  if(clear)
    a.writeInFile(f, true, true);
  else
    a.writeInFile(f);
  A b;
  b.readFromFile(f, rows, cols);
  compareSeries(c, b, all, "long series read back");
  IndexedVectorArray v;
  v.readVectorsFromFile(f);
  c.require(v.size() == Index(n) && v.getFirstIndex() == first && v.back().size() == rows * cols, "long series read as vectors");
  c.state(mc::mix(uint64_t(rows * 100 + cols), uint64_t(first + n * 7 + piece)));
}
MC_SUITE(long_files, 2)
{
  static const std::vector<std::pair<int, int>> shapes = {{1, 1}, {30, 1}, {1, 25}, {12, 12}};
  auto sh = c.pick(shapes);
  if(sh.second == 1)
    longFile<Vector>(c, sh.first, 1);
  else
    longFile<Matrix>(c, sh.first, sh.second);
}
// variables of every type at once, many pushes, saved in pieces
MC_SUITE(long_logs, 3)
{
  const int n = c.pick(std::vector<int>{40, 300}), piece = c.pick(std::vector<int>{1, 13, 1000}), order = c.choose(3);
  const int extra = c.choose(nvar + 1); // pushed once more on its own now and then
  Scratch & sc = scratch();
  sc.clean();
  Variables x;
  tools::Logger L;
  L.setPath(sc.dir);
  std::vector<Series> s(nvar), file(nvar);
  for(int q = 0; q < nvar; ++q)
  {
    int w = order == 0 ? q : order == 1 ? nvar - 1 - q : (q * 3) % nvar;
    sc.file("v" + std::to_string(w));
    onVariable(x, w, [&](auto & r) { L.record(r, "v" + std::to_string(w)); });
  }
  for(int k = 0; k < n; ++k)
  {
    x.change(k + 1);
    L.push();
    for(int w = 0; w < nvar; ++w) s[size_t(w)].v.push_back(valueOf(x, w));
    if(extra < nvar && k % 5 == 0)
    {
      onVariable(x, extra, [&](auto & r) { L.push(r); });
      s[size_t(extra)].v.push_back(valueOf(x, extra));
    }
    if((k + 1) % piece == 0 || k + 1 == n)
    {
      if(k + 1 == n)
        for(int w = 0; w < nvar; ++w) compareSeries(c, L.getRecord(addressOf(x, w)), s[size_t(w)], "record of many");
      L.save(true, true);
      for(int w = 0; w < nvar; ++w)
      {
        auto & g = s[size_t(w)];
        file[size_t(w)].v.insert(file[size_t(w)].v.end(), g.v.begin(), g.v.end());
        g.first += long(g.v.size());
        g.v.clear();
        c.require(L.getRecord(addressOf(x, w)).getNextIndex() == g.first, "next time index after saving");
      }
      c.step([&] { return "saved after " + std::to_string(k + 1); });
      c.state(uint64_t(k * 16 + extra));
    }
  }
  for(int w = 0; w < nvar; ++w)
  {
    IndexedVectorArray v;
    v.readVectorsFromFile(sc.file("v" + std::to_string(w)));
    Series rows;
    for(auto & m : file[size_t(w)].v)
    {
      Matrix t = m.transpose();
      rows.v.push_back(Eigen::Map<Matrix>(t.data(), t.size(), 1));
    }
    compareSeries(c, v, rows, "saved log of many");
  }
}

} // namespace
MC_MAIN()
