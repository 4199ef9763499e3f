// C02: writing recorded arrays / matrices as text and reading them back.
#include "common.hpp"
#include <fstream>
#include <state-observation/tools/definitions.hpp>
#include <unistd.h>
using namespace vmon;
namespace so = stateObservation;

static std::string tmpName()
{
  const char * d = std::getenv("TMPDIR");
  return std::string(d ? d : "/tmp") + "/so_c02_" + str(long(getpid())) + "_" + str(uniqueNumber()) + ".txt";
}
struct TmpFile
{
  std::string name;
  TmpFile() : name(tmpName())
  {
    ::unlink(name.c_str());
  }
  ~TmpFile()
  {
    ::unlink(name.c_str());
  }
};
static double value(Rng & r)
{
  switch(r.i(0, 6))
  {
    case 0:
      return 0;
    case 1:
      return double(r.i(-999999, 999999)); // exactly printable
    case 2:
      return r.sgn() * r.lg(1e-12, 1e12);
    case 3:
      return double(r.i(-9999, 9999)) / 64.;
    default:
      return r.d(-10, 10);
  }
}
static Mat valueM(Rng & r, long rows, long cols)
{
  Mat m(rows, cols);
  for(long i = 0; i < rows; ++i)
    for(long j = 0; j < cols; ++j) m(i, j) = value(r);
  return m;
}
// printed with (at least) six significant digits
static void same(const Mat & a, const Mat & b, const char * key, const std::string & ctx)
{
  cur->observed();
  if(a.rows() != b.rows() || a.cols() != b.cols())
    fail(key, "size " + str(a.rows()) + "x" + str(a.cols()) + " expected " + str(b.rows()) + "x" + str(b.cols()) + ctx);
  for(Eigen::Index i = 0; i < a.rows(); ++i)
    for(Eigen::Index j = 0; j < a.cols(); ++j)
      if(!(std::fabs(a(i, j) - b(i, j)) <= 5.1e-6 * std::fabs(b(i, j))))
        fail(key, "got " + mstr(a) + " expected " + mstr(b) + ctx);
}

template<typename Arr, typename Val>
static void fileRoundTrip(Ctx & c)
{
  Rng & r = c.r;
  TmpFile f;
  bool vectorMode = Val::ColsAtCompileTime == 1;
  long rows = r.i(1, 7), cols = vectorMode ? 1 : r.i(1, 5);
  Arr a;
  std::map<long, Mat> expect;
  long t = r.i(-30, 3000);
  bool append = r.b(0.5), clear = r.b(0.5);
  if(append && r.b()) // appending keeps what the file contains
  {
  }
  int chunks = int(r.i(1, 4));
  for(int ch = 0; ch < chunks; ++ch)
  {
    long n = r.i(0, 12);
    if(ch == 0) n = r.i(1, 12);
    if(!append) expect.clear();
    for(long i = 0; i < n; ++i)
    {
      Mat v = valueM(r, rows, cols);
      if(a.size() == 0 && ch == 0)
        a.setValue(Val(v), t);
      else
        a.pushBack(Val(v));
    }
    if(append && !clear && ch > 0) break; // would duplicate the lines
    for(long k = a.getFirstIndex(); k < a.getNextIndex(); ++k) expect[k] = a[k];
    long nextBefore = a.getNextIndex(), firstBefore = a.getFirstIndex();
    std::vector<Mat> before;
    for(long k = firstBefore; k < nextBefore; ++k) before.push_back(a[k]);
    if(r.b())
      a.writeInFile(f.name, clear, append);
    else
      a.writeInFile(f.name.c_str(), clear, append);
    count("files_written");
    if(clear)
    {
      eq(long(a.size()), 0L, "write-clear-size");
      eq(long(a.getNextIndex()), nextBefore, "write-clear-next", "the time indexation is conserved by clearing");
    }
    else
    {
      eq(long(a.getNextIndex()), nextBefore, "write-keep");
      eq(long(a.size()), long(before.size()), "write-keep-size");
      if(!before.empty()) eq(long(a.getFirstIndex()), firstBefore, "write-keep-first");
      for(size_t k = 0; k < before.size(); ++k) same(Mat(a[firstBefore + long(k)]), before[k], "write-keep-value", "");
    }
  }
  c.say(str(expect.size()) + " " + str(rows) + "x" + str(cols) + " entries, append=" + str(append) + " clear="
        + str(clear));
  // read back with time stamps
  Arr b;
  if(r.b()) b.setValue(Val(valueM(r, rows, cols)), 5); // reading resets the array
  b.readFromFile(f.name, rows, cols);
  eq(long(b.size()), long(expect.size()), "read-size");
  if(!expect.empty())
  {
    eq(long(b.getFirstIndex()), expect.begin()->first, "read-first");
    for(std::map<long, Mat>::const_iterator it = expect.begin(); it != expect.end(); ++it)
      same(Mat(b[it->first]), it->second, "read-value", " at " + str(it->first));
  }
  if(vectorMode)
  {
    so::IndexedVectorArray d;
    d.readVectorsFromFile(f.name);
    eq(long(d.size()), long(expect.size()), "readvec-size");
    if(!expect.empty()) eq(long(d.getFirstIndex()), expect.begin()->first, "readvec-first");
    for(std::map<long, Mat>::const_iterator it = expect.begin(); it != expect.end(); ++it)
      same(Mat(d[it->first]), it->second, "readvec-value", " at " + str(it->first));
  }
  c.note(uint64_t(rows * 100 + cols));
  c.note(uint64_t(expect.size()));
  if(!expect.empty()) c.note(expect.begin()->second);
  c.nontrivial = !expect.empty();
}
SUITE(vector_file_roundtrip, 800, 15000)
{
  fileRoundTrip<so::IndexedVectorArray, so::Vector>(c);
}
SUITE(matrix_file_roundtrip, 800, 15000)
{
  fileRoundTrip<so::IndexedMatrixArray, so::Matrix>(c);
}

// files made of bare rows (no time stamp): times count from zero, nothing is added or lost
SUITE(unstamped_files, 800, 15000)
{
  Rng & r = c.r;
  TmpFile f;
  long n = r.i(0, 12), rows = r.i(1, 5), cols = r.i(1, 3);
  bool trailingNewline = r.b(0.7);
  std::vector<Mat> e;
  {
    std::ofstream o(f.name.c_str());
    o.precision(17);
    for(long i = 0; i < n; ++i)
    {
      Mat m = valueM(r, rows, cols);
      e.push_back(m);
      for(long a = 0; a < rows; ++a)
        for(long b = 0; b < cols; ++b) o << (a + b ? " " : "") << m(a, b);
      if(i + 1 < n || trailingNewline) o << "\n";
    }
  }
  so::IndexedMatrixArray a;
  a.readFromFile(f.name, rows, cols, false);
  eq(long(a.size()), n, "unstamped-size", "rows " + str(rows) + " cols " + str(cols));
  for(long i = 0; i < n; ++i) same(a[i], e[size_t(i)], "unstamped-value", "");
  if(n) eq(long(a.getFirstIndex()), 0L, "unstamped-first");
  if(trailingNewline)
  {
    so::IndexedVectorArray v;
    v.readVectorsFromFile(f.name, false);
    eq(long(v.size()), n, "unstamped-vectors-size");
    for(long i = 0; i < n; ++i)
    {
      Mat row(rows * cols, 1);
      for(long p = 0; p < rows; ++p)
        for(long q = 0; q < cols; ++q) row(p * cols + q, 0) = e[size_t(i)](p, q);
      same(Mat(v[i]), row, "unstamped-vectors-value", "");
    }
  }
  c.note(uint64_t(n));
  if(n) c.note(e[0]);
  c.nontrivial = n > 0;
  // a file that cannot be created is reported, the data are kept
  so::IndexedVectorArray w;
  w.setValue(Vec::Ones(2), 3);
  bool thrown = false;
  try
  {
    w.writeInFile(f.name + "/not/a/dir", true);
  }
  catch(const std::runtime_error &)
  {
    thrown = true;
  }
  ok(thrown, "unwritable-reported");
  eq(long(w.size()), 1L, "unwritable-keeps-data");
}

SUITE(string_conversions, 1500, 30000)
{
  Rng & r = c.r;
  long rows = r.i(1, 6), cols = r.i(1, 6);
  Mat m = valueM(r, rows, cols);
  std::string s = so::tools::matrixToString(m);
  same(so::tools::stringToMatrix(s, rows, cols), m, "matrix-string", " text: " + s);
  Vec v = valueM(r, r.i(1, 9), 1);
  s = so::tools::vectorToString(v);
  ok(s.find('\n') == std::string::npos, "vector-one-line");
  same(so::tools::stringToVector(s, v.size()), v, "vector-string", " text: " + s);
  same(so::tools::stringToVector(s), v, "vector-string-auto", " text: " + s);
  // free-format texts
  std::ostringstream o;
  o.precision(17);
  for(Eigen::Index i = 0; i < v.size(); ++i) o << (r.b() ? " " : (r.b() ? "\t" : "\n")) << v(i);
  if(r.b()) o << " ";
  same(so::tools::stringToVector(o.str()), v, "free-text-vector", "");
  eq(long(so::tools::stringToVector("").size()), 0L, "empty-text");
  c.note(m);
  c.nontrivial = true;
}
