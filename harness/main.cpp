// Driver shared by all the monitors.
#include "common.hpp"
#include <algorithm>
#include <atomic>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <valgrind/memcheck.h>

namespace vmon
{
thread_local Ctx * cur = 0;
thread_local std::map<std::string, long> counters;
uint64_t theSeed = 1;
long uniqueNumber()
{
  static std::atomic<long> n(0);
  return n++;
}
static uint64_t nameHash(const char * p)
{
  uint64_t sh = 1469598103934665603ULL;
  for(; *p; ++p) sh = (sh ^ uint64_t(*p)) * 1099511628211ULL;
  return sh;
}
Outcome runCase(const Suite & s, Ctx & c, uint64_t seed, long k)
{
  Outcome o;
  c.r = Rng(Rng::mix(Rng::mix(seed) ^ nameHash(s.name)) ^ Rng::mix(uint64_t(k) * 2 + 1));
  cur = &c;
  try
  {
    s.fn(c);
  }
  catch(const Fail & f)
  {
    o.key = f.key;
    o.msg = f.msg;
  }
  catch(const AssertionFired & a)
  {
    o.key = "assertion";
    o.msg = std::string("library assertion fired on a valid use: ") + a.what();
  }
  catch(const std::exception & e)
  {
    o.key = "exception";
    o.msg = std::string("unexpected exception: ") + e.what();
  }
  catch(...)
  {
    o.key = "exception";
    o.msg = "unexpected exception of unknown type";
  }
  return o;
}
std::vector<Suite> & suites()
{
  static std::vector<Suite> s;
  return s;
}
void assertionFired(const char * expr, const char * func, const char * file, long line)
{
  (void)line;
  const char * b = std::strrchr(file, '/');
  throw AssertionFired(std::string(func) + "@" + (b ? b + 1 : file) + ": " + std::string(expr).substr(0, 200));
}
static char statusPath[512] = "";
static char curName[128] = "";
static long curCase = -1;
static void report(const char * kind)
{
  char buf[400];
  int n = std::snprintf(buf, sizeof(buf), "%s %s %ld\n", kind, curName, curCase);
  int fd = ::open(statusPath, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if(fd >= 0)
  {
    ssize_t w = ::write(fd, buf, size_t(n));
    (void)w;
    ::close(fd);
  }
}
static bool reported = false;
static void onSignal(int s)
{
  if(!reported)
  {
    reported = true;
    report(s == SIGVTALRM ? "hang" : "crash");
  }
  _exit(s == SIGVTALRM ? 78 : 77);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void onDeath()
{
  if(!reported)
  {
    reported = true;
    report("sanitizer");
  }
}
} // namespace vmon

#if !defined(NDEBUG)
namespace boost
{
void assertion_failed(char const * expr, char const * function, char const * file, long line)
{
  vmon::assertionFired(expr, function, file, line);
}
void assertion_failed_msg(char const * expr, char const *, char const * function, char const * file, long line)
{
  vmon::assertionFired(expr, function, file, line);
}
} // namespace boost
#endif

static std::string esc(const std::string & s)
{
  std::string o;
  for(size_t i = 0; i < s.size(); ++i)
  {
    unsigned char ch = (unsigned char)(s[i]);
    if(ch == '"' || ch == '\\')
    {
      o += '\\';
      o += char(ch);
    }
    else if(ch == '\n')
      o += "\\n";
    else if(ch < 32 || ch > 126)
      o += '?';
    else
      o += char(ch);
  }
  return o;
}

int main(int argc, char ** argv)
{
  using namespace vmon;
  uint64_t seed = 1;
  long shard = 0, nshards = 1, onlyCase = -1, limitCpu = 60;
  double factor = 1;
  std::string tier = "quick", out = "/dev/null", only, prefix, hashes = "/dev/null";
  bool release = false, memory = false;
  long least = 1, most = std::numeric_limits<long>::max();
  for(int i = 1; i + 1 < argc; i += 2)
  {
    std::string a = argv[i], v = argv[i + 1];
    if(a == "--seed")
      seed = std::strtoull(v.c_str(), 0, 10);
    else if(a == "--shard")
      shard = std::atol(v.c_str());
    else if(a == "--nshards")
      nshards = std::atol(v.c_str());
    else if(a == "--tier")
      tier = v;
    else if(a == "--out")
      out = v;
    else if(a == "--hashes")
      hashes = v;
    else if(a == "--suite")
      only = v;
    else if(a == "--case")
      onlyCase = std::atol(v.c_str());
    else if(a == "--cpu")
      limitCpu = std::atol(v.c_str());
    else if(a == "--factor")
      factor = std::atof(v.c_str());
    else if(a == "--release")
      release = (v == "1");
    else if(a == "--memory")
      memory = (v == "1");
    else if(a == "--least")
      least = std::atol(v.c_str());
    else if(a == "--most")
      most = std::atol(v.c_str());
    else if(a == "--prefix")
      prefix = v;
    else if(a == "--status")
      std::snprintf(statusPath, sizeof(statusPath), "%s", v.c_str());
  }
  theSeed = seed;
  std::signal(SIGABRT, onSignal);
  std::signal(SIGVTALRM, onSignal);
  if(!__sanitizer_set_death_callback)
  {
    std::signal(SIGSEGV, onSignal);
    std::signal(SIGBUS, onSignal);
    std::signal(SIGFPE, onSignal);
    std::signal(SIGILL, onSignal);
  }
  else
    __sanitizer_set_death_callback(&onDeath);

  std::ofstream res(out.c_str());
  std::unordered_set<uint64_t> distinct;
  long evals = 0, nontriv = 0, events = 0, viol = 0;
  std::map<std::string, long> perSuite;
  std::vector<std::string> samples;
  std::set<std::string> seenKeys;
  for(size_t si = 0; si < suites().size(); ++si)
  {
    const Suite & s = suites()[si];
    if(!only.empty() && only != s.name) continue;
    if(!prefix.empty() && std::string(s.name).compare(0, prefix.size(), prefix) != 0) continue;
    long n = tier == "thorough" ? s.thorough : s.quick;
    n = long(double(n) * factor * (release ? s.releaseFactor : 1.));
    n = std::min(std::max(n, least), most);
    long perKey = 0;
    for(long k = 0; k < n || onlyCase >= 0; ++k)
    {
      if(onlyCase >= 0)
        k = onlyCase;
      else if(k % nshards != shard)
        continue;
      Ctx c;
      uint64_t sh = nameHash(s.name);
      c.thorough = tier == "thorough";
      c.wantDesc = (onlyCase >= 0) || (shard == 0 && k == 0);
      std::snprintf(curName, sizeof(curName), "%s", s.name);
      curCase = k;
      struct itimerval tv;
      tv.it_interval.tv_sec = 0;
      tv.it_interval.tv_usec = 0;
      tv.it_value.tv_sec = limitCpu;
      tv.it_value.tv_usec = 0;
      setitimer(ITIMER_VIRTUAL, &tv, 0);
      const unsigned long errors = VALGRIND_COUNT_ERRORS;
      Outcome oc = runCase(s, c, seed, k);
      std::string & key = oc.key;
      std::string & msg = oc.msg;
      // only the memory guarantees are judged: the comparisons of the other properties just use the values
      if(memory && !key.empty() && key != "assertion" && key.compare(0, 4, "mem-") != 0)
      {
        count("comparisons-not-judged-here");
        key.clear();
      }
      if(VALGRIND_COUNT_ERRORS > errors)
      {
        key = "memcheck";
        msg = "valgrind memcheck reported errors during this case";
      }
      ++evals;
      ++perSuite[s.name];
      events += c.events;
      if(c.nontrivial)
      {
        ++nontriv;
        distinct.insert(c.h ^ sh);
      }
      if(c.wantDesc)
        samples.push_back("{\"suite\":\"" + std::string(s.name) + "\",\"case\":" + str(k) + ",\"observations\":"
                          + str(c.events) + ",\"inputs\":\"" + esc(c.inputs) + "\",\"events\":\"" + esc(c.trail)
                          + "\",\"observed\":\"" + esc(c.desc) + "\"}");
      if(!key.empty())
      {
        ++viol;
        std::string fk = std::string(s.name) + "/" + key;
        if(seenKeys.insert(fk).second || onlyCase >= 0)
        {
          res << "{\"type\":\"violation\",\"suite\":\"" << s.name << "\",\"case\":" << k << ",\"key\":\"" << esc(fk)
              << "\",\"msg\":\"" << esc(msg.substr(0, 3000)) << "\"}\n";
          res.flush();
          if(onlyCase >= 0)
            std::cout << "case " << s.name << "#" << k << ": " << fk << ": " << msg << "\n" << c.desc << std::endl;
        }
        if(++perKey > 200) break; // enough witnesses for this suite
      }
      else if(onlyCase >= 0)
        std::cout << "case " << s.name << "#" << k << ": held (" << c.events << " observations)\n"
                  << c.desc << std::endl;
      if(onlyCase >= 0) break;
    }
  }
  std::ofstream hf(hashes.c_str(), std::ios::binary);
  for(std::unordered_set<uint64_t>::const_iterator it = distinct.begin(); it != distinct.end(); ++it)
    hf.write(reinterpret_cast<const char *>(&*it), 8);
  res << "{\"type\":\"stats\",\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv << ",\"events\":" << events
      << ",\"violations\":" << viol << ",\"suites\":{";
  bool first = true;
  for(std::map<std::string, long>::const_iterator it = perSuite.begin(); it != perSuite.end(); ++it)
  {
    res << (first ? "" : ",") << "\"" << it->first << "\":" << it->second;
    first = false;
  }
  res << "},\"counters\":{";
  first = true;
  for(std::map<std::string, long>::const_iterator it = counters.begin(); it != counters.end(); ++it)
  {
    res << (first ? "" : ",") << "\"" << esc(it->first) << "\":" << it->second;
    first = false;
  }
  res << "},\"samples\":[";
  for(size_t i = 0; i < samples.size(); ++i) res << (i ? "," : "") << samples[i];
  res << "]}\n";
  res.close();
  return viol ? 1 : 0;
}
