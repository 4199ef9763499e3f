// Force-included in every translation unit (library and harness) of the monitored builds.
// In assert-enabled builds, Boost and Eigen run-time assertions become exceptions that the monitor sees as
// observed violations (an assertion firing on a valid use is an observable abort for a user of the Debug library).
#pragma once
#include <exception>
#include <string>
namespace vmon
{
struct AssertionFired : public std::exception
{
  std::string msg;
  explicit AssertionFired(const std::string & m) : msg(m) {}
  virtual ~AssertionFired() noexcept {}
  virtual const char * what() const noexcept
  {
    return msg.c_str();
  }
};
void assertionFired(const char * expr, const char * func, const char * file, long line); // throws
} // namespace vmon
#if !defined(NDEBUG)
#  define BOOST_ENABLE_ASSERT_HANDLER
#  define eigen_assert(x)                                                        \
    do                                                                           \
    {                                                                            \
      if(!(x)) ::vmon::assertionFired(#x, __func__, __FILE__, __LINE__);          \
    } while(false)
#endif
