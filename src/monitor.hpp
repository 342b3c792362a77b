// Force-included into every translation unit of /repo's library and of the harnesses.
// Turns the library's own run-time assertions (Boost, Eigen) into catchable exceptions and fills
// uninitialised Eigen storage with NaN so that reading it becomes observable.
#pragma once
#include <stdexcept>
#include <string>
namespace mcmon
{
struct AssertFailure : std::runtime_error
{
  using std::runtime_error::runtime_error;
};
[[noreturn]] inline void fail(const char * e, const char * f, long l)
{
  throw AssertFailure(std::string("assertion failed at ") + f + ":" + std::to_string(l) + ": " + e);
}
} // namespace mcmon
#define eigen_assert(x)                                          \
  do                                                             \
  {                                                              \
    if(!(x)) ::mcmon::fail("eigen: " #x, __FILE__, __LINE__);    \
  } while(false)
#ifndef MC_NO_NAN_INIT
#define EIGEN_INITIALIZE_MATRICES_BY_NAN
#endif
#define BOOST_ENABLE_ASSERT_HANDLER
#include <boost/assert.hpp>
namespace boost
{
inline void assertion_failed(char const * e, char const *, char const * f, long l)
{
  ::mcmon::fail(e, f, l);
}
inline void assertion_failed_msg(char const * e, char const *, char const *, char const * f, long l)
{
  ::mcmon::fail(e, f, l);
}
} // namespace boost
