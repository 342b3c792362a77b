// C06: filters and estimators are independent values; reset means fresh.
#include "filtertypes.hpp"
using namespace stateObservation;
using namespace indep;
using namespace filters;

namespace
{
#define TYPE(T)                     \
  MC_SUITE(interleaved_##T, 3)      \
  {                                 \
    interleaved<T>(c);              \
  }                                 \
  MC_SUITE(copied_##T, 3)           \
  {                                 \
    copied<T>(c);                   \
  }                                 \
  MC_SUITE(reset_##T, 3)            \
  {                                 \
    resetted<T>(c);                 \
  }
TYPE(LKF)
TYPE(EKF)
TYPE(DCM)
TYPE(DCM1)
TYPE(Tilt)
} // namespace
MC_MAIN()
