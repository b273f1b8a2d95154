// Compiled as released code: without debug messages and local logging.
#undef _IC_DEBUG_
#undef ICL_CORE_LOCAL_LOGGING
#include <icl_core_logging/Logging.h>
DECLARE_LOG_STREAM(Alpha)
static bool Debug() { return true; }
static int arg(int id) { return id; }
#define TEXT "m" << arg(id) << icl_core::logging::endl
#define ALL(F, S)                                                                                  \
  switch (level)                                                                                   \
  {                                                                                                \
  case 0: F##_TRACE(S, TEXT); break;                                                               \
  case 1: F##_DEBUG(S, TEXT); break;                                                               \
  case 2: F##_INFO(S, TEXT); break;                                                                \
  case 3: F##_WARNING(S, TEXT); break;                                                             \
  default: F##_ERROR(S, TEXT); break;                                                              \
  }
void releaseLog(int family, int level, int id)
{
  icl_core::logging::LogStream &s = Alpha::instance();
  (void)s;
  switch (family)
  {
  case 0: ALL(LOGGING, Alpha) break;
  case 1: ALL(SLOGGING, s) break;
  case 2: ALL(MLOGGING, Alpha) break;
  default: ALL(LLOGGING, Alpha) break;
  }
}
