// The macros of the performance monitor for debugging in released code.
#undef _IC_DEBUG_
#define IC_PERFORMANCE_MONITOR
#include <icl_core_performance_monitor/PerformanceMonitor.h>
void perfRelease(const char *t, const char *d, const char *p)
{
  PERF_MON_PRINT_DEBUG(t, d);
  PERF_MON_PRINT_DEBUG_P(t, d, p);
  PERF_MON_PRINT_TRACE(t, d);
  PERF_MON_PRINT_TRACE_P(t, d, p);
  PERF_MON_PRINT_AND_RESET_DEBUG(t, d);
  PERF_MON_PRINT_AND_RESET_DEBUG_P(t, d, p);
  PERF_MON_PRINT_AND_RESET_TRACE(t, d);
  PERF_MON_PRINT_AND_RESET_TRACE_P(t, d, p);
  PERF_MON_SUMMARY_DEBUG(p, d);
  PERF_MON_SUMMARY_TRACE(p, d);
  PERF_MON_SUMMARY_PREFIX_DEBUG(p);
  PERF_MON_SUMMARY_PREFIX_TRACE(p);
  PERF_MON_SUMMARY_ALL_DEBUG;
  PERF_MON_SUMMARY_ALL_TRACE;
}
