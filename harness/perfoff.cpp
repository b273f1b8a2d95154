// The macros of the performance monitor when it is not compiled in.
#undef IC_PERFORMANCE_MONITOR
#include <icl_core_performance_monitor/PerformanceMonitor.h>
void perfOff(const char *t, const char *d, const char *p, double v)
{
  PERF_MON_INITIALIZE(3, 3);
  PERF_MON_START(t);
  PERF_MON_ENABLE(p);
  PERF_MON_DISABLE(p);
  PERF_MON_ENABLE_ALL(true);
  PERF_MON_PRINT_INFO(t, d);
  PERF_MON_PRINT_INFO_P(t, d, p);
  PERF_MON_PRINT_DEBUG(t, d);
  PERF_MON_PRINT_DEBUG_P(t, d, p);
  PERF_MON_PRINT_TRACE(t, d);
  PERF_MON_PRINT_TRACE_P(t, d, p);
  PERF_MON_PRINT_AND_RESET_INFO(t, d);
  PERF_MON_PRINT_AND_RESET_INFO_P(t, d, p);
  PERF_MON_PRINT_AND_RESET_DEBUG(t, d);
  PERF_MON_PRINT_AND_RESET_DEBUG_P(t, d, p);
  PERF_MON_PRINT_AND_RESET_TRACE(t, d);
  PERF_MON_PRINT_AND_RESET_TRACE_P(t, d, p);
  PERF_MON_ADD_STATIC_DATA(d, v);
  PERF_MON_ADD_STATIC_DATA_P(d, v, p);
  PERF_MON_ADD_DATA(d, v);
  PERF_MON_ADD_DATA_P(d, v, p);
  PERF_MON_ADD_DATA_NONTIME(d, v);
  PERF_MON_ADD_DATA_NONTIME_P(d, v, p);
  PERF_MON_SUMMARY_INFO(p, d);
  PERF_MON_SUMMARY_DEBUG(p, d);
  PERF_MON_SUMMARY_TRACE(p, d);
  PERF_MON_SUMMARY_PREFIX_INFO(p);
  PERF_MON_SUMMARY_PREFIX_DEBUG(p);
  PERF_MON_SUMMARY_PREFIX_TRACE(p);
  PERF_MON_SUMMARY_ALL_INFO;
  PERF_MON_SUMMARY_ALL_DEBUG;
  PERF_MON_SUMMARY_ALL_TRACE;
}
