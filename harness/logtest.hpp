// Outputs that keep what reaches them, for the checks of the logging module.
#ifndef LOGTEST_HPP
#define LOGTEST_HPP
#include "vp.hpp"
#include <icl_core_config/Config.h>
#include <icl_core_logging/LogOutputStream.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/ThreadStream.h>

namespace vp {

//! The logging framework without any output, whose streams a check makes itself.
inline void initLogging()
{
  static bool done = false;
  if (done)
    return;
  done = true;
  icl_core::config::ConfigManager::instance().setValue<icl_core::String>("/IclCore/Logging/OutputStream0/OutputStreamName", "NoSuchOutput");
  icl_core::logging::initialize();
}

//! Keeps formatted lines.
struct LineOutput : public icl_core::logging::LogOutputStream
{
  std::vector<std::string> lines;
  explicit LineOutput(const std::string &name = "lines", icl_core::logging::LogLevel level = icl_core::logging::eLL_TRACE, bool worker = false,
                      const std::string &prefix = "/IclCore/Logging/none")
    : LogOutputStream(name, prefix, level, worker) {}
  void pushImpl(const icl_core::String &line) override { lines.push_back(line); }
};

struct Record
{
  int level = -1;
  std::string stream, file, cls, obj, fun, text;
  size_t line = 0;
};
//! Keeps the fields of messages.
struct RecordOutput : public icl_core::logging::LogOutputStream
{
  std::vector<Record> records;
  explicit RecordOutput(const std::string &name = "records", icl_core::logging::LogLevel level = icl_core::logging::eLL_TRACE, bool worker = false,
                        const std::string &prefix = "/IclCore/Logging/none")
    : LogOutputStream(name, prefix, level, worker) {}
  void pushImpl(const icl_core::String &) override {}
  void pushImpl(const LogMessage &m) override
  {
    Record r;
    r.level = m.log_level;
    r.stream = m.log_stream;
    r.file = m.filename;
    r.cls = m.class_name;
    r.obj = m.object_name;
    r.fun = m.function_name;
    r.text = m.message_text;
    r.line = m.line;
    records.push_back(r);
  }
};

} // namespace vp
#endif
