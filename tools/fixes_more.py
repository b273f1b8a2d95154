MAP = [
 ("a ConfigList read again", "C13"),
]
MAP += [
 ("an observer unregistered or deleted", "C14"),
]
MAP += [
 ("SpinLock::tryLock", "C19"),
 ("a thread that had finished by itself", "C23"),
 ("Thread::wait could return false", "C23"),
 ("a cancelled thread left its mutex", "C23"),
 ("a periodic thread that was destroyed", "C24"),
 ("every start of a periodic thread", "C24"),
 ("PeriodicThread::setPeriod reported", "C24"),
 ("an active object that was destroyed", "C25"),
 ("an operation queued while an active object", "C25"),
 ("operations were added to a periodic dispatch", "C26"),
]
MAP += [
 ("a log output thread that had finished", "C28"),
 ("names of a log entry's file", "C28"),
 ("text of a log message could be merged", "C28"),
 ("a log message was lost when a signal", "C28"),
 ("text of a time stamp could be that", "C28"),
]
MAP += [
 ("a log format that ends within", "C29"),
 ("texts of 100 and more characters", "C29"),
 ("names of a log message which were too long", "C30"),
 ("logging a large floating point", "C30"),
 ("log streams were used after they had been deleted", "C27"),
 ("a log stream or output without a configured", "C27"),
 ("setLogLevel left the level", "C27"),
 ("the LLOGGING macros", "C27"),
 ("a second initialization of logging", "C27"),
 ("log messages to stdout were lost", "C27"),
]
MAP += [
 ("nothing was logged to a file any more", "C31"),
 ("a zipped log file that was rotated at the start", "C31"),
]
MAP += [
 ("quotes in a message sent by the UDP log output", "C32"),
 ("large line numbers were wrong in the SQLite", "C33"),
]
MAP += [
 ("a plugin manager was used after it had been deleted", "C34"),
 ("deleting a plugin manager used a deleted identifier", "C34"),
 ("a file as a plugin path or a broken link", "C34"),
 ("asking for an unknown plugin added it", "C34"),
 ("a plugin that could not be instantiated", "C34"),
 ("a file that cannot be loaded was taken for the plugin", "C34"),
 ("the summary of an unknown event", "C35"),
 ("PERF_MON_SUMMARY_ALL_DEBUG and _TRACE", "C35"),
 ("the summary of everything left out prefixes", "C35"),
 ("a disabled performance monitor recorded", "C35"),
 ("long summaries of the performance monitor", "C35"),
 ("deprecated spellings of the bit field helpers", "C38"),
]
