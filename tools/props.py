"""The properties and what decides them: the one source of properties.jsonl and MANIFEST.json.
Run tools/gen_meta.py after a change."""
C = "src/icl_core/src/icl_core/"
G = "src/icl_core/src/icl_core_config/"
L = "src/icl_core/src/icl_core_logging/"
T = "src/icl_core/src/icl_core_thread/"
P = "src/icl_core/src/icl_core_plugin/"
D = "src/icl_core/src/icl_core_dispatch/"
M = "src/icl_core/src/icl_core_performance_monitor/"
Y = "src/icl_core/src/icl_core_crypt/"

PROPS = []


def prop(id, title, statement, over, quant, tests, files, mech, observe, technique, note, hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files,
                      mech=mech, observe=observe, technique=technique, note=note, hook=hook))


prop("C01", "Time spans and time stamps are exact, normalised nanosecond numbers",
     "Every time span and time stamp denotes an exact number of nanoseconds: construction from unnormalised parts, addition, subtraction, "
     "negation, abs and conversion between units give exactly that number (conversions to coarser units truncate towards zero), as long as it is "
     "representable. Seconds and nanoseconds of a result never have different signs and the nanoseconds stay below one second in magnitude. "
     "The six comparison operators order values exactly as their numbers, and (t + s) - s == t.",
     ["inputs"], "all second and nanosecond pairs and unit counts within the representable range, including unnormalised and negative ones",
     "The tests use a few positive spans; carries, borrows, mixed signs and extreme values are an unbounded input space.",
     [C + "TimeBase.h", C + "TimeBase.cpp", C + "TimeSpan.h", C + "TimeSpan.cpp", C + "TimeStamp.h", C + "TimeStamp.cpp"],
     [("normalizeTime", C + "TimeBase.cpp"), ("operators of TimeSpan and TimeStamp", C + "TimeSpan.h")],
     ["tsSec/tsNSec", "comparison operators", "toMSec/toUSec/toNSec", "timespec()"],
     "property-based testing against a 128 bit nanosecond reference", "random and boundary-weighted values; three parts: pairs of spans, unit conversion, stamps")
prop("C02", "Scaling a time span is proportional and its text denotes its value",
     "Multiplying or dividing a time span by a number gives the exact product or quotient within the precision of a double, and a normalised span. "
     "The text printed for a span, such as 1h2m3s4ms5us6ns with one leading minus sign for negative spans, always denotes exactly the span's value.",
     ["inputs"], "all spans of up to 55 bit seconds, both signs, and all finite non-zero factors with a representable result",
     "The tests print and scale a handful of spans.",
     [C + "TimeSpan.h", C + "TimeSpan.cpp"], [("operator* and operator/", C + "TimeSpan.h"), ("operator<<", C + "TimeSpan.cpp")],
     ["results of the operators", "streamed text"],
     "property-based testing: exact arithmetic oracle, and parsing the printed text back", "scaled values are compared with a stated tolerance (2 ns plus double precision)")
prop("C03", "Calendar texts and boost time points name the same instant as the time stamp",
     "The ISO 8601 texts and strftime formats of a time stamp, in UTC and in local time, name the date and time of its instant in the Gregorian calendar. "
     "Reading a basic ISO 8601 UTC text, complete or cut off after any of its fields, gives the instant it names, so that formatting and reading are "
     "inverse. A time stamp made from or assigned a boost time point is the same instant to the microsecond.",
     ["inputs", "configurations"], "all instants from 1901 to 2038 (texts), 1970 to 9999 (reading), +-475 years (boost); eight time zones with and without daylight saving",
     "The tests format one or two instants in the zone of the machine.",
     [C + "TimeStamp.h", C + "TimeStamp.cpp", C + "os_posix_time.h"], [("fromIso8601BasicUTC, formatIso8601*, strfTime, TimeStamp(ptime)", C + "TimeStamp.cpp")],
     ["formatted strings", "tsSec/tsNSec"],
     "property-based testing against an independent civil calendar; round trip", "libc localtime_r is trusted for local time")
prop("C04", "A ring buffer is a bounded queue under every history of operations",
     "After any history of writes, overwriting writes, reads, skips, clears, direct fills, capacity changes, copies and assignments a ring buffer holds exactly the "
     "elements a bounded FIFO queue would hold, in order, and every view (at, front, iterators, array views, size, reserve) agrees. "
     "Writing when full, reading or skipping when empty and access beyond the end throw and change nothing.",
     ["histories"], "all operation histories on buffers of capacity 0 to 8, including wrap-around at every offset",
     "The tests run a few fixed sequences; errors show only at particular read/write offsets and capacity changes.",
     [C + "RingBuffer.h", C + "RingBuffer.hpp"], [("RingBuffer", C + "RingBuffer.hpp")], ["all public observers of RingBuffer"],
     "stateful model-based testing against std::deque", "capacities 0 to 8, histories of up to 60 operations")
prop("C05", "Union-find represents exactly the partition made by the merges so far",
     "After any history of merge, grow and find, two elements have the same representative exactly if a chain of merges connects them, the representative is a member of its own "
     "set, and elements that were added by growing are sets of their own. Indices out of range are refused with an exception and change nothing.",
     ["histories"], "all histories of merge, grow and find on up to about 60 elements",
     "The tests use one fixed sequence of merges.",
     [C + "UnionFind.h"], [("find, merge, grow", C + "UnionFind.h")], ["find", "size", "exceptions"],
     "stateful model-based testing against an explicit partition", "")
prop("C06", "Sequence numbers stay in range and keep their order across the wrap",
     "Incrementing a sequence number gives the next value and restarts at the minimum after the largest one, so that it never leaves its range. "
     "Of two numbers less than half the range apart in counting order the earlier one compares as smaller, also across the wrap, and exactly one of <, == and > holds.",
     ["inputs", "histories"], "all start values of 8 to 64 bit instantiations with and without minimum and initial values, distances below half the range",
     "The tests check single values; the wrap and the half-range boundary of offset ranges are not reached.",
     [C + "SequenceNumber.h"], [("operator++ and comparison", C + "SequenceNumber.h")], ["comparison operators", "conversion to the number"],
     "property-based testing against counting with 128 bit integers", "numbers half the range or more apart have no defined order and are not judged")
prop("C07", "Key/value directories and enum name tables find exactly what they hold",
     "A key/value directory returns for each key the value stored last, and a regular expression query walks over exactly the keys that match as a whole, in order, once, with the correct "
     "value and match groups, also if entries are inserted while queries are open. An enum name lookup succeeds exactly if the name is in the table, "
     "gives its position (or the value assigned to it) and leaves the result alone otherwise.",
     ["histories", "inputs"], "all histories of insertions, lookups and interleaved queries; all name tables and names",
     "The tests query one small directory with a few expressions.",
     [C + "KeyValueDirectory.h", C + "KeyValueDirectory.hpp", C + "EnumHelper.h", C + "EnumHelper.cpp"],
     [("find, KeyValueDirectoryIterator::next", C + "KeyValueDirectory.hpp"), ("string2Enum", C + "EnumHelper.cpp")], ["get, hasKey, insert", "iterator key, value, matchGroup", "string2Enum"],
     "stateful model-based testing against std::map and std::regex", "")
prop("C08", "String helpers do what they say for every text",
     "split and join are inverse for every text and delimiter, trim removes exactly the white space at both ends, padding reaches exactly the asked width on the asked side and never cuts, and the case "
     "conversions change exactly the ASCII letters. Numbers are written in full (integers exactly, floating point numbers with all their reliable digits), and formatting into a buffer never writes beyond its end.",
     ["inputs"], "all texts and delimiters, including empty ones and delimiters at the ends or overlapping",
     "There are tests for few fixed strings.",
     [C + "StringHelper.h", C + "StringHelper.cpp", C + "os_posix_string.h"], [("split, join, trim, padLeft, padRight, toLower, toUpper", C + "StringHelper.h")], ["returned strings"],
     "property-based testing against independent implementations; round trips", "")
prop("C09", "The scheme parser accepts exactly the documented grammar and returns all parts",
     "A resource text is accepted exactly if it follows the documented grammar scheme://specifier#anchor?key=value&..., and scheme, specifier, anchor and queries are returned exactly as written. "
     "Every result depends on the text alone, not on texts the same parser handled before, and printing an accepted scheme without anchor or without queries gives its text back.",
     ["inputs", "histories"], "all texts over the grammar's alphabet, well formed and mutated, and all sequences of texts on one parser",
     "The tests parse about ten fixed texts with fresh parsers.",
     [C + "SchemeParser.h", C + "SchemeParser.cpp"], [("SchemeGrammar and semantic actions", C + "SchemeParser.h")], ["parseScheme results and Scheme fields"],
     "grammar-based generation and differential testing against an independent recogniser", "")
prop("C10", "Small containers, set relations and bit fields follow their definitions",
     "A two-dimensional array keeps width*height cells addressed row by row under reshaping, copying and swapping; a searchable stack is a stack whose find works on all its elements; a depth buffer keeps per cell "
     "the best value by its order. Set relations equal the mathematical relation of the two sets, and setting, clearing and testing bits affects exactly the named bits for every integer width.",
     ["histories", "inputs"], "all operation histories on small containers; all pairs of subsets of small universes; all bit fields of 8 to 64 bit",
     "The tests cover single calls on fixed content.",
     [C + "Array2D.h", C + "SearchableStack.h", C + "ZBuffer.h", C + "SetHelper.h", C + "BitfieldHelper.h"],
     [("container operations", C + "Array2D.h"), ("setRelation", C + "SetHelper.h"), ("bit helpers", C + "BitfieldHelper.h")], ["public observers"],
     "stateful model-based testing against plain models", "")
prop("C11", "The command line is split into options, parameters and positionals as documented",
     "For every set of registered options and every command line, recognised options, their values, prefix options, positional parameters, extra parameters and the arguments after the delimiter are reported exactly as "
     "documented, in order, each argument once. Parsing fails exactly on an unknown option (in strict mode), a missing value or a missing mandatory positional parameter, and cleanup removes exactly the arguments that were used.",
     ["inputs", "configurations"], "all registrations of short, long, valueless and prefix options and positionals, and all argument vectors",
     "The tests have no case for the parser at all; the option space is combinatorial.",
     [G + "GetoptParser.h", G + "GetoptParser.cpp", G + "GetoptParameter.cpp", G + "GetoptPositionalParameter.cpp"], [("GetoptParser::initialize", G + "GetoptParser.cpp")], ["paramOpt, paramNonOpt, paramOptPresent", "argc/argv after cleanup", "result of initialize"],
     "property-based testing against a reference parser written from the documentation", "one process per case since the parser is a singleton")
prop("C12", "Configuration values come from the right source",
     "After initialisation every configuration key has the value of its strongest source: configuration file with its includes (XML or attribute tree), then options and positional parameters bound to a key, then overriding options; "
     "a default applies only where no source gives a value. Included files are found relative to the including one, an unreadable file makes the initialisation fail with a message, and the dump shows exactly the keys and values. "
     "Values set or files loaded later replace exactly the named keys.",
     ["inputs", "configurations", "histories"], "all sets of XML and tree files with nested elements, comments and includes, all bindings of options to keys with defaults, and all later changes",
     "The tests set single keys by hand; files, includes and precedence are not covered.",
     [G + "ConfigManager.h", G + "ConfigManager.cpp", G + "Config.h", G + "Config.cpp", G + "ConfigParameter.cpp", G + "ConfigPositionalParameter.cpp", G + "ConfigIterator.cpp"],
     [("ConfigManager::initialize, load, readXml, readAttributeTree", G + "ConfigManager.cpp")], ["get, find, dump, result of initialize"],
     "property-based testing against a reference model of the sources", "one process per case since the configuration is a singleton")
prop("C13", "Typed configuration reads succeed exactly for well-formed present values",
     "Reading a key as a type gives its value exactly if the key is there and its text is well formed for the type (numbers in range, hexadecimal numbers, booleans, enumeration names), and otherwise reports failure and leaves the target or gives the default. "
     "A batch of values, enumerations, lists and prefixed parts fills every target with what the single reads give, applies the defaults of the entries that have one, and succeeds exactly if all the others could be read.",
     ["inputs", "configurations"], "all texts near the syntax of each type, all batches of up to some dozens of entries with lists and suffixes",
     "The tests read a few well-formed values.",
     [G + "Config.h", G + "Config.cpp", G + "ConfigValue.h", G + "ConfigValueDefault.h", G + "ConfigEnum.h", G + "ConfigEnumDefault.h", G + "ConfigList.h", G + "ConfigValues.h", G + "ConfigManager.h",
      G + "MemberValue.h", G + "MemberEnum.h", G + "Util.h", C + "EnumHelper.h"],
     [("impl::hexical_cast", G + "Util.h"), ("ConfigList", G + "ConfigList.h")], ["results and targets of get and getDefault"],
     "property-based testing against reference conversions and a model of batches", "")
prop("C14", "Observers are told of every change of their keys, and only then",
     "An observer registered for a key, or for all keys, is told once per registration of every change of a matching key, reads the new value then, and is told of the existing keys when it registers. "
     "It is never called for other keys or after it was unregistered or destroyed, not even when that happens inside a notification.",
     ["histories"], "all histories of up to four observers registering, unregistering, dying and reacting inside notifications, with values set singly, by files or by initialisation",
     "There are no tests of observers.",
     [G + "ConfigManager.h", G + "ConfigManager.cpp", G + "ConfigObserver.h"], [("registerObserver, unregisterObserver, notify", G + "ConfigManager.cpp")], ["calls of valueChanged and the values read inside"],
     "stateful model-based testing with reactions inside the callbacks, address sanitizer", "one process per case")
prop("C17", "File paths and their normal forms name the same place, parts and all",
     "The absolute and the normalised form of a file path name the same place as the text given, seen from the current directory, and a normalised path has no dot components, no name followed by a parent step and only forward slashes. "
     "Path and file name make up the whole, the extension is the name's part from its last dot, and a path is relative exactly if it does not start at the root. Environment variables in a text are replaced by their values and nothing else is changed.",
     ["inputs", "configurations"], "all paths over names, dots and both separators from several working directories; all texts with set, unset and unterminated variables",
     "There are no tests of file paths.",
     [G + "AttributeTree.h", G + "AttributeTree.cpp"], [("FilePath", G + "AttributeTree.cpp")], ["absoluteName, path, name, extension, normalizePath, replaceEnvironment"],
     "property-based testing against a reference path resolver", "a reader without symbolic links")
prop("C15", "Attribute trees keep exactly the nodes and attributes given to them",
     "After any history of creating, setting, reading, copying, moving, unlinking and deleting nodes of attribute trees through plain or composed names, each tree holds exactly the nodes, attributes and comments the operations define, in order, with "
     "consistent parent links. Looking up something absent reports that and changes nothing, and typed reads fall back to the given default.",
     ["histories"], "all operation histories on a few trees with up to some dozens of nodes",
     "There are no tests of attribute trees.",
     [G + "AttributeTree.h", G + "AttributeTree.cpp"], [("AttributeTree, SubTreeList", G + "AttributeTree.cpp")], ["getAttribute, subTree, first/next traversal, printed tree"],
     "stateful model-based testing against a reference tree", "")
prop("C16", "Attribute tree files are read back as saved and no text harms the reader",
     "A tree saved in any style is read back with the same names, attributes, comments and order. A document in the documented line and block syntax is read as the tree it denotes, included files and all. "
     "Reading any text at all ends, without crash, and an unreadable file is reported.",
     ["inputs"], "all small trees in all saving styles; all documents of the documented syntax; arbitrary texts including unterminated blocks, comments and long lines",
     "There are no tests of attribute tree files.",
     [G + "AttributeTree.h", G + "AttributeTree.cpp"], [("AttributeTree::get, put, load, save", G + "AttributeTree.cpp")], ["load/save results", "tree content"],
     "round trip and grammar-based property testing, structured fuzzing with sanitizers", "")
prop("C18", "SHA-2 digests are those of FIPS 180 however the data is fed",
     "The SHA-224, SHA-256, SHA-384 and SHA-512 digests of any message equal those of the standard, independent of how the message is split into parts or which interface feeds it. "
     "An object that was cleared starts afresh, and a copy of a running one goes on independently.",
     ["inputs", "histories"], "all messages up to about 200 kB, all splits into parts, clear and copy at any point",
     "The tests hash fixed short strings; block boundaries, splits and long messages are open.",
     [Y + "Sha2.h", Y + "Sha2.hpp", Y + "Sha2Impl.h", Y + "Sha2Impl.hpp"], [("process, finalize, getHexDigest", Y + "Sha2.hpp"), ("block functions", Y + "Sha2Impl.hpp")], ["digests and their texts"],
     "differential testing against an independent implementation of the standard", "the reference's constants are computed from the primes")
prop("C36", "File helpers zip, rename and remove exactly what they are told",
     "Zipping a file makes one complete gzip archive next to it that decompresses to its content and leaves the original in place; success is reported exactly if that happened. "
     "Renaming and removing change exactly the named file and report failure otherwise.",
     ["inputs", "fault_sequences", "histories"], "file contents up to several internal blocks, names, missing sources and unwritable targets",
     "No test covers these helpers.",
     [C + "os_fs.h", C + "os_posix_fs.h", C + "os_posix_fs.cpp"], [("zipFile, rename, unlink", C + "os_posix_fs.cpp")], ["return values", "directory content"],
     "stateful model-based testing of a scratch directory; decompression round trip", "")
prop("C37", "Value wrappers keep value, state and identity through all operations",
     "A finalized value refuses assignment and keeps its value; a scope guard runs exactly once at the end of its scope, also when left by an exception, unless it was disabled; stamped data carries its header "
     "unchanged through copies; expected types compare equal exactly for the same type; a wrapped vector behaves as std::vector.",
     ["histories"], "all histories of the wrappers' operations",
     "The tests sample single operations of some wrappers.",
     [C + "Finalizable.h", C + "AtScopeEnd.h", C + "DataHeader.h", C + "DataHeader.cpp", C + "ExpectedType.h", C + "VectorWrapper.h"],
     [("the wrapper classes", C + "Finalizable.h")], ["public observers"],
     "stateful model-based testing", "")

SM = "stateful model-based testing under a deterministic scheduler that generates the schedules, on virtual time"
SN = "threads switch between any two basic blocks of the library or primitives; decision lists shrink with the program"
prop("C19", "Mutexes and spin locks exclude all others and are never lost",
     "At any time at most one thread holds a mutex or spin lock, whichever way it was taken; a mutex can be taken again by its holder and is free after as many unlocks. "
     "Taking reports success exactly if the caller holds the lock afterwards; a try on a lock nobody uses succeeds; an attempt with a timeout returns when the lock becomes free or when its time has come, "
     "neither earlier nor never. A scoped lock holds for its scope, and everything is free again when all the holders have left.",
     ["schedules", "programs"], "all programs of several threads on locks of each kind, all interleavings and all timings of timeouts",
     "The tests lock and unlock in one or two threads under whatever schedule happens.",
     [T + "Mutex.h", T + "Mutex.cpp", T + "MutexImplPosix.cpp", T + "ScopedMutexLock.h", T + "ScopedMutexLock.cpp", T + "SpinLock.h", T + "ScopedSpinLock.h"],
     [("lock, tryLock, unlock", T + "MutexImplPosix.cpp"), ("SpinLock", T + "SpinLock.h")], ["results of the calls", "who is inside", "virtual time"], SM, SN)
prop("C20", "Read/write locks admit many readers or one writer",
     "At any time either one writer or any number of readers hold a read/write lock, and readers do not exclude each other. "
     "An attempt reports success exactly if the caller holds the lock afterwards; tries and timeouts fail only if somebody else used the lock in a conflicting mode, and timeouts end when their time has come, neither earlier nor never. "
     "A scoped lock holds in its mode for its scope, and a lock that everybody left can be taken in both modes.",
     ["schedules", "programs"], "all programs of several threads, all interleavings and all timings of timeouts",
     "The tests take the lock from one or two threads under whatever schedule happens.",
     [T + "RWLock.h", T + "RWLock.cpp", T + "RWLockImplPosix.cpp", T + "RWLockImplPosix.h", T + "ScopedRWLock.h", T + "ScopedRWLock.cpp"],
     [("readLock, writeLock, try forms", T + "RWLockImplPosix.cpp")], ["results of the calls", "who is inside", "virtual time"], SM, SN)
prop("C21", "Semaphores let exactly as many pass as were posted",
     "The number of successful waits on a semaphore never exceeds its initial value plus the posts, and nobody stays blocked while there is one left. "
     "A try succeeds exactly if one is available; a wait with a timeout fails only if none came in time, and ends when its time has come, neither earlier nor never.",
     ["schedules", "programs"], "all programs of several threads, initial values, interleavings and timings of timeouts",
     "The tests post and wait in one thread.",
     [T + "Sem.h", T + "Sem.cpp", T + "SemaphoreImplPosix.cpp", T + "SemaphoreImplPosix.h"],
     [("wait, tryWait, post", T + "SemaphoreImplPosix.cpp")], ["results of the calls", "numbers passed and posted", "virtual time"], SM, SN)
prop("C22", "Singletons exist once, however many ask first, until they are destroyed",
     "All accesses to a singleton, from any number of threads, yield the same fully constructed instance, which is constructed once, by the first access; if that fails, the next access tries again. "
     "With the default lifetime it is destroyed exactly once at exit, those that were created later first, and an access after that is reported as an error; with the other lifetimes it lives on, or is created anew.",
     ["schedules", "histories", "fault_sequences"], "all orders of first accesses from several threads, failing constructors, singletons that use each other, exits",
     "No test covers singletons.",
     [C + "Singleton.h", C + "Singleton.hpp", C + "SingletonCreationPolicies.h", C + "SingletonLifetimePolicies.h", C + "SingletonThreadingModels.h", T + "SingletonThreadingModels.h", L + "SingletonThreadingModels.h"],
     [("instance, destroySingleton", C + "Singleton.hpp")], ["addresses", "constructor and destructor calls", "exceptions"], SM, SN)
prop("C23", "Threads run once per start and end before wait, join or destruction returns",
     "A successful start executes the body exactly once; a failed start leaves the thread startable. Waiting and joining return only after the body has ended, a wait with a timeout reports success exactly if it ended in time, "
     "and the running and execute states tell what stop, cancel and the body did. After wait, join, cancel with join, or destruction no thread is left and its resources are released, and the object can be started again.",
     ["schedules", "histories", "fault_sequences"], "all histories of start, stop, wait, join, cancel, restart and destruction with several callers, all interleavings, failing thread creation",
     "The tests run a few threads once, under whatever schedule happens.",
     [T + "Thread.h", T + "Thread.cpp", T + "ThreadImplPosix.cpp", T + "ThreadImplPosix.h"],
     [("start, runThread, wait, join", T + "Thread.cpp"), ("ThreadImplPosix", T + "ThreadImplPosix.cpp")], ["calls of the body", "results", "threads left"], SM, SN)
prop("C24", "Periodic threads wake once per period, on its grid, and release their timer",
     "A wait for the next period returns at its end, at once if it is already over, at most once per period, and at multiples of the period since the start. "
     "A changed period takes effect from then on; stopping ends the thread within a period; every restart begins a new grid, and no timer is left when the thread is destroyed, also while it runs.",
     ["schedules", "histories"], "all periods, durations of the body, changes of the period, stops, restarts and interleavings",
     "The tests measure some periods of one thread in real time.",
     [T + "PeriodicThread.h", T + "PeriodicThread.cpp", T + "PeriodicThreadImplTimerfd.cpp", T + "PeriodicThreadImplTimerfd.h"],
     [("waitPeriod, setPeriod, makePeriodic", T + "PeriodicThreadImplTimerfd.cpp")], ["virtual time of the wake-ups", "open timers"], SM, SN)
prop("C25", "Active objects execute each queued operation once, in order, or dispose of it",
     "Operations queued on a running active object are executed exactly once, in the object's thread, one after another in the order they were queued, between its start and stop callbacks, and an object with operations never idles. "
     "Operations that come too late, or are left when it stops, are not executed; every operation is deleted exactly once. Stopping and destruction end the thread.",
     ["schedules", "histories"], "all histories of queueing from several threads and from operations, stopping, restarting and destroying, all interleavings",
     "No test covers active objects.",
     [T + "ActiveObject.h", T + "ActiveObject.cpp", T + "ActiveOperation.h"],
     [("run, queue, stop", T + "ActiveObject.cpp")], ["executions and deletions of operations"], SM, SN)
prop("C26", "Periodic dispatch executes every operation once per period, in order",
     "In every period a running dispatch thread executes each registered operation exactly once, in the order of registration and in its own thread, at the beginning of the period if there was time for it. "
     "An operation added while it runs is executed from the next period on at the latest; after stopping and waiting, or destruction, none is executed any more.",
     ["schedules", "histories"], "all periods, operations that take shorter or longer, additions at any time, stops, restarts and interleavings",
     "No test covers the dispatch module.",
     [D + "PeriodicDispatchThread.h", D + "PeriodicDispatchThread.cpp", D + "CallbackOperation.h", D + "CallbackOperation.cpp", D + "Operation.h"],
     [("run, addOperation", D + "PeriodicDispatchThread.cpp")], ["executions of operations and their virtual times"], SM, SN)
prop("C28", "Log messages arrive once, whole and in order, at every output meant to get them",
     "A message that a log stream and an output of it both let through, by level and activity, arrives exactly once at that output, with its text, level, time and source as logged, also if it is written in parts, many threads log at once or a signal comes. "
     "A message whose logging was over before that of another began arrives before it; an output is written by one thread at a time, its worker if it has one, between its start and shutdown calls. "
     "Shutdown writes all that is pending and leaves no thread; a removed output gets nothing any more.",
     ["schedules", "histories", "fault_sequences"], "all programs of several logging threads with changes of levels, formats, connections and outputs at any time, signals during waits, all interleavings",
     "The tests log single messages from one thread.",
     [L + "LogStream.h", L + "LogStream.cpp", L + "ThreadStream.h", L + "ThreadStream.cpp", L + "LogOutputStream.h", L + "LogOutputStream.cpp", L + "LoggingManager.cpp", L + "Thread.cpp", L + "Semaphore.cpp"],
     [("threadStream, releaseThreadStream", L + "LogStream.cpp"), ("flush", L + "ThreadStream.cpp"), ("push, WorkerThread::run, shutdown", L + "LogOutputStream.cpp")],
     ["messages that reach test outputs, with all fields", "threads that write", "threads left"], SM, SN)
LM = [L + "LoggingMacros_%s.h" % n for n in ("LOGGING", "LOGGING_FMT", "SLOGGING", "SLOGGING_FMT", "MLOGGING", "MLOGGING_FMT", "LLOGGING", "LLOGGING_FMT")]
prop("C27", "Configuration, command line and levels decide which messages reach which outputs",
     "After initialization exactly the configured outputs exist, connected to the streams listed for them (all streams if none are), and streams and outputs have the configured levels; without configured outputs there is standard output; "
     "a level on the command line overrides all and adds standard output, and the quick debug file gets all of its stream. A message logged by any macro arrives exactly at the connected outputs whose level, and whose stream's level and activity, admit it, and its argument is evaluated only if the stream admits it. "
     "This holds after changes of the levels, new streams, repeated initialization, and shutting down and initializing again.",
     ["configurations", "histories"], "all configurations of outputs and streams, command lines, and histories of messages and changes",
     "The tests use one configuration each, of the test program itself.",
     [L + "LoggingManager.h", L + "LoggingManager.cpp", L + "Logging.h", L + "Logging.cpp", L + "LogLevel.cpp", L + "LogStream.cpp", L + "LogOutputStream.cpp"] + LM,
     [("initialize, configure, shutdown, setLogLevel", L + "LoggingManager.cpp"), ("SLOGGING_LOG_FLCO and the macros on top of it", L + "LoggingMacros_SLOGGING.h"), ("REGISTER_LOG_STREAM", L + "Logging.h")],
     ["messages at test outputs, on standard output and in the quick debug file", "evaluations of the arguments"],
     "stateful model-based testing against a model of the routes, one process per case", "messages of one thread; concurrency is C28; outputs are not removed while logging is up")
prop("C29", "A log line is made of the message's fields as the format says",
     "For every format string, set by call or configuration, the line of a message consists of the literal text and the fields named, in order, with their prefixes, brackets, time format and width, and a class, object or function that is empty is left out with its prefix. "
     "Nothing is cut, added or read beyond its end, whatever the format, also one that is broken off, and whatever the fields contain.",
     ["inputs", "configurations"], "all format strings and all messages at all times",
     "The tests use the default format.",
     [L + "LogOutputStream.h", L + "LogOutputStream.cpp"], [("parseLogFormat, pushImpl", L + "LogOutputStream.cpp")], ["formatted lines"],
     "property-based testing against a reference formatter, with sanitizers", "minimum widths are generated for milliseconds only (known finding)")
prop("C30", "What is streamed into a log message arrives as its text",
     "The text of a message is the concatenation of what was streamed or printed into it: strings, characters, numbers, booleans, pointers, times, spans, own types and manipulators, cut only at the documented size; names of file, class, object and function arrive whole or cut at their size. "
     "A scoped timer logs once, with the time since its start, when it is printed or destroyed. Every message that is flushed is one message, and the next one starts empty.",
     ["inputs", "histories"], "all sequences of values of all types, lengths below, at and above the limits",
     "The tests stream a few short texts.",
     [L + "ThreadStream.h", L + "ThreadStream.cpp", L + "ScopedTimer.h", L + "Logging.cpp", L + "Constants.h", L + "LogOutputStream.h"],
     [("operator<<, write, printf, flush", L + "ThreadStream.cpp"), ("ScopedTimer", L + "ScopedTimer.h")], ["fields of the messages at a test output"],
     "property-based testing against printf and string concatenation, with sanitizers", "numbers at the limits, texts of up to a few thousand characters")
prop("C31", "A log file holds every message once, in order, also over rotation and restarts",
     "Every message that reaches a file output is in the log file, or in the file of its rotation, exactly once and in order, behind everything that was there before; with flushing as soon as it was processed, otherwise at the latest when the output is closed. "
     "With rotation the file of an earlier day is moved to a name with that day's date, compressed as a whole, or kept if that fails, when the first message of a new day comes or the output is created; without it nothing is moved. "
     "Files of the log that are older than the configured number of days are deleted at a rotation, and nothing else; a failure to open or write is over as soon as its cause is, and no file stays open.",
     ["histories", "configurations", "fault_sequences"], "all histories of messages, passing days, restarts, other files in the directory, failures to move, open and write, and all settings",
     "The tests write no log file.",
     [L + "FileLogOutput.h", L + "FileLogOutput.cpp", C + "os_fs.cpp", L + "LogOutputStream.cpp"],
     [("rotateLogFile, openLogFile, pushImpl", L + "FileLogOutput.cpp"), ("zipFile", C + "os_fs.cpp")], ["all files of the directory, unpacked"],
     "stateful model-based testing against a model of the directory, with a virtual clock and injected failures",
     "the wall clock is not set back; one log file per directory", )
prop("C32", "A UDP log message is one datagram of exactly its fields as SQL values",
     "Every message at or above the level of a UDP output is sent to the configured server as one datagram, in order: a list of eleven SQL values, which are the system name, time, nanoseconds, level, stream, file, line, class, object, function and text of the message, whatever characters they hold. "
     "Nothing in a message can end a value or begin another one, and messages below the level send nothing.",
     ["inputs", "histories"], "all messages with any characters in any field, any time, and all configured names",
     "The tests send nothing.",
     [L + "UdpLogOutput.h", L + "UdpLogOutput.cpp", L + "LogOutputStream.cpp"],
     [("pushImpl, escape", L + "UdpLogOutput.cpp")], ["datagrams at a server on the loopback interface"],
     "property-based testing with an SQL engine as the oracle that reads the datagrams back",
     "datagrams are read one by one; a server that is away is not covered")
prop("C33", "A log database holds every message once, in order and unchanged",
     "Every message that reaches a database output is one row of the log's table, in order, behind the rows that were there before, with exactly the characters and numbers of its fields, and can be read as soon as it was processed. "
     "With rotation the first message of a new day moves the database to a name with the date of that day and begins a new one; without it, or when the move fails, all rows stay together. "
     "A file that is no log database is not changed, and a failure to write loses no message but the one that failed.",
     ["histories", "inputs", "fault_sequences"], "all histories of messages, passing days, restarts, existing files and failures to open, move and write",
     "The tests write no log database.",
     [L + "SQLiteLogDb.h", L + "SQLiteLogDb.cpp", L + "SQLiteLogOutput.h", L + "SQLiteLogOutput.cpp"],
     [("openDatabase, writeLogLine", L + "SQLiteLogDb.cpp"), ("pushImpl", L + "SQLiteLogOutput.cpp")], ["rows of all databases in the directory, read over a connection of their own"],
     "stateful model-based testing against a model of the databases, with a virtual clock and injected failures",
     "nobody else locks the database; the wall clock is not set back")
prop("C34", "A plugin manager offers exactly the plugins of its type that are there",
     "A plugin manager lists, finds and instantiates exactly the plugins of its interface that are in its directories (and below them, if asked to) when it is first used, besides the static ones that were added, which come first; anything else is neither listed nor found, and asking for it changes nothing. "
     "There is one shared instance of each plugin, created by the first access or by initialize() as asked for, any number of own ones, and all shared ones are deleted once, with their libraries, when the manager is; the next use begins anew. "
     "Files that cannot be loaded, are no plugins or have another interface disturb nothing, and each that is no plugin has an error message.",
     ["histories", "inputs"], "all directories with good, foreign and broken libraries, other files and links, and all sequences of calls of several managers",
     "The tests load no plugin.",
     [P + "PluginManager.h", P + "PluginManagerBase.h", P + "PluginManagerBase.cpp", P + "Plugin.h"],
     [("initializePlugins, loadHandle, plugin, createPluginInstance", P + "PluginManager.h"), ("ICL_CORE_PLUGIN_REGISTER_PLUGIN", P + "Plugin.h")],
     ["lists, instances alive, error messages, open libraries"],
     "stateful model-based testing with plugin libraries built for it", "plugins of one identifier are of one kind")
prop("C35", "The performance monitor's numbers are those of the data of enabled prefixes",
     "A measurement is the time since its timer was started or last reset, and it and all other data are recorded under their name exactly if the monitor is enabled and their prefix is, alone or with all. "
     "Summaries print, for exactly the names asked for, all static data and the number, average, median, minimum and maximum of all values recorded since initialization, whatever their number; an unknown name is no error and leaves no trace. "
     "Without the monitor or without debugging its macros do nothing.",
     ["histories", "inputs"], "all histories of settings, timers, measurements, data, passing time and summaries",
     "The tests do not use the performance monitor.",
     [M + "PerformanceMonitor.h", M + "PerformanceMonitor.cpp", M + "PerformanceMonitorMacros.h"],
     [("addEvent, isEnabled, createStatisticSummary, print", M + "PerformanceMonitor.cpp"), ("PERF_MON macros", M + "PerformanceMonitorMacros.h")],
     ["results of measurements, messages of the stream Performance"],
     "stateful model-based testing with a virtual clock", "prefixes without ::; a timer is started before it is measured; the median of an even number of values may be any of the two middle ones or between")
prop("C38", "The old spellings of the interface do what the new ones do",
     "Every deprecated function and type that is still offered behaves as its successor: in any history of calls, replacing any of them by the old spelling changes no result, no output and no effect, for times, containers, texts, "
     "attribute trees, configuration and command line, logging, plugins, and threads with their locks.",
     ["histories", "inputs"], "all histories of calls, with any part of them in the old spelling",
     "The tests use the new spellings, but for a few.",
     [C + "TimeBase.cpp", C + "TimeSpan.cpp", C + "TimeStamp.cpp", C + "BitfieldHelper.h", C + "StringHelper.h", C + "RingBuffer.hpp", C + "KeyValueDirectory.hpp", C + "SchemeParser.cpp", C + "os_lxrt.cpp",
      G + "AttributeTree.cpp", G + "GetoptParser.cpp", G + "ConfigManager.cpp", G + "Config.h", L + "LoggingManager.cpp", L + "LogStream.cpp", L + "LogOutputStream.cpp", L + "ThreadStream.cpp",
      P + "PluginManager.h", T + "Thread.cpp", T + "Mutex.cpp", T + "RWLock.cpp", T + "Sem.cpp", T + "PeriodicThread.cpp"],
     [("the sections DEPRECATED VERSIONS", C + "TimeBase.cpp")], ["results of all calls, messages, files and lists"],
     "metamorphic testing: each history is run in the new spelling and in a mix of both", "the new spellings are decided by the other properties; SequenceNumber::MaxValue and MinValue do not link and are left out")
