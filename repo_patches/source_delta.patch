From dfd312f97d53825b027e685ebc86877fa0082c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 01/77] fix: TimeStamp from boost ptime added all nanoseconds
 since 1970 to the sub-second part

---
 src/icl_core/src/icl_core/TimeStamp.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index b321c8a..2fb78cf 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -90,9 +90,10 @@ TimeStamp::TimeStamp(const boost::posix_time::ptime& ptime_stamp)
 {
   boost::posix_time::ptime unix_time_base(boost::gregorian::date(1970, 1, 1));
 
-  secs = boost::posix_time::time_period(unix_time_base, ptime_stamp).length().total_seconds();
-  nsecs = int32_t(boost::posix_time::time_period(unix_time_base, ptime_stamp).
-  length().total_nanoseconds());
+  boost::posix_time::time_duration since_epoch = ptime_stamp - unix_time_base;
+  secs = since_epoch.total_seconds();
+  nsecs = int32_t(since_epoch.fractional_seconds()
+                  * (1000000000 / boost::posix_time::time_duration::ticks_per_second()));
   normalizeTime();
 }
 
@@ -100,9 +101,10 @@ TimeStamp& TimeStamp::operator = (const boost::posix_time::ptime& ptime_stamp)
 {
   boost::posix_time::ptime unix_time_base(boost::gregorian::date(1970, 1, 1));
 
-  secs = boost::posix_time::time_period(unix_time_base, ptime_stamp).length().total_seconds();
-  nsecs = int32_t(boost::posix_time::time_period(unix_time_base, ptime_stamp).
-  length().total_nanoseconds());
+  boost::posix_time::time_duration since_epoch = ptime_stamp - unix_time_base;
+  secs = since_epoch.total_seconds();
+  nsecs = int32_t(since_epoch.fractional_seconds()
+                  * (1000000000 / boost::posix_time::time_duration::ticks_per_second()));
   normalizeTime();
   return *this;
 }
-- 
2.43.0


From 9940d2745710d132b0401f9ad736a2f9e500695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 02/77] fix: scaling a TimeSpan dropped the fraction of the
 scaled seconds

---
 src/icl_core/src/icl_core/TimeSpan.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeSpan.h b/src/icl_core/src/icl_core/TimeSpan.h
index f67f2e0..41f2377 100644
--- a/src/icl_core/src/icl_core/TimeSpan.h
+++ b/src/icl_core/src/icl_core/TimeSpan.h
@@ -207,15 +207,25 @@ inline TimeSpan operator - (const TimeSpan& left, const TimeSpan& right)
   return a;
 }
 
-inline TimeSpan operator / (const TimeSpan& span, double divisor)
+inline TimeSpan operator * (const TimeSpan& span, double factor)
 {
-  TimeSpan a(int64_t(span.tsSec() / divisor), int32_t(span.tsNSec() / divisor));
+  // Carry the fractional part of the scaled seconds over to the nanoseconds.
+  double scaled_secs = double(span.tsSec()) * factor;
+  int64_t secs = int64_t(scaled_secs);
+  double scaled_nsecs = (scaled_secs - double(secs)) * 1e9 + double(span.tsNSec()) * factor;
+  int64_t carry = int64_t(scaled_nsecs / 1e9);
+  TimeSpan a(secs + carry, int32_t(scaled_nsecs - double(carry) * 1e9));
   return a;
 }
 
-inline TimeSpan operator * (const TimeSpan& span, double divisor)
+inline TimeSpan operator / (const TimeSpan& span, double divisor)
 {
-  TimeSpan a(int64_t(span.tsSec() * divisor), int32_t(span.tsNSec() * divisor));
+  // Carry the fractional part of the scaled seconds over to the nanoseconds.
+  double scaled_secs = double(span.tsSec()) / divisor;
+  int64_t secs = int64_t(scaled_secs);
+  double scaled_nsecs = (scaled_secs - double(secs)) * 1e9 + double(span.tsNSec()) / divisor;
+  int64_t carry = int64_t(scaled_nsecs / 1e9);
+  TimeSpan a(secs + carry, int32_t(scaled_nsecs - double(carry) * 1e9));
   return a;
 }
 
-- 
2.43.0


From 698010f13780cb959947ceb984ec31e7185d1327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 03/77] fix: text of a TimeSpan had nanoseconds labelled us and
 a second sign in negative spans

---
 src/icl_core/src/icl_core/TimeSpan.cpp        | 3 ++-
 src/icl_core/src/icl_core_logging/Logging.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeSpan.cpp b/src/icl_core/src/icl_core/TimeSpan.cpp
index 9f7077c..0fbe2db 100644
--- a/src/icl_core/src/icl_core/TimeSpan.cpp
+++ b/src/icl_core/src/icl_core/TimeSpan.cpp
@@ -234,6 +234,7 @@ std::ostream& operator << (std::ostream& stream, const TimeSpan& time_span)
   {
     stream << "-";
     calc_secs = -calc_secs;
+    calc_nsec = -calc_nsec;
   }
   if (calc_secs > 3600)
   {
@@ -256,7 +257,7 @@ std::ostream& operator << (std::ostream& stream, const TimeSpan& time_span)
   }
   else if (calc_nsec / 1000 * 1000 == calc_nsec)
   {
-    stream << calc_nsec << "us";
+    stream << calc_nsec / 1000 << "us";
   }
   else
   {
diff --git a/src/icl_core/src/icl_core_logging/Logging.cpp b/src/icl_core/src/icl_core_logging/Logging.cpp
index 35ccdd7..86c9052 100644
--- a/src/icl_core/src/icl_core_logging/Logging.cpp
+++ b/src/icl_core/src/icl_core_logging/Logging.cpp
@@ -61,6 +61,7 @@ ThreadStream& operator << (ThreadStream& stream, const icl_core::TimeSpan& time_
   {
     stream << "-";
     calc_secs = -calc_secs;
+    calc_nsec = -calc_nsec;
   }
   if (calc_secs > 3600)
   {
@@ -83,7 +84,7 @@ ThreadStream& operator << (ThreadStream& stream, const icl_core::TimeSpan& time_
   }
   else if (calc_nsec / 1000 * 1000 == calc_nsec)
   {
-    stream << calc_nsec << "us";
+    stream << calc_nsec / 1000 << "us";
   }
   else
   {
-- 
2.43.0


From 97a9ad5014306c4fd01dbd7b47cfe4c7f9029a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 04/77] fix: order of sequence numbers ignored the minimum
 value

Half of the range was taken as half of the maximum, so numbers with a
minimum other than zero compared the wrong way round across the wrap.
---
 src/icl_core/src/icl_core/SequenceNumber.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/SequenceNumber.h b/src/icl_core/src/icl_core/SequenceNumber.h
index 147c353..18b834a 100644
--- a/src/icl_core/src/icl_core/SequenceNumber.h
+++ b/src/icl_core/src/icl_core/SequenceNumber.h
@@ -87,11 +87,11 @@ public:
   {
     if (m_value < other.m_value)
     {
-      return (other.m_value - m_value) < max_value / 2;
+      return (other.m_value - m_value) < (max_value - min_value) / 2;
     }
     else
     {
-      return (m_value - other.m_value) > max_value / 2;
+      return (m_value - other.m_value) > (max_value - min_value) / 2;
     }
   }
 
-- 
2.43.0


From 28abc6793e9714598bf65df59b0f2f982d27ee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 05/77] fix: split lost an empty last part and never ended with
 an empty delimiter

join() is documented as the reverse of split(), but joining the parts of
"a;" gave "a".
---
 src/icl_core/src/icl_core/StringHelper.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core/StringHelper.cpp b/src/icl_core/src/icl_core/StringHelper.cpp
index 71107e2..cb01ec8 100644
--- a/src/icl_core/src/icl_core/StringHelper.cpp
+++ b/src/icl_core/src/icl_core/StringHelper.cpp
@@ -29,9 +29,9 @@ std::vector<String> split(const String& str, const String& delimiter)
   String s = str;
   String::size_type pos = 0;
   std::vector<String> substrings;
-  if (s.empty())
+  if (s.empty() || delimiter.empty())
   {
-    substrings.push_back("");
+    substrings.push_back(s);
     return substrings;
   }
   while ((pos = s.find(delimiter)) != String::npos)
@@ -39,10 +39,7 @@ std::vector<String> split(const String& str, const String& delimiter)
     substrings.push_back(s.substr(0, pos));
     s.erase(0, pos+delimiter.size());
   }
-  if (!s.empty())
-  {
-    substrings.push_back(s);
-  }
+  substrings.push_back(s);
   return substrings;
 }
 
-- 
2.43.0


From 91c1a83b97cdb041bd9aa9fe8981e7b2158484a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 06/77] fix: trim read before the start of an empty string

---
 src/icl_core/src/icl_core/StringHelper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core/StringHelper.cpp b/src/icl_core/src/icl_core/StringHelper.cpp
index cb01ec8..b11ce93 100644
--- a/src/icl_core/src/icl_core/StringHelper.cpp
+++ b/src/icl_core/src/icl_core/StringHelper.cpp
@@ -62,6 +62,10 @@ String trim(String const & str)
   std::string result = "";
 
   std::string::size_type length = str.length();
+  if (length == 0)
+  {
+    return result;
+  }
 
   std::string::size_type trim_front = 0;
   while ((trim_front < length) && isspace(static_cast<unsigned char>(str[trim_front])))
-- 
2.43.0


From a1ebb2c17698dc31c92bf1081dcc6ec6711931b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 07/77] fix: setting or clearing bits of a 64 bit field lost
 its upper half

---
 src/icl_core/src/icl_core/BitfieldHelper.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/BitfieldHelper.h b/src/icl_core/src/icl_core/BitfieldHelper.h
index c93539b..fdfaa63 100644
--- a/src/icl_core/src/icl_core/BitfieldHelper.h
+++ b/src/icl_core/src/icl_core/BitfieldHelper.h
@@ -25,6 +25,7 @@
 #ifndef ICL_CORE_BITFIELD_HELPER_H_INCLUDED
 #define ICL_CORE_BITFIELD_HELPER_H_INCLUDED
 
+#include "icl_core/BaseTypes.h"
 #include "icl_core/TemplateHelper.h"
 
 #ifdef _IC_BUILDER_DEPRECATED_STYLE_
@@ -39,7 +40,7 @@ namespace icl_core {
 template <typename T>
 void setBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  bitfield = T(int(bitfield) | bits);
+  bitfield = T(int64_t(bitfield) | bits);
 }
 
 /*!
@@ -48,7 +49,7 @@ void setBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 template <typename T>
 void clearBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  bitfield = T(int(bitfield) & ~bits);
+  bitfield = T(int64_t(bitfield) & ~int64_t(bits));
 }
 
 /*!
-- 
2.43.0


From c5bd3e9d61dcf45fd714fbe96a82ce0286aa0b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 08/77] fix: ZBuffer::reset did not compile

---
 src/icl_core/src/icl_core/ZBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/ZBuffer.h b/src/icl_core/src/icl_core/ZBuffer.h
index 19cb5d0..d6fb1a0 100644
--- a/src/icl_core/src/icl_core/ZBuffer.h
+++ b/src/icl_core/src/icl_core/ZBuffer.h
@@ -77,7 +77,7 @@ public:
   }
 
   //! Empties the Z buffer.
-  void reset() { m_buffer.assign(size); }
+  void reset() { m_buffer.assign(m_buffer.size(), boost::optional<T>()); }
   //! Returns the buffer size.
   const size_type size() const { return m_buffer.size(); }
   //! Read-only access to the buffer.
-- 
2.43.0


From 8170aefe316dea95e80bcc4f2d5054d6fd35b2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 09/77] fix: result of a scheme parser kept parts of an earlier
 parse

A second parse without scheme or anchor kept those of the first one.
---
 src/icl_core/src/icl_core/SchemeParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core/SchemeParser.cpp b/src/icl_core/src/icl_core/SchemeParser.cpp
index a30c605..4d37b9c 100644
--- a/src/icl_core/src/icl_core/SchemeParser.cpp
+++ b/src/icl_core/src/icl_core/SchemeParser.cpp
@@ -193,6 +193,10 @@ bool SchemeParser::parseScheme(const String &str, Scheme &scheme_handler,
   // scheme rule
   rule<> scheme_rule = !scheme_p[addScheme] >> specifier_p[addSpecifier] >> !anchor_p >> !query_p;
 
+  scheme_handler.scheme_type = OtherScheme;
+  scheme_handler.scheme_name.clear();
+  scheme_handler.specifier.clear();
+  scheme_handler.anchor.clear();
   scheme_handler.queries.clear();
   info = parse(str.c_str(), scheme_rule);
 
-- 
2.43.0


From b32ab3567952491182d48c12af4e39f650277bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 10/77] fix: zipFile reported success when nothing or not
 everything was written

---
 src/icl_core/src/icl_core/os_fs.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/os_fs.cpp b/src/icl_core/src/icl_core/os_fs.cpp
index 60d0ebf..a15f530 100644
--- a/src/icl_core/src/icl_core/os_fs.cpp
+++ b/src/icl_core/src/icl_core/os_fs.cpp
@@ -59,15 +59,23 @@ bool zipFile(const char *filename, const char *additional_extension)
 
       bytes_read = gzread(unzipped_file, big_buffer, 0x1000);
     }
+    if (bytes_read < 0)
+    {
+      ret = false;
+    }
+  }
+  else
+  {
+    ret = false;
   }
 
   if (unzipped_file != NULL)
   {
     gzclose(unzipped_file);
   }
-  if (zipped_file != NULL)
+  if (zipped_file != NULL && gzclose(zipped_file) != Z_OK)
   {
-    gzclose(zipped_file);
+    ret = false;
   }
 
   return ret;
-- 
2.43.0


From 2a42cd20df715733805044881cb588dc90163640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 11/77] fix: zipped log file could never be opened

zlib refuses '+' in the mode, so with Zip=true no message was written.
---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index c6cbfdb..93d1c6a 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -208,7 +208,7 @@ void FileLogOutput::openLogFile()
 #if defined(_IC_BUILDER_ZLIB_)
   if (m_online_zip)
   {
-    m_zipped_log_file = gzopen(m_filename.c_str(), "a+b");
+    m_zipped_log_file = gzopen(m_filename.c_str(), "ab");
     if (m_zipped_log_file == NULL)
     {
       std::cerr << "Could not open log file " << m_filename << std::endl;
-- 
2.43.0


From 4219e4af699eda712c4e8732d46955bc526f1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 12/77] fix: log rotation deleted the log file even if zipping
 it had failed

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 93d1c6a..9b32ac6 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -252,8 +252,10 @@ void FileLogOutput::rotateLogFile()
 #ifdef _IC_BUILDER_ZLIB_
       if (!m_online_zip)
       {
-        icl_core::os::zipFile(m_filename.c_str(), time_str);
-        icl_core::os::unlink(m_filename.c_str());
+        if (icl_core::os::zipFile(m_filename.c_str(), time_str))
+        {
+          icl_core::os::unlink(m_filename.c_str());
+        }
       }
       else
 #endif
-- 
2.43.0


From 9ab4e7cb7a5ed9f5960ecd2b58c19c19f8638ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 13/77] fix: old log files of a log file given without
 directory were never deleted

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 9b32ac6..b4aec23 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -273,6 +273,10 @@ void FileLogOutput::rotateLogFile()
         boost::filesystem::path log_file_path = boost::filesystem::path(m_filename).parent_path();
         std::string log_file_name = boost::filesystem::path(m_filename).filename().string();
 #endif
+        if (log_file_path.empty())
+        {
+          log_file_path = ".";
+        }
         if (boost::filesystem::exists(log_file_path) && boost::filesystem::is_directory(log_file_path))
         {
           icl_core::TimeStamp delete_older_than(24*3600*(current_day - m_delete_older_than_days));
-- 
2.43.0


From 8167af5465e7c166dc866ad030b37fb87c994d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 14/77] fix: item number of a new DataHeader was uninitialised

---
 src/icl_core/src/icl_core/DataHeader.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/DataHeader.h b/src/icl_core/src/icl_core/DataHeader.h
index 9d71082..735009d 100644
--- a/src/icl_core/src/icl_core/DataHeader.h
+++ b/src/icl_core/src/icl_core/DataHeader.h
@@ -66,7 +66,8 @@ struct DataHeader
   DataHeader()
     : coordinate_system(),
       timestamp(),
-      sequence_number(0)
+      sequence_number(0),
+      dsin(0)
   { }
 
   //! Constructor.
@@ -75,7 +76,8 @@ struct DataHeader
              uint32_t sequence_number = 0)
     : coordinate_system(coordinate_system),
       timestamp(timestamp),
-      sequence_number(sequence_number)
+      sequence_number(sequence_number),
+      dsin(0)
   { }
 
   //! Destructor.
-- 
2.43.0


From 7187384641c953fe8025e828524373bc1a8edb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 15/77] fix: Getopt never reported that it is initialized

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 9f04e5c..17a9d14 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -369,6 +369,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
     }
   }
 
+  m_initialized = true;
   return true;
 }
 
-- 
2.43.0


From 354bf91548110d993d7506f45af18e304e894a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 16/77] fix: Getopt accepted a long option without the value it
 needs

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 17a9d14..ed1c15f 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -151,7 +151,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
         {
           // According to the regular expression the value has to be
           // the 3rd (and last) match result.
-          if (mres.size() == 4)
+          if (mres[2].matched)
           {
             m_param_opt[name] = mres[3];
           }
@@ -182,7 +182,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
 
             if (prefix_it->second.hasValue())
             {
-              if (mres.size() == 4)
+              if (mres[2].matched)
               {
                 m_prefix_param_opt[prefix_it->first].push_back(KeyValue(prefix_res[1], mres[3]));
               }
-- 
2.43.0


From 45727aa6f8efcd0ec5fbf84779298535b54b1090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 17/77] fix: name of a Getopt prefix option was used as a
 regular expression

---
 .../src/icl_core_config/GetoptParser.cpp         | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index ed1c15f..5d33407 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -172,19 +172,19 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
         // Parameter not found in the list of configured parameters.
         // Check if a matching prefix option has been registered.
         bool found = false;
-        boost::smatch prefix_res;
         for (ParameterMap::const_iterator prefix_it = m_prefix_parameters.begin();
              !found && prefix_it != m_prefix_parameters.end(); ++prefix_it)
         {
-          if (boost::regex_match(name, prefix_res, boost::regex(prefix_it->first + "(.*)")))
+          if (name.compare(0, prefix_it->first.length(), prefix_it->first) == 0)
           {
             found = true;
+            icl_core::String suffix = name.substr(prefix_it->first.length());
 
             if (prefix_it->second.hasValue())
             {
               if (mres[2].matched)
               {
-                m_prefix_param_opt[prefix_it->first].push_back(KeyValue(prefix_res[1], mres[3]));
+                m_prefix_param_opt[prefix_it->first].push_back(KeyValue(suffix, mres[3]));
               }
               else
               {
@@ -195,7 +195,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
             }
             else
             {
-              m_prefix_param_opt[prefix_it->first].push_back(KeyValue(prefix_res[1], "yes"));
+              m_prefix_param_opt[prefix_it->first].push_back(KeyValue(suffix, "yes"));
             }
           }
         }
@@ -248,13 +248,13 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
         // Parameter not found in the list of configured parameters.
         // Check if a matching prefix option has been registered.
         bool found = false;
-        boost::smatch prefix_res;
         for (ParameterMap::const_iterator prefix_it = m_short_prefix_parameters.begin();
              !found && prefix_it != m_short_prefix_parameters.end(); ++prefix_it)
         {
-          if (boost::regex_match(name, prefix_res, boost::regex(prefix_it->first + "(.*)")))
+          if (name.compare(0, prefix_it->first.length(), prefix_it->first) == 0)
           {
             found = true;
+            icl_core::String suffix = name.substr(prefix_it->first.length());
 
             if (prefix_it->second.hasValue())
             {
@@ -268,12 +268,12 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
               }
               else
               {
-                m_prefix_param_opt[prefix_it->second.option()].push_back(KeyValue(prefix_res[1], *arg_it));
+                m_prefix_param_opt[prefix_it->second.option()].push_back(KeyValue(suffix, *arg_it));
               }
             }
             else
             {
-              m_prefix_param_opt[prefix_it->second.option()].push_back(KeyValue(prefix_res[1], "yes"));
+              m_prefix_param_opt[prefix_it->second.option()].push_back(KeyValue(suffix, "yes"));
             }
           }
         }
-- 
2.43.0


From 36b0d9e6072bf9d6e0a9d9fb74cdf1e31506b6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 18/77] fix: Getopt left used arguments in a cleaned up
 commandline

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 5d33407..1b190f2 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -349,12 +349,12 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
   // Remove all option parameters from the "real" commandline.
   if (cleanup == eCLC_Cleanup)
   {
+    // The remaining arguments are in their original order.
     int check = 1;
+    icl_core::Vector<icl_core::String>::const_iterator keep_it = m_param_non_opt.begin();
     while (check < argc)
     {
-      icl_core::Vector<icl_core::String>::const_iterator find_it =
-        std::find(m_param_non_opt.begin(), m_param_non_opt.end(), icl_core::String(argv[check]));
-      if (find_it == m_param_non_opt.end())
+      if (keep_it == m_param_non_opt.end() || *keep_it != argv[check])
       {
         for (int move = check + 1; move < argc; ++move)
         {
@@ -365,6 +365,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
       else
       {
         ++check;
+        ++keep_it;
       }
     }
   }
-- 
2.43.0


From c59d73d5c6dc7693c5b2b8c2f82dd170873b3005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 19/77] fix: configuration values which are no numbers were
 read as 0 and string values cut at the first blank

---
 src/icl_core/src/icl_core_config/Util.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/Util.h b/src/icl_core/src/icl_core_config/Util.h
index fac3669..f8d5db7 100644
--- a/src/icl_core/src/icl_core_config/Util.h
+++ b/src/icl_core/src/icl_core_config/Util.h
@@ -36,8 +36,27 @@ namespace config {
 //! Namespace for internal implementation details.
 namespace impl {
 
+//! Reads a value, throws std::invalid_argument if there is none.
+template <typename T>
+void extract(std::stringstream& interpreter, T& value)
+{
+  interpreter >> value;
+  if (interpreter.fail())
+  {
+    throw std::invalid_argument("Not a valid value: " + interpreter.str());
+  }
+}
+
+//! A string value is the whole text.
+inline
+void extract(std::stringstream& interpreter, std::string& value)
+{
+  value = interpreter.str();
+}
+
 /*! Lexical cast which handles hexadecimal and octal numbers
- *  correctly.
+ *  correctly. If the input can not be converted std::invalid_argument
+ *  is thrown.
  */
 template <typename T, typename U>
 T hexical_cast(U input)
@@ -46,7 +65,7 @@ T hexical_cast(U input)
   interpreter.setf(std::ios::fmtflags(), std::ios::basefield);
   interpreter << input;
   T result;
-  interpreter >> result;
+  extract(interpreter, result);
   return result;
 }
 
-- 
2.43.0


From 2ab90c38465612a109d6801d193f86886c26b3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 20/77] fix: command line options read as bool were always
 false unless given as 1

---
 src/icl_core/src/icl_core_config/Util.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/Util.h b/src/icl_core/src/icl_core_config/Util.h
index f8d5db7..83dc355 100644
--- a/src/icl_core/src/icl_core_config/Util.h
+++ b/src/icl_core/src/icl_core_config/Util.h
@@ -125,6 +125,14 @@ bool strict_bool_cast(U input)
   }
 }
 
+//! Options without a value are stored as "yes".
+template <>
+inline
+bool hexical_cast<bool, std::string>(std::string input)
+{
+  return strict_bool_cast(input);
+}
+
 }
 }
 }
-- 
2.43.0


From cfeea4cb8c4878b5c7a83821ee6f828dfbb6d5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 21/77] fix: default values of batch configuration values were
 dangling references

---
 src/icl_core/src/icl_core_config/ConfigEnumDefault.h  | 2 +-
 src/icl_core/src/icl_core_config/ConfigValueDefault.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigEnumDefault.h b/src/icl_core/src/icl_core_config/ConfigEnumDefault.h
index 5b38c95..9459b20 100644
--- a/src/icl_core/src/icl_core_config/ConfigEnumDefault.h
+++ b/src/icl_core/src/icl_core_config/ConfigEnumDefault.h
@@ -72,7 +72,7 @@ public:
   }
 
 private:
-  typename icl_core::ConvertToRef<T>::ToConstRef m_default_value;
+  T m_default_value;
 };
 
 }}
diff --git a/src/icl_core/src/icl_core_config/ConfigValueDefault.h b/src/icl_core/src/icl_core_config/ConfigValueDefault.h
index fab3eab..b6be348 100644
--- a/src/icl_core/src/icl_core_config/ConfigValueDefault.h
+++ b/src/icl_core/src/icl_core_config/ConfigValueDefault.h
@@ -70,7 +70,7 @@ public:
   }
 
 private:
-  typename icl_core::ConvertToRef<T>::ToConstRef m_default_value;
+  T m_default_value;
 };
 
 }}
-- 
2.43.0


From 45d21f41a55e90f7a8468c385e9027bf57330beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 22/77] fix: prefix of a ConfigList was used as a regular
 expression

---
 src/icl_core/src/icl_core_config/ConfigList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigList.h b/src/icl_core/src/icl_core_config/ConfigList.h
index 8c315cf..0127568 100644
--- a/src/icl_core/src/icl_core_config/ConfigList.h
+++ b/src/icl_core/src/icl_core_config/ConfigList.h
@@ -71,7 +71,7 @@ public:
     bool result = false;
     bool error = false;
     ConfigIterator cIter = ConfigManager::instance().find(
-      boost::regex_replace(prefix + m_config_prefix, boost::regex("\\/"), "\\\\\\/") + "\\/(.+?)(\\/(.+))?");
+      boost::regex_replace(prefix + m_config_prefix, boost::regex("[^\\w/]"), "\\\\$&") + "\\/(.+?)(\\/(.+))?");
     while(cIter.next())
     {
       bool found = false;
-- 
2.43.0


From 861295c7ff0220c312ff7954614f51671f8499db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 23/77] fix: key of a new configuration observer was used as a
 regular expression

---
 src/icl_core/src/icl_core_config/ConfigManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigManager.cpp b/src/icl_core/src/icl_core_config/ConfigManager.cpp
index 673c78b..e680023 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.cpp
+++ b/src/icl_core/src/icl_core_config/ConfigManager.cpp
@@ -309,7 +309,7 @@ void ConfigManager::registerObserver(ConfigObserver *observer, const icl_core::S
       observer->valueChanged(iter.key());
     }
   }
-  else if (find(key).next())
+  else if (hasKey(key))
   {
     observer->valueChanged(key);
   }
-- 
2.43.0


From 131961f9095ee7f8d40383910987117cbc260902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 24/77] fix: extension of a file without one threw or contained
 a part of the path

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 0afbbe5..fa7ea8b 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -459,7 +459,12 @@ void FilePath::init(const char* filename)
     m_file_path_name_split = 0;
   }
 
+  // Only a dot in the name of the file starts an extension.
   m_file_name_extension_split = m_file.rfind('.');
+  if (m_file_name_extension_split == string::npos || m_file_name_extension_split < m_file_path_name_split)
+  {
+    m_file_name_extension_split = m_file.length();
+  }
 }
 
 
-- 
2.43.0


From 85029271dba63c3e7d8d47e4f6971f1c6d4b97f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 25/77] fix: file paths were relative to the directory in which
 the program was started

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index fa7ea8b..1200c51 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -29,6 +29,9 @@
 
 #ifdef _SYSTEM_WIN32_
 #include <direct.h>
+#else
+#include <limits.h>
+#include <unistd.h>
 #endif
 
 #include "icl_core/os_string.h"
@@ -432,9 +435,8 @@ void FilePath::init(const char* filename)
     delete[] buffer;
   }
 #else
-  char* tmp;
-  tmp = getenv("PWD");
-  if (tmp != NULL)
+  char tmp[PATH_MAX];
+  if (getcwd(tmp, sizeof(tmp)) != NULL)
   {
     m_pwd = tmp;
   }
-- 
2.43.0


From 89356dd9f26da7e5b608ccd35f2af9aa2b3e5064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 26/77] fix: normalizing a path with double dots could change
 the file it names

---
 .../src/icl_core_config/AttributeTree.cpp     | 59 +++++++------------
 1 file changed, 22 insertions(+), 37 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 1200c51..e4f883d 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -127,6 +127,16 @@ icl_core::String FilePath::normalizePath(const icl_core::String& _filename)
   }
   dot_start = 0;
 
+#ifndef _SYSTEM_WIN32_
+  // Several separators are the same as one.
+  dot_start = filename.find(string(2, DSEP), 0);
+  while (dot_start != string::npos)
+  {
+    filename.erase(dot_start, 1);
+    dot_start = filename.find(string(2, DSEP), dot_start);
+  }
+  dot_start = 0;
+#endif
   //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> status '%s'\n", filename.c_str());
 
   // Search for single dots at the beginning.
@@ -169,49 +179,24 @@ icl_core::String FilePath::normalizePath(const icl_core::String& _filename)
   dot_start = filename.find(string(1, DSEP) + ".." + DSEP, 0);
   while (dot_start != string::npos)
   {
-    //DEBUGMSG(DD_SYSTEM, DL_VERBOSE, "FilePath::normalizePath>> DoubleDots '%s' found at %i\n",
-    //         filename.c_str(), dot_start);
-
-    // Check if we can shorten the path.
-    slash_before_dot = filename.rfind(DSEP, dot_start - 1);
-    if (slash_before_dot != string::npos)
-    {
-      // OK to shorten?
-      if (filename[slash_before_dot+1] != DSEP && filename[slash_before_dot+1] != '.' &&
-          (slash_before_dot >= 1) ? filename[slash_before_dot-1] != ':' : 1)
-      {
-        dot_start += 3;
-        string temp_filename(filename, 0, slash_before_dot);
-        temp_filename.append(filename, dot_start, filename.length() - dot_start);
-        temp_filename.swap(filename);
-      }
-      else
-      {
-        break;
-      }
-
-      dot_start = slash_before_dot;
-    }
-    else if (dot_start > 0)
-    {
-      string temp_filename;
+    // The name before the double dots starts after the separator before it.
+    slash_before_dot = (dot_start == 0) ? string::npos : filename.rfind(DSEP, dot_start - 1);
+    string::size_type name_start = (slash_before_dot == string::npos) ? 0 : slash_before_dot + 1;
+    string name(filename, name_start, dot_start - name_start);
 
+    // OK to shorten?
+    if (name != "" && name != ".."
 #ifdef _SYSTEM_WIN32_
-      // Add drive letter?
-      if (filename[1] = ':')
-      {
-        temp_filename.append(filename, 0, 2);
-      }
+        && name[name.length()-1] != ':'
 #endif
-      // Really??
-      dot_start += 2;
-      temp_filename.append(filename, dot_start, filename.length() - dot_start);
-      temp_filename.swap(filename);
-      dot_start = 0;
+      )
+    {
+      filename.erase(name_start, dot_start + 4 - name_start);
+      dot_start = (name_start > 0) ? name_start - 1 : 0;
     }
     else
     {
-      break;
+      dot_start += 3;
     }
 
     dot_start = filename.find(string(1, DSEP) + ".." + DSEP, dot_start);
-- 
2.43.0


From 5e598a545ee0bd11904ac3110995da4ddbca85ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 27/77] fix: reading or loading an attribute tree crashed on
 nodes without sub trees

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index e4f883d..c865c12 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -952,10 +952,10 @@ char *AttributeTree::getSpecialAttribute(const char *description, AttributeTree
 {
   // search recursive to the root for that attribute
   AttributeTree *at_path_parent = this;
-  AttributeTree *at_path = at_path_parent->m_subtree_list->subTree(description);
+  AttributeTree *at_path = at_path_parent->getSubTree(description);
   while (at_path_parent && at_path == NULL)
   {
-    at_path = at_path_parent->m_subtree_list->subTree(description);
+    at_path = at_path_parent->getSubTree(description);
     at_path_parent = at_path_parent->parentTree();
   }
 
@@ -1012,7 +1012,7 @@ char *AttributeTree::getAttribute(const char *param_description, const char *def
             *description_part = 0;
             description_part++;
           }
-          at = at->m_subtree_list->subTree(next_description);
+          at = at->getSubTree(next_description);
         }
         // now we are at the inner attribute tree
         // is there an attribute
@@ -1080,7 +1080,7 @@ char *AttributeTree::newSubNodeDescription(const char *base_description)
 
   sprintf(description + base_len - j, "%i", i);
 
-  while (m_subtree_list->subTree(description) && i < 100000)
+  while (getSubTree(description) && i < 100000)
   {
     i++;
     sprintf(description + base_len - j, "%i", i);
@@ -1102,7 +1102,7 @@ AttributeTree *AttributeTree::addSubTree(AttributeTree *tree, AttributeTree *aft
 {
   if (tree)
   {
-    if (m_subtree_list->subTree(tree->m_this_description))
+    if (getSubTree(tree->m_this_description))
     {
       char *new_description = newSubNodeDescription(tree->m_this_description);
       free(tree->m_this_description);
-- 
2.43.0


From b17f9a389e88a40f921cb818f8289a0bfdd93631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 28/77] fix: printing an attribute tree with an empty comment
 crashed

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index c865c12..f1ef612 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1557,7 +1557,7 @@ bool AttributeTree::isComment()
 
 bool AttributeTree::isMultilineComment()
 {
-  return isComment() && (strchr(attribute(), '\n') != NULL);
+  return isComment() && attribute() && (strchr(attribute(), '\n') != NULL);
 }
 
 const char* AttributeTree::comment()
-- 
2.43.0


From 1a472f73bb2fab48d39611694ca340ffb5906689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 29/77] fix: new sub node description read before its base and
 could be in use already

---
 .../src/icl_core_config/AttributeTree.cpp     | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index f1ef612..9acc3d3 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1058,29 +1058,21 @@ char* AttributeTree::getOrSetDefault(const char *description, const char *defaul
 char *AttributeTree::newSubNodeDescription(const char *base_description)
 {
   int base_len = strlen(base_description);
-  char *description = (char*)malloc(base_len + 6);
+  char *description = (char*)malloc(base_len + 12);
   assert(description != NULL); // Just abort if we are out of memory.
   strcpy(description, base_description);
-  int i = 1;
-  int j = 0;
 
-  // find the maxima length of number in base_description
-  if (base_len>0)
+  // find the number at the end of base_description
+  int j = 0;
+  while (j < base_len && j < 8 && isdigit((unsigned char)base_description[base_len - j - 1]))
   {
-    while (base_len>=j-1 &&
-           sscanf(description+base_len-j-1, "%i", &i)==1)
-    {
-      j++;
-    }
-    if (j!=0)
-    {
-      i++;
-    }
+    j++;
   }
+  int i = (j > 0) ? strtol(base_description + base_len - j, NULL, 10) + 1 : 1;
 
   sprintf(description + base_len - j, "%i", i);
 
-  while (getSubTree(description) && i < 100000)
+  while (getSubTree(description))
   {
     i++;
     sprintf(description + base_len - j, "%i", i);
-- 
2.43.0


From a3e3eee7eb7fb5b3109f2364d261ff3fc99d2ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 30/77] fix: reading an attribute tree lost a last line without
 end and never ended on long lines and open comments

---
 .../src/icl_core_config/AttributeTree.cpp     | 39 ++++++++-----------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 9acc3d3..f289568 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -26,6 +26,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <vector>
 
 #ifdef _SYSTEM_WIN32_
 #include <direct.h>
@@ -61,17 +62,19 @@ int file_path_str_len = 0;
 int file_name_str_len = 0;
 const int INCLUDE_OFFSET = 10;
 
-static char buffer[2000];
-
-void readNextLineInBuffer(istream &in)
+//! Reads a line of any length. \returns \c false if there is none.
+static bool readNextLineInBuffer(istream &in, std::vector<char>& buffer)
 {
-  in.getline(buffer, 1998);
+  std::string line;
+  bool result = !std::getline(in, line).fail();
   // Window/Unix
-  int line_length=strlen(buffer);
-  if (line_length > 0 && buffer[line_length-1]=='\r')
+  if (!line.empty() && line[line.length()-1]=='\r')
   {
-    buffer[line_length-1]=0;
+    line.erase(line.length()-1);
   }
+  buffer.assign(line.begin(), line.end());
+  buffer.push_back(0);
+  return result;
 }
 
 // ===============================================================
@@ -1272,20 +1275,16 @@ int AttributeTree::load(const char *filename, bool unmark_changes, bool process_
 int AttributeTree::get(istream &in, bool process_include, bool load_comments,
                        const class FilePath *file_path)
 {
-  // save stack memory on reccursive calls!
-  // without static in the insmod call for the RTL-module we crash !
-  buffer[1999] = 0;
+  std::vector<char> buffer;
   char *attribute, *line;
   AttributeTree *at = this;
   int lineno = 1;
 
-  readNextLineInBuffer(in);
-
-  do
+  while (readNextLineInBuffer(in, buffer))
   {
     //LOCAL_PRINTF("get next line %i\n",lineno);
     lineno++;
-    line = buffer;
+    line = &buffer[0];
     while (isspace(*line))
     {
       line++;
@@ -1350,18 +1349,17 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
             {
               at_c = new AttributeTree(comment_str, at);
             }
-            do
+            while (!comment_end && readNextLineInBuffer(in, buffer))
             {
               lineno++;
-              readNextLineInBuffer(in);
-              line = buffer;
-              char *line_end = buffer + strlen(buffer);
+              line = &buffer[0];
+              char *line_end = line + strlen(line);
               line_end--;
               while (isspace(*line))
               {
                 line++;
               }
-              while (line_end >= buffer && isspace(*line_end))
+              while (line_end >= &buffer[0] && isspace(*line_end))
               {
                 line_end--;
               }
@@ -1373,7 +1371,6 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
                 at_c->appendAttribute(line, "\n");
               }
             }
-            while (!comment_end);
           }
           else
           {
@@ -1411,9 +1408,7 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
         }
       }
     }
-    readNextLineInBuffer(in);
   }
-  while (!in.eof());
   return -1;
 }
 
-- 
2.43.0


From e5d9716a2ec87d644189440d986e266d9022611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 31/77] fix: end of a block of an attribute tree with a
 composed name went up only one level

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index f289568..c5d7c66 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1278,6 +1278,8 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
   std::vector<char> buffer;
   char *attribute, *line;
   AttributeTree *at = this;
+  // The nodes around the open blocks.
+  std::vector<AttributeTree*> blocks;
   int lineno = 1;
 
   while (readNextLineInBuffer(in, buffer))
@@ -1374,6 +1376,7 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
           }
           else
           {
+            blocks.push_back(at);
             at = at->setAttribute(line, 0);
           }
         }
@@ -1390,11 +1393,12 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
             else
             {
               //LOCAL_PRINTF("AttributeTree::get >> found '}'\n");
-              if (!at->parentTree())
+              if (blocks.empty())
               {
                 return lineno;
               }
-              at = at->parentTree();
+              at = blocks.back();
+              blocks.pop_back();
             }
           }
           else
-- 
2.43.0


From 34f0a5184a6075b717884e8927e3f8d0f2d58055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 32/77] fix: a block of an attribute tree deleted the attribute
 its node already had

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index c5d7c66..a7fe518 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -912,7 +912,10 @@ AttributeTree *AttributeTree::setAttribute(const char *param_description, const
     //printf("c:%p \n",ret);
     return ret;
   }
-  setAttribute(attribute);
+  if (attribute)
+  {
+    setAttribute(attribute);
+  }
   return this;
 }
 
@@ -924,7 +927,10 @@ AttributeTree* AttributeTree::setAttribute(const char *description, const char *
   {
     // Keine Description -> Wir sind am Endknoten -> Eintrag machen
     //  printf("set attribute: %s :%s\n",m_this_description,attribute);
-    setAttribute(attribute);
+    if (attribute)
+    {
+      setAttribute(attribute);
+    }
 
     return this;
   }
-- 
2.43.0


From 1729818f3abad5a8d67b07b18ce61cd78c53f0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 33/77] fix: saved attribute trees had wrong names in flat and
 nested parts

---
 .../src/icl_core_config/AttributeTree.cpp     | 58 +++++++------------
 1 file changed, 20 insertions(+), 38 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index a7fe518..62efe21 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -26,6 +26,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <algorithm>
 #include <vector>
 
 #ifdef _SYSTEM_WIN32_
@@ -1137,61 +1138,46 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
     return;
   }
 
-  char *the_upper_description = strdup(upper_description ? upper_description : "");
-  char *t_description = strdup(m_this_description ? m_this_description : "");
-  assert(the_upper_description != NULL);
-  assert(t_description != NULL);
+  std::string upper(upper_description ? upper_description : "");
+  // Inside of a block only the indentation is left.
+  std::string indentation(upper, 0, std::min(upper.find_first_not_of(' '), upper.length()));
 
   // is this the comment attribute tree ?
   if (isMultilineComment())
   {
-    out << the_upper_description << comment_str << '{' << endl;
+    out << indentation << comment_str << '{' << endl;
     out << m_this_attribute << endl;
-    out << the_upper_description << '}' << comment_str << endl;
-
-    free(the_upper_description);
-    free(t_description);
-
+    out << indentation << '}' << comment_str << endl;
     return;
   }
 
+  std::string t_description(m_this_description ? m_this_description : "");
+  std::string description = upper;
+  if (!description.empty() && description[description.length()-1] != ' ' && !t_description.empty())
+  {
+    description += ".";
+  }
+  description += t_description;
+
   int contents = contains();
   if (contents >= change_style_depth || hasMultilineComment())
   {
-    out << the_upper_description << t_description << '{' << endl;
+    out << description << '{' << endl;
     if (m_this_attribute && strcmp(m_this_attribute, ""))
     {
-      out << the_upper_description << ':' << m_this_attribute << endl;
+      out << indentation << ':' << m_this_attribute << endl;
     }
 
     if (m_subtree_list)
     {
-      char *tab = (char*)malloc(strlen(the_upper_description) + 2);
-      assert(tab != NULL); // Just abort if we are out of memory.
-      strcat(strcpy(tab, the_upper_description), " ");
-      m_subtree_list->printSubTree(out, change_style_depth, tab);
-      free(tab);
+      std::string tab = indentation + " ";
+      m_subtree_list->printSubTree(out, change_style_depth, &tab[0]);
     }
 
-    out << the_upper_description << '}' << t_description << endl;
+    out << indentation << '}' << t_description << endl;
   }
   else
   {
-    size_t tud_len = strlen(the_upper_description);
-    size_t len = strlen(t_description) + tud_len + 1;
-    char *description = static_cast<char*>(malloc(len + 1));
-    assert(description != NULL); // Just abort if we are out of memory.
-    memset(description, 0, len + 1);
-
-    if ((tud_len > 0) && (the_upper_description[tud_len-1] == ' '))
-    {
-      strcat(strcpy(description, the_upper_description), t_description);
-    }
-    else
-    {
-      strcat(strcat(strcpy(description, the_upper_description), "."), t_description);
-    }
-
     if (m_this_attribute)
     {
       out << description << ':' << m_this_attribute << endl;
@@ -1199,13 +1185,9 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
 
     if (m_subtree_list)
     {
-      m_subtree_list->printSubTree(out, change_style_depth, description);
+      m_subtree_list->printSubTree(out, change_style_depth, &description[0]);
     }
-    free(description);
   }
-
-  free(the_upper_description);
-  free(t_description);
 }
 
 int AttributeTree::save(const char *filename, int change_style_depth, bool unmark_changes)
-- 
2.43.0


From 510f24b126b76bc96108b6cd80ff1da59274a8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 34/77] fix: a comment saved as a block of its own was read
 back with a colon

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 62efe21..80b9ebc 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1160,7 +1160,7 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
   description += t_description;
 
   int contents = contains();
-  if (contents >= change_style_depth || hasMultilineComment())
+  if (!isComment() && (contents >= change_style_depth || hasMultilineComment()))
   {
     out << description << '{' << endl;
     if (m_this_attribute && strcmp(m_this_attribute, ""))
-- 
2.43.0


From bca20fe671073c8c71c2baac9294fbcae4ca6e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 35/77] fix: a ConfigList read again returned the elements of
 its earlier reading, too

---
 src/icl_core/src/icl_core_config/ConfigList.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/ConfigList.h b/src/icl_core/src/icl_core_config/ConfigList.h
index 0127568..7be8bd8 100644
--- a/src/icl_core/src/icl_core_config/ConfigList.h
+++ b/src/icl_core/src/icl_core_config/ConfigList.h
@@ -70,6 +70,9 @@ public:
   {
     bool result = false;
     bool error = false;
+    // Elements of an earlier call are no part of this result.
+    m_element_map.clear();
+    m_string_value_map.clear();
     ConfigIterator cIter = ConfigManager::instance().find(
       boost::regex_replace(prefix + m_config_prefix, boost::regex("[^\\w/]"), "\\\\$&") + "\\/(.+?)(\\/(.+))?");
     while(cIter.next())
-- 
2.43.0


From c9f3f83b12e5e50d7c526e5f51c66ee72de6f263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 36/77] fix: an observer unregistered or deleted during a
 notification was called after that

---
 .../src/icl_core_config/ConfigManager.cpp       | 17 +++++++++++++++--
 .../src/icl_core_config/ConfigManager.h         |  3 +++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigManager.cpp b/src/icl_core/src/icl_core_config/ConfigManager.cpp
index e680023..e1d7ef5 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.cpp
+++ b/src/icl_core/src/icl_core_config/ConfigManager.cpp
@@ -21,6 +21,7 @@
 //----------------------------------------------------------------------
 #include "icl_core_config/ConfigManager.h"
 
+#include <algorithm>
 #include <assert.h>
 #include <iostream>
 #include <tinyxml.h>
@@ -304,7 +305,8 @@ void ConfigManager::registerObserver(ConfigObserver *observer, const icl_core::S
   if (key == "")
   {
     ConfigIterator iter = icl_core::config::ConfigManager::instance().find(".*");
-    while (iter.next())
+    // The observer may unregister itself when it is called.
+    while (isRegistered(observer, key) && iter.next())
     {
       observer->valueChanged(iter.key());
     }
@@ -419,9 +421,20 @@ void ConfigManager::notify(const icl_core::String &key) const
   icl_core::List<ConfigObserver*>::iterator iter;
   for (iter = observers.begin(); iter != observers.end(); ++iter)
   {
-    (*iter)->valueChanged(key);
+    // Observers called before may have unregistered or deleted this one.
+    if (isRegistered(*iter, key) || isRegistered(*iter, ""))
+    {
+      (*iter)->valueChanged(key);
+    }
   }
 }
 
+bool ConfigManager::isRegistered(const ConfigObserver *observer, const icl_core::String &key) const
+{
+  ObserverMap::const_iterator find_it = m_observers.find(key);
+  return find_it != m_observers.end()
+    && std::find(find_it->second.begin(), find_it->second.end(), observer) != find_it->second.end();
+}
+
 }
 }
diff --git a/src/icl_core/src/icl_core_config/ConfigManager.h b/src/icl_core/src/icl_core_config/ConfigManager.h
index 87f56fb..80ea1b0 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.h
+++ b/src/icl_core/src/icl_core_config/ConfigManager.h
@@ -226,6 +226,9 @@ private:
   //! Notify all observers about a changed key/value pair
   void notify(const icl_core::String &key) const;
 
+  //! Check if the observer is currently registered for exactly this key
+  bool isRegistered(const ConfigObserver *observer, const icl_core::String &key) const;
+
   void readXml(const ::icl_core::String& prefix, TiXmlNode *node, FilePath fp, bool extend_prefix = true);
   void readAttributeTree(const icl_core::String& prefix, AttributeTree *at, bool extend_prefix = true);
 
-- 
2.43.0


From 442823df1275d4bf4785a37a4802498ad4998a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 37/77] fix: SpinLock::tryLock reported success for a lock that
 was taken and failure for one it took

---
 src/icl_core/src/icl_core_thread/SpinLock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/SpinLock.h b/src/icl_core/src/icl_core_thread/SpinLock.h
index ab955c5..85fafa2 100644
--- a/src/icl_core/src/icl_core_thread/SpinLock.h
+++ b/src/icl_core/src/icl_core_thread/SpinLock.h
@@ -59,7 +59,7 @@ public:
    */
   bool tryLock()
   {
-    return (m_state.exchange(LOCKED, boost::memory_order_acquire) == LOCKED);
+    return (m_state.exchange(LOCKED, boost::memory_order_acquire) == UNLOCKED);
   }
 
   //! Unlocks the mutex.
-- 
2.43.0


From 9b5fa049ab1e7e991ac56ef91b612112e22fca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 38/77] fix: a thread that had finished by itself was never
 joined, so it leaked and could outlive its object

---
 src/icl_core/src/icl_core_thread/Thread.cpp | 17 ++++++++++++++---
 src/icl_core/src/icl_core_thread/Thread.h   |  1 +
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index fce345e..f1c34c8 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -137,12 +137,23 @@ bool Thread::executesHardRealtime() const
 
 void Thread::join()
 {
-  if (running())
+  // The thread has to be joined also if it is already finished: its
+  // resources are released only then, and only then it is guaranteed
+  // not to access this object any more.  Several threads may wait at
+  // the same time, only one of them may join.  The thread itself
+  // cannot join.
+  if (icl_core::os::threadSelf() == threadId())
   {
-    m_impl->join();
+    return;
   }
 
-  m_joined = true;
+  m_join_mutex.lock();
+  if (!m_joined)
+  {
+    m_impl->join();
+    m_joined = true;
+  }
+  m_join_mutex.unlock();
 }
 
 icl_core::ThreadPriority Thread::priority() const
diff --git a/src/icl_core/src/icl_core_thread/Thread.h b/src/icl_core/src/icl_core_thread/Thread.h
index 550ce0e..6f56ad4 100644
--- a/src/icl_core/src/icl_core_thread/Thread.h
+++ b/src/icl_core/src/icl_core_thread/Thread.h
@@ -404,6 +404,7 @@ private:
   icl_core::ThreadPriority m_priority;
 
   Mutex m_thread_mutex;
+  Mutex m_join_mutex;
 
   ThreadImpl *m_impl;
 
-- 
2.43.0


From 27348bb7e693be78e28a30ede850a95189826105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 39/77] fix: Thread::wait could return false for a thread that
 had finished in time

---
 src/icl_core/src/icl_core_thread/Thread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index f1c34c8..38cac1d 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -251,9 +251,11 @@ void Thread::runThread()
   // Call the run loop.
   run();
 
+  // The thread has to be finished when the mutex is unlocked, because
+  // wait() looks as soon as it gets the mutex.
   m_execute = false;
-  m_thread_mutex.unlock();
   m_finished = true;
+  m_thread_mutex.unlock();
 
   LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Done." << endl);
 }
-- 
2.43.0


From 73e3068e2c7ef2f775b69f2da3b849b31446f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:39 +0000
Subject: [PATCH 40/77] fix: a cancelled thread left its mutex locked, so that
 starting or waiting for it again blocked for ever

---
 src/icl_core/src/icl_core_thread/Thread.cpp | 40 +++++++++++++--------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index 38cac1d..23eb116 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -239,23 +239,35 @@ void Thread::runThread()
 
   LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Begin." << endl);
 
-  m_thread_mutex.lock();
-  m_execute = true;
-  m_starting = false;
-  m_finished = false;
+  // A destructor does this also for a cancelled thread, which would
+  // otherwise keep the mutex locked for ever.
+  struct FinishGuard
+  {
+    explicit FinishGuard(Thread& thread) : m_thread(thread) { m_thread.m_thread_mutex.lock(); }
+    ~FinishGuard()
+    {
+      // The thread has to be finished when the mutex is unlocked,
+      // because wait() looks as soon as it gets the mutex.
+      m_thread.m_execute = false;
+      m_thread.m_finished = true;
+      m_thread.m_thread_mutex.unlock();
+    }
+    Thread& m_thread;
+  };
 
-  // If this is actually a periodic thread, this call makes it periodic.
-  // It this is a "normal" thread, this call does nothing.
-  makePeriodic();
+  {
+    FinishGuard guard(*this);
+    m_execute = true;
+    m_starting = false;
+    m_finished = false;
 
-  // Call the run loop.
-  run();
+    // If this is actually a periodic thread, this call makes it periodic.
+    // It this is a "normal" thread, this call does nothing.
+    makePeriodic();
 
-  // The thread has to be finished when the mutex is unlocked, because
-  // wait() looks as soon as it gets the mutex.
-  m_execute = false;
-  m_finished = true;
-  m_thread_mutex.unlock();
+    // Call the run loop.
+    run();
+  }
 
   LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Done." << endl);
 }
-- 
2.43.0


From 7208764725bd28d000487c207c13bf6eef792d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 41/77] fix: a periodic thread that was destroyed while it ran
 used its freed timer

---
 src/icl_core/src/icl_core_thread/PeriodicThread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThread.cpp b/src/icl_core/src/icl_core_thread/PeriodicThread.cpp
index c9e98f3..ca30b2a 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThread.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThread.cpp
@@ -105,6 +105,10 @@ PeriodicThread::PeriodicThread(const icl_core::String& description,
 
 PeriodicThread::~PeriodicThread()
 {
+  // The thread uses the implementation as long as it runs.
+  stop();
+  join();
+
   delete m_impl; m_impl = NULL;
 }
 
-- 
2.43.0


From c77876eacecd8450147f2f360f23bcb012bdb244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 42/77] fix: every start of a periodic thread leaked a timer
 file descriptor

---
 .../PeriodicThreadImplTimerfd.cpp              | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
index a96e422..d91797f 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
@@ -28,6 +28,7 @@
 #include "Logging.h"
 
 #include <sys/timerfd.h>
+#include <unistd.h>
 
 namespace icl_core {
 namespace thread {
@@ -41,18 +42,25 @@ PeriodicThreadImplTimerfd::PeriodicThreadImplTimerfd(const icl_core::TimeSpan& p
 
 PeriodicThreadImplTimerfd::~PeriodicThreadImplTimerfd()
 {
+  if (timer_created)
+  {
+    close(m_info->timer_fd);
+  }
   delete m_info;
 }
 
 void PeriodicThreadImplTimerfd::makePeriodic()
 {
-  /* Create the timer */
-  int fd = timerfd_create(CLOCK_MONOTONIC, 0);
+  /* Create the timer, unless the thread is started again */
   m_info->wakeups_missed = 0;
-  m_info->timer_fd = fd;
-  if (fd != -1)
+  if (!timer_created)
   {
-    timer_created = true;
+    int fd = timerfd_create(CLOCK_MONOTONIC, 0);
+    m_info->timer_fd = fd;
+    if (fd != -1)
+    {
+      timer_created = true;
+    }
   }
 
   setPeriod(m_period);
-- 
2.43.0


From 7599b8efaa2632d580024cc4e6c9af6abae93fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 43/77] fix: PeriodicThread::setPeriod reported failure before
 the thread was started, though the period was changed

---
 .../src/icl_core_thread/PeriodicThreadImplTimerfd.cpp         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
index d91797f..3ca33ab 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
@@ -70,7 +70,9 @@ bool PeriodicThreadImplTimerfd::setPeriod(const icl_core::TimeSpan& period)
 {
   m_period = period;
 
-  int ret = -1;
+  // Before the thread is started there is no timer yet, it will be
+  // created with this period.
+  int ret = 0;
   if (timer_created)
   {
     /* Make the timer periodic */
-- 
2.43.0


From 533cede0d8d8ec6f0c6ffb23155e161076c85346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 44/77] fix: an active object that was destroyed while it ran
 used its freed queue and semaphore

---
 src/icl_core/src/icl_core_thread/ActiveObject.cpp | 6 ++++++
 src/icl_core/src/icl_core_thread/ActiveObject.h   | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.cpp b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
index 8b53767..0574375 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.cpp
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
@@ -31,6 +31,12 @@ ActiveObject::ActiveObject(const icl_core::String& description, icl_core::Thread
 {
 }
 
+ActiveObject::~ActiveObject()
+{
+  stop();
+  join();
+}
+
 void ActiveObject::run()
 {
   onThreadStart();
diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.h b/src/icl_core/src/icl_core_thread/ActiveObject.h
index cbd5326..f4bf60d 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.h
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.h
@@ -49,6 +49,11 @@ public:
   ActiveObject(const icl_core::String& description,
                icl_core::ThreadPriority priority = 0);
 
+  /*! Stops the active object thread and waits until it has finished,
+   *  because it uses the members of this class.
+   */
+  virtual ~ActiveObject();
+
   /*! Processes the operation queue.  This function should not be
    *  overridden by subclasses.
    */
-- 
2.43.0


From 2392ef5d783f8d117b870ea0e7083c6e6da97cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:05 +0000
Subject: [PATCH 45/77] fix: an operation queued while an active object stopped
 was never deleted, and the queue was read unlocked

---
 .../src/icl_core_thread/ActiveObject.cpp      | 58 ++++++++++++-------
 .../src/icl_core_thread/ActiveObject.h        |  6 ++
 2 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.cpp b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
index 0574375..fdd1480 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.cpp
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
@@ -47,32 +47,20 @@ void ActiveObject::run()
     m_sem.wait();
     if (execute())
     {
-      // Process all queued operations.
-      while (!m_operation_queue.empty())
+      // Process all queued operations.  The mutex is not held while an
+      // operation is executed!
+      while (ActiveOperation *op = nextOperation())
       {
-        // Try to lock the queue mutex
-        if (m_operation_queue_mutex.lock())
-        {
-          // Extract the next pending operation from the queue.
-          ActiveOperation *op = m_operation_queue.front();
-          m_operation_queue.pop_front();
-
-          // Release the mutex before executing the operation!
-          m_operation_queue_mutex.unlock();
-
-          // Finally, execute the operation.
-          op->invoke();
-          delete op;
-        }
+        op->invoke();
+        delete op;
       }
     }
   }
 
   // Delete any pending operations.
-  while (!m_operation_queue.empty())
+  while (ActiveOperation *op = nextOperation())
   {
-    delete m_operation_queue.front();
-    m_operation_queue.pop_front();
+    delete op;
   }
 
   onThreadStop();
@@ -86,10 +74,23 @@ void ActiveObject::stop()
 
 void ActiveObject::queue(ActiveOperation *active_operation)
 {
-  if (execute() && m_operation_queue_mutex.lock())
+  bool queued = false;
+
+  // The thread deletes the pending operations after it was stopped, so
+  // this has to be checked while the queue is locked.  Otherwise an
+  // operation could be added after that, which nobody would delete.
+  if (m_operation_queue_mutex.lock())
   {
-    m_operation_queue.push_back(active_operation);
+    if (execute())
+    {
+      m_operation_queue.push_back(active_operation);
+      queued = true;
+    }
     m_operation_queue_mutex.unlock();
+  }
+
+  if (queued)
+  {
     m_sem.post();
   }
   else
@@ -98,5 +99,20 @@ void ActiveObject::queue(ActiveOperation *active_operation)
   }
 }
 
+ActiveOperation *ActiveObject::nextOperation()
+{
+  ActiveOperation *op = NULL;
+  if (m_operation_queue_mutex.lock())
+  {
+    if (!m_operation_queue.empty())
+    {
+      op = m_operation_queue.front();
+      m_operation_queue.pop_front();
+    }
+    m_operation_queue_mutex.unlock();
+  }
+  return op;
+}
+
 }
 }
diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.h b/src/icl_core/src/icl_core_thread/ActiveObject.h
index f4bf60d..9510431 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.h
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.h
@@ -90,6 +90,12 @@ protected:
    */
   void queue(ActiveOperation *active_operation);
 
+  /*!
+   * Extract the next pending operation from the queue.
+   * Returns NULL if there is none.
+   */
+  ActiveOperation *nextOperation();
+
   icl_core::List<ActiveOperation*> m_operation_queue;
   Mutex m_operation_queue_mutex;
   Semaphore m_sem;
-- 
2.43.0


From bbfc4a4c28262d3138281f7f6d5589302a2612af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 46/77] fix: operations were added to a periodic dispatch
 thread's queue without a lock while the thread read it

---
 .../icl_core_dispatch/PeriodicDispatchThread.cpp   | 14 +++++++++++---
 .../src/icl_core_dispatch/PeriodicDispatchThread.h |  3 +++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp
index 1986b4a..ed30301 100644
--- a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp
+++ b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp
@@ -24,8 +24,6 @@
 
 #include "icl_core_dispatch/Operation.h"
 
-#include <boost/foreach.hpp>
-
 namespace icl_core {
 namespace dispatch {
 
@@ -44,17 +42,27 @@ PeriodicDispatchThread::~PeriodicDispatchThread()
 
 void PeriodicDispatchThread::addOperation(Operation *op)
 {
+  m_dispatch_queue_mutex.lock();
   m_dispatch_queue.push_back(op);
+  m_dispatch_queue_mutex.unlock();
 }
 
 void PeriodicDispatchThread::run()
 {
   while (execute())
   {
-    BOOST_FOREACH (Operation *op, m_dispatch_queue)
+    // The mutex is not held while an operation is executed, which may
+    // add further operations.
+    m_dispatch_queue_mutex.lock();
+    for (icl_core::List<Operation*>::iterator it = m_dispatch_queue.begin();
+         it != m_dispatch_queue.end(); ++it)
     {
+      Operation *op = *it;
+      m_dispatch_queue_mutex.unlock();
       op->execute();
+      m_dispatch_queue_mutex.lock();
     }
+    m_dispatch_queue_mutex.unlock();
 
     if (execute())
     {
diff --git a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h
index 61e2f7e..47f4eda 100644
--- a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h
+++ b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h
@@ -25,6 +25,7 @@
 
 #include "icl_core/List.h"
 #include "icl_core_dispatch/ImportExport.h"
+#include "icl_core_thread/Mutex.h"
 #include "icl_core_thread/PeriodicThread.h"
 
 namespace icl_core {
@@ -56,6 +57,8 @@ private:
   virtual void run();
 
   icl_core::List<Operation*> m_dispatch_queue;
+  //! Protects the queue, because operations can be added at any time.
+  icl_core::thread::Mutex m_dispatch_queue_mutex;
 };
 
 }
-- 
2.43.0


From 1d7a45150680621cc9335616971cdb103e5c0ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:47 +0000
Subject: [PATCH 47/77] fix: a log output thread that had finished already was
 not joined when its output was shut down

---
 src/icl_core/src/icl_core_logging/Thread.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/Thread.cpp b/src/icl_core/src/icl_core_logging/Thread.cpp
index 4a26fb4..a54ff7e 100644
--- a/src/icl_core/src/icl_core_logging/Thread.cpp
+++ b/src/icl_core/src/icl_core_logging/Thread.cpp
@@ -83,12 +83,13 @@ Thread::~Thread()
 
 void Thread::join()
 {
-  if (running())
+  // The thread has to be joined also if it is already finished: its
+  // resources are released only then.
+  if (!m_joined)
   {
     m_impl->join();
+    m_joined = true;
   }
-
-  m_joined = true;
 }
 
 bool Thread::start()
-- 
2.43.0


From 46e237b0fe90285083520b3cae32967b148aaeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 48/77] fix: names of a log entry's file and object were
 uninitialised, and they and its class, function and line were kept for the
 next entry

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 80ef7f0..69268ae 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -135,6 +135,13 @@ void ThreadStream::flush()
                     m_classname, m_objectname, m_function, m_data);
     }
 
+    // The values describe only the entry which has just been written.
+    m_filename[0] = '\0';
+    m_line = 0;
+    m_classname[0] = '\0';
+    m_objectname[0] = '\0';
+    m_function[0] = '\0';
+
     m_parent->releaseThreadStream(this);
 
     m_parent->m_mutex.post();
@@ -153,7 +160,9 @@ ThreadStream::ThreadStream(LogStream *parent)
     m_line(0),
     m_write_index(0)
 {
+  memset(m_filename, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_classname, 0, cDEFAULT_LOG_SIZE + 1);
+  memset(m_objectname, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_function, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_data, 0, cDEFAULT_LOG_SIZE + 1);
 }
-- 
2.43.0


From 0142f61b06e1767ff1f5bd780c557b2cad188113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:05 +0000
Subject: [PATCH 49/77] fix: text of a log message could be merged with or cut
 by that of another thread which reused its thread stream

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 69268ae..7264c41 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -142,6 +142,8 @@ void ThreadStream::flush()
     m_objectname[0] = '\0';
     m_function[0] = '\0';
 
+    // Once it is released, another thread can use this thread stream.
+    m_write_index = 0;
     m_parent->releaseThreadStream(this);
 
     m_parent->m_mutex.post();
@@ -149,8 +151,8 @@ void ThreadStream::flush()
   else
   {
     PRINTF("ThreadStream(%s)::Flush: mutex lock failed\n", m_parent->nameCStr());
+    m_write_index = 0;
   }
-  m_write_index = 0;
 }
 
 ThreadStream::ThreadStream(LogStream *parent)
-- 
2.43.0


From 5fa4bb55f0e56e8376a17cf0f08e5d977d60b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 50/77] fix: a log message was lost when a signal interrupted
 the logging thread while it waited for a semaphore

---
 src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp b/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp
index 9d23ad7..3cd2ba5 100644
--- a/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp
+++ b/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp
@@ -50,7 +50,13 @@ void SemaphoreImplPosix::post()
 
 bool SemaphoreImplPosix::wait()
 {
-  int res = sem_wait(m_semaphore);
+  // A signal handled by this thread only interrupts waiting.
+  int res;
+  do
+  {
+    res = sem_wait(m_semaphore);
+  }
+  while (res != 0 && errno == EINTR);
   return (res == 0);
 }
 
-- 
2.43.0


From a54567de1472fa2efd3762f0e07d4ce6b64ef402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:59 +0000
Subject: [PATCH 51/77] fix: text of a time stamp could be that of another
 thread's time stamp

---
 src/icl_core/src/icl_core/TimeStamp.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index 2fb78cf..1ce2167 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -206,14 +206,27 @@ void TimeStamp::strfTime(char* dest, size_t max_len, const char *format) const
 {
   time_t time = tsSec();
   struct tm *newtime;
+#ifdef _SYSTEM_POSIX_
+  // Other threads must not overwrite the result.
+  struct tm time_buffer;
+  newtime = gmtime_r(&time, &time_buffer);
+#else
   newtime = gmtime(&time);
+#endif
   strftime(dest, max_len, format, newtime);
 }
 
 void TimeStamp::strfLocaltime(char* dest, size_t max_len, const char *format) const
 {
   time_t time = tsSec();
+#ifdef _SYSTEM_POSIX_
+  // Other threads must not overwrite the result.
+  struct tm time_buffer;
+  tzset();
+  struct tm *newtime = localtime_r(&time, &time_buffer);
+#else
   struct tm *newtime = localtime(&time);
+#endif
   if (newtime)
   {
     strftime(dest, max_len, format, newtime);
-- 
2.43.0


From 32c6f0d230931c714fe72fc57ecf8bf6fee66dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 52/77] fix: a log format that ends within a field specifier
 was read beyond its end

---
 src/icl_core/src/icl_core_logging/LogOutputStream.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index ddd5366..69a9e8c 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -474,9 +474,8 @@ void LogOutputStream::parseLogFormat(const char *format)
     if (format[0] != 0)
     {
       m_new_log_format.push_back(new_entry);
+      ++format;
     }
-
-    ++format;
   }
   else
   {
-- 
2.43.0


From c9be97101b84828d8d5777d3c0fe5b4d038e7b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:48 +0000
Subject: [PATCH 53/77] fix: texts of 100 and more characters in a log format
 overflowed their buffers

---
 .../src/icl_core_logging/LogOutputStream.cpp  | 22 ++++++++-----------
 .../src/icl_core_logging/LogOutputStream.h    |  9 +++-----
 2 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index 69a9e8c..96a7f58 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -407,13 +407,11 @@ void LogOutputStream::parseLogFormat(const char *format)
     }
 
     // Read optional prefix text.
-    char *prefix_ptr = new_entry.text;
     while (format[0] != 0 && format[0] != 'C' && format[0] != 'O' && format[0] != 'D'
            && format[0] != 'E' && format[0] != 'F' && format[0] != 'G' && format[0] != 'L'
            && format[0] != 'S' && format[0] != 'T' && format[0] != 'M')
     {
-      *prefix_ptr = format[0];
-      ++prefix_ptr;
+      new_entry.text += format[0];
       ++format;
     }
 
@@ -425,17 +423,17 @@ void LogOutputStream::parseLogFormat(const char *format)
     else if (format[0] == 'O')
     {
       new_entry.type = LogFormatEntry::eT_OBJECTNAME;
-      if (new_entry.text[0] == '(')
+      if (new_entry.text.compare(0, 1, "(") == 0)
       {
-        std::strncpy(new_entry.suffix, ")", 100);
+        new_entry.suffix = ")";
       }
-      else if (new_entry.text[0] == '[')
+      else if (new_entry.text.compare(0, 1, "[") == 0)
       {
-        std::strncpy(new_entry.suffix, "]", 100);
+        new_entry.suffix = "]";
       }
-      else if (new_entry.text[0] == '{')
+      else if (new_entry.text.compare(0, 1, "{") == 0)
       {
-        std::strncpy(new_entry.suffix, "}", 100);
+        new_entry.suffix = "}";
       }
     }
     else if (format[0] == 'D')
@@ -479,15 +477,13 @@ void LogOutputStream::parseLogFormat(const char *format)
   }
   else
   {
-    char *text_ptr = new_entry.text;
     while (format[0] != '~' && format[0] != 0)
     {
-      *text_ptr = format[0];
-      ++text_ptr;
+      new_entry.text += format[0];
       ++format;
     }
 
-    if (new_entry.text[0] != 0)
+    if (!new_entry.text.empty())
     {
       m_new_log_format.push_back(new_entry);
     }
diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.h b/src/icl_core/src/icl_core_logging/LogOutputStream.h
index 491154c..cd421ec 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.h
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.h
@@ -326,15 +326,12 @@ private:
 
     LogFormatEntry()
       : type(eT_TEXT), width(0)
-    {
-      icl_core::os::memset(text, 0, 100);
-      icl_core::os::memset(suffix, 0, 100);
-    }
+    { }
 
     EntryType type;
     size_t width;
-    char text[100];
-    char suffix[100];
+    icl_core::String text;
+    icl_core::String suffix;
   };
 
   /*! This virtual function is called from the worker thread just
-- 
2.43.0


From 656f6d6a0dcdef9869dca1e547114cf31b8c14b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 54/77] fix: names of a log message which were too long had no
 end and ran into the next ones

---
 .../src/icl_core_logging/LogOutputStream.cpp   | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index 96a7f58..0053c1c 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -664,12 +664,18 @@ LogOutputStream::LogMessage::LogMessage(const icl_core::TimeStamp& timestamp,
     log_level(log_level),
     line(line)
 {
-  std::strncpy(LogMessage::log_stream, log_stream, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::filename, filename, cMAX_DESCRIPTION_LENGTH+1);
-  std::strncpy(LogMessage::class_name, class_name, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::object_name, object_name, cMAX_DESCRIPTION_LENGTH+1);
-  std::strncpy(LogMessage::function_name, function_name, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::message_text, message_text, cDEFAULT_LOG_SIZE+1);
+  std::strncpy(LogMessage::log_stream, log_stream, cMAX_IDENTIFIER_LENGTH);
+  LogMessage::log_stream[cMAX_IDENTIFIER_LENGTH] = '\0';
+  std::strncpy(LogMessage::filename, filename, cMAX_DESCRIPTION_LENGTH);
+  LogMessage::filename[cMAX_DESCRIPTION_LENGTH] = '\0';
+  std::strncpy(LogMessage::class_name, class_name, cMAX_IDENTIFIER_LENGTH);
+  LogMessage::class_name[cMAX_IDENTIFIER_LENGTH] = '\0';
+  std::strncpy(LogMessage::object_name, object_name, cMAX_DESCRIPTION_LENGTH);
+  LogMessage::object_name[cMAX_DESCRIPTION_LENGTH] = '\0';
+  std::strncpy(LogMessage::function_name, function_name, cMAX_IDENTIFIER_LENGTH);
+  LogMessage::function_name[cMAX_IDENTIFIER_LENGTH] = '\0';
+  std::strncpy(LogMessage::message_text, message_text, cDEFAULT_LOG_SIZE);
+  LogMessage::message_text[cDEFAULT_LOG_SIZE] = '\0';
 }
 
 }
-- 
2.43.0


From 17a3323ca9ad756d9102b96a8c481122cfa7df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:42 +0000
Subject: [PATCH 55/77] fix: logging a large floating point number read beyond
 the buffer of its text

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 7264c41..0b922a2 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -278,8 +278,9 @@ ThreadStream& operator << (ThreadStream& stream, const std::string& text)
 
 ThreadStream& operator << (ThreadStream& stream, double value)
 {
-  char local_buffer[100];
-  size_t length = os::snprintf(local_buffer, 100, "%f", value);
+  // The largest numbers have 309 digits before the decimal point.
+  char local_buffer[330];
+  size_t length = os::snprintf(local_buffer, 330, "%f", value);
   stream.write(local_buffer, length);
   return stream;
 }
-- 
2.43.0


From 8b4fb9b961db980bba84a4415080d07c355fbbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 56/77] fix: log streams were used after they had been deleted
 when logging was shut down and initialized again

---
 src/icl_core/src/icl_core_logging/Logging.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/Logging.h b/src/icl_core/src/icl_core_logging/Logging.h
index db74997..7af3bb6 100644
--- a/src/icl_core/src/icl_core_logging/Logging.h
+++ b/src/icl_core/src/icl_core_logging/Logging.h
@@ -68,7 +68,7 @@
     name()                                                         \
       : LogStream(#name)                                           \
     { }                                                            \
-    ~name() { }                                                    \
+    ~name() { m_instance = NULL; }                                 \
     static name *m_instance;                                       \
     friend class ::icl_core::logging::LoggingManager;              \
     friend class ::icl_core::logging::hidden::LogStreamRegistrar;  \
@@ -87,7 +87,7 @@
     name()                                                              \
       : LogStream(#name)                                                \
     { }                                                                 \
-    ~name() { }                                                         \
+    ~name() { m_instance = NULL; }                                      \
     static name *m_instance;                                            \
     friend class ::icl_core::logging::LoggingManager;                   \
     friend class ::icl_core::logging::hidden::LogStreamRegistrar;       \
-- 
2.43.0


From 14daabf8a881c228f74d3bf961ac896c9f226797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 57/77] fix: a log stream or output without a configured log
 level got an undefined one

---
 src/icl_core/src/icl_core_logging/LoggingManager.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.h b/src/icl_core/src/icl_core_logging/LoggingManager.h
index bc53841..0066bb1 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.h
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.h
@@ -227,6 +227,8 @@ private:
   //! Configuration of a LogOutputStream.
   struct LogOutputStreamConfig
   {
+    LogOutputStreamConfig() : log_level(cDEFAULT_LOG_LEVEL) { }
+
     /*! The name of the output stream class as registered by the
      *  implementation.
      */
@@ -243,6 +245,8 @@ private:
   //! Configuration of a LogStream.
   struct LogStreamConfig
   {
+    LogStreamConfig() : log_level(cDEFAULT_LOG_LEVEL) { }
+
     //! Name of the log stream.
     icl_core::String name;
     //! Log level of the log stream.
-- 
2.43.0


From 23b6588e4ed66a7627c8ac5111acd660f14bcc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 58/77] fix: setLogLevel left the level of the default log
 output as it was

---
 src/icl_core/src/icl_core_logging/LoggingManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.cpp b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
index c267252..d7c431d 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.cpp
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
@@ -295,6 +295,10 @@ void LoggingManager::setLogLevel(icl_core::logging::LogLevel log_level)
     lsm_it->second->m_initial_level = log_level;
   }
 
+  if (m_default_log_output != NULL)
+  {
+    m_default_log_output->setLogLevel(log_level);
+  }
   for (LogOutputStreamMap::iterator los_it = m_log_output_streams.begin();
        los_it != m_log_output_streams.end(); ++los_it)
   {
-- 
2.43.0


From 230e5ffb838e412363a6288eb0b41e28ae2b7468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:10 +0000
Subject: [PATCH 59/77] fix: the LLOGGING macros with object names, and those
 with format strings, did not compile

---
 .../icl_core_logging/LoggingMacros_LLOGGING.h | 10 +++----
 .../LoggingMacros_LLOGGING_FMT.h              | 30 +++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h
index cce1304..f0c940b 100644
--- a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h
+++ b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h
@@ -91,12 +91,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_ERROR_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, function, arg)
-# define LLOGGING_WARNING_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, function, arg)
-# define LLOGGING_INFO_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, function, arg)
+# define LLOGGING_ERROR_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, arg)
+# define LLOGGING_WARNING_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, arg)
+# define LLOGGING_INFO_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, arg)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_DEBUG_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, function, arg)
-#  define LLOGGING_TRACE_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, function, arg)
+#  define LLOGGING_DEBUG_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, arg)
+#  define LLOGGING_TRACE_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, arg)
 # else
 #  define LLOGGING_DEBUG_CO(streamname, classname, objectname, arg) (void)0
 #  define LLOGGING_TRACE_CO(streamname, classname, objectname, arg) (void)0
diff --git a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h
index 51daec0..6ca5707 100644
--- a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h
+++ b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h
@@ -27,12 +27,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_FMT_ERROR(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_ERROR, __VA_ARGS__)
-# define LLOGGING_FMT_WARNING(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_WARNING, __VA_ARGS__)
-# define LLOGGING_FMT_INFO(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_INFO, __VA_ARGS__)
+# define LLOGGING_FMT_ERROR(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_ERROR, __VA_ARGS__)
+# define LLOGGING_FMT_WARNING(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_WARNING, __VA_ARGS__)
+# define LLOGGING_FMT_INFO(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_INFO, __VA_ARGS__)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_FMT_DEBUG(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_DEBUG, __VA_ARGS__)
-#  define LLOGGING_FMT_TRACE(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_TRACE, __VA_ARGS__)
+#  define LLOGGING_FMT_DEBUG(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_DEBUG, __VA_ARGS__)
+#  define LLOGGING_FMT_TRACE(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_TRACE, __VA_ARGS__)
 # else
 #  define LLOGGING_FMT_DEBUG(streamname, ...) (void)0
 #  define LLOGGING_FMT_TRACE(streamname, ...) (void)0
@@ -47,12 +47,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_FMT_ERROR_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_ERROR, classname, __VA_ARGS__)
-# define LLOGGING_FMT_WARNING_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_WARNING, classname, __VA_ARGS__)
-# define LLOGGING_FMT_INFO_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_INFO,  classname, __VA_ARGS__)
+# define LLOGGING_FMT_ERROR_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_ERROR, classname, __VA_ARGS__)
+# define LLOGGING_FMT_WARNING_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_WARNING, classname, __VA_ARGS__)
+# define LLOGGING_FMT_INFO_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_INFO,  classname, __VA_ARGS__)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_FMT_DEBUG_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_DEBUG, classname, __VA_ARGS__)
-#  define LLOGGING_FMT_TRACE_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_TRACE, classname, __VA_ARGS__)
+#  define LLOGGING_FMT_DEBUG_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_DEBUG, classname, __VA_ARGS__)
+#  define LLOGGING_FMT_TRACE_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_TRACE, classname, __VA_ARGS__)
 # else
 #  define LLOGGING_FMT_DEBUG_C(streamname, classname, ...) (void)0
 #  define LLOGGING_FMT_TRACE_C(streamname, classname, ...) (void)0
@@ -67,12 +67,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_FMT_ERROR_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, function, __VA_ARGS__)
-# define LLOGGING_FMT_WARNING_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, function, __VA_ARGS__)
-# define LLOGGING_FMT_INFO_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, function, __VA_ARGS__)
+# define LLOGGING_FMT_ERROR_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, __VA_ARGS__)
+# define LLOGGING_FMT_WARNING_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, __VA_ARGS__)
+# define LLOGGING_FMT_INFO_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, __VA_ARGS__)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_FMT_DEBUG_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, function, __VA_ARGS__)
-#  define LLOGGING_FMT_TRACE_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, function, __VA_ARGS__)
+#  define LLOGGING_FMT_DEBUG_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, __VA_ARGS__)
+#  define LLOGGING_FMT_TRACE_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, __VA_ARGS__)
 # else
 #  define LLOGGING_FMT_DEBUG_CO(streamname, classname, objectname, ...) (void)0
 #  define LLOGGING_FMT_TRACE_CO(streamname, classname, objectname, ...) (void)0
-- 
2.43.0


From 1caa608288ab1a6584789d3f44a98bacec8caaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:31 +0000
Subject: [PATCH 60/77] fix: a second initialization of logging doubled the
 quick debug output

---
 src/icl_core/src/icl_core_logging/LoggingManager.cpp | 6 +++++-
 src/icl_core/src/icl_core_logging/LoggingManager.h   | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.cpp b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
index d7c431d..fbafd02 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.cpp
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
@@ -100,7 +100,8 @@ void LoggingManager::initialize()
 
   // Configure the "QuickDebug" log stream and log output stream.
   icl_core::String quick_debug_filename;
-  if (icl_core::config::paramOpt<icl_core::String>("quick-debug", quick_debug_filename))
+  if (m_quick_debug_output == NULL
+      && icl_core::config::paramOpt<icl_core::String>("quick-debug", quick_debug_filename))
   {
     // Find an unused name for the QuickDebug[0-9]* log output stream.
     icl_core::String output_stream_name = "QuickDebug";
@@ -122,6 +123,7 @@ void LoggingManager::initialize()
     LogOutputStream *output_stream = new FileLogOutput(output_stream_name, quick_debug_filename,
                                                        eLL_TRACE, true);
     m_log_output_streams[output_stream_name] = output_stream;
+    m_quick_debug_output = output_stream;
     QuickDebug::instance().addOutputStream(output_stream);
     QuickDebug::instance().m_initial_level = eLL_TRACE;
   }
@@ -362,6 +364,7 @@ LoggingManager::LoggingManager()
   m_initialized = false;
   m_shutdown_running = false;
   m_default_log_output = NULL;
+  m_quick_debug_output = NULL;
 
   icl_core::String help_text =
     "Override the log level of all streams and connect them to stdout. "
@@ -449,6 +452,7 @@ void LoggingManager::shutdown()
 
   // Clear the log output stream map.
   m_log_output_streams.clear();
+  m_quick_debug_output = NULL;
 
   // Delete all log streams.
   for (LogStreamMap::iterator log_stream_it = m_log_streams.begin();
diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.h b/src/icl_core/src/icl_core_logging/LoggingManager.h
index 0066bb1..ad62e69 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.h
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.h
@@ -278,6 +278,7 @@ private:
   LogOutputStreamMap m_log_output_streams;
 
   LogOutputStream *m_default_log_output;
+  LogOutputStream *m_quick_debug_output;
 };
 
 //! Internal namespace for implementation details.
-- 
2.43.0


From 6afe0a6a485c8a3223180b73d0673774bf12aae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 61/77] fix: log messages to stdout were lost after configure()
 when the log level is given on the command line

---
 src/icl_core/src/icl_core_logging/LoggingManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.cpp b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
index fbafd02..fb94c49 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.cpp
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
@@ -159,8 +159,10 @@ void LoggingManager::configure()
     }
   }
 
-  // Delete the default log output stream, if necessary.
-  if (!m_output_stream_config.empty() && m_default_log_output != NULL)
+  // Delete the default log output stream, if necessary. An overridden
+  // log level needs it.
+  if (!m_output_stream_config.empty() && m_default_log_output != NULL
+      && !icl_core::config::Getopt::instance().paramOptPresent("log-level"))
   {
     for (LogStreamMap::iterator it = m_log_streams.begin(); it != m_log_streams.end(); ++it)
     {
-- 
2.43.0


From baa74955e22b15eef57551d358ef2d928ad3f12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 62/77] fix: nothing was logged to a file any more once it
 could not be written

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index b4aec23..1abd027 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -144,6 +144,8 @@ void FileLogOutput::pushImpl(const icl_core::String& log_line)
     else
 #endif
     {
+      // Try again if an earlier log line could not be written.
+      m_log_file.clear();
       m_log_file << log_line;
     }
 
-- 
2.43.0


From b76ac5c9594162b3235205f96f2db94f816af02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:01 +0000
Subject: [PATCH 63/77] fix: a zipped log file that was rotated at the start
 was opened twice and never closed

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 1abd027..b02dd46 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -94,7 +94,11 @@ FileLogOutput::FileLogOutput(const icl_core::String& name, const icl_core::Strin
       }
     }
 
-    openLogFile();
+    // The rotation may have opened the log file already.
+    if (!isOpen())
+    {
+      openLogFile();
+    }
   }
   else
   {
-- 
2.43.0


From 09702fdb6d6dffff2c8a3af424945799b76a4cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:55 +0000
Subject: [PATCH 64/77] fix: quotes in a message sent by the UDP log output
 broke its SQL values

---
 .../src/icl_core_logging/UdpLogOutput.cpp         | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
index 67f3675..94fe623 100644
--- a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
@@ -102,14 +102,14 @@ void UdpLogOutput::pushImpl(const LogMessage& log_message)
   if (m_socket >= 0)
   {
     std::stringstream ss;
-    ss << "'" << m_system_name << "',"
+    ss << "'" << escape(m_system_name) << "',"
        << "'" << log_message.timestamp.formatIso8601() << "'," << log_message.timestamp.tsNSec() << ","
        << "'" << logLevelDescription(log_message.log_level) << "',"
-       << "'" << log_message.log_stream << "',"
-       << "'" << log_message.filename << "'," << log_message.line << ","
-       << "'" << log_message.class_name << "',"
+       << "'" << escape(log_message.log_stream) << "',"
+       << "'" << escape(log_message.filename) << "'," << log_message.line << ","
+       << "'" << escape(log_message.class_name) << "',"
        << "'" << escape(log_message.object_name) << "',"
-       << "'" << log_message.function_name << "',"
+       << "'" << escape(log_message.function_name) << "',"
        << "'" << escape(log_message.message_text) << "'";
     std::string str = ss.str();
     int res = write(m_socket, str.c_str(), str.length());
@@ -122,9 +122,8 @@ void UdpLogOutput::pushImpl(const LogMessage& log_message)
 
 icl_core::String UdpLogOutput::escape(icl_core::String str) const
 {
-  // TODO: Which characters have to be escaped to ensure that a
-  // correct SQL statement is created?
-  str = boost::regex_replace(str, boost::regex("'"), "\\'");
+  // Quotes are doubled in an SQL string.
+  str = boost::regex_replace(str, boost::regex("'"), "''");
   //str = boost::regex_replace(str, boost::regex("\\n"), "\\\\n");
   return str;
 }
-- 
2.43.0


From d0a67982ea26aad87da0c56997b355966ecc4881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:33 +0000
Subject: [PATCH 65/77] fix: large line numbers were wrong in the SQLite log
 database

---
 src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp b/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
index 6ba99b6..eefa734 100644
--- a/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
+++ b/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
@@ -196,7 +196,7 @@ void SQLiteLogDb::writeLogLine(const char *app_id, const char *timestamp, const
       std::cerr << "SQLite log output: Could not bind column 'filename': "
                 << sqlite3_errmsg(m_db) << std::endl;
     }
-    res = sqlite3_bind_int(m_insert_stmt, 6, line);
+    res = sqlite3_bind_int64(m_insert_stmt, 6, line);
     if (res != SQLITE_OK)
     {
       std::cerr << "SQLite log output: Could not bind column 'lin': "
-- 
2.43.0


From e57e946629cee3eb76b0fc32a09597b2b6b61f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:35 +0000
Subject: [PATCH 66/77] fix: a plugin manager was used after it had been
 deleted

---
 .../src/icl_core_plugin/PluginManager.h       | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 1e4c368..a0ebd29 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -67,24 +67,22 @@ public:
       closePluginHandle(m_loaded_plugins.begin()->first);
     }
 
-    static PluginManager<T, plugin_dir>* m_instance;
-    m_instance = 0;
-    (void) m_instance;
+    if (instancePointer() == this)
+    {
+      instancePointer() = 0;
+    }
   }
 
   //! Singleton instance accessor.
   static PluginManager<T, plugin_dir> *instance()
   {
-    //! Singleton instance.
-    static PluginManager<T, plugin_dir> *m_instance = 0;
-
-    if (!m_instance)
+    if (!instancePointer())
     {
-      m_instance = new PluginManager<T, plugin_dir>();
+      instancePointer() = new PluginManager<T, plugin_dir>();
     }
 
-    assert(m_instance);
-    return m_instance;
+    assert(instancePointer());
+    return instancePointer();
   }
 
   //! Initializes the PluginManager.
@@ -342,6 +340,13 @@ public:
   /////////////////////////////////////////////////
 
 protected:
+  //! The singleton instance.
+  static PluginManager<T, plugin_dir> *&instancePointer()
+  {
+    static PluginManager<T, plugin_dir> *instance = 0;
+    return instance;
+  }
+
   //! Protected default constructor.
   PluginManager()
     : PluginManagerBase(plugin_dir),
-- 
2.43.0


From 1026caea1cea393d140a47f8fed028d73dc525cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:19 +0000
Subject: [PATCH 67/77] fix: deleting a plugin manager used a deleted
 identifier and could hang

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index a0ebd29..ecee476 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -62,9 +62,10 @@ class PluginManager: public PluginManagerBase
 public:
   ~PluginManager()
   {
-    while (!m_plugin_handles.empty() && !m_loaded_plugins.empty())
+    while (!m_plugin_handles.empty())
     {
-      closePluginHandle(m_loaded_plugins.begin()->first);
+      const std::string identifier = m_plugin_handles.begin()->first;
+      closePluginHandle(identifier);
     }
 
     if (instancePointer() == this)
-- 
2.43.0


From 2000d17f9c025463a8ff7c71d49934394a582b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:57 +0000
Subject: [PATCH 68/77] fix: a file as a plugin path or a broken link in one
 ended plugin initialization with an exception

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index ecee476..d9df3b3 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -376,7 +376,7 @@ protected:
       bool found = false;
       try
       {
-        found = exists(bpath);
+        found = is_directory(bpath);
       }
       catch (const boost::filesystem::filesystem_error &e)
       {
@@ -396,7 +396,8 @@ protected:
         boost::filesystem::directory_iterator end_iter;
         for (boost::filesystem::directory_iterator dir_iter(bpath); dir_iter != end_iter; ++dir_iter)
         {
-          if (boost::filesystem::is_regular_file(dir_iter->status()))
+          boost::system::error_code error;
+          if (boost::filesystem::is_regular_file(dir_iter->status(error)))
           {
 #if BOOST_FILESYSTEM_VERSION == 2
             loadHandle(dir_iter->string());
@@ -412,7 +413,8 @@ protected:
         for (boost::filesystem::recursive_directory_iterator dir_iter(bpath);
              dir_iter != end_iter; ++dir_iter)
         {
-          if (boost::filesystem::is_regular_file(dir_iter->status()))
+          boost::system::error_code error;
+          if (boost::filesystem::is_regular_file(dir_iter->status(error)))
           {
 #if BOOST_FILESYSTEM_VERSION == 2
             loadHandle(dir_iter->string());
-- 
2.43.0


From 6b82313c4cfe3b829a585fdf8cbe43acc62887c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:48 +0000
Subject: [PATCH 69/77] fix: asking for an unknown plugin added it to the lists
 of plugins

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index d9df3b3..60beca0 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -205,7 +205,8 @@ public:
       return m_static_plugins[identifier];
     }
 
-    return m_loaded_plugins[identifier];
+    typename std::map<std::string, T*>::const_iterator iter = m_loaded_plugins.find(identifier);
+    return iter != m_loaded_plugins.end() ? iter->second : NULL;
   }
 
   /*! Create a new plugin instance.
@@ -223,7 +224,8 @@ public:
       loadPlugins();
     }
 
-    PluginHandle plugin_handle = m_plugin_handles[identifier];
+    typename std::map<std::string, PluginHandle>::const_iterator iter = m_plugin_handles.find(identifier);
+    PluginHandle plugin_handle = iter != m_plugin_handles.end() ? iter->second : NULL;
     return loadPluginInstance(plugin_handle, identifier);
   }
 
-- 
2.43.0


From 615174e597d1e5ccdd9abce550403ea7d32c961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:34 +0000
Subject: [PATCH 70/77] fix: a plugin that could not be instantiated was listed
 as a null pointer

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 60beca0..5592e17 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -517,7 +517,11 @@ protected:
     {
       if (m_loaded_plugins.find(iter->first) == m_loaded_plugins.end())
       {
-        m_loaded_plugins[iter->first] = createPluginInstance(iter->first);
+        T* plugin_instance = createPluginInstance(iter->first);
+        if (plugin_instance)
+        {
+          m_loaded_plugins[iter->first] = plugin_instance;
+        }
       }
     }
 
-- 
2.43.0


From e4e2848e302dbc8db9bde0572e730750c9626d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:56 +0000
Subject: [PATCH 71/77] fix: a file that cannot be loaded was taken for the
 plugin of the program itself

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 5592e17..92e644d 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -445,6 +445,19 @@ protected:
 
     PluginHandle plugin_handle = dlopen(plugin.c_str(), RTLD_LAZY);
 
+#ifndef _WIN32
+    if (!plugin_handle)
+    {
+      // dlsym() would look into the program itself.
+      const char* dlopen_error = dlerror();
+      std::ostringstream error;
+      error << "Cannot load plugin " << plugin << ": " << (dlopen_error ? dlopen_error : "unknown error");
+      addErrorMessage(error.str());
+      LOGGING_ERROR(Plugin, error.str() << icl_core::logging::endl);
+      return;
+    }
+#endif
+
     dlerror(); // Clear any previous errors.
     typename T::identifier* get_identifier
       = (typename T::identifier*) dlsym(plugin_handle, "identifier");
-- 
2.43.0


From 198878194232e499d88f1ddc1be92b1913cde622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:14 +0000
Subject: [PATCH 72/77] fix: the summary of an unknown event read beyond an
 empty vector and created the event

---
 .../src/icl_core_performance_monitor/PerformanceMonitor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index b5069db..d4d347a 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -241,6 +241,12 @@ void PerformanceMonitor::print(string message, logging::LogLevel level)
 void PerformanceMonitor::createStatisticSummary(stringstream& ss, string prefix, string name)
 {
   string tmp = makeName(prefix, name);
+  if (m_data.find(tmp) == m_data.end())
+  {
+    ss << "Summary for " << tmp << "\nCalled 0 times\n\n";
+    return;
+  }
+
   double median, min, max;
   getMedian(tmp, median, min, max);
 
-- 
2.43.0


From 2ed21bdb648ad9d61759e47e690c9214133991a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 73/77] fix: PERF_MON_SUMMARY_ALL_DEBUG and _TRACE did not
 compile without _IC_DEBUG_

---
 .../icl_core_performance_monitor/PerformanceMonitorMacros.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitorMacros.h b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitorMacros.h
index af06918..adbfeea 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitorMacros.h
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitorMacros.h
@@ -148,8 +148,8 @@
     #define PERF_MON_SUMMARY_TRACE(prefix, description) (void)0
     #define PERF_MON_SUMMARY_PREFIX_DEBUG(prefix) (void)0
     #define PERF_MON_SUMMARY_PREFIX_TRACE(prefix) (void)0
-    #define PERF_MON_SUMMARY_ALL_DEBUG(prefix, description) (void)0
-    #define PERF_MON_SUMMARY_ALL_TRACE(prefix, description) (void)0
+    #define PERF_MON_SUMMARY_ALL_DEBUG (void)0
+    #define PERF_MON_SUMMARY_ALL_TRACE (void)0
   #endif
 
 
-- 
2.43.0


From fabca50da5993aec38cd06e0cf119246601257d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:29 +0000
Subject: [PATCH 74/77] fix: the summary of everything left out prefixes
 enabled by enableAll()

---
 .../PerformanceMonitor.cpp                    | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index d4d347a..1bb439e 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -313,8 +313,25 @@ void PerformanceMonitor::printSummaryAll(icl_core::logging::LogLevel level)
 {
   PerformanceMonitor* monitor = getInstance();
 
-  for (map<string, bool>::iterator it=monitor->m_enabled_prefix.begin();
-       it != monitor->m_enabled_prefix.end(); ++it)
+  // Prefixes may be enabled by enableAll() only.
+  map<string, bool> prefixes = monitor->m_enabled_prefix;
+  if (monitor->m_all_enabled)
+  {
+    for (map<string, double>::iterator it = monitor->m_static_data.begin(); it != monitor->m_static_data.end(); ++it)
+    {
+      prefixes[it->first.substr(0, it->first.find("::"))] = true;
+    }
+    for (map<string, vector<double> >::iterator it = monitor->m_data.begin(); it != monitor->m_data.end(); ++it)
+    {
+      prefixes[it->first.substr(0, it->first.find("::"))] = true;
+    }
+    for (map<string, vector<double> >::iterator it = monitor->m_data_nontime.begin(); it != monitor->m_data_nontime.end(); ++it)
+    {
+      prefixes[it->first.substr(0, it->first.find("::"))] = true;
+    }
+  }
+
+  for (map<string, bool>::iterator it = prefixes.begin(); it != prefixes.end(); ++it)
   {
     printSummaryFromPrefix(it->first, level);
   }
-- 
2.43.0


From f97d7996addc7d9771279eadedcee3f194c939f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:36 +0000
Subject: [PATCH 75/77] fix: a disabled performance monitor recorded data when
 all prefixes were enabled

---
 .../src/icl_core_performance_monitor/PerformanceMonitor.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index 1bb439e..31e6663 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -77,7 +77,7 @@ void PerformanceMonitor::initialize(const uint32_t num_names, const uint32_t num
 
 bool PerformanceMonitor::isEnabled(string prefix)
 {
-  return (m_enabled && m_enabled_prefix.find(prefix) != m_enabled_prefix.end()) || m_all_enabled;
+  return m_enabled && (m_all_enabled || m_enabled_prefix.find(prefix) != m_enabled_prefix.end());
 }
 
 void PerformanceMonitor::start(string timer_name)
-- 
2.43.0


From 879af0d9beae3dbd0ffee64aef52fc626938ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:44 +0000
Subject: [PATCH 76/77] fix: long summaries of the performance monitor were cut
 off

---
 .../PerformanceMonitor.cpp                         | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index 31e6663..7d06f1f 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -213,6 +213,20 @@ void PerformanceMonitor::addNonTimeEvent(string prefix, string name, double data
 
 void PerformanceMonitor::print(string message, logging::LogLevel level)
 {
+  // A log message has a limited length, at the end of which a thread stream
+  // reserves some space, so long texts become several messages.
+  const size_t max_length = cDEFAULT_LOG_SIZE - 64;
+  while (message.length() > max_length)
+  {
+    size_t end = message.rfind('\n', max_length);
+    if (end == string::npos || end == 0)
+    {
+      break;
+    }
+    print(message.substr(0, end), level);
+    message.erase(0, end + 1);
+  }
+
   switch (level)
   {
     case ::icl_core::logging::eLL_DEBUG:
-- 
2.43.0


From 000d0dfce9b09f4c8418f775f3a2c83a8fe6012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:13 +0000
Subject: [PATCH 77/77] fix: the deprecated spellings of the bit field helpers
 could not be instantiated

SetBits(), ClearBits() and IsBitSet() called the new functions without
naming the type, which cannot be deduced.
---
 src/icl_core/src/icl_core/BitfieldHelper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core/BitfieldHelper.h b/src/icl_core/src/icl_core/BitfieldHelper.h
index fdfaa63..2e0f98d 100644
--- a/src/icl_core/src/icl_core/BitfieldHelper.h
+++ b/src/icl_core/src/icl_core/BitfieldHelper.h
@@ -73,7 +73,7 @@ void SetBits(int bits, typename ConvertToRef<T>::ToRef bitfield) ICL_CORE_GCC_DE
 template <typename T>
 ICL_CORE_VC_DEPRECATE_STYLE void SetBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  setBits(bits, bitfield);bitfield = T(int(bitfield) | bits);
+  setBits<T>(bits, bitfield);
 }
 
 /*!
@@ -85,7 +85,7 @@ void ClearBits(int bits, typename ConvertToRef<T>::ToRef bitfield) ICL_CORE_GCC_
 template <typename T>
 ICL_CORE_VC_DEPRECATE_STYLE void ClearBits(int bits, typename ConvertToRef<T>::ToRef bitfield)
 {
-  clearBits(bits, bitfield);
+  clearBits<T>(bits, bitfield);
 }
 
 /*!
@@ -97,7 +97,7 @@ bool IsBitSet(int bit, typename ConvertToRef<T>::ToConstRef bitfield) ICL_CORE_G
 template <typename T>
 ICL_CORE_VC_DEPRECATE_STYLE bool IsBitSet(int bit, typename ConvertToRef<T>::ToConstRef bitfield)
 {
-  return isBitSet(bit, bitfield);
+  return isBitSet<T>(bit, bitfield);
 }
 
 #endif
-- 
2.43.0

