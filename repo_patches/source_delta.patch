From a73c10526ef960d59aaddf25c27724b629a9577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 01/71] fix: SpinLock::tryLock() reports true exactly when it
 took the lock

---
 src/icl_core/src/icl_core_thread/SpinLock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/SpinLock.h b/src/icl_core/src/icl_core_thread/SpinLock.h
index ab955c5..85fafa2 100644
--- a/src/icl_core/src/icl_core_thread/SpinLock.h
+++ b/src/icl_core/src/icl_core_thread/SpinLock.h
@@ -59,7 +59,7 @@ public:
    */
   bool tryLock()
   {
-    return (m_state.exchange(LOCKED, boost::memory_order_acquire) == LOCKED);
+    return (m_state.exchange(LOCKED, boost::memory_order_acquire) == UNLOCKED);
   }
 
   //! Unlocks the mutex.
-- 
2.43.0


From 6b3dd81347086571f5a7fbf789a2f77b1adca042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 02/71] fix: Thread::join() joins finished threads,
 Thread::wait() sees the thread finished

---
 src/icl_core/src/icl_core_thread/Thread.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index fce345e..f8247fd 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -137,7 +137,7 @@ bool Thread::executesHardRealtime() const
 
 void Thread::join()
 {
-  if (running())
+  if (!m_joined)
   {
     m_impl->join();
   }
@@ -241,8 +241,8 @@ void Thread::runThread()
   run();
 
   m_execute = false;
-  m_thread_mutex.unlock();
   m_finished = true;
+  m_thread_mutex.unlock();
 
   LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Done." << endl);
 }
-- 
2.43.0


From a7742f3adcf8efe9fe4aaac1645cd32435639925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 03/71] fix: a cancelled thread releases its mutex so that it
 can be started again

---
 src/icl_core/src/icl_core_thread/Thread.cpp | 27 ++++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index f8247fd..4020630 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -28,6 +28,7 @@
 
 #include "Common.h"
 #include "Logging.h"
+#include "ScopedMutexLock.h"
 
 #if defined _SYSTEM_LXRT_
 # include "ThreadImplLxrt.h"
@@ -228,21 +229,23 @@ void Thread::runThread()
 
   LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Begin." << endl);
 
-  m_thread_mutex.lock();
-  m_execute = true;
-  m_starting = false;
-  m_finished = false;
+  {
+    // The scoped lock also releases the mutex if the thread is cancelled.
+    ScopedMutexLock lock(m_thread_mutex);
+    m_execute = true;
+    m_starting = false;
+    m_finished = false;
 
-  // If this is actually a periodic thread, this call makes it periodic.
-  // It this is a "normal" thread, this call does nothing.
-  makePeriodic();
+    // If this is actually a periodic thread, this call makes it periodic.
+    // It this is a "normal" thread, this call does nothing.
+    makePeriodic();
 
-  // Call the run loop.
-  run();
+    // Call the run loop.
+    run();
 
-  m_execute = false;
-  m_finished = true;
-  m_thread_mutex.unlock();
+    m_execute = false;
+    m_finished = true;
+  }
 
   LOGGING_TRACE_CO(IclCoreThread, Thread, threadInfo(), "Done." << endl);
 }
-- 
2.43.0


From 31e5cbbde8f865a39dcde648f13237637774dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 04/71] fix: a thread that is cancelled right after its start
 does not count as running for ever

---
 src/icl_core/src/icl_core_thread/Thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/Thread.cpp b/src/icl_core/src/icl_core_thread/Thread.cpp
index 4020630..0275a2d 100644
--- a/src/icl_core/src/icl_core_thread/Thread.cpp
+++ b/src/icl_core/src/icl_core_thread/Thread.cpp
@@ -233,8 +233,8 @@ void Thread::runThread()
     // The scoped lock also releases the mutex if the thread is cancelled.
     ScopedMutexLock lock(m_thread_mutex);
     m_execute = true;
-    m_starting = false;
     m_finished = false;
+    m_starting = false;
 
     // If this is actually a periodic thread, this call makes it periodic.
     // It this is a "normal" thread, this call does nothing.
-- 
2.43.0


From acde9d724bb50581a5e23a37ff2de16678e2fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 05/71] fix: the timerfd periodic thread closes its timer and
 does not end a period early when interrupted

---
 .../PeriodicThreadImplTimerfd.cpp             | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
index a96e422..0e746ac 100644
--- a/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
+++ b/src/icl_core/src/icl_core_thread/PeriodicThreadImplTimerfd.cpp
@@ -27,7 +27,9 @@
 #include "PeriodicThreadImplTimerfd.h"
 #include "Logging.h"
 
+#include <errno.h>
 #include <sys/timerfd.h>
+#include <unistd.h>
 
 namespace icl_core {
 namespace thread {
@@ -41,11 +43,22 @@ PeriodicThreadImplTimerfd::PeriodicThreadImplTimerfd(const icl_core::TimeSpan& p
 
 PeriodicThreadImplTimerfd::~PeriodicThreadImplTimerfd()
 {
+  if (timer_created)
+  {
+    close(m_info->timer_fd);
+  }
   delete m_info;
 }
 
 void PeriodicThreadImplTimerfd::makePeriodic()
 {
+  /* Release the timer of a previous run */
+  if (timer_created)
+  {
+    close(m_info->timer_fd);
+    timer_created = false;
+  }
+
   /* Create the timer */
   int fd = timerfd_create(CLOCK_MONOTONIC, 0);
   m_info->wakeups_missed = 0;
@@ -95,7 +108,11 @@ void PeriodicThreadImplTimerfd::waitPeriod()
 
   /* Wait for the next timer event. If we have missed any the
      number is written to "missed" */
-  ret = read(m_info->timer_fd, &missed, sizeof(missed));
+  do
+  {
+    ret = read(m_info->timer_fd, &missed, sizeof(missed));
+  }
+  while (ret == -1 && errno == EINTR);
   if (ret == -1)
   {
     perror ("read timer");
-- 
2.43.0


From 8707687312d32795d7cf87f2180ed61d2d01adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 06/71] fix: an ActiveObject does not keep operations that are
 queued while it stops

---
 .../src/icl_core_thread/ActiveObject.cpp      | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_thread/ActiveObject.cpp b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
index 8b53767..10ef426 100644
--- a/src/icl_core/src/icl_core_thread/ActiveObject.cpp
+++ b/src/icl_core/src/icl_core_thread/ActiveObject.cpp
@@ -62,12 +62,15 @@ void ActiveObject::run()
     }
   }
 
-  // Delete any pending operations.
+  // Delete any pending operations.  No more operations are accepted
+  // because the thread has been stopped.
+  m_operation_queue_mutex.lock();
   while (!m_operation_queue.empty())
   {
     delete m_operation_queue.front();
     m_operation_queue.pop_front();
   }
+  m_operation_queue_mutex.unlock();
 
   onThreadStop();
 }
@@ -80,10 +83,22 @@ void ActiveObject::stop()
 
 void ActiveObject::queue(ActiveOperation *active_operation)
 {
-  if (execute() && m_operation_queue_mutex.lock())
+  bool queued = false;
+
+  // Check for execution while holding the mutex, so that the operation
+  // cannot slip in after run() has deleted the pending operations.
+  if (m_operation_queue_mutex.lock())
   {
-    m_operation_queue.push_back(active_operation);
+    if (execute())
+    {
+      m_operation_queue.push_back(active_operation);
+      queued = true;
+    }
     m_operation_queue_mutex.unlock();
+  }
+
+  if (queued)
+  {
     m_sem.post();
   }
   else
-- 
2.43.0


From bb0e499aa4d9daf619a9a595fb21a631e72c1ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 07/71] fix: the logging framework does not lose messages when
 a signal interrupts a semaphore wait

---
 src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp b/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp
index 9d23ad7..11b784c 100644
--- a/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp
+++ b/src/icl_core/src/icl_core_logging/SemaphoreImplPosix.cpp
@@ -50,7 +50,13 @@ void SemaphoreImplPosix::post()
 
 bool SemaphoreImplPosix::wait()
 {
-  int res = sem_wait(m_semaphore);
+  int res;
+  // A signal must not end the wait, otherwise log messages get lost.
+  do
+  {
+    res = sem_wait(m_semaphore);
+  }
+  while (res != 0 && errno == EINTR);
   return (res == 0);
 }
 
-- 
2.43.0


From 4ed899edcdc84d249f4baa60bdcf815a0e19aaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 08/71] fix: the worker thread of a log output stream is always
 joined

---
 src/icl_core/src/icl_core_logging/Thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/Thread.cpp b/src/icl_core/src/icl_core_logging/Thread.cpp
index 4a26fb4..10f730c 100644
--- a/src/icl_core/src/icl_core_logging/Thread.cpp
+++ b/src/icl_core/src/icl_core_logging/Thread.cpp
@@ -83,7 +83,7 @@ Thread::~Thread()
 
 void Thread::join()
 {
-  if (running())
+  if (!m_joined)
   {
     m_impl->join();
   }
-- 
2.43.0


From cbae4eed45691e19920c8223c7a13470cac5a80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 09/71] fix: the identifiers in a log message are always
 terminated

---
 .../src/icl_core_logging/LogOutputStream.cpp   | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index ddd5366..3ade029 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -669,12 +669,18 @@ LogOutputStream::LogMessage::LogMessage(const icl_core::TimeStamp& timestamp,
     log_level(log_level),
     line(line)
 {
-  std::strncpy(LogMessage::log_stream, log_stream, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::filename, filename, cMAX_DESCRIPTION_LENGTH+1);
-  std::strncpy(LogMessage::class_name, class_name, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::object_name, object_name, cMAX_DESCRIPTION_LENGTH+1);
-  std::strncpy(LogMessage::function_name, function_name, cMAX_IDENTIFIER_LENGTH+1);
-  std::strncpy(LogMessage::message_text, message_text, cDEFAULT_LOG_SIZE+1);
+  std::strncpy(LogMessage::log_stream, log_stream, cMAX_IDENTIFIER_LENGTH);
+  LogMessage::log_stream[cMAX_IDENTIFIER_LENGTH] = 0;
+  std::strncpy(LogMessage::filename, filename, cMAX_DESCRIPTION_LENGTH);
+  LogMessage::filename[cMAX_DESCRIPTION_LENGTH] = 0;
+  std::strncpy(LogMessage::class_name, class_name, cMAX_IDENTIFIER_LENGTH);
+  LogMessage::class_name[cMAX_IDENTIFIER_LENGTH] = 0;
+  std::strncpy(LogMessage::object_name, object_name, cMAX_DESCRIPTION_LENGTH);
+  LogMessage::object_name[cMAX_DESCRIPTION_LENGTH] = 0;
+  std::strncpy(LogMessage::function_name, function_name, cMAX_IDENTIFIER_LENGTH);
+  LogMessage::function_name[cMAX_IDENTIFIER_LENGTH] = 0;
+  std::strncpy(LogMessage::message_text, message_text, cDEFAULT_LOG_SIZE);
+  LogMessage::message_text[cDEFAULT_LOG_SIZE] = 0;
 }
 
 }
-- 
2.43.0


From 147bad2d032dad51e75e5a774cb9428a9f7dd934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 10/71] fix: the file and object name of a thread stream are
 always terminated

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 80ef7f0..38935df 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -153,7 +153,9 @@ ThreadStream::ThreadStream(LogStream *parent)
     m_line(0),
     m_write_index(0)
 {
+  memset(m_filename, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_classname, 0, cDEFAULT_LOG_SIZE + 1);
+  memset(m_objectname, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_function, 0, cDEFAULT_LOG_SIZE + 1);
   memset(m_data, 0, cDEFAULT_LOG_SIZE + 1);
 }
-- 
2.43.0


From d82e9c554292086eeb11ff7985e115a148d76c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 11/71] fix: a thread stream is reset before it is released to
 other threads

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 38935df..161fe28 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -135,6 +135,8 @@ void ThreadStream::flush()
                     m_classname, m_objectname, m_function, m_data);
     }
 
+    // Another thread may get this thread stream as soon as it is released.
+    m_write_index = 0;
     m_parent->releaseThreadStream(this);
 
     m_parent->m_mutex.post();
@@ -142,8 +144,8 @@ void ThreadStream::flush()
   else
   {
     PRINTF("ThreadStream(%s)::Flush: mutex lock failed\n", m_parent->nameCStr());
+    m_write_index = 0;
   }
-  m_write_index = 0;
 }
 
 ThreadStream::ThreadStream(LogStream *parent)
-- 
2.43.0


From 45cc0d64dffc7dc419f719d93bd8a7a681dc6029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 12/71] fix: a log format may contain long texts and end in an
 incomplete field

---
 .../src/icl_core_logging/LogOutputStream.cpp  | 25 ++++++++-----------
 .../src/icl_core_logging/LogOutputStream.h    |  6 ++---
 2 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index 3ade029..a100f2f 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -407,13 +407,11 @@ void LogOutputStream::parseLogFormat(const char *format)
     }
 
     // Read optional prefix text.
-    char *prefix_ptr = new_entry.text;
     while (format[0] != 0 && format[0] != 'C' && format[0] != 'O' && format[0] != 'D'
            && format[0] != 'E' && format[0] != 'F' && format[0] != 'G' && format[0] != 'L'
            && format[0] != 'S' && format[0] != 'T' && format[0] != 'M')
     {
-      *prefix_ptr = format[0];
-      ++prefix_ptr;
+      new_entry.text += format[0];
       ++format;
     }
 
@@ -425,17 +423,17 @@ void LogOutputStream::parseLogFormat(const char *format)
     else if (format[0] == 'O')
     {
       new_entry.type = LogFormatEntry::eT_OBJECTNAME;
-      if (new_entry.text[0] == '(')
+      if (!new_entry.text.empty() && new_entry.text[0] == '(')
       {
-        std::strncpy(new_entry.suffix, ")", 100);
+        new_entry.suffix = ")";
       }
-      else if (new_entry.text[0] == '[')
+      else if (!new_entry.text.empty() && new_entry.text[0] == '[')
       {
-        std::strncpy(new_entry.suffix, "]", 100);
+        new_entry.suffix = "]";
       }
-      else if (new_entry.text[0] == '{')
+      else if (!new_entry.text.empty() && new_entry.text[0] == '{')
       {
-        std::strncpy(new_entry.suffix, "}", 100);
+        new_entry.suffix = "}";
       }
     }
     else if (format[0] == 'D')
@@ -474,21 +472,18 @@ void LogOutputStream::parseLogFormat(const char *format)
     if (format[0] != 0)
     {
       m_new_log_format.push_back(new_entry);
+      ++format;
     }
-
-    ++format;
   }
   else
   {
-    char *text_ptr = new_entry.text;
     while (format[0] != '~' && format[0] != 0)
     {
-      *text_ptr = format[0];
-      ++text_ptr;
+      new_entry.text += format[0];
       ++format;
     }
 
-    if (new_entry.text[0] != 0)
+    if (!new_entry.text.empty())
     {
       m_new_log_format.push_back(new_entry);
     }
diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.h b/src/icl_core/src/icl_core_logging/LogOutputStream.h
index 491154c..462a59c 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.h
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.h
@@ -327,14 +327,12 @@ private:
     LogFormatEntry()
       : type(eT_TEXT), width(0)
     {
-      icl_core::os::memset(text, 0, 100);
-      icl_core::os::memset(suffix, 0, 100);
     }
 
     EntryType type;
     size_t width;
-    char text[100];
-    char suffix[100];
+    icl_core::String text;
+    icl_core::String suffix;
   };
 
   /*! This virtual function is called from the worker thread just
-- 
2.43.0


From c9461e452659c8946ded054e0993e5c12977b8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 13/71] fix: concurrent changes of the log format do not mix

---
 src/icl_core/src/icl_core_logging/LogOutputStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
index a100f2f..27920a5 100644
--- a/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
+++ b/src/icl_core/src/icl_core_logging/LogOutputStream.cpp
@@ -127,10 +127,10 @@ void LogOutputStream::changeLogFormat(const char *format)
   // Stop processing at the end of the format string.
   if (format[0] != 0)
   {
-    parseLogFormat(format);
-
     if (m_format_mutex.wait())
     {
+      parseLogFormat(format);
+
       m_log_format.clear();
       m_log_format = m_new_log_format;
       m_new_log_format.clear();
-- 
2.43.0


From a167b8a3be4b005d99ec3ea82ad3be5bc7124dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 14/71] fix: formatting a time stamp does not use a buffer
 shared by all threads

---
 src/icl_core/src/icl_core/TimeStamp.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index b321c8a..19658df 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -203,15 +203,27 @@ TimeStamp& TimeStamp::fromNow()
 void TimeStamp::strfTime(char* dest, size_t max_len, const char *format) const
 {
   time_t time = tsSec();
-  struct tm *newtime;
-  newtime = gmtime(&time);
-  strftime(dest, max_len, format, newtime);
+#ifdef _SYSTEM_POSIX_
+  struct tm tm_buffer;
+  struct tm *newtime = gmtime_r(&time, &tm_buffer);
+#else
+  struct tm *newtime = gmtime(&time);
+#endif
+  if (newtime)
+  {
+    strftime(dest, max_len, format, newtime);
+  }
 }
 
 void TimeStamp::strfLocaltime(char* dest, size_t max_len, const char *format) const
 {
   time_t time = tsSec();
+#ifdef _SYSTEM_POSIX_
+  struct tm tm_buffer;
+  struct tm *newtime = localtime_r(&time, &tm_buffer);
+#else
   struct tm *newtime = localtime(&time);
+#endif
   if (newtime)
   {
     strftime(dest, max_len, format, newtime);
-- 
2.43.0


From 783153204995d85e6d6832a20807e614b441f5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 15/71] fix: setting the global log level includes the default
 log output

---
 src/icl_core/src/icl_core_logging/LoggingManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.cpp b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
index c267252..3f73cce 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.cpp
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
@@ -295,6 +295,11 @@ void LoggingManager::setLogLevel(icl_core::logging::LogLevel log_level)
     lsm_it->second->m_initial_level = log_level;
   }
 
+  if (m_default_log_output != NULL)
+  {
+    m_default_log_output->setLogLevel(log_level);
+  }
+
   for (LogOutputStreamMap::iterator los_it = m_log_output_streams.begin();
        los_it != m_log_output_streams.end(); ++los_it)
   {
-- 
2.43.0


From d6c5f898c3420f4652f2c48ba3edb671cfc1ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 16/71] fix: a configured log stream or output without a log
 level gets the default level

---
 src/icl_core/src/icl_core_logging/LoggingManager.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.h b/src/icl_core/src/icl_core_logging/LoggingManager.h
index bc53841..120a731 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.h
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.h
@@ -227,6 +227,10 @@ private:
   //! Configuration of a LogOutputStream.
   struct LogOutputStreamConfig
   {
+    LogOutputStreamConfig()
+      : log_level(cDEFAULT_LOG_LEVEL)
+    { }
+
     /*! The name of the output stream class as registered by the
      *  implementation.
      */
@@ -243,6 +247,10 @@ private:
   //! Configuration of a LogStream.
   struct LogStreamConfig
   {
+    LogStreamConfig()
+      : log_level(cDEFAULT_LOG_LEVEL)
+    { }
+
     //! Name of the log stream.
     icl_core::String name;
     //! Log level of the log stream.
-- 
2.43.0


From 56d4c69aa67fa65860cd90da13a86a42af102b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 17/71] fix: a log stream that is deleted at shutdown is
 created anew by the next initialization

---
 src/icl_core/src/icl_core_logging/LogStream.h | 2 +-
 src/icl_core/src/icl_core_logging/Logging.h   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LogStream.h b/src/icl_core/src/icl_core_logging/LogStream.h
index 9b24841..d8a25b1 100644
--- a/src/icl_core/src/icl_core_logging/LogStream.h
+++ b/src/icl_core/src/icl_core_logging/LogStream.h
@@ -62,7 +62,7 @@ public:
    */
   LogStream(const icl_core::String& name, icl_core::logging::LogLevel initial_level = cDEFAULT_LOG_LEVEL);
 
-  ~LogStream();
+  virtual ~LogStream();
 
   //! Return the name of the log stream.
   icl_core::String name() const { return m_name; }
diff --git a/src/icl_core/src/icl_core_logging/Logging.h b/src/icl_core/src/icl_core_logging/Logging.h
index db74997..7af3bb6 100644
--- a/src/icl_core/src/icl_core_logging/Logging.h
+++ b/src/icl_core/src/icl_core_logging/Logging.h
@@ -68,7 +68,7 @@
     name()                                                         \
       : LogStream(#name)                                           \
     { }                                                            \
-    ~name() { }                                                    \
+    ~name() { m_instance = NULL; }                                 \
     static name *m_instance;                                       \
     friend class ::icl_core::logging::LoggingManager;              \
     friend class ::icl_core::logging::hidden::LogStreamRegistrar;  \
@@ -87,7 +87,7 @@
     name()                                                              \
       : LogStream(#name)                                                \
     { }                                                                 \
-    ~name() { }                                                         \
+    ~name() { m_instance = NULL; }                                      \
     static name *m_instance;                                            \
     friend class ::icl_core::logging::LoggingManager;                   \
     friend class ::icl_core::logging::hidden::LogStreamRegistrar;       \
-- 
2.43.0


From afe1106726a306cfad4aaf0f3eae160b1517df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 18/71] fix: configuring again does not replace the running
 default log output by one that never starts

---
 src/icl_core/src/icl_core_logging/LoggingManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.cpp b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
index 3f73cce..9caee57 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.cpp
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
@@ -158,7 +158,8 @@ void LoggingManager::configure()
   }
 
   // Delete the default log output stream, if necessary.
-  if (!m_output_stream_config.empty() && m_default_log_output != NULL)
+  if (!m_output_stream_config.empty() && m_default_log_output != NULL
+      && !icl_core::config::Getopt::instance().paramOptPresent("log-level"))
   {
     for (LogStreamMap::iterator it = m_log_streams.begin(); it != m_log_streams.end(); ++it)
     {
-- 
2.43.0


From c8472cd9e771f41be10d037a59870ac9f819758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 19/71] fix: initializing again does not keep connections which
 are no longer configured

---
 src/icl_core/src/icl_core_logging/LoggingManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.cpp b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
index 9caee57..545c3b6 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.cpp
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
@@ -47,6 +47,10 @@ void LoggingManager::initialize()
   {
     m_initialized = true;
 
+    // Forget the configuration of an earlier initialization.
+    m_output_stream_config.clear();
+    m_log_stream_config.clear();
+
     // Read the log output stream configuration.
     ::icl_core::config::ConfigIterator output_stream_it =
         ::icl_core::config::find("\\/IclCore\\/Logging\\/(OutputStream.*)\\/(.*)");
-- 
2.43.0


From 6ea8c8d0e8ea407fcb621d40ecd2f236bde73ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 20/71] fix: zipFile() reports every failure and leaves no
 incomplete archive

---
 src/icl_core/src/icl_core/os_fs.cpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core/os_fs.cpp b/src/icl_core/src/icl_core/os_fs.cpp
index 60d0ebf..2ba8ab8 100644
--- a/src/icl_core/src/icl_core/os_fs.cpp
+++ b/src/icl_core/src/icl_core/os_fs.cpp
@@ -38,15 +38,21 @@ namespace os {
 #ifdef _IC_BUILDER_ZLIB_
 bool zipFile(const char *filename, const char *additional_extension)
 {
-  bool ret = true;
+  bool ret = false;
   icl_core::String gzip_file_name = icl_core::String(filename) + additional_extension + ".gz";
   char big_buffer[0x1000];
   int bytes_read = 0;
   gzFile unzipped_file = gzopen(filename, "rb");
-  gzFile zipped_file = gzopen(gzip_file_name.c_str(), "wb");
+  gzFile zipped_file = NULL;
+
+  if (unzipped_file != NULL)
+  {
+    zipped_file = gzopen(gzip_file_name.c_str(), "wb");
+  }
 
   if (unzipped_file != NULL && zipped_file != NULL)
   {
+    ret = true;
     bytes_read = gzread(unzipped_file, big_buffer, 0x1000);
     while (bytes_read > 0)
     {
@@ -59,6 +65,12 @@ bool zipFile(const char *filename, const char *additional_extension)
 
       bytes_read = gzread(unzipped_file, big_buffer, 0x1000);
     }
+
+    if (bytes_read < 0)
+    {
+      std::cerr << "ZipFile(" << filename << "->" << gzip_file_name << ") Error on reading." << std::endl;
+      ret = false;
+    }
   }
 
   if (unzipped_file != NULL)
@@ -67,7 +79,18 @@ bool zipFile(const char *filename, const char *additional_extension)
   }
   if (zipped_file != NULL)
   {
-    gzclose(zipped_file);
+    // Buffered data is written when the file is closed.
+    if (gzclose(zipped_file) != Z_OK)
+    {
+      std::cerr << "ZipFile(" << filename << "->" << gzip_file_name << ") Error on closing." << std::endl;
+      ret = false;
+    }
+
+    if (!ret)
+    {
+      // Don't leave an incomplete archive behind.
+      icl_core::os::unlink(gzip_file_name.c_str());
+    }
   }
 
   return ret;
-- 
2.43.0


From d584970319f5b841845056704a301439a4481fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 21/71] fix: a zipped log file is opened in a mode which zlib
 supports

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index c6cbfdb..93d1c6a 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -208,7 +208,7 @@ void FileLogOutput::openLogFile()
 #if defined(_IC_BUILDER_ZLIB_)
   if (m_online_zip)
   {
-    m_zipped_log_file = gzopen(m_filename.c_str(), "a+b");
+    m_zipped_log_file = gzopen(m_filename.c_str(), "ab");
     if (m_zipped_log_file == NULL)
     {
       std::cerr << "Could not open log file " << m_filename << std::endl;
-- 
2.43.0


From f58fb79f8b591c4a8fbb37379135e7c6942de037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 22/71] fix: rotating a log file neither drops it when
 archiving fails nor overwrites an earlier archive

---
 .../src/icl_core_logging/FileLogOutput.cpp    | 22 ++++++++++++++++---
 .../src/icl_core_logging/FileLogOutput.h      |  2 ++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 93d1c6a..6b8442b 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -24,6 +24,7 @@
 
 #include <boost/filesystem/path.hpp>
 #include <boost/filesystem/operations.hpp>
+#include <boost/lexical_cast.hpp>
 #include <iostream>
 
 #include "icl_core/os_fs.h"
@@ -252,13 +253,16 @@ void FileLogOutput::rotateLogFile()
 #ifdef _IC_BUILDER_ZLIB_
       if (!m_online_zip)
       {
-        icl_core::os::zipFile(m_filename.c_str(), time_str);
-        icl_core::os::unlink(m_filename.c_str());
+        // Keep the log file if it could not be archived.
+        if (icl_core::os::zipFile(m_filename.c_str(), unusedExtension(time_str, ".gz").c_str()))
+        {
+          icl_core::os::unlink(m_filename.c_str());
+        }
       }
       else
 #endif
       {
-        icl_core::os::rename(m_filename.c_str(), (m_filename + time_str).c_str());
+        icl_core::os::rename(m_filename.c_str(), (m_filename + unusedExtension(time_str, "")).c_str());
       }
 
       // Delete old log files.
@@ -301,6 +305,18 @@ void FileLogOutput::rotateLogFile()
   }
 }
 
+icl_core::String FileLogOutput::unusedExtension(const icl_core::String& extension, const icl_core::String& suffix) const
+{
+  // Never overwrite an existing archive.
+  icl_core::String result = extension;
+  boost::system::error_code error;
+  for (size_t count = 1; boost::filesystem::exists(m_filename + result + suffix, error); ++count)
+  {
+    result = extension + "." + boost::lexical_cast<icl_core::String>(count);
+  }
+  return result;
+}
+
 void FileLogOutput::expandFilename()
 {
   // Expand environment variables.
diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.h b/src/icl_core/src/icl_core_logging/FileLogOutput.h
index 4f4e3b2..cd45074 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.h
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.h
@@ -75,6 +75,8 @@ private:
   void openLogFile();
   void rotateLogFile();
 
+  icl_core::String unusedExtension(const icl_core::String& extension, const icl_core::String& suffix) const;
+
   icl_core::String m_filename;
   std::ofstream m_log_file;
 
-- 
2.43.0


From 49815509da159ec64ba562b575a111a09f799ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 23/71] fix: deleting old log archives spares other files and
 does not end the program when a file operation fails

---
 .../src/icl_core_logging/FileLogOutput.cpp    | 53 +++++++++++++------
 .../src/icl_core_logging/FileLogOutput.h      |  1 +
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 6b8442b..fd1f661 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -25,6 +25,7 @@
 #include <boost/filesystem/path.hpp>
 #include <boost/filesystem/operations.hpp>
 #include <boost/lexical_cast.hpp>
+#include <boost/regex.hpp>
 #include <iostream>
 
 #include "icl_core/os_fs.h"
@@ -81,17 +82,22 @@ FileLogOutput::FileLogOutput(const icl_core::String& name, const icl_core::Strin
     // Determine the last write time of the log file, if it already
     // exists.
     boost::filesystem::path log_file_path(m_filename);
-    if (boost::filesystem::exists(log_file_path))
+    boost::system::error_code error;
+    if (boost::filesystem::exists(log_file_path, error))
     {
-      if (boost::filesystem::is_directory(log_file_path))
+      if (boost::filesystem::is_directory(log_file_path, error))
       {
         std::cerr << "The filename specified for log output stream "
                   << config_prefix << " is a directory." << std::endl;
       }
       else
       {
-        m_last_rotation = icl_core::TimeStamp(boost::filesystem::last_write_time(log_file_path)).days();
-        rotateLogFile();
+        std::time_t last_write_time = boost::filesystem::last_write_time(log_file_path, error);
+        if (!error)
+        {
+          m_last_rotation = icl_core::TimeStamp(last_write_time).days();
+          rotateLogFile();
+        }
       }
     }
 
@@ -275,24 +281,34 @@ void FileLogOutput::rotateLogFile()
         boost::filesystem::path log_file_path = boost::filesystem::path(m_filename).parent_path();
         std::string log_file_name = boost::filesystem::path(m_filename).filename().string();
 #endif
-        if (boost::filesystem::exists(log_file_path) && boost::filesystem::is_directory(log_file_path))
+        if (log_file_path.empty())
+        {
+          log_file_path = ".";
+        }
+
+        // Failing file operations must not throw here. Files which cannot be checked are kept.
+        boost::system::error_code error;
+        icl_core::TimeStamp delete_older_than(24*3600*(current_day - m_delete_older_than_days));
+        boost::filesystem::directory_iterator it(log_file_path, error), end;
+        while (!error && it != end)
         {
-          icl_core::TimeStamp delete_older_than(24*3600*(current_day - m_delete_older_than_days));
-          for (boost::filesystem::directory_iterator it(log_file_path), end; it != end; ++it)
-          {
-            // If the found file starts with the name of the log file the check its last write time.
-            if (!is_directory(*it)
-                && icl_core::TimeStamp(boost::filesystem::last_write_time(*it)) < delete_older_than
 #if !defined(BOOST_FILESYSTEM_VERSION) || BOOST_FILESYSTEM_VERSION == 2
-                && it->leaf().find(log_file_name) == 0
+          std::string file_name = it->leaf();
 #else
-                && it->path().filename().string().find(log_file_name) == 0
+          std::string file_name = it->path().filename().string();
 #endif
-                )
+          // If the found file is an archive of the log file then check its last write time.
+          if (isArchive(file_name, log_file_name))
+          {
+            boost::system::error_code file_error;
+            bool is_directory = boost::filesystem::is_directory(it->path(), file_error);
+            std::time_t last_write_time = boost::filesystem::last_write_time(it->path(), file_error);
+            if (!file_error && !is_directory && icl_core::TimeStamp(last_write_time) < delete_older_than)
             {
-              boost::filesystem::remove(*it);
+              boost::filesystem::remove(it->path(), file_error);
             }
           }
+          it.increment(error);
         }
       }
 
@@ -317,6 +333,13 @@ icl_core::String FileLogOutput::unusedExtension(const icl_core::String& extensio
   return result;
 }
 
+bool FileLogOutput::isArchive(const icl_core::String& file_name, const icl_core::String& log_file_name)
+{
+  static const boost::regex extension("\\.\\d{4}-\\d{2}-\\d{2}(\\.\\d+)?(\\.gz)?");
+  return file_name.compare(0, log_file_name.length(), log_file_name) == 0
+    && boost::regex_match(file_name.substr(log_file_name.length()), extension);
+}
+
 void FileLogOutput::expandFilename()
 {
   // Expand environment variables.
diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.h b/src/icl_core/src/icl_core_logging/FileLogOutput.h
index cd45074..884bdbe 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.h
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.h
@@ -75,6 +75,7 @@ private:
   void openLogFile();
   void rotateLogFile();
 
+  static bool isArchive(const icl_core::String& file_name, const icl_core::String& log_file_name);
   icl_core::String unusedExtension(const icl_core::String& extension, const icl_core::String& suffix) const;
 
   icl_core::String m_filename;
-- 
2.43.0


From 3d3977cc10431225293696add515e95663c5b561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 24/71] fix: a file log output goes on logging after a write
 error

---
 .../src/icl_core_logging/FileLogOutput.cpp    | 20 ++++++++++++++-----
 .../src/icl_core_logging/FileLogOutput.h      |  2 +-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index fd1f661..0a816c3 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -143,10 +143,12 @@ void FileLogOutput::pushImpl(const icl_core::String& log_line)
 
   if (isOpen())
   {
+    bool written = true;
 #ifdef _IC_BUILDER_ZLIB_
     if (m_online_zip)
     {
-      gzwrite(m_zipped_log_file, log_line.c_str(), static_cast<unsigned int>(log_line.length()));
+      written = gzwrite(m_zipped_log_file, log_line.c_str(), static_cast<unsigned int>(log_line.length()))
+        == static_cast<int>(log_line.length());
     }
     else
 #endif
@@ -154,9 +156,16 @@ void FileLogOutput::pushImpl(const icl_core::String& log_line)
       m_log_file << log_line;
     }
 
-    if (m_flush)
+    if (m_flush && !flush())
     {
-      flush();
+      written = false;
+    }
+
+    if (!written || !m_log_file)
+    {
+      // The file is opened again for the next message.
+      closeLogFile();
+      m_log_file.clear();
     }
   }
 }
@@ -175,17 +184,18 @@ bool FileLogOutput::isOpen()
   }
 }
 
-void FileLogOutput::flush()
+bool FileLogOutput::flush()
 {
 #ifdef _IC_BUILDER_ZLIB_
   if (m_online_zip)
   {
-    gzflush(m_zipped_log_file, Z_SYNC_FLUSH);
+    return gzflush(m_zipped_log_file, Z_SYNC_FLUSH) == Z_OK;
   }
   else
 #endif
   {
     m_log_file.flush();
+    return !m_log_file.fail();
   }
 }
 
diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.h b/src/icl_core/src/icl_core_logging/FileLogOutput.h
index 884bdbe..02e4b3d 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.h
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.h
@@ -69,7 +69,7 @@ private:
   void expandFilename();
 
   bool isOpen();
-  void flush();
+  bool flush();
 
   void closeLogFile();
   void openLogFile();
-- 
2.43.0


From c91479473407fec337d44b86b0013f25c8221909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 25/71] fix: a file log output that cannot write its opening
 line does not lose the next message

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 0a816c3..6b7e626 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -245,6 +245,12 @@ void FileLogOutput::openLogFile()
       {
         m_log_file << "\n\n-------------FILE (RE-)OPENED------------------\n";
         m_log_file.flush();
+        if (!m_log_file)
+        {
+          // Do not lose the next message, too.
+          closeLogFile();
+          m_log_file.clear();
+        }
       }
       else
       {
-- 
2.43.0


From bba72a91f1295381287c25592c63b9548cc9c801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 26/71] fix: rotation does not overwrite an archive whose
 existence cannot be checked

---
 .../src/icl_core_logging/FileLogOutput.cpp    | 27 ++++++++++++++-----
 .../src/icl_core_logging/FileLogOutput.h      |  2 +-
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 6b7e626..0c714ee 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -276,7 +276,9 @@ void FileLogOutput::rotateLogFile()
       if (!m_online_zip)
       {
         // Keep the log file if it could not be archived.
-        if (icl_core::os::zipFile(m_filename.c_str(), unusedExtension(time_str, ".gz").c_str()))
+        icl_core::String extension = time_str;
+        if (unusedExtension(extension, ".gz")
+            && icl_core::os::zipFile(m_filename.c_str(), extension.c_str()))
         {
           icl_core::os::unlink(m_filename.c_str());
         }
@@ -284,7 +286,11 @@ void FileLogOutput::rotateLogFile()
       else
 #endif
       {
-        icl_core::os::rename(m_filename.c_str(), (m_filename + unusedExtension(time_str, "")).c_str());
+        icl_core::String extension = time_str;
+        if (unusedExtension(extension, ""))
+        {
+          icl_core::os::rename(m_filename.c_str(), (m_filename + extension).c_str());
+        }
       }
 
       // Delete old log files.
@@ -337,16 +343,23 @@ void FileLogOutput::rotateLogFile()
   }
 }
 
-icl_core::String FileLogOutput::unusedExtension(const icl_core::String& extension, const icl_core::String& suffix) const
+bool FileLogOutput::unusedExtension(icl_core::String& extension, const icl_core::String& suffix) const
 {
   // Never overwrite an existing archive.
-  icl_core::String result = extension;
+  const icl_core::String base = extension;
   boost::system::error_code error;
-  for (size_t count = 1; boost::filesystem::exists(m_filename + result + suffix, error); ++count)
+  boost::filesystem::file_type type = boost::filesystem::status(m_filename + extension + suffix, error).type();
+  for (size_t count = 1; type != boost::filesystem::file_not_found; ++count)
   {
-    result = extension + "." + boost::lexical_cast<icl_core::String>(count);
+    if (type == boost::filesystem::status_error)
+    {
+      // It is not known whether the archive exists.
+      return false;
+    }
+    extension = base + "." + boost::lexical_cast<icl_core::String>(count);
+    type = boost::filesystem::status(m_filename + extension + suffix, error).type();
   }
-  return result;
+  return true;
 }
 
 bool FileLogOutput::isArchive(const icl_core::String& file_name, const icl_core::String& log_file_name)
diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.h b/src/icl_core/src/icl_core_logging/FileLogOutput.h
index 02e4b3d..7a8e0f1 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.h
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.h
@@ -76,7 +76,7 @@ private:
   void rotateLogFile();
 
   static bool isArchive(const icl_core::String& file_name, const icl_core::String& log_file_name);
-  icl_core::String unusedExtension(const icl_core::String& extension, const icl_core::String& suffix) const;
+  bool unusedExtension(icl_core::String& extension, const icl_core::String& suffix) const;
 
   icl_core::String m_filename;
   std::ofstream m_log_file;
-- 
2.43.0


From 28bb34c148c8b8c3b8b881c122b65bf9072444d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 27/71] fix: a zipped log file that is rotated at the start is
 not opened twice

---
 src/icl_core/src/icl_core_logging/FileLogOutput.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
index 0c714ee..8c34a18 100644
--- a/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/FileLogOutput.cpp
@@ -101,7 +101,11 @@ FileLogOutput::FileLogOutput(const icl_core::String& name, const icl_core::Strin
       }
     }
 
-    openLogFile();
+    // The rotation may already have opened the log file.
+    if (!isOpen())
+    {
+      openLogFile();
+    }
   }
   else
   {
-- 
2.43.0


From 328e13184a851db72be780d984a96aba9bac5390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 28/71] fix: the SQLite log output tries again to open its
 database

---
 src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp b/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
index 6ba99b6..9688ae0 100644
--- a/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
+++ b/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
@@ -161,6 +161,12 @@ void SQLiteLogDb::writeLogLine(const char *app_id, const char *timestamp, const
     }
   }
 
+  // Try again if the database could not be opened before.
+  if (m_db == NULL)
+  {
+    openDatabase();
+  }
+
   if (m_db != NULL && m_insert_stmt != NULL)
   {
     int res = SQLITE_OK;
-- 
2.43.0


From 39122daf72e143dc5a0056a1c824ec336eae533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:42 +0000
Subject: [PATCH 29/71] fix: the SQLite log output does not overwrite an
 earlier database when it rotates

---
 .../src/icl_core_logging/SQLiteLogDb.cpp      | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp b/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
index 9688ae0..83caf31 100644
--- a/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
+++ b/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
@@ -22,6 +22,10 @@
 //----------------------------------------------------------------------
 #include "SQLiteLogDb.h"
 
+#include <errno.h>
+#include <sys/stat.h>
+#include <sys/types.h>
+#include <boost/lexical_cast.hpp>
 #include <iostream>
 
 namespace icl_core {
@@ -155,7 +159,21 @@ void SQLiteLogDb::writeLogLine(const char *app_id, const char *timestamp, const
 
       char time_str[11];
       icl_core::TimeStamp::now().strfTime(time_str, 11, "%Y-%m-%d");
-      rename(m_db_filename.c_str(), (m_db_filename + "." + time_str).c_str());
+
+      // Neither overwrite an earlier database nor separate the database from the journal of an
+      // unfinished transaction.
+      icl_core::String rotated_filename = m_db_filename + "." + time_str;
+      struct stat file_status;
+      int rotated_exists = stat(rotated_filename.c_str(), &file_status);
+      for (size_t count = 1; rotated_exists == 0; ++count)
+      {
+        rotated_filename = m_db_filename + "." + time_str + "." + boost::lexical_cast<icl_core::String>(count);
+        rotated_exists = stat(rotated_filename.c_str(), &file_status);
+      }
+      if (errno == ENOENT && stat((m_db_filename + "-journal").c_str(), &file_status) != 0 && errno == ENOENT)
+      {
+        rename(m_db_filename.c_str(), rotated_filename.c_str());
+      }
 
       openDatabase();
     }
-- 
2.43.0


From 893a0c19c3f07c6659d4377d21c542293adcf35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:53 +0000
Subject: [PATCH 30/71] fix: quotes in a log message do not break the SQL
 values sent by the UDP log output

---
 .../src/icl_core_logging/UdpLogOutput.cpp         | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
index 67f3675..99ed45c 100644
--- a/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
+++ b/src/icl_core/src/icl_core_logging/UdpLogOutput.cpp
@@ -102,14 +102,14 @@ void UdpLogOutput::pushImpl(const LogMessage& log_message)
   if (m_socket >= 0)
   {
     std::stringstream ss;
-    ss << "'" << m_system_name << "',"
+    ss << "'" << escape(m_system_name) << "',"
        << "'" << log_message.timestamp.formatIso8601() << "'," << log_message.timestamp.tsNSec() << ","
        << "'" << logLevelDescription(log_message.log_level) << "',"
-       << "'" << log_message.log_stream << "',"
-       << "'" << log_message.filename << "'," << log_message.line << ","
-       << "'" << log_message.class_name << "',"
+       << "'" << escape(log_message.log_stream) << "',"
+       << "'" << escape(log_message.filename) << "'," << log_message.line << ","
+       << "'" << escape(log_message.class_name) << "',"
        << "'" << escape(log_message.object_name) << "',"
-       << "'" << log_message.function_name << "',"
+       << "'" << escape(log_message.function_name) << "',"
        << "'" << escape(log_message.message_text) << "'";
     std::string str = ss.str();
     int res = write(m_socket, str.c_str(), str.length());
@@ -122,9 +122,8 @@ void UdpLogOutput::pushImpl(const LogMessage& log_message)
 
 icl_core::String UdpLogOutput::escape(icl_core::String str) const
 {
-  // TODO: Which characters have to be escaped to ensure that a
-  // correct SQL statement is created?
-  str = boost::regex_replace(str, boost::regex("'"), "\\'");
+  // A quote is doubled in an SQL string.
+  str = boost::regex_replace(str, boost::regex("'"), "''");
   //str = boost::regex_replace(str, boost::regex("\\n"), "\\\\n");
   return str;
 }
-- 
2.43.0


From 016814c7dcacc8655006a1f543376f83bb60347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:29 +0000
Subject: [PATCH 31/71] fix: the SQLite log output opens its database again
 after a failed insertion

---
 src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp b/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
index 83caf31..2aa779b 100644
--- a/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
+++ b/src/icl_core/src/icl_core_logging/SQLiteLogDb.cpp
@@ -261,6 +261,12 @@ void SQLiteLogDb::writeLogLine(const char *app_id, const char *timestamp, const
 
     // Reset the prepared statement.
     sqlite3_reset(m_insert_stmt);
+
+    if (res != SQLITE_DONE)
+    {
+      // The database may be opened read-only, for example. Open it again for the next log line.
+      closeDatabase();
+    }
   }
 }
 
-- 
2.43.0


From 4061bc6b51f63d9ab088228bf31723e92d866ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 32/71] fix: an attribute tree without sub trees can be
 searched, loaded and extended

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 0afbbe5..371afab 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -960,10 +960,10 @@ char *AttributeTree::getSpecialAttribute(const char *description, AttributeTree
 {
   // search recursive to the root for that attribute
   AttributeTree *at_path_parent = this;
-  AttributeTree *at_path = at_path_parent->m_subtree_list->subTree(description);
+  AttributeTree *at_path = at_path_parent->getSubTree(description);
   while (at_path_parent && at_path == NULL)
   {
-    at_path = at_path_parent->m_subtree_list->subTree(description);
+    at_path = at_path_parent->getSubTree(description);
     at_path_parent = at_path_parent->parentTree();
   }
 
@@ -1020,7 +1020,7 @@ char *AttributeTree::getAttribute(const char *param_description, const char *def
             *description_part = 0;
             description_part++;
           }
-          at = at->m_subtree_list->subTree(next_description);
+          at = at->getSubTree(next_description);
         }
         // now we are at the inner attribute tree
         // is there an attribute
@@ -1088,7 +1088,7 @@ char *AttributeTree::newSubNodeDescription(const char *base_description)
 
   sprintf(description + base_len - j, "%i", i);
 
-  while (m_subtree_list->subTree(description) && i < 100000)
+  while (getSubTree(description) && i < 100000)
   {
     i++;
     sprintf(description + base_len - j, "%i", i);
@@ -1110,14 +1110,14 @@ AttributeTree *AttributeTree::addSubTree(AttributeTree *tree, AttributeTree *aft
 {
   if (tree)
   {
-    if (m_subtree_list->subTree(tree->m_this_description))
+    if (tree->m_this_description && getSubTree(tree->m_this_description))
     {
       char *new_description = newSubNodeDescription(tree->m_this_description);
       free(tree->m_this_description);
       tree->m_this_description = new_description;
     }
 
-    if (after == NULL)
+    if (after == NULL || m_subtree_list == NULL)
     {
       m_subtree_list = new SubTreeList(tree, m_subtree_list);
     }
-- 
2.43.0


From 5bf7373211aeb8ed551d778f5bdf985cab55b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 33/71] fix: the extension of a file path without extension is
 empty

---
 src/icl_core/src/icl_core_config/AttributeTree.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.h b/src/icl_core/src/icl_core_config/AttributeTree.h
index 54d32b9..63dc15b 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.h
+++ b/src/icl_core/src/icl_core_config/AttributeTree.h
@@ -91,6 +91,10 @@ public:
    */
   icl_core::String extension() const
   {
+    if (m_file_name_extension_split == icl_core::String::npos)
+    {
+      return icl_core::String();
+    }
     return icl_core::String(m_file, m_file_name_extension_split, icl_core::String::npos);
   }
 
-- 
2.43.0


From 24e18d8ca3fb265806ed042db30c0e5c7e8052fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 34/71] fix: saving an attribute tree reports write errors

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 371afab..d7e0184 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1227,6 +1227,11 @@ int AttributeTree::save(const char *filename, int change_style_depth, bool unmar
     return eFILE_SAVE_ERROR;
   }
   printSubTree(out, change_style_depth, "");
+  out.close();
+  if (!out)
+  {
+    return eFILE_SAVE_ERROR;
+  }
 
   if (unmark_changes)
   {
-- 
2.43.0


From 2d4d445b14fb2c47129f20a642d5deb74b8786b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 35/71] fix: a saved attribute tree can be loaded again if it
 is small or has multi-line comments

---
 .../src/icl_core_config/AttributeTree.cpp     | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index d7e0184..9258811 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1162,42 +1162,44 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
     return;
   }
 
+  // A description is separated from an upper description, but not from the indentation.
+  size_t tud_len = strlen(the_upper_description);
+  bool separate = tud_len > 0 && the_upper_description[tud_len-1] != ' ';
+
   int contents = contains();
   if (contents >= change_style_depth || hasMultilineComment())
   {
-    out << the_upper_description << t_description << '{' << endl;
+    string indentation(the_upper_description, strspn(the_upper_description, " "));
+    out << the_upper_description << (separate ? "." : "") << t_description << '{' << endl;
     if (m_this_attribute && strcmp(m_this_attribute, ""))
     {
-      out << the_upper_description << ':' << m_this_attribute << endl;
+      out << indentation << ':' << m_this_attribute << endl;
     }
 
     if (m_subtree_list)
     {
-      char *tab = (char*)malloc(strlen(the_upper_description) + 2);
+      char *tab = (char*)malloc(indentation.length() + 2);
       assert(tab != NULL); // Just abort if we are out of memory.
-      strcat(strcpy(tab, the_upper_description), " ");
+      strcat(strcpy(tab, indentation.c_str()), " ");
       m_subtree_list->printSubTree(out, change_style_depth, tab);
       free(tab);
     }
 
-    out << the_upper_description << '}' << t_description << endl;
+    out << indentation << '}' << t_description << endl;
   }
   else
   {
-    size_t tud_len = strlen(the_upper_description);
     size_t len = strlen(t_description) + tud_len + 1;
     char *description = static_cast<char*>(malloc(len + 1));
     assert(description != NULL); // Just abort if we are out of memory.
     memset(description, 0, len + 1);
 
-    if ((tud_len > 0) && (the_upper_description[tud_len-1] == ' '))
-    {
-      strcat(strcpy(description, the_upper_description), t_description);
-    }
-    else
+    strcpy(description, the_upper_description);
+    if (separate)
     {
-      strcat(strcat(strcpy(description, the_upper_description), "."), t_description);
+      strcat(description, ".");
     }
+    strcat(description, t_description);
 
     if (m_this_attribute)
     {
-- 
2.43.0


From ef49b9391acb4f95018b9100f2d5f5ce78821990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 36/71] fix: loading an attribute tree ends and reports an
 error if a line is long, a comment does not end or the file cannot be read

---
 .../src/icl_core_config/AttributeTree.cpp     | 46 ++++++++++---------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 9258811..7abc5c7 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -26,6 +26,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <vector>
 
 #ifdef _SYSTEM_WIN32_
 #include <direct.h>
@@ -58,17 +59,21 @@ int file_path_str_len = 0;
 int file_name_str_len = 0;
 const int INCLUDE_OFFSET = 10;
 
-static char buffer[2000];
-
-void readNextLineInBuffer(istream &in)
+// Reads the next line. Returns false if there is none or it cannot be read.
+static bool readNextLine(istream &in, vector<char>& buffer)
 {
-  in.getline(buffer, 1998);
+  string text;
+  if (!getline(in, text))
+  {
+    return false;
+  }
   // Window/Unix
-  int line_length=strlen(buffer);
-  if (line_length > 0 && buffer[line_length-1]=='\r')
+  if (!text.empty() && text[text.length()-1]=='\r')
   {
-    buffer[line_length-1]=0;
+    text.erase(text.length()-1);
   }
+  buffer.assign(text.c_str(), text.c_str() + text.length() + 1);
+  return true;
 }
 
 // ===============================================================
@@ -1295,20 +1300,16 @@ int AttributeTree::load(const char *filename, bool unmark_changes, bool process_
 int AttributeTree::get(istream &in, bool process_include, bool load_comments,
                        const class FilePath *file_path)
 {
-  // save stack memory on reccursive calls!
-  // without static in the insmod call for the RTL-module we crash !
-  buffer[1999] = 0;
+  vector<char> buffer;
   char *attribute, *line;
   AttributeTree *at = this;
   int lineno = 1;
 
-  readNextLineInBuffer(in);
-
-  do
+  while (readNextLine(in, buffer))
   {
     //LOCAL_PRINTF("get next line %i\n",lineno);
     lineno++;
-    line = buffer;
+    line = &buffer[0];
     while (isspace(*line))
     {
       line++;
@@ -1376,15 +1377,18 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
             do
             {
               lineno++;
-              readNextLineInBuffer(in);
-              line = buffer;
-              char *line_end = buffer + strlen(buffer);
+              if (!readNextLine(in, buffer))
+              {
+                return lineno;
+              }
+              line = &buffer[0];
+              char *line_end = line + strlen(line);
               line_end--;
               while (isspace(*line))
               {
                 line++;
               }
-              while (line_end >= buffer && isspace(*line_end))
+              while (line_end >= &buffer[0] && isspace(*line_end))
               {
                 line_end--;
               }
@@ -1434,10 +1438,10 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
         }
       }
     }
-    readNextLineInBuffer(in);
   }
-  while (!in.eof());
-  return -1;
+
+  // The file must have been read up to its end.
+  return in.bad() ? lineno : -1;
 }
 
 void AttributeTree::split(char *&description, char *&subdescription)
-- 
2.43.0


From e47096de8e718c15b8b3b05ecbcce6d805c6de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 37/71] fix: a configuration file or attribute tree that
 includes itself is not loaded for ever

---
 .../src/icl_core_config/AttributeTree.cpp     | 30 +++++++++++++++++--
 .../src/icl_core_config/AttributeTree.h       |  9 ++++++
 .../src/icl_core_config/ConfigManager.cpp     | 11 +++++++
 .../src/icl_core_config/ConfigManager.h       |  3 ++
 4 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 7abc5c7..bff4f89 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -26,6 +26,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <algorithm>
 #include <vector>
 
 #ifdef _SYSTEM_WIN32_
@@ -1250,6 +1251,14 @@ int AttributeTree::save(const char *filename, int change_style_depth, bool unmar
 
 int AttributeTree::load(const char *filename, bool unmark_changes, bool process_include,
                         bool load_comments, bool preserve_order)
+{
+  return load(filename, unmark_changes, process_include, load_comments, preserve_order,
+              icl_core::List<icl_core::String>());
+}
+
+int AttributeTree::load(const char *filename, bool unmark_changes, bool process_include,
+                        bool load_comments, bool preserve_order,
+                        icl_core::List<icl_core::String> files_being_loaded)
 {
   if (filename == NULL || strcmp(filename, "") == 0)
   {
@@ -1267,6 +1276,15 @@ int AttributeTree::load(const char *filename, bool unmark_changes, bool process_
     setAttribute(m_file_name_str, at_file.name().c_str());
   }
 
+  // A file that includes itself must not be loaded forever.
+  if (find(files_being_loaded.begin(), files_being_loaded.end(), at_file.absoluteName())
+      != files_being_loaded.end())
+  {
+    printf("tAttributeTree >> File '%s' includes itself\n", (const char*)at_file.absoluteName().c_str());
+    return eFILE_LOAD_ERROR;
+  }
+  files_being_loaded.push_back(at_file.absoluteName());
+
   int error;
   ifstream in(at_file.absoluteName().c_str());
   if (!in)
@@ -1275,7 +1293,7 @@ int AttributeTree::load(const char *filename, bool unmark_changes, bool process_
     return eFILE_LOAD_ERROR;
   }
 
-  error = get(in, process_include, load_comments, &at_file);
+  error = get(in, process_include, load_comments, &at_file, files_being_loaded);
   if (error >= 0)
   {
     printf("Error in line %i while reading AttributeTree %s\n", error,
@@ -1299,6 +1317,13 @@ int AttributeTree::load(const char *filename, bool unmark_changes, bool process_
 
 int AttributeTree::get(istream &in, bool process_include, bool load_comments,
                        const class FilePath *file_path)
+{
+  return get(in, process_include, load_comments, file_path, icl_core::List<icl_core::String>());
+}
+
+int AttributeTree::get(istream &in, bool process_include, bool load_comments,
+                       const class FilePath *file_path,
+                       const icl_core::List<icl_core::String>& files_being_loaded)
 {
   vector<char> buffer;
   char *attribute, *line;
@@ -1340,7 +1365,8 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
                 absolute_include_filename += include_filename;
                 include_filename = FilePath::normalizePath(absolute_include_filename);
               }
-              if (at->load(include_filename.c_str(), false, process_include, load_comments) != eOK)
+              if (at->load(include_filename.c_str(), false, process_include, load_comments, false,
+                           files_being_loaded) != eOK)
               {
                 printf("error loading include file %s\n", (const char*)include_filename.c_str());
               }
diff --git a/src/icl_core/src/icl_core_config/AttributeTree.h b/src/icl_core/src/icl_core_config/AttributeTree.h
index 63dc15b..15575b1 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.h
+++ b/src/icl_core/src/icl_core_config/AttributeTree.h
@@ -32,6 +32,7 @@
 #include <string>
 
 #include "icl_core/BaseTypes.h"
+#include "icl_core/List.h"
 #include "icl_core_config/ImportExport.h"
 
 #ifdef _IC_BUILDER_DEPRECATED_STYLE_
@@ -967,6 +968,14 @@ public:
 
 
 private:
+  //! Load a file which is included by the \a files_being_loaded.
+  int load(const char *filename, bool unmark_changes, bool process_include,
+           bool load_comments, bool preserve_order,
+           icl_core::List<icl_core::String> files_being_loaded);
+  //! Read a stream which belongs to the last of the \a files_being_loaded.
+  int get(std::istream &in, bool process_include, bool load_comments,
+          const FilePath *file_path, const icl_core::List<icl_core::String>& files_being_loaded);
+
   void split(char *&description, char *&sub_description);
   void appendString(char * &dest, const char *src, const char *separator);
 
diff --git a/src/icl_core/src/icl_core_config/ConfigManager.cpp b/src/icl_core/src/icl_core_config/ConfigManager.cpp
index 673c78b..e53c121 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.cpp
+++ b/src/icl_core/src/icl_core_config/ConfigManager.cpp
@@ -22,6 +22,7 @@
 #include "icl_core_config/ConfigManager.h"
 
 #include <assert.h>
+#include <algorithm>
 #include <iostream>
 #include <tinyxml.h>
 
@@ -210,14 +211,24 @@ bool ConfigManager::load(const icl_core::String& filename)
   }
   else
   {
+    // A file that includes itself must not be loaded forever.
+    if (std::find(m_files_being_loaded.begin(), m_files_being_loaded.end(), fp.absoluteName())
+        != m_files_being_loaded.end())
+    {
+      std::cerr << "CONFIG ERROR: Configuration file '" << filename << "' includes itself" << std::endl;
+      return false;
+    }
+
     TiXmlDocument doc(filename.c_str());
     if (doc.LoadFile())
     {
+      m_files_being_loaded.push_back(fp.absoluteName());
       TiXmlElement *root_element = doc.RootElement();
       if (root_element != 0)
       {
         readXml("", root_element, fp, false);
       }
+      m_files_being_loaded.pop_back();
       return true;
     }
     else
diff --git a/src/icl_core/src/icl_core_config/ConfigManager.h b/src/icl_core/src/icl_core_config/ConfigManager.h
index 87f56fb..c7cddec 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.h
+++ b/src/icl_core/src/icl_core_config/ConfigManager.h
@@ -233,6 +233,9 @@ private:
   //KeyValueMap m_config_items;
   bool m_initialized;
 
+  //! The files that are being loaded, each including the next one.
+  icl_core::List<icl_core::String> m_files_being_loaded;
+
   ConfigParameterList m_parameter_list;
   ConfigPositionalParameterList m_postional_parameter_list;
 
-- 
2.43.0


From 465dfe98793c3bf8766e453177b2b284fa00f4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 38/71] fix: an observer of a configuration key is not told of
 other keys that match it as a pattern

---
 src/icl_core/src/icl_core_config/ConfigManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigManager.cpp b/src/icl_core/src/icl_core_config/ConfigManager.cpp
index e53c121..1187440 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.cpp
+++ b/src/icl_core/src/icl_core_config/ConfigManager.cpp
@@ -320,7 +320,7 @@ void ConfigManager::registerObserver(ConfigObserver *observer, const icl_core::S
       observer->valueChanged(iter.key());
     }
   }
-  else if (find(key).next())
+  else if (hasKey(key))
   {
     observer->valueChanged(key);
   }
-- 
2.43.0


From d6c612944cec974bdbd176810ab3ed8318916bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 39/71] fix: a configuration observer may unregister or delete
 observers when it is notified

---
 .../src/icl_core_config/ConfigManager.cpp     | 39 ++++++++++++-------
 .../src/icl_core_config/ConfigManager.h       |  3 ++
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigManager.cpp b/src/icl_core/src/icl_core_config/ConfigManager.cpp
index 1187440..5fb5583 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.cpp
+++ b/src/icl_core/src/icl_core_config/ConfigManager.cpp
@@ -315,7 +315,7 @@ void ConfigManager::registerObserver(ConfigObserver *observer, const icl_core::S
   if (key == "")
   {
     ConfigIterator iter = icl_core::config::ConfigManager::instance().find(".*");
-    while (iter.next())
+    while (isRegistered(observer, key) && iter.next())
     {
       observer->valueChanged(iter.key());
     }
@@ -413,24 +413,37 @@ void ConfigManager::UnregisterObserver(ConfigObserver *observer)
 /////////////////////////////////////////////////
 
 
-void ConfigManager::notify(const icl_core::String &key) const
+bool ConfigManager::isRegistered(ConfigObserver *observer, const icl_core::String &key) const
 {
-  icl_core::List<ConfigObserver*> observers;
   ObserverMap::const_iterator find_it = m_observers.find(key);
-  if (find_it != m_observers.end())
-  {
-    observers.insert(observers.end(), find_it->second.begin(), find_it->second.end());
-  }
-  find_it = m_observers.find("");
-  if (find_it != m_observers.end())
+  return find_it != m_observers.end() &&
+    std::find(find_it->second.begin(), find_it->second.end(), observer) != find_it->second.end();
+}
+
+void ConfigManager::notify(const icl_core::String &key) const
+{
+  // An observer that is called may unregister or delete any observer.
+  const icl_core::String registered_keys[] = { key, "" };
+  icl_core::List<ConfigObserver*> observers[2];
+  for (size_t i = 0; i < 2; ++i)
   {
-    observers.insert(observers.end(), find_it->second.begin(), find_it->second.end());
+    ObserverMap::const_iterator find_it = m_observers.find(registered_keys[i]);
+    if (find_it != m_observers.end())
+    {
+      observers[i] = find_it->second;
+    }
   }
 
-  icl_core::List<ConfigObserver*>::iterator iter;
-  for (iter = observers.begin(); iter != observers.end(); ++iter)
+  for (size_t i = 0; i < 2; ++i)
   {
-    (*iter)->valueChanged(key);
+    icl_core::List<ConfigObserver*>::iterator iter;
+    for (iter = observers[i].begin(); iter != observers[i].end(); ++iter)
+    {
+      if (isRegistered(*iter, registered_keys[i]))
+      {
+        (*iter)->valueChanged(key);
+      }
+    }
   }
 }
 
diff --git a/src/icl_core/src/icl_core_config/ConfigManager.h b/src/icl_core/src/icl_core_config/ConfigManager.h
index c7cddec..c7ce1cb 100644
--- a/src/icl_core/src/icl_core_config/ConfigManager.h
+++ b/src/icl_core/src/icl_core_config/ConfigManager.h
@@ -223,6 +223,9 @@ private:
   //! Reads configuration from a file.
   bool load(const icl_core::String& filename);
 
+  //! Check if an observer is registered for \a key.
+  bool isRegistered(ConfigObserver *observer, const icl_core::String &key) const;
+
   //! Notify all observers about a changed key/value pair
   void notify(const icl_core::String &key) const;
 
-- 
2.43.0


From e23adcf3a7572bb17a76ea455e8b02f6f01962e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:58 +0000
Subject: [PATCH 40/71] fix: a closing brace in an attribute tree file ends the
 block that the opening brace began

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index bff4f89..9d1521c 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1328,6 +1328,7 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
   vector<char> buffer;
   char *attribute, *line;
   AttributeTree *at = this;
+  vector<AttributeTree*> enclosing;
   int lineno = 1;
 
   while (readNextLine(in, buffer))
@@ -1430,6 +1431,8 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
           }
           else
           {
+            // The description may lead down several levels.
+            enclosing.push_back(at);
             at = at->setAttribute(line, 0);
           }
         }
@@ -1446,11 +1449,8 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
             else
             {
               //LOCAL_PRINTF("AttributeTree::get >> found '}'\n");
-              if (!at->parentTree())
-              {
-                return lineno;
-              }
-              at = at->parentTree();
+              at = enclosing.back();
+              enclosing.pop_back();
             }
           }
           else
-- 
2.43.0


From b4efefd7e0128da8d8b5ca12e6070ac742dcb93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 41/71] fix: a one-line comment saved in an attribute tree file
 is the same when it is loaded

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 9d1521c..4d88310 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1173,7 +1173,8 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
   bool separate = tud_len > 0 && the_upper_description[tud_len-1] != ' ';
 
   int contents = contains();
-  if (contents >= change_style_depth || hasMultilineComment())
+  // The braces of a comment enclose the lines of its text.
+  if ((contents >= change_style_depth && !isComment()) || hasMultilineComment())
   {
     string indentation(the_upper_description, strspn(the_upper_description, " "));
     out << the_upper_description << (separate ? "." : "") << t_description << '{' << endl;
-- 
2.43.0


From 989a90f61e3677e3772ccd967aa6c4406da370d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:37 +0000
Subject: [PATCH 42/71] fix: an attribute tree with an empty comment can be
 saved

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 4d88310..7545775 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1603,7 +1603,7 @@ bool AttributeTree::isComment()
 
 bool AttributeTree::isMultilineComment()
 {
-  return isComment() && (strchr(attribute(), '\n') != NULL);
+  return isComment() && attribute() && (strchr(attribute(), '\n') != NULL);
 }
 
 const char* AttributeTree::comment()
-- 
2.43.0


From 00f082d3f65cc8937d9a0eb853b903a5d5d3740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 43/71] fix: a library that is not used as a plugin is closed,
 one that cannot be opened is not searched for functions

---
 .../src/icl_core_plugin/PluginManager.h       | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 1e4c368..7e0b46b 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -433,15 +433,17 @@ protected:
     }
 #endif
 
-    PluginHandle plugin_handle = dlopen(plugin.c_str(), RTLD_LAZY);
-
     dlerror(); // Clear any previous errors.
-    typename T::identifier* get_identifier
-      = (typename T::identifier*) dlsym(plugin_handle, "identifier");
-
-    typename T::basetype* get_basetype
-      = (typename T::basetype*) dlsym(plugin_handle, "basetype");
+    PluginHandle plugin_handle = dlopen(plugin.c_str(), RTLD_LAZY);
+    typename T::identifier* get_identifier = 0;
+    typename T::basetype* get_basetype = 0;
+    if (plugin_handle)
+    {
+      get_identifier = (typename T::identifier*) dlsym(plugin_handle, "identifier");
+      get_basetype = (typename T::basetype*) dlsym(plugin_handle, "basetype");
+    }
 
+    bool accepted = false;
     const char* dlsym_error = dlerror();
     if (dlsym_error)
     {
@@ -488,11 +490,19 @@ protected:
       }
       else
       {
+        // A plugin that is found again replaces the earlier one.
+        closePluginHandle(get_identifier());
         m_plugin_handles[get_identifier()] = plugin_handle;
+        accepted = true;
         LOGGING_DEBUG(Plugin, "Initialized plugin " << get_identifier() << " of basetype "
                       << get_basetype() << icl_core::logging::endl);
       }
     }
+
+    if (plugin_handle && !accepted)
+    {
+      dlclose(plugin_handle);
+    }
   }
 
   /*! Loads an instance for all available plugins.  Manager will take
-- 
2.43.0


From 17e7b2708f4a20b5af98965c4660efd5de218ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 44/71] fix: unknown plugins and plugins without instance are
 not listed by the plugin manager

---
 src/icl_core/src/icl_core_plugin/PluginManager.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 7e0b46b..158663b 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -206,7 +206,8 @@ public:
       return m_static_plugins[identifier];
     }
 
-    return m_loaded_plugins[identifier];
+    typename std::map<std::string, T*>::const_iterator iter = m_loaded_plugins.find(identifier);
+    return iter != m_loaded_plugins.end() ? iter->second : NULL;
   }
 
   /*! Create a new plugin instance.
@@ -224,8 +225,8 @@ public:
       loadPlugins();
     }
 
-    PluginHandle plugin_handle = m_plugin_handles[identifier];
-    return loadPluginInstance(plugin_handle, identifier);
+    typename std::map<std::string, PluginHandle>::const_iterator iter = m_plugin_handles.find(identifier);
+    return loadPluginInstance(iter != m_plugin_handles.end() ? iter->second : NULL, identifier);
   }
 
   /*! Manually add an already created plugin instance.  Can be useful
@@ -517,7 +518,11 @@ protected:
     {
       if (m_loaded_plugins.find(iter->first) == m_loaded_plugins.end())
       {
-        m_loaded_plugins[iter->first] = createPluginInstance(iter->first);
+        T* plugin_instance = createPluginInstance(iter->first);
+        if (plugin_instance)
+        {
+          m_loaded_plugins[iter->first] = plugin_instance;
+        }
       }
     }
 
-- 
2.43.0


From 3c9547386bce3cc2c9258455d6310848be180e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 45/71] fix: a deleted plugin manager has closed all its
 libraries and can be created again

---
 .../src/icl_core_plugin/PluginManager.h       | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 158663b..492407a 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -62,29 +62,26 @@ class PluginManager: public PluginManagerBase
 public:
   ~PluginManager()
   {
-    while (!m_plugin_handles.empty() && !m_loaded_plugins.empty())
+    while (!m_plugin_handles.empty())
     {
-      closePluginHandle(m_loaded_plugins.begin()->first);
+      // A copy, as the entry is erased.
+      std::string identifier = m_plugin_handles.begin()->first;
+      closePluginHandle(identifier);
     }
 
-    static PluginManager<T, plugin_dir>* m_instance;
-    m_instance = 0;
-    (void) m_instance;
+    instancePointer() = 0;
   }
 
   //! Singleton instance accessor.
   static PluginManager<T, plugin_dir> *instance()
   {
-    //! Singleton instance.
-    static PluginManager<T, plugin_dir> *m_instance = 0;
-
-    if (!m_instance)
+    if (!instancePointer())
     {
-      m_instance = new PluginManager<T, plugin_dir>();
+      instancePointer() = new PluginManager<T, plugin_dir>();
     }
 
-    assert(m_instance);
-    return m_instance;
+    assert(instancePointer());
+    return instancePointer();
   }
 
   //! Initializes the PluginManager.
@@ -352,6 +349,13 @@ protected:
     // nothing to do
   }
 
+  //! Singleton instance.
+  static PluginManager<T, plugin_dir>*& instancePointer()
+  {
+    static PluginManager<T, plugin_dir> *m_instance = 0;
+    return m_instance;
+  }
+
   /*! Search all files in the specified directories and add plugins
    *  found.
    */
-- 
2.43.0


From 95e28ea94232f6b645efa60746730628fcd6ad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 46/71] fix: a plugin directory that cannot be read does not
 keep the other plugins from being loaded

---
 .../src/icl_core_plugin/PluginManager.h       | 55 ++++++++++---------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/icl_core/src/icl_core_plugin/PluginManager.h b/src/icl_core/src/icl_core_plugin/PluginManager.h
index 492407a..6df0fdc 100644
--- a/src/icl_core/src/icl_core_plugin/PluginManager.h
+++ b/src/icl_core/src/icl_core_plugin/PluginManager.h
@@ -390,41 +390,46 @@ protected:
         continue;
       }
 
-      if (!recursive_search)
+      loadHandles(bpath, recursive_search);
+    }
+
+    LOGGING_DEBUG(Plugin, "Initialized " << m_plugin_handles.size() << " plugins."
+                  << icl_core::logging::endl);
+  }
+
+  /*! Load the handles of all plugins in a directory.  If a part of it
+   *  cannot be read, the other plugins are loaded all the same.
+   */
+  void loadHandles(const boost::filesystem::path& directory, bool recursive_search)
+  {
+    try
+    {
+      boost::filesystem::directory_iterator end_iter;
+      for (boost::filesystem::directory_iterator dir_iter(directory); dir_iter != end_iter; ++dir_iter)
       {
-        boost::filesystem::directory_iterator end_iter;
-        for (boost::filesystem::directory_iterator dir_iter(bpath); dir_iter != end_iter; ++dir_iter)
+        boost::system::error_code error;
+        if (boost::filesystem::is_regular_file(dir_iter->status(error)))
         {
-          if (boost::filesystem::is_regular_file(dir_iter->status()))
-          {
 #if BOOST_FILESYSTEM_VERSION == 2
-            loadHandle(dir_iter->string());
+          loadHandle(dir_iter->string());
 #else
-            loadHandle(dir_iter->path().string());
+          loadHandle(dir_iter->path().string());
 #endif
-          }
         }
-      }
-      else
-      {
-        boost::filesystem::recursive_directory_iterator end_iter;
-        for (boost::filesystem::recursive_directory_iterator dir_iter(bpath);
-             dir_iter != end_iter; ++dir_iter)
+        else if (recursive_search
+                 && boost::filesystem::is_directory(dir_iter->symlink_status(error)))
         {
-          if (boost::filesystem::is_regular_file(dir_iter->status()))
-          {
-#if BOOST_FILESYSTEM_VERSION == 2
-            loadHandle(dir_iter->string());
-#else
-            loadHandle(dir_iter->path().string());
-#endif
-          }
+          loadHandles(dir_iter->path(), recursive_search);
         }
       }
     }
-
-    LOGGING_DEBUG(Plugin, "Initialized " << m_plugin_handles.size() << " plugins."
-                  << icl_core::logging::endl);
+    catch (const boost::filesystem::filesystem_error &e)
+    {
+      std::ostringstream error;
+      error << "Cannot read plugin directory " << directory.string() << ": " << e.what();
+      addErrorMessage(error.str());
+      LOGGING_ERROR(Plugin, error.str() << icl_core::logging::endl);
+    }
   }
 
   /*! Load the plugin handle.
-- 
2.43.0


From 54481ce2e320878b4839828883e85b0dd4a5b883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:22 +0000
Subject: [PATCH 47/71] fix: operations can be added to a periodic dispatch
 thread from any thread while it is running

---
 .../src/icl_core_dispatch/PeriodicDispatchThread.cpp | 12 +++++++++---
 .../src/icl_core_dispatch/PeriodicDispatchThread.h   |  7 ++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp
index 1986b4a..07a389b 100644
--- a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp
+++ b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.cpp
@@ -23,8 +23,7 @@
 #include "icl_core_dispatch/PeriodicDispatchThread.h"
 
 #include "icl_core_dispatch/Operation.h"
-
-#include <boost/foreach.hpp>
+#include "icl_core_thread/ScopedMutexLock.h"
 
 namespace icl_core {
 namespace dispatch {
@@ -44,6 +43,7 @@ PeriodicDispatchThread::~PeriodicDispatchThread()
 
 void PeriodicDispatchThread::addOperation(Operation *op)
 {
+  icl_core::thread::ScopedMutexLock lock(m_dispatch_queue_mutex);
   m_dispatch_queue.push_back(op);
 }
 
@@ -51,10 +51,16 @@ void PeriodicDispatchThread::run()
 {
   while (execute())
   {
-    BOOST_FOREACH (Operation *op, m_dispatch_queue)
+    m_dispatch_queue_mutex.lock();
+    for (icl_core::List<Operation*>::const_iterator it = m_dispatch_queue.begin();
+         it != m_dispatch_queue.end(); ++it)
     {
+      Operation *op = *it;
+      m_dispatch_queue_mutex.unlock();
       op->execute();
+      m_dispatch_queue_mutex.lock();
     }
+    m_dispatch_queue_mutex.unlock();
 
     if (execute())
     {
diff --git a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h
index 61e2f7e..a2ad9e5 100644
--- a/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h
+++ b/src/icl_core/src/icl_core_dispatch/PeriodicDispatchThread.h
@@ -25,6 +25,7 @@
 
 #include "icl_core/List.h"
 #include "icl_core_dispatch/ImportExport.h"
+#include "icl_core_thread/Mutex.h"
 #include "icl_core_thread/PeriodicThread.h"
 
 namespace icl_core {
@@ -48,13 +49,17 @@ public:
   //! Destroys a periodic dispatch thread.
   virtual ~PeriodicDispatchThread();
 
-  //! Add the operation \a op to the dispatch queue.
+  /*! Add the operation \a op to the dispatch queue.  This is possible
+   *  at any time and from any thread.
+   */
   void addOperation(Operation * op);
 
 private:
   //! Perform the periodic dispatching.
   virtual void run();
 
+  //! Protects the dispatch queue, but is not held while an operation is executed.
+  icl_core::thread::Mutex m_dispatch_queue_mutex;
   icl_core::List<Operation*> m_dispatch_queue;
 };
 
-- 
2.43.0


From 4f5e7a3d46237e111a3a6fb95999a19abdbfc891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:28 +0000
Subject: [PATCH 48/71] fix: zipFile() archives a file that is zipped already
 as it is

---
 src/icl_core/src/icl_core/os_fs.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/icl_core/src/icl_core/os_fs.cpp b/src/icl_core/src/icl_core/os_fs.cpp
index 2ba8ab8..0468542 100644
--- a/src/icl_core/src/icl_core/os_fs.cpp
+++ b/src/icl_core/src/icl_core/os_fs.cpp
@@ -24,6 +24,7 @@
 //----------------------------------------------------------------------
 #include "icl_core/os_fs.h"
 
+#include <fstream>
 #include <iostream>
 
 #include "icl_core/BaseTypes.h"
@@ -42,18 +43,19 @@ bool zipFile(const char *filename, const char *additional_extension)
   icl_core::String gzip_file_name = icl_core::String(filename) + additional_extension + ".gz";
   char big_buffer[0x1000];
   int bytes_read = 0;
-  gzFile unzipped_file = gzopen(filename, "rb");
+  // Not read with zlib, which would decompress a file that is zipped already.
+  std::ifstream unzipped_file(filename, std::ios::in | std::ios::binary);
   gzFile zipped_file = NULL;
 
-  if (unzipped_file != NULL)
+  if (unzipped_file.is_open())
   {
     zipped_file = gzopen(gzip_file_name.c_str(), "wb");
   }
 
-  if (unzipped_file != NULL && zipped_file != NULL)
+  if (zipped_file != NULL)
   {
     ret = true;
-    bytes_read = gzread(unzipped_file, big_buffer, 0x1000);
+    bytes_read = int(unzipped_file.read(big_buffer, 0x1000).gcount());
     while (bytes_read > 0)
     {
       if (gzwrite(zipped_file, big_buffer, bytes_read) != bytes_read)
@@ -63,20 +65,16 @@ bool zipFile(const char *filename, const char *additional_extension)
         break;
       }
 
-      bytes_read = gzread(unzipped_file, big_buffer, 0x1000);
+      bytes_read = int(unzipped_file.read(big_buffer, 0x1000).gcount());
     }
 
-    if (bytes_read < 0)
+    if (unzipped_file.bad())
     {
       std::cerr << "ZipFile(" << filename << "->" << gzip_file_name << ") Error on reading." << std::endl;
       ret = false;
     }
   }
 
-  if (unzipped_file != NULL)
-  {
-    gzclose(unzipped_file);
-  }
   if (zipped_file != NULL)
   {
     // Buffered data is written when the file is closed.
-- 
2.43.0


From 9e722fa1de86f075fdd46932a442e5ed49a56d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:28 +0000
Subject: [PATCH 49/71] fix: the summary of a description without events does
 not read beyond an empty list

---
 .../PerformanceMonitor.cpp                    | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index b5069db..e669180 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -381,7 +381,8 @@ double PerformanceMonitor::getAverage(string name)
   int n = (int) m_data[name].size();
   for (int i = 0; i < n; ++i)
     avg = avg + tmp->at(i);
-  avg = avg / n;
+  if (n > 0)
+    avg = avg / n;
   return avg;
 }
 
@@ -392,13 +393,20 @@ double PerformanceMonitor::getAverageNonTime(string name)
   int n = (int) m_data_nontime[name].size();
   for (int i = 0; i < n; ++i)
     avg = avg + tmp->at(i);
-  avg = avg / n;
+  if (n > 0)
+    avg = avg / n;
   return avg;
 }
 
 void PerformanceMonitor::getMedian(string name, double& median, double& min, double& max)
 {
   vector<double> tmp = m_data[name];
+  if (tmp.empty())
+  {
+    // There have been no events of this name.
+    median = min = max = 0;
+    return;
+  }
   sort(tmp.begin(), tmp.end());
   median = tmp[tmp.size() / 2];
   min = tmp[0];
@@ -408,8 +416,13 @@ void PerformanceMonitor::getMedian(string name, double& median, double& min, dou
 void PerformanceMonitor::getMedianNonTime(string name, double& median, double& min, double& max)
 {
   vector<double> tmp = m_data_nontime[name];
+  if (tmp.empty())
+  {
+    // There have been no events of this name.
+    median = min = max = 0;
+    return;
+  }
   sort(tmp.begin(), tmp.end());
-  if (tmp.size() > 0)
   median = tmp[tmp.size() / 2];
   min = tmp[0];
   max = tmp[tmp.size() - 1];
-- 
2.43.0


From d667cb5b2edc60f52b137ddd0a4fd40febd54064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:28 +0000
Subject: [PATCH 50/71] fix: a disabled performance monitor does nothing, also
 if all prefixes are enabled

---
 .../src/icl_core_performance_monitor/PerformanceMonitor.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index e669180..3d73420 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -77,7 +77,7 @@ void PerformanceMonitor::initialize(const uint32_t num_names, const uint32_t num
 
 bool PerformanceMonitor::isEnabled(string prefix)
 {
-  return (m_enabled && m_enabled_prefix.find(prefix) != m_enabled_prefix.end()) || m_all_enabled;
+  return m_enabled && (m_all_enabled || m_enabled_prefix.find(prefix) != m_enabled_prefix.end());
 }
 
 void PerformanceMonitor::start(string timer_name)
-- 
2.43.0


From a40e3c040671daa5350c915ae1b20fb70d1ed550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:50 +0000
Subject: [PATCH 51/71] fix: the performance summary of everything has all
 prefixes if all are enabled

---
 .../PerformanceMonitor.cpp                    | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
index 3d73420..0785aea 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitor.cpp
@@ -306,9 +306,29 @@ void PerformanceMonitor::disablePrefix(string prefix)
 void PerformanceMonitor::printSummaryAll(icl_core::logging::LogLevel level)
 {
   PerformanceMonitor* monitor = getInstance();
+  map<string, bool> prefixes = monitor->m_enabled_prefix;
 
-  for (map<string, bool>::iterator it=monitor->m_enabled_prefix.begin();
-       it != monitor->m_enabled_prefix.end(); ++it)
+  if (monitor->m_all_enabled)
+  {
+    // Prefixes which are not enabled individually may have data, too.
+    for (map<string, double>::iterator it = monitor->m_static_data.begin();
+         it != monitor->m_static_data.end(); ++it)
+    {
+      prefixes[it->first.substr(0, it->first.find("::"))] = true;
+    }
+    for (map<string, vector<double> >::iterator it = monitor->m_data.begin();
+         it != monitor->m_data.end(); ++it)
+    {
+      prefixes[it->first.substr(0, it->first.find("::"))] = true;
+    }
+    for (map<string, vector<double> >::iterator it = monitor->m_data_nontime.begin();
+         it != monitor->m_data_nontime.end(); ++it)
+    {
+      prefixes[it->first.substr(0, it->first.find("::"))] = true;
+    }
+  }
+
+  for (map<string, bool>::iterator it = prefixes.begin(); it != prefixes.end(); ++it)
   {
     printSummaryFromPrefix(it->first, level);
   }
-- 
2.43.0


From 7d5cd817ec7bb35853874d1e6f0b9eac0e54a48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 52/71] fix: a boost time is converted to the time stamp of the
 same time

---
 src/icl_core/src/icl_core/TimeStamp.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index 19658df..474e5b4 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -90,9 +90,9 @@ TimeStamp::TimeStamp(const boost::posix_time::ptime& ptime_stamp)
 {
   boost::posix_time::ptime unix_time_base(boost::gregorian::date(1970, 1, 1));
 
-  secs = boost::posix_time::time_period(unix_time_base, ptime_stamp).length().total_seconds();
-  nsecs = int32_t(boost::posix_time::time_period(unix_time_base, ptime_stamp).
-  length().total_nanoseconds());
+  boost::posix_time::time_duration since_base = ptime_stamp - unix_time_base;
+  secs = since_base.total_seconds();
+  nsecs = int32_t((since_base - boost::posix_time::seconds(secs)).total_nanoseconds());
   normalizeTime();
 }
 
@@ -100,9 +100,9 @@ TimeStamp& TimeStamp::operator = (const boost::posix_time::ptime& ptime_stamp)
 {
   boost::posix_time::ptime unix_time_base(boost::gregorian::date(1970, 1, 1));
 
-  secs = boost::posix_time::time_period(unix_time_base, ptime_stamp).length().total_seconds();
-  nsecs = int32_t(boost::posix_time::time_period(unix_time_base, ptime_stamp).
-  length().total_nanoseconds());
+  boost::posix_time::time_duration since_base = ptime_stamp - unix_time_base;
+  secs = since_base.total_seconds();
+  nsecs = int32_t((since_base - boost::posix_time::seconds(secs)).total_nanoseconds());
   normalizeTime();
   return *this;
 }
-- 
2.43.0


From e2a9e452159f083d703b7a48d186f9cac5d65812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 53/71] fix: os::usleep() sleeps for the whole time also if it
 is more than an hour

---
 src/icl_core/src/icl_core/os_posix_time.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core/os_posix_time.cpp b/src/icl_core/src/icl_core/os_posix_time.cpp
index 614eb66..ea49a01 100644
--- a/src/icl_core/src/icl_core/os_posix_time.cpp
+++ b/src/icl_core/src/icl_core/os_posix_time.cpp
@@ -111,7 +111,11 @@ int usleep(unsigned long useconds)
   else
 #endif
   {
-    return ::usleep(useconds);
+    // ::usleep() only takes 32 bits.
+    struct timespec time;
+    time.tv_sec = useconds / 1000000;
+    time.tv_nsec = (useconds % 1000000) * 1000;
+    return ::nanosleep(&time, NULL);
   }
 }
 
-- 
2.43.0


From b2aac22f3d9bf86ea1996b068bfd2b1c29d2d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 54/71] fix: the microseconds of a time span are written as
 such

---
 src/icl_core/src/icl_core/TimeSpan.cpp        | 2 +-
 src/icl_core/src/icl_core_logging/Logging.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeSpan.cpp b/src/icl_core/src/icl_core/TimeSpan.cpp
index 9f7077c..28f8305 100644
--- a/src/icl_core/src/icl_core/TimeSpan.cpp
+++ b/src/icl_core/src/icl_core/TimeSpan.cpp
@@ -256,7 +256,7 @@ std::ostream& operator << (std::ostream& stream, const TimeSpan& time_span)
   }
   else if (calc_nsec / 1000 * 1000 == calc_nsec)
   {
-    stream << calc_nsec << "us";
+    stream << calc_nsec / 1000 << "us";
   }
   else
   {
diff --git a/src/icl_core/src/icl_core_logging/Logging.cpp b/src/icl_core/src/icl_core_logging/Logging.cpp
index 35ccdd7..240d302 100644
--- a/src/icl_core/src/icl_core_logging/Logging.cpp
+++ b/src/icl_core/src/icl_core_logging/Logging.cpp
@@ -83,7 +83,7 @@ ThreadStream& operator << (ThreadStream& stream, const icl_core::TimeSpan& time_
   }
   else if (calc_nsec / 1000 * 1000 == calc_nsec)
   {
-    stream << calc_nsec << "us";
+    stream << calc_nsec / 1000 << "us";
   }
   else
   {
-- 
2.43.0


From b673ef5836db668c4f94196a6d3f117dc17b042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:18 +0000
Subject: [PATCH 55/71] fix: a time stamp that cannot be formatted gives an
 empty text

---
 src/icl_core/src/icl_core/TimeStamp.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeStamp.cpp b/src/icl_core/src/icl_core/TimeStamp.cpp
index 474e5b4..7619d4f 100644
--- a/src/icl_core/src/icl_core/TimeStamp.cpp
+++ b/src/icl_core/src/icl_core/TimeStamp.cpp
@@ -209,9 +209,10 @@ void TimeStamp::strfTime(char* dest, size_t max_len, const char *format) const
 #else
   struct tm *newtime = gmtime(&time);
 #endif
-  if (newtime)
+  if ((!newtime || strftime(dest, max_len, format, newtime) == 0) && max_len > 0)
   {
-    strftime(dest, max_len, format, newtime);
+    // The contents of dest are undefined if the text does not fit.
+    dest[0] = '\0';
   }
 }
 
@@ -224,9 +225,10 @@ void TimeStamp::strfLocaltime(char* dest, size_t max_len, const char *format) co
 #else
   struct tm *newtime = localtime(&time);
 #endif
-  if (newtime)
+  if ((!newtime || strftime(dest, max_len, format, newtime) == 0) && max_len > 0)
   {
-    strftime(dest, max_len, format, newtime);
+    // The contents of dest are undefined if the text does not fit.
+    dest[0] = '\0';
   }
 }
 
-- 
2.43.0


From 11ca25d1cf158ac63eae129ab9841868b7b3f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:25 +0000
Subject: [PATCH 56/71] fix: a scaled time span keeps the fraction of its
 seconds

---
 src/icl_core/src/icl_core/TimeSpan.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core/TimeSpan.h b/src/icl_core/src/icl_core/TimeSpan.h
index f67f2e0..070e740 100644
--- a/src/icl_core/src/icl_core/TimeSpan.h
+++ b/src/icl_core/src/icl_core/TimeSpan.h
@@ -209,13 +209,19 @@ inline TimeSpan operator - (const TimeSpan& left, const TimeSpan& right)
 
 inline TimeSpan operator / (const TimeSpan& span, double divisor)
 {
-  TimeSpan a(int64_t(span.tsSec() / divisor), int32_t(span.tsNSec() / divisor));
+  // The fraction of the seconds belongs to the nanoseconds.
+  double secs = span.tsSec() / divisor;
+  int64_t nsecs = int64_t((secs - double(int64_t(secs))) * 1e9 + span.tsNSec() / divisor);
+  TimeSpan a(int64_t(secs) + nsecs / 1000000000, int32_t(nsecs % 1000000000));
   return a;
 }
 
 inline TimeSpan operator * (const TimeSpan& span, double divisor)
 {
-  TimeSpan a(int64_t(span.tsSec() * divisor), int32_t(span.tsNSec() * divisor));
+  // The fraction of the seconds belongs to the nanoseconds.
+  double secs = span.tsSec() * divisor;
+  int64_t nsecs = int64_t((secs - double(int64_t(secs))) * 1e9 + span.tsNSec() * divisor);
+  TimeSpan a(int64_t(secs) + nsecs / 1000000000, int32_t(nsecs % 1000000000));
   return a;
 }
 
-- 
2.43.0


From 47852aead0f60b942b6f2bf089676b62f30c2065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:32 +0000
Subject: [PATCH 57/71] fix: large numbers in a log message are not read beyond
 the end of their buffer

---
 src/icl_core/src/icl_core_logging/ThreadStream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/ThreadStream.cpp b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
index 161fe28..2d1046d 100644
--- a/src/icl_core/src/icl_core_logging/ThreadStream.cpp
+++ b/src/icl_core/src/icl_core_logging/ThreadStream.cpp
@@ -271,8 +271,9 @@ ThreadStream& operator << (ThreadStream& stream, const std::string& text)
 
 ThreadStream& operator << (ThreadStream& stream, double value)
 {
-  char local_buffer[100];
-  size_t length = os::snprintf(local_buffer, 100, "%f", value);
+  // Large enough for the largest double.
+  char local_buffer[320];
+  size_t length = os::snprintf(local_buffer, 320, "%f", value);
   stream.write(local_buffer, length);
   return stream;
 }
-- 
2.43.0


From b53071adb9f6f44532aaa11a49617ad053987edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:58 +0000
Subject: [PATCH 58/71] fix: a setting that is not a value of the requested
 type is reported, and strings are read as a whole

---
 src/icl_core/src/icl_core_config/Util.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/Util.h b/src/icl_core/src/icl_core_config/Util.h
index fac3669..6962a51 100644
--- a/src/icl_core/src/icl_core_config/Util.h
+++ b/src/icl_core/src/icl_core_config/Util.h
@@ -36,8 +36,26 @@ namespace config {
 //! Namespace for internal implementation details.
 namespace impl {
 
+//! Reads a value from the beginning of the \a interpreter.
+template <typename T>
+void extractValue(std::stringstream& interpreter, T& result)
+{
+  if (!(interpreter >> result))
+  {
+    throw std::invalid_argument("Not a valid value: " + interpreter.str());
+  }
+}
+
+//! A string is taken as a whole, even if it is empty or contains blanks.
+inline
+void extractValue(std::stringstream& interpreter, std::string& result)
+{
+  result = interpreter.str();
+}
+
 /*! Lexical cast which handles hexadecimal and octal numbers
- *  correctly.
+ *  correctly.  For an input which does not begin with a value of the
+ *  requested type, std::invalid_argument is thrown.
  */
 template <typename T, typename U>
 T hexical_cast(U input)
@@ -46,7 +64,7 @@ T hexical_cast(U input)
   interpreter.setf(std::ios::fmtflags(), std::ios::basefield);
   interpreter << input;
   T result;
-  interpreter >> result;
+  extractValue(interpreter, result);
   return result;
 }
 
-- 
2.43.0


From 31b1f83e20519c8cd7890d57d96b51e71647e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:31 +0000
Subject: [PATCH 59/71] fix: a flag on the command line can be read as a
 boolean value

---
 src/icl_core/src/icl_core_config/Util.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/Util.h b/src/icl_core/src/icl_core_config/Util.h
index 6962a51..0c1bbde 100644
--- a/src/icl_core/src/icl_core_config/Util.h
+++ b/src/icl_core/src/icl_core_config/Util.h
@@ -53,6 +53,16 @@ void extractValue(std::stringstream& interpreter, std::string& result)
   result = interpreter.str();
 }
 
+template <typename U>
+bool strict_bool_cast(U input);
+
+//! A boolean value is read as strict_bool_cast() does it.
+inline
+void extractValue(std::stringstream& interpreter, bool& result)
+{
+  result = strict_bool_cast(interpreter.str());
+}
+
 /*! Lexical cast which handles hexadecimal and octal numbers
  *  correctly.  For an input which does not begin with a value of the
  *  requested type, std::invalid_argument is thrown.
-- 
2.43.0


From b27c05c41db36a0500dc22559c4af863d06e19f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:20 +0000
Subject: [PATCH 60/71] fix: the prefix of a configuration list is not taken
 for a regular expression

---
 src/icl_core/src/icl_core_config/ConfigList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/ConfigList.h b/src/icl_core/src/icl_core_config/ConfigList.h
index 8c315cf..071a457 100644
--- a/src/icl_core/src/icl_core_config/ConfigList.h
+++ b/src/icl_core/src/icl_core_config/ConfigList.h
@@ -71,7 +71,7 @@ public:
     bool result = false;
     bool error = false;
     ConfigIterator cIter = ConfigManager::instance().find(
-      boost::regex_replace(prefix + m_config_prefix, boost::regex("\\/"), "\\\\\\/") + "\\/(.+?)(\\/(.+))?");
+      boost::regex_replace(prefix + m_config_prefix, boost::regex("[^A-Za-z0-9_]"), "\\\\$&") + "\\/(.+?)(\\/(.+))?");
     while(cIter.next())
     {
       bool found = false;
-- 
2.43.0


From 8724a8cea57a49641c10ccf8b0b7d5e2b500fff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:24 +0000
Subject: [PATCH 61/71] fix: a second initialisation does not read the command
 line again

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 9f04e5c..17a9d14 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -369,6 +369,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
     }
   }
 
+  m_initialized = true;
   return true;
 }
 
-- 
2.43.0


From be652fd16d565f792394ab0c6438367ba5d7dac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:33 +0000
Subject: [PATCH 62/71] fix: removing the used arguments keeps the ones that
 are left to the program

---
 .../src/icl_core_config/GetoptParser.cpp      | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index 17a9d14..e1584b6 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -126,6 +126,11 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
     arguments.push_back(argv[index]);
   }
 
+  const icl_core::List<icl_core::String>::const_iterator arguments_begin = arguments.begin();
+
+  // The positions of the arguments which are left to the program.
+  icl_core::List<int> non_opt_positions;
+
   // Scan the commandline parameters and check for
   // registered options.
   size_t positional_parameters_counter = 0;
@@ -212,6 +217,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
           else
           {
             m_param_non_opt.push_back(*arg_it);
+            non_opt_positions.push_back(1 + int(std::distance(arguments_begin, arg_it)));
           }
         }
       }
@@ -290,6 +296,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
           else
           {
             m_param_non_opt.push_back(*arg_it);
+            non_opt_positions.push_back(1 + int(std::distance(arguments_begin, arg_it)));
           }
         }
       }
@@ -327,6 +334,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
 //      else
       {
         m_param_non_opt.push_back(*arg_it);
+        non_opt_positions.push_back(1 + int(std::distance(arguments_begin, arg_it)));
       }
     }
   }
@@ -349,24 +357,17 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
   // Remove all option parameters from the "real" commandline.
   if (cleanup == eCLC_Cleanup)
   {
-    int check = 1;
-    while (check < argc)
+    int kept = 1;
+    for (int index = 1; index < argc; ++index)
     {
-      icl_core::Vector<icl_core::String>::const_iterator find_it =
-        std::find(m_param_non_opt.begin(), m_param_non_opt.end(), icl_core::String(argv[check]));
-      if (find_it == m_param_non_opt.end())
-      {
-        for (int move = check + 1; move < argc; ++move)
-        {
-          argv[move - 1] = argv[move];
-        }
-        --argc;
-      }
-      else
+      if (!non_opt_positions.empty() && non_opt_positions.front() == index)
       {
-        ++check;
+        non_opt_positions.pop_front();
+        argv[kept] = argv[index];
+        ++kept;
       }
     }
+    argc = kept;
   }
 
   m_initialized = true;
-- 
2.43.0


From 9c540c665b29c16aaec982f77ef4bfe3c118861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:33 +0000
Subject: [PATCH 63/71] fix: a long option without its value is refused

---
 src/icl_core/src/icl_core_config/GetoptParser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/icl_core/src/icl_core_config/GetoptParser.cpp b/src/icl_core/src/icl_core_config/GetoptParser.cpp
index e1584b6..3cbb0e8 100644
--- a/src/icl_core/src/icl_core_config/GetoptParser.cpp
+++ b/src/icl_core/src/icl_core_config/GetoptParser.cpp
@@ -155,8 +155,9 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
         if (find_it->second.hasValue())
         {
           // According to the regular expression the value has to be
-          // the 3rd (and last) match result.
-          if (mres.size() == 4)
+          // the 3rd (and last) match result. It is missing if there is no
+          // equals sign.
+          if (mres[2].matched)
           {
             m_param_opt[name] = mres[3];
           }
@@ -187,7 +188,7 @@ bool Getopt::initialize(int& argc, char *argv[], CommandLineCleaning cleanup,
 
             if (prefix_it->second.hasValue())
             {
-              if (mres.size() == 4)
+              if (mres[2].matched)
               {
                 m_prefix_param_opt[prefix_it->first].push_back(KeyValue(prefix_res[1], mres[3]));
               }
-- 
2.43.0


From 2cb00eeb708a3fb47c56ab8c43a99ed346b6aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:28 +0000
Subject: [PATCH 64/71] fix: the LLOGGING_*_CO and LLOGGING_FMT macros compile
 with local logging and format their arguments

---
 .../icl_core_logging/LoggingMacros_LLOGGING.h | 10 +++----
 .../LoggingMacros_LLOGGING_FMT.h              | 30 +++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h
index cce1304..f0c940b 100644
--- a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h
+++ b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING.h
@@ -91,12 +91,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_ERROR_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, function, arg)
-# define LLOGGING_WARNING_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, function, arg)
-# define LLOGGING_INFO_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, function, arg)
+# define LLOGGING_ERROR_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, arg)
+# define LLOGGING_WARNING_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, arg)
+# define LLOGGING_INFO_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, arg)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_DEBUG_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, function, arg)
-#  define LLOGGING_TRACE_CO(streamname, classname, objectname, arg) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, function, arg)
+#  define LLOGGING_DEBUG_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, arg)
+#  define LLOGGING_TRACE_CO(streamname, classname, objectname, arg) LOGGING_LOG_CO(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, arg)
 # else
 #  define LLOGGING_DEBUG_CO(streamname, classname, objectname, arg) (void)0
 #  define LLOGGING_TRACE_CO(streamname, classname, objectname, arg) (void)0
diff --git a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h
index 51daec0..6ca5707 100644
--- a/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h
+++ b/src/icl_core/src/icl_core_logging/LoggingMacros_LLOGGING_FMT.h
@@ -27,12 +27,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_FMT_ERROR(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_ERROR, __VA_ARGS__)
-# define LLOGGING_FMT_WARNING(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_WARNING, __VA_ARGS__)
-# define LLOGGING_FMT_INFO(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_INFO, __VA_ARGS__)
+# define LLOGGING_FMT_ERROR(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_ERROR, __VA_ARGS__)
+# define LLOGGING_FMT_WARNING(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_WARNING, __VA_ARGS__)
+# define LLOGGING_FMT_INFO(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_INFO, __VA_ARGS__)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_FMT_DEBUG(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_DEBUG, __VA_ARGS__)
-#  define LLOGGING_FMT_TRACE(streamname, ...) LOGGING_LOG(streamname, ::icl_core::logging::eLL_TRACE, __VA_ARGS__)
+#  define LLOGGING_FMT_DEBUG(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_DEBUG, __VA_ARGS__)
+#  define LLOGGING_FMT_TRACE(streamname, ...) LOGGING_FMT_LOG(streamname, ::icl_core::logging::eLL_TRACE, __VA_ARGS__)
 # else
 #  define LLOGGING_FMT_DEBUG(streamname, ...) (void)0
 #  define LLOGGING_FMT_TRACE(streamname, ...) (void)0
@@ -47,12 +47,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_FMT_ERROR_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_ERROR, classname, __VA_ARGS__)
-# define LLOGGING_FMT_WARNING_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_WARNING, classname, __VA_ARGS__)
-# define LLOGGING_FMT_INFO_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_INFO,  classname, __VA_ARGS__)
+# define LLOGGING_FMT_ERROR_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_ERROR, classname, __VA_ARGS__)
+# define LLOGGING_FMT_WARNING_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_WARNING, classname, __VA_ARGS__)
+# define LLOGGING_FMT_INFO_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_INFO,  classname, __VA_ARGS__)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_FMT_DEBUG_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_DEBUG, classname, __VA_ARGS__)
-#  define LLOGGING_FMT_TRACE_C(streamname, classname, ...) LOGGING_LOG_C(streamname, ::icl_core::logging::eLL_TRACE, classname, __VA_ARGS__)
+#  define LLOGGING_FMT_DEBUG_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_DEBUG, classname, __VA_ARGS__)
+#  define LLOGGING_FMT_TRACE_C(streamname, classname, ...) LOGGING_FMT_LOG_C(streamname, ::icl_core::logging::eLL_TRACE, classname, __VA_ARGS__)
 # else
 #  define LLOGGING_FMT_DEBUG_C(streamname, classname, ...) (void)0
 #  define LLOGGING_FMT_TRACE_C(streamname, classname, ...) (void)0
@@ -67,12 +67,12 @@
 
 
 #ifdef ICL_CORE_LOCAL_LOGGING
-# define LLOGGING_FMT_ERROR_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, function, __VA_ARGS__)
-# define LLOGGING_FMT_WARNING_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, function, __VA_ARGS__)
-# define LLOGGING_FMT_INFO_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, function, __VA_ARGS__)
+# define LLOGGING_FMT_ERROR_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_ERROR, classname, objectname, __VA_ARGS__)
+# define LLOGGING_FMT_WARNING_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_WARNING, classname, objectname, __VA_ARGS__)
+# define LLOGGING_FMT_INFO_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_INFO, classname, objectname, __VA_ARGS__)
 # ifdef _IC_DEBUG_
-#  define LLOGGING_FMT_DEBUG_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, function, __VA_ARGS__)
-#  define LLOGGING_FMT_TRACE_CO(streamname, classname, objectname, ...) LOGGING_LOG_COF(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, function, __VA_ARGS__)
+#  define LLOGGING_FMT_DEBUG_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_DEBUG, classname, objectname, __VA_ARGS__)
+#  define LLOGGING_FMT_TRACE_CO(streamname, classname, objectname, ...) LOGGING_FMT_LOG_CO(streamname, ::icl_core::logging::eLL_TRACE, classname, objectname, __VA_ARGS__)
 # else
 #  define LLOGGING_FMT_DEBUG_CO(streamname, classname, objectname, ...) (void)0
 #  define LLOGGING_FMT_TRACE_CO(streamname, classname, objectname, ...) (void)0
-- 
2.43.0


From 718f32ffb95e5e713a413ac95094b6e52366753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:29 +0000
Subject: [PATCH 65/71] fix: PERF_MON_SUMMARY_ALL_DEBUG and _TRACE take no
 arguments in a release build either

---
 .../icl_core_performance_monitor/PerformanceMonitorMacros.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitorMacros.h b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitorMacros.h
index af06918..adbfeea 100644
--- a/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitorMacros.h
+++ b/src/icl_core/src/icl_core_performance_monitor/PerformanceMonitorMacros.h
@@ -148,8 +148,8 @@
     #define PERF_MON_SUMMARY_TRACE(prefix, description) (void)0
     #define PERF_MON_SUMMARY_PREFIX_DEBUG(prefix) (void)0
     #define PERF_MON_SUMMARY_PREFIX_TRACE(prefix) (void)0
-    #define PERF_MON_SUMMARY_ALL_DEBUG(prefix, description) (void)0
-    #define PERF_MON_SUMMARY_ALL_TRACE(prefix, description) (void)0
+    #define PERF_MON_SUMMARY_ALL_DEBUG (void)0
+    #define PERF_MON_SUMMARY_ALL_TRACE (void)0
   #endif
 
 
-- 
2.43.0


From 8d1213554ec9d1d6044c0e0d888cddced8fc71ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:18 +0000
Subject: [PATCH 66/71] fix: a second initialisation does not open the quick
 debugging file again

---
 .../src/icl_core_logging/LoggingManager.cpp   | 45 ++++++++++++-------
 .../src/icl_core_logging/LoggingManager.h     |  3 ++
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.cpp b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
index 545c3b6..2b8dff2 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.cpp
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.cpp
@@ -106,26 +106,40 @@ void LoggingManager::initialize()
   icl_core::String quick_debug_filename;
   if (icl_core::config::paramOpt<icl_core::String>("quick-debug", quick_debug_filename))
   {
-    // Find an unused name for the QuickDebug[0-9]* log output stream.
-    icl_core::String output_stream_name = "QuickDebug";
-    LogOutputStreamMap::const_iterator find_it = m_log_output_streams.find(output_stream_name);
-    if (find_it != m_log_output_streams.end())
+    LogOutputStream *output_stream = NULL;
+    if (!m_quick_debug_name.empty()
+        && m_log_output_streams.find(m_quick_debug_name) != m_log_output_streams.end())
     {
-      size_t count = 0;
-      do
+      // A second initialization uses the log output stream of the first one.
+      output_stream = m_log_output_streams[m_quick_debug_name];
+      output_stream->setLogLevel(eLL_TRACE);
+    }
+    else
+    {
+      // Find an unused name for the QuickDebug[0-9]* log output stream.
+      icl_core::String output_stream_name = "QuickDebug";
+      LogOutputStreamMap::const_iterator find_it = m_log_output_streams.find(output_stream_name);
+      if (find_it != m_log_output_streams.end())
       {
-        ++count;
-        find_it = m_log_output_streams.find(output_stream_name
-                                            + boost::lexical_cast<icl_core::String>(count));
+        size_t count = 0;
+        do
+        {
+          ++count;
+          find_it = m_log_output_streams.find(output_stream_name
+                                              + boost::lexical_cast<icl_core::String>(count));
+        }
+        while (find_it != m_log_output_streams.end());
+        output_stream_name = output_stream_name + boost::lexical_cast<icl_core::String>(count);
       }
-      while (find_it != m_log_output_streams.end());
-      output_stream_name = output_stream_name + boost::lexical_cast<icl_core::String>(count);
+
+      // Create the log output stream.
+      output_stream = new FileLogOutput(output_stream_name, quick_debug_filename,
+                                        eLL_TRACE, true);
+      m_log_output_streams[output_stream_name] = output_stream;
+      m_quick_debug_name = output_stream_name;
     }
 
-    // Create the log output stream and connect the log stream.
-    LogOutputStream *output_stream = new FileLogOutput(output_stream_name, quick_debug_filename,
-                                                       eLL_TRACE, true);
-    m_log_output_streams[output_stream_name] = output_stream;
+    // Connect the log stream.
     QuickDebug::instance().addOutputStream(output_stream);
     QuickDebug::instance().m_initial_level = eLL_TRACE;
   }
@@ -455,6 +469,7 @@ void LoggingManager::shutdown()
 
   // Clear the log output stream map.
   m_log_output_streams.clear();
+  m_quick_debug_name.clear();
 
   // Delete all log streams.
   for (LogStreamMap::iterator log_stream_it = m_log_streams.begin();
diff --git a/src/icl_core/src/icl_core_logging/LoggingManager.h b/src/icl_core/src/icl_core_logging/LoggingManager.h
index 120a731..819ab1e 100644
--- a/src/icl_core/src/icl_core_logging/LoggingManager.h
+++ b/src/icl_core/src/icl_core_logging/LoggingManager.h
@@ -282,6 +282,9 @@ private:
   LogOutputStreamMap m_log_output_streams;
 
   LogOutputStream *m_default_log_output;
+
+  //! Name of the log output stream of the quick debugging, if there is one.
+  ::icl_core::String m_quick_debug_name;
 };
 
 //! Internal namespace for implementation details.
-- 
2.43.0


From 495efe20b47d8b97b4b7390ed5a24677854bfb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:03 +0000
Subject: [PATCH 67/71] fix: changed() notices a new description and a subtree
 that is added or copied into a tree

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 7545775..9adc8dc 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -785,6 +785,7 @@ AttributeTree::AttributeTree(const AttributeTree &tree, AttributeTree *parent)
   if (m_parent)
   {
     m_parent->m_subtree_list = new SubTreeList(this, m_parent->m_subtree_list);
+    m_parent->m_changed = true;
   }
 
   m_changed = false;
@@ -856,6 +857,7 @@ void AttributeTree::setDescription(const char *description)
   {
     m_this_description = 0;
   }
+  m_changed = true;
 }
 
 void AttributeTree::setAttribute(const char *attribute)
@@ -1133,6 +1135,7 @@ AttributeTree *AttributeTree::addSubTree(AttributeTree *tree, AttributeTree *aft
     }
 
     tree->m_parent = this;
+    m_changed = true;
     return tree;
   }
   else
-- 
2.43.0


From ce1c44291d8c10359506c1113f01c474d6500e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:03 +0000
Subject: [PATCH 68/71] fix: newSubNodeDescription() does not read and write in
 front of a description of digits

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 9adc8dc..3f39b54 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1083,7 +1083,7 @@ char *AttributeTree::newSubNodeDescription(const char *base_description)
   // find the maxima length of number in base_description
   if (base_len>0)
   {
-    while (base_len>=j-1 &&
+    while (base_len > j &&
            sscanf(description+base_len-j-1, "%i", &i)==1)
     {
       j++;
-- 
2.43.0


From b7d718e9c3b25b9a44a6708c4bfedb842c8d9288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:13 +0000
Subject: [PATCH 69/71] fix: an empty attribute of an attribute tree is saved
 in braces, too

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index 3f39b54..b983615 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1181,7 +1181,7 @@ void AttributeTree::printSubTree(ostream& out, int change_style_depth, const cha
   {
     string indentation(the_upper_description, strspn(the_upper_description, " "));
     out << the_upper_description << (separate ? "." : "") << t_description << '{' << endl;
-    if (m_this_attribute && strcmp(m_this_attribute, ""))
+    if (m_this_attribute)
     {
       out << indentation << ':' << m_this_attribute << endl;
     }
-- 
2.43.0


From f93c13d1cdfd9d58d4c8edd99a2d32c83ad0b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:57 +0000
Subject: [PATCH 70/71] fix: unlinkSub() marks the tree as changed and releases
 the list of its subtrees

---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index b983615..a8f5dc7 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -510,6 +510,7 @@ void SubTreeList::unlinkParent()
     if (loop->m_sub_tree)
     {
       loop->m_sub_tree->m_parent = 0;
+      loop->m_sub_tree = 0;
     }
     loop = loop->m_next;
   }
@@ -824,8 +825,11 @@ void AttributeTree::unlinkSub()
   {
     // die parent-Zeiger der Unterbäume auf 0 setzen
     m_subtree_list->unlinkParent();
+    // die Liste löschen, aber nicht die Unterbäume
+    delete m_subtree_list;
     // den Unterbaumzeiger auf 0
     m_subtree_list = 0;
+    m_changed = true;
   }
 }
 
-- 
2.43.0


From 80514ad0c5182cb857bd31b73e8509fae229c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:54 +0000
Subject: [PATCH 71/71] fix: a brace block in an attribute tree file keeps the
 attribute of its node

Opening a block with 'name{' cleared the attribute that 'name' had got from an
earlier line of the file or from an including file.
---
 src/icl_core/src/icl_core_config/AttributeTree.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/icl_core/src/icl_core_config/AttributeTree.cpp b/src/icl_core/src/icl_core_config/AttributeTree.cpp
index a8f5dc7..028de96 100644
--- a/src/icl_core/src/icl_core_config/AttributeTree.cpp
+++ b/src/icl_core/src/icl_core_config/AttributeTree.cpp
@@ -1440,8 +1440,15 @@ int AttributeTree::get(istream &in, bool process_include, bool load_comments,
           else
           {
             // The description may lead down several levels.
+            // A node which is already there keeps its attribute.
             enclosing.push_back(at);
-            at = at->setAttribute(line, 0);
+            char *subdescription;
+            for (; line && *line; line = subdescription)
+            {
+              split(line, subdescription);
+              AttributeTree *subtree = at->getSubTree(line);
+              at = subtree ? subtree : at->setAttribute(line, 0);
+            }
           }
         }
         else
-- 
2.43.0

