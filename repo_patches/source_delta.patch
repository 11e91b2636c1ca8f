From 19bb67468ed84433e79a36c9f409f14c042d04a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 001/100] fix: UTCTime >= and <= ignored nanoseconds within one
 second

---
 common/utctime.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index ea2fcf5..8574771 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -28,8 +28,8 @@ bool UTCTime::operator>(const UTCTime& other) const
 }
 bool UTCTime::operator>=(const UTCTime& other) const
 {
-    return (sec >= other.sec) ? true
-                              : (sec < other.sec) ? false : (nsec >= other.nsec) ? true : false;
+    return (sec > other.sec) ? true
+                             : (sec < other.sec) ? false : (nsec >= other.nsec) ? true : false;
 }
 bool UTCTime::operator<(const UTCTime& other) const
 {
@@ -38,8 +38,8 @@ bool UTCTime::operator<(const UTCTime& other) const
 }
 bool UTCTime::operator<=(const UTCTime& other) const
 {
-    return (sec <= other.sec) ? true
-                              : (sec > other.sec) ? false : (nsec <= other.nsec) ? true : false;
+    return (sec < other.sec) ? true
+                             : (sec > other.sec) ? false : (nsec <= other.nsec) ? true : false;
 }
 
 bool UTCTime::operator==(const UTCTime& other) const
-- 
2.43.0


From 5d360ec0f282d576fd2e01727bd300a45be90465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 002/100] fix: week/time-of-week conversions lost the
 milliseconds and overflowed past week 3550

---
 common/utctime.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 8574771..50d0d35 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -199,8 +199,8 @@ UTCTime UTCTime::now()
 UTCTime UTCTime::fromGPS(int week, int tow_ms)
 {
     UTCTime out;
-    out.sec = week * SEC_IN_WEEK + tow_ms / 1000 + GPS_UTC_OFFSET;
-    out.nsec = (tow_ms % 1000) * E9;
+    out.sec = int64_t(week) * SEC_IN_WEEK + tow_ms / 1000 + GPS_UTC_OFFSET;
+    out.nsec = (tow_ms % 1000) * E6;
     out.wrapNsec();
     return out;
 }
@@ -237,8 +237,8 @@ UTCTime UTCTime::fromGalileo(int week, int tow_ms)
 UTCTime UTCTime::fromGlonass(int week, int tow_ms)
 {
     UTCTime out;
-    out.sec = int64_t(week * SEC_IN_WEEK) + tow_ms / 1000 + GLO_UTC_OFFSET;
-    out.nsec = (tow_ms % 1000) * E9;
+    out.sec = int64_t(week) * SEC_IN_WEEK + tow_ms / 1000 + GLO_UTC_OFFSET;
+    out.nsec = (tow_ms % 1000) * E6;
     out.wrapNsec();
     return out;
 }
-- 
2.43.0


From a03a5f5e4773b3bc2789a74c6cfef2e072b4aeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 003/100] fix: fromGlonassTimeOfDay picked the wrong day around
 midnight

---
 common/utctime.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 50d0d35..8e1dfc1 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -213,6 +213,17 @@ UTCTime UTCTime::fromGlonassTimeOfDay(const UTCTime& ref, int tod_ms)
     int glonass_tow_ms = (glonass_day * SEC_IN_DAY) * 1000 + tod_ms;
 
     UTCTime out = UTCTime::fromGlonass(glonass_week, glonass_tow_ms);
+
+    // the time of day may belong to the day before or after the one of the reference
+    const double dt = (out - ref).toSec();
+    if (dt > SEC_IN_DAY / 2)
+    {
+        out -= SEC_IN_DAY;
+    }
+    else if (dt < -SEC_IN_DAY / 2)
+    {
+        out += SEC_IN_DAY;
+    }
     return out;
 }
 
-- 
2.43.0


From 20ecf89fd26dfc45c4d96a8ff978f71052970799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 004/100] fix: printed times dropped the leading zeros of the
 milliseconds

---
 common/utctime.cxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 8e1dfc1..56f3bc2 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -1,5 +1,7 @@
 #include "common/utctime.h"
 
+#include <iomanip>
+
 #include "common/quantized_time.h"
 
 namespace mc {
@@ -289,7 +291,8 @@ std::string UTCTime::str() const
 
     std::stringstream ss;
     ss << 1900 + date->tm_year << "/" << 1 + date->tm_mon << "/" << date->tm_mday << " "
-       << date->tm_hour << ":" << date->tm_min << ":" << date->tm_sec << "." << nsec / 1'000'000;
+       << date->tm_hour << ":" << date->tm_min << ":" << date->tm_sec << "." << std::setw(3)
+       << std::setfill('0') << nsec / 1'000'000;
 
     return ss.str();
 }
@@ -312,15 +315,17 @@ std::ostream& operator<<(std::ostream& os, const UTCTime& t)
     time_t time(t.sec);
     tm* date = gmtime(&time);
 
+    std::stringstream millis;
+    millis << std::setw(3) << std::setfill('0') << t.nsec / 1'000'000;
+
     if (date->tm_year == 70)
     {
-        os << t.sec << "." << t.nsec / 1'000'000;
+        os << t.sec << "." << millis.str();
     }
     else
     {
         os << 1900 + date->tm_year << "/" << 1 + date->tm_mon << "/" << date->tm_mday << " "
-           << date->tm_hour << ":" << date->tm_min << ":" << date->tm_sec << "."
-           << t.nsec / 1'000'000;
+           << date->tm_hour << ":" << date->tm_min << ":" << date->tm_sec << "." << millis.str();
     }
 
     return os;
-- 
2.43.0


From f748e04480c9097da0e3dd7ad98a4bdaab2ca8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 005/100] fix: UTCTime constructors left negative nanoseconds
 unnormalised

---
 common/utctime.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/utctime.h b/common/utctime.h
index 0f239ae..6425606 100644
--- a/common/utctime.h
+++ b/common/utctime.h
@@ -49,11 +49,11 @@ class UTCTime
     static constexpr int BD_UTC_OFFSET = GPS_UTC_OFFSET + GPS_BEIDOU_OFFSET;
 
     constexpr UTCTime(const int64_t _sec, const int64_t _nsec)
-        : sec(_sec + _nsec / E9), nsec(_nsec % E9)
+        : sec(_sec + _nsec / E9 - (_nsec % E9 < 0)), nsec(_nsec % E9 + (_nsec % E9 < 0 ? E9 : 0))
     {
     }
 
-    constexpr UTCTime(const double _sec) : sec((int64_t)_sec), nsec((int64_t)(_sec * E9) % E9) {}
+    constexpr UTCTime(const double _sec) : UTCTime((int64_t)_sec, (int64_t)(_sec * E9) % E9) {}
 
     UTCTime();
 
-- 
2.43.0


From 21b0524d51ade5070a753d4f980f4c1558670e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 006/100] fix: CircularBuffer::pop_back destroyed the slot past
 the end instead of the last element

---
 common/circular_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 5e89fe9..5c61d6c 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -54,8 +54,8 @@ class CircularBuffer
     }
     void pop_back()
     {
+        --tail_;
         tail_->~T();  // call destructor manually without freeing memory
-        tail_--;
     }
 
     template <typename... Args>
-- 
2.43.0


From b817806c007bdcc58fb531f580e35cbcdd87563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 007/100] fix: CircularBuffer assigned into raw memory and read
 evicted elements while pushing

---
 common/circular_buffer.h | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 5c61d6c..1324400 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -61,36 +61,32 @@ class CircularBuffer
     template <typename... Args>
     void emplace_back(Args&&... args)
     {
+        // there is always one free slot: construct first, the arguments may refer to an element
+        new (&*tail_) T(args...);
         if (full())
             pop_front();
-        new (&*tail_) T(args...);
         ++tail_;
     }
 
     void push_back(const T& obj)
     {
-        if (full())
-            pop_front();
-        *tail_ = obj;
-        ++tail_;
+        emplace_back(obj);
     }
 
     template <typename... Args>
     void emplace_front(Args&&... args)
     {
+        iterator slot = head_;
+        --slot;
+        new (&*slot) T(args...);
         if (full())
             pop_back();
         --head_;
-        new (&*head_) T(args...);
     }
 
     void push_front(const T& obj)
     {
-        if (full())
-            pop_back();
-
-        --head_;
-        *head_ = obj;
+        emplace_front(obj);
     }
 
     T* data() { return buf_; }
-- 
2.43.0


From e00c50928db90edd1d86bf293c94dc37df9a946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 008/100] fix: CircularBuffer storage ignored the alignment of
 its element type

---
 common/circular_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 1324400..03bdf77 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -93,7 +93,7 @@ class CircularBuffer
     const T* data() const { return buf_; }
 
  private:
-    uint8_t memory_[SIZE * sizeof(T)];
+    alignas(T) uint8_t memory_[SIZE * sizeof(T)];
     T* buf_ = reinterpret_cast<T*>(memory_);
     iterator end_ = {buf_ + SIZE, this};
     iterator head_ = {buf_, this};
-- 
2.43.0


From e623831209ab6e58efd428b80e3192c57acc715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 009/100] fix: copying a CircularBuffer aliased the storage of
 the source

---
 common/circular_buffer.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 03bdf77..d661269 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -17,6 +17,28 @@ class CircularBuffer
 
     CircularBuffer() = default;
 
+    // the iterators point into the buffer itself, so the members cannot be copied one by one
+    CircularBuffer(const CircularBuffer& other)
+    {
+        for (const T& obj : other)
+        {
+            push_back(obj);
+        }
+    }
+
+    CircularBuffer& operator=(const CircularBuffer& other)
+    {
+        if (this != &other)
+        {
+            clear();
+            for (const T& obj : other)
+            {
+                push_back(obj);
+            }
+        }
+        return *this;
+    }
+
     ~CircularBuffer() { clear(); }
     const_iterator begin() const { return head_; }
     const_iterator end() const { return tail_; }
-- 
2.43.0


From e367dd761a1012e01abd05f270c65125353898db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 010/100] fix: short log keys shared one stream file (1 and 100
 -> 0100, 1000)

---
 common/logging/log_key.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/logging/log_key.h b/common/logging/log_key.h
index c552103..60040d7 100644
--- a/common/logging/log_key.h
+++ b/common/logging/log_key.h
@@ -52,7 +52,7 @@ inline std::string logKeyName(int key)
     case ESTIMATE:
         return "ESTIMATE";
     default:
-        return fmt::format("LOG_KEY_{:0^4}", key);
+        return fmt::format("LOG_KEY_{:0>4}", key);
     }
 }
 
-- 
2.43.0


From 2edd1b751e1f12ee2c54494d0e7bc614731bc7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 011/100] fix: ephemeris stream headers described fields that
 are not in the records

---
 common/logging/log_format.cxx | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/common/logging/log_format.cxx b/common/logging/log_format.cxx
index 0727f19..4cca248 100644
--- a/common/logging/log_format.cxx
+++ b/common/logging/log_format.cxx
@@ -64,10 +64,6 @@ YAML::Node format(const ephemeris::GPSEphemeris& eph)
     node["fit_interval_flag"] = format(eph.fit_interval_flag);
     node["age_of_data_offset"] = format(eph.age_of_data_offset);
     node["tgd"] = format(eph.tgd);
-    node["iode1"] = format(eph.iode1);
-    node["iode2"] = format(eph.iode2);
-    node["iode3"] = format(eph.iode3);
-    node["collected_subframes"] = format(eph.collected_subframes);
     return node;
 }
 YAML::Node format(const ephemeris::GalileoEphemeris& eph)
@@ -114,9 +110,6 @@ YAML::Node format(const ephemeris::GalileoEphemeris& eph)
     node["e1b_hs"] = format(eph.e1b_hs);
     node["e5b_dvs"] = format(eph.e5b_dvs);
     node["e1b_dvs"] = format(eph.e1b_dvs);
-    node["collected_subframes"] = format(eph.collected_subframes);
-    node["time_f"] = format(eph.time_f);
-    node["iod"] = format(eph.iod, 4);
     return node;
 }
 
@@ -133,6 +126,7 @@ YAML::Node format(const ephemeris::GlonassEphemeris& eph)
     node["svh"] = format(eph.svh);
     node["sva"] = format(eph.sva);
     node["age"] = format(eph.age);
+    node["toe_repeated"] = format(eph.toe);  // serialize() writes toe twice
     node["tof"] = format(eph.tof);
     node["pos"] = format(eph.pos);
     node["vel"] = format(eph.vel);
@@ -140,15 +134,6 @@ YAML::Node format(const ephemeris::GlonassEphemeris& eph)
     node["taun"] = format(eph.taun);
     node["gamn"] = format(eph.gamn);
     node["dtaun"] = format(eph.dtaun);
-    node["frame_flags"] = format(eph.frame_flags_);
-    node["time_mark"] = format(eph.time_mark_);
-    node["tk_h"] = format(eph.tk_h_);
-    node["tk_m"] = format(eph.tk_m_);
-    node["tk_s"] = format(eph.tk_s_);
-    node["tb"] = format(eph.tb_);
-    node["NT"] = format(eph.NT_);
-    node["N4"] = format(eph.N4_);
-    node["NA"] = format(eph.NA_);
     return node;
 }
 
-- 
2.43.0


From 93931a4cbc032599f07b8cfce68ce529f448d754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 012/100] fix: Logger destructor replaced the end time given to
 close()

---
 common/logging/log_writer.cxx | 6 ++++++
 common/logging/log_writer.h   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/common/logging/log_writer.cxx b/common/logging/log_writer.cxx
index 7fc6957..0b1d254 100644
--- a/common/logging/log_writer.cxx
+++ b/common/logging/log_writer.cxx
@@ -23,10 +23,16 @@ void Logger::open(const UTCTime& start_time, const std::string& directory)
     utils::removeDirectoryIfExist(directory_);
     utils::makeDirectoryIfNotExist(directory_);
     createManifest(start_time);
+    open_ = true;
 }
 
 void Logger::close(const UTCTime& t_end)
 {
+    if (!open_)
+    {
+        return;
+    }
+    open_ = false;
     while (!streams_.empty())
     {
         streams_.erase(streams_.begin());
diff --git a/common/logging/log_writer.h b/common/logging/log_writer.h
index 91d5f05..8ac7301 100644
--- a/common/logging/log_writer.h
+++ b/common/logging/log_writer.h
@@ -118,6 +118,7 @@ class Logger
     YAML::Node manifest_;
     std::string log_id_;
     std::unordered_map<int, Stream> streams_;
+    bool open_ = false;
 };
 
 }  // namespace logging
-- 
2.43.0


From b8c7ac4114acb832558c53c8dc2e1ca17bcb6a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 013/100] fix: log_reader.py returned column-major matrices
 scrambled

---
 common/logging/log_reader.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/common/logging/log_reader.py b/common/logging/log_reader.py
index 5a6ba97..455ce5b 100644
--- a/common/logging/log_reader.py
+++ b/common/logging/log_reader.py
@@ -37,13 +37,23 @@ def make_dtype(format):
     return dtype
 
 
-def load_header(hdr_path):
+def fix_matrix_order(data, format):
+    """ The writer stores matrices column by column, numpy reads them row by row """
+    if "cols" in format.keys():
+        rows, cols = format["rows"], format["cols"]
+        data[...] = data.reshape(-1, cols, rows).swapaxes(1, 2).copy()
+    elif "type" not in format.keys():
+        for name, item in format.items():
+            fix_matrix_order(data if len(format) == 1 else data[name], item)
+
+
+def load_format(hdr_path):
     with open(hdr_path) as header_file:
-        data = yaml.load(header_file.read(), Loader=yaml.FullLoader)
+        return yaml.load(header_file.read(), Loader=yaml.FullLoader)["format"]
 
-    dtype = np.dtype(make_dtype(data["format"]))
 
-    return dtype
+def load_header(hdr_path):
+    return np.dtype(make_dtype(load_format(hdr_path)))
 
 
 def get_log_files(file_path):
@@ -84,6 +94,7 @@ def load(file_path, streams=None, normalize_time=True):
         print("loading {}".format(log_path))
         dtype = load_header(hdr_path)
         data = np.fromfile(log_path, dtype=dtype)
+        fix_matrix_order(data, load_format(hdr_path))
 
         if normalize_time and 't' in data.dtype.fields:
             print("normalizing_time")
-- 
2.43.0


From 0fd3a6b585dcbc51300be8cc461e3a70c4613f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 014/100] fix: GPS parser read 32-bit words from unaligned
 receive buffers

---
 common/ephemeris/gps.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index f5b44df..a6dc363 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -1,5 +1,7 @@
 #include "common/ephemeris/gps.h"
 
+#include <cstring>
+
 #include "common/check.h"
 #include "common/ephemeris/bit_tools.h"
 #include "common/print.h"
@@ -49,7 +51,9 @@ bool GPSEphemeris::parse(const uint8_t* buf, size_t size)
     const uint8_t* p = buf;
     for (int i = 0; i < 10; ++i)
     {
-        setBit<24>(subframe, i * 24, *(reinterpret_cast<const uint32_t*>(p)) >> 6);
+        uint32_t word;  // the receive buffer may have any alignment
+        memcpy(&word, p, sizeof(word));
+        setBit<24>(subframe, i * 24, word >> 6);
         p += 4;
     }
 
-- 
2.43.0


From 1ff94bf09b3cfb8c000f93a792ff2eeaaaa59c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 015/100] fix: GPS subframe 3 of another issue was accepted as
 matching

---
 common/ephemeris/gps.cxx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index a6dc363..806f4f4 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -182,7 +182,6 @@ bool GPSEphemeris::frame3(const uint8_t* buf)
     iode3 = getBit<8>(buf, 216);
     idot = getBit<14, Signed>(buf, 224) * P2_43 * PI;
 
-    iode3 = iode;
     collected_subframes |= FRAME3;
 
     return true;
-- 
2.43.0


From 3ac7e4807bd85de4d3c52cb2923e303a4e2930e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 016/100] fix: GPS parser reported stale subframes as complete
 when the new issue number is 0

---
 common/ephemeris/gps.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index 806f4f4..eb8cffa 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -100,6 +100,7 @@ bool GPSEphemeris::parse(const uint8_t* buf, size_t size)
 
     // Reset synchronization
     iode1 = iode2 = iode3 = 0;
+    collected_subframes = 0;
 
     return true;
 }
-- 
2.43.0


From 996a1d5823126316e1abc29c8cd88f69b0cbbb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 017/100] fix: Galileo parser read 32 bytes whatever the size
 of the message

---
 common/ephemeris/galileo.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 817f3d7..8e3fcd3 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -47,7 +47,12 @@ double GalileoEphemeris::getWavelength(int frequency) const
 
 bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
 {
-    (void)size;
+    if (size < 32)
+    {
+        dbg("Incomplete Galileo page");
+        return false;
+    }
+
     // swap buffer endianness
     uint8_t buf[64];
     const uint8_t* p = msg;
-- 
2.43.0


From 9b0ebfaa85b98dacb03ac9abf89b5441fc2ec855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 018/100] fix: Galileo data validity flags were taken from the
 neighbouring bits

---
 common/ephemeris/galileo.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 8e3fcd3..ee4f62f 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -282,8 +282,8 @@ bool GalileoEphemeris::frame5(const uint8_t* buf)
     bgd_e1_e5b = getBit<10, Signed>(buf, 57) * P2_32;
     e5b_hs = getBit<2>(buf, 67);
     e1b_hs = getBit<2>(buf, 69);
-    e5b_dvs = getBit<1>(buf, 70);
-    e1b_dvs = getBit<1>(buf, 71);
+    e5b_dvs = getBit<1>(buf, 71);
+    e1b_dvs = getBit<1>(buf, 72);
     // week = getBit<12>(buf, 72);
     // tow = getBit<20>(buf, 84); // Use frame 0 for time
 
-- 
2.43.0


From a2ff64589c6f0f051d2ce54b646c52022998cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 019/100] fix: Galileo week grew by 1024 each time the
 ephemeris was reported again

---
 common/ephemeris/galileo.cxx | 3 ++-
 common/ephemeris/galileo.h   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index ee4f62f..09cb4e3 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -168,6 +168,7 @@ bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
 
     // Compute time stamps
     iode = iodc = iod[0];
+    week = gst_week;
     UTCTime ttr = UTCTime::fromGalileo(week, tow * 1000.0);
     double dt = (UTCTime::fromGalileo(week, toes * 1000.0) - ttr).toSec();
     if (dt > 302400.0)
@@ -185,7 +186,7 @@ bool GalileoEphemeris::frame0(const uint8_t* buf)
 {
     int type = getBit<6>(buf, 0);
     time_f = getBit<2>(buf, 6);
-    week = getBit<12>(buf, 96);
+    gst_week = getBit<12>(buf, 96);
     tow = getBit<20>(buf, 108);
     if (type != 0)
     {
diff --git a/common/ephemeris/galileo.h b/common/ephemeris/galileo.h
index afe6357..35de86e 100644
--- a/common/ephemeris/galileo.h
+++ b/common/ephemeris/galileo.h
@@ -67,6 +67,7 @@ class GalileoEphemeris final : public KeplerianEphemeris
     };
 
     int time_f;
+    int gst_week;  // week of word type 0, without the offset to the GPS week
     int iod[4] = {0};
 
     void setRandom();
-- 
2.43.0


From b00d31bf4b7fd2b444dd131ea10d5ce943aaf79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 020/100] fix: Galileo word 4 of another satellite replaced the
 collected values

---
 common/ephemeris/galileo.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 09cb4e3..9cfb5db 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -253,8 +253,13 @@ bool GalileoEphemeris::frame3(const uint8_t* buf)
 bool GalileoEphemeris::frame4(const uint8_t* buf)
 {
     int type = getBit<6>(buf, 0);
-    iod[3] = getBit<10>(buf, 6);
     int svid = getBit<6>(buf, 16);
+    if (svid != sat)
+    {
+        dbg("Galileo satellite id doesn't match: expected {}, got {}", fmt(sat, svid));
+        return false;
+    }
+    iod[3] = getBit<10>(buf, 6);
     cic = getBit<16, Signed>(buf, 22) * P2_29;
     cis = getBit<16, Signed>(buf, 38) * P2_29;
     tocs = getBit<14>(buf, 54) * 60.0;
@@ -267,11 +272,6 @@ bool GalileoEphemeris::frame4(const uint8_t* buf)
         dbg("Galileo word type 4 error : expected=4, got {}", fmt(type));
         return false;
     }
-    if (svid != sat)
-    {
-        dbg("Galileo satellite id doesn't match: expected {}, got {}", fmt(sat, svid));
-        return false;
-    }
     collected_subframes |= FRAME4;
     return true;
 }
-- 
2.43.0


From e69a9d70b5dcb62e4344bbf2aba6e18299432eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 021/100] fix: GLONASS four-year interval overflowed int for N4
 above 18

---
 common/ephemeris/glonass.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ephemeris/glonass.cxx b/common/ephemeris/glonass.cxx
index 160649c..61a390c 100644
--- a/common/ephemeris/glonass.cxx
+++ b/common/ephemeris/glonass.cxx
@@ -200,7 +200,7 @@ bool GlonassEphemeris::convertTime()
 
     static UTCTime Jan1_1996 = UTCTime::fromCalendar(1996, 1, 1, 0, 0, 0);
     UTCTime start_of_year =
-        Jan1_1996 + (N4_ - 1) * (3 * UTCTime::SEC_IN_YEAR + UTCTime::SEC_IN_LEAP_YEAR) - (3 * 3600);
+        Jan1_1996 + (N4_ - 1.0) * (3 * UTCTime::SEC_IN_YEAR + UTCTime::SEC_IN_LEAP_YEAR) - (3 * 3600);
     UTCTime start_of_day = start_of_year + (NA_ - 1) * UTCTime::SEC_IN_DAY;
 
     // Convert t_k (tof) to UTC
-- 
2.43.0


From 764bb8bf0f68059e585ab9f2f395c77f38b9ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 022/100] fix: GLONASS times used the day of the almanac
 instead of the day of the ephemeris

---
 common/ephemeris/glonass.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ephemeris/glonass.cxx b/common/ephemeris/glonass.cxx
index 61a390c..c40ff68 100644
--- a/common/ephemeris/glonass.cxx
+++ b/common/ephemeris/glonass.cxx
@@ -201,7 +201,7 @@ bool GlonassEphemeris::convertTime()
     static UTCTime Jan1_1996 = UTCTime::fromCalendar(1996, 1, 1, 0, 0, 0);
     UTCTime start_of_year =
         Jan1_1996 + (N4_ - 1.0) * (3 * UTCTime::SEC_IN_YEAR + UTCTime::SEC_IN_LEAP_YEAR) - (3 * 3600);
-    UTCTime start_of_day = start_of_year + (NA_ - 1) * UTCTime::SEC_IN_DAY;
+    UTCTime start_of_day = start_of_year + (NT_ - 1) * UTCTime::SEC_IN_DAY;
 
     // Convert t_k (tof) to UTC
     if (got(FRAME1))
-- 
2.43.0


From bf7bf574f31664adea1e16b3cfd9e7de03be51f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 023/100] fix: ephemeris fields the parsers never fill were
 logged uninitialised

---
 common/ephemeris/eph.h     | 2 +-
 common/ephemeris/galileo.h | 6 +++---
 common/ephemeris/gps.h     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/ephemeris/eph.h b/common/ephemeris/eph.h
index af5eba0..801dd5a 100644
--- a/common/ephemeris/eph.h
+++ b/common/ephemeris/eph.h
@@ -74,7 +74,7 @@ class KeplerianEphemeris : public EphBase
  public:
     UTCTime toc;  // reference time (clock)   (UTC Time) [s]
 
-    uint32_t tow;   // time of week in subframe1; the time of the leading bit edge of subframe 2 [s]
+    uint32_t tow = 0;   // time of week in subframe1; the time of the leading bit edge of subframe 2 [s]
     uint16_t iodc;  // 10 bit issue of data (clock); 8 LSB bits will match the iode []
     uint8_t iode;   // 8 bit  issue of data (ephemeris) []
     uint16_t week;  // 10 bit gps week 0-1023 (user must account for week rollover ) [week]
diff --git a/common/ephemeris/galileo.h b/common/ephemeris/galileo.h
index 35de86e..53007d0 100644
--- a/common/ephemeris/galileo.h
+++ b/common/ephemeris/galileo.h
@@ -35,9 +35,9 @@ class GalileoEphemeris final : public KeplerianEphemeris
     bool parse(const uint8_t* buf, size_t size);
     double getWavelength(int frequency) const;
 
-    double ai0;
-    double ai1;
-    double ai2;
+    double ai0 = 0;  // not decoded
+    double ai1 = 0;
+    double ai2 = 0;
     double bgd_e1_e5a;
     double bgd_e1_e5b;
     uint8_t e5b_hs;
diff --git a/common/ephemeris/gps.h b/common/ephemeris/gps.h
index 32c5a4e..22c6bca 100644
--- a/common/ephemeris/gps.h
+++ b/common/ephemeris/gps.h
@@ -20,14 +20,14 @@ class GPSEphemeris final : public KeplerianEphemeris
     explicit GPSEphemeris(int sat_id);
     uint8_t health;      // 6 bit health parameter; 0 if healthy; unhealth othersize [0=healthy]
     uint8_t alert_flag;  // 1 = URA may be worse than indicated [0,1]
-    uint8_t anti_spoof;  // anti-spoof flag from 0=off; 1=on [0,1]
+    uint8_t anti_spoof = 0;  // anti-spoof flag from 0=off; 1=on [0,1]
     uint8_t code_on_L2;  // 0=reserved; 1=P code on L2; 2=C/A on L2 [0,1,2]
     uint8_t ura;         // User Range Accuracy lookup code; 0 is excellent; 15 is use at own risk
                          // [0-15]; see p. 83 GPSICD200C
     uint8_t L2_P_data_flag;       // flag indicating if P is on L2 1=true [0,1]
     uint8_t fit_interval_flag;    // fit interval flag (four hour interval or longer) 0=4 fours;
                                   // 1=greater         [0,1]
-    uint16_t age_of_data_offset;  // age of data offset [s]
+    uint16_t age_of_data_offset = 0;  // age of data offset [s]
     double tgd;                   // group delay [s]
 
     bool parse(const uint8_t* buf, size_t size);
-- 
2.43.0


From da76836746f8f8b7a161beb865c590ba949dc14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 024/100] fix: satellite velocity was NaN at perigee and apogee

---
 common/satellite/satellite_state.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 4eb065e..a6b0bf1 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -45,7 +45,7 @@ Error eph2Sat(const UTCTime& t,
 
     const double tak = atan2(sqrt(1.0 - eph.ecc * eph.ecc) * sek, cek - eph.ecc);
     const double takdot =
-        sek * ekdot * (1.0 + eph.ecc * cos(tak)) / (sin(tak) * (1.0 - eph.ecc * cek));
+        mkdot * sqrt(1.0 - eph.ecc * eph.ecc) / ((1.0 - eph.ecc * cek) * (1.0 - eph.ecc * cek));
 
     const double phik = tak + eph.w;
     const double sphik2 = sin(2.0 * phik);
-- 
2.43.0


From 6a633b74bd83f8a095a1b760f11ea222113cfcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 025/100] fix: satellite clock drift applied since toe instead
 of toc, and its rate was missing a factor of 2

---
 common/satellite/satellite_state.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index a6b0bf1..dc2e5bd 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -93,13 +93,13 @@ Error eph2Sat(const UTCTime& t,
     sat_state->vel.z() = ypkdot * sik + ypk * cik * ikdot;
 
     const double clk_dt = (t - eph.toc).toSec();
-    double dts = eph.af0 + eph.af1 * dt + eph.af2 * clk_dt * clk_dt;
+    double dts = eph.af0 + eph.af1 * clk_dt + eph.af2 * clk_dt * clk_dt;
 
     // Correct for relativistic effects on the satellite clock
     dts -= 2.0 * sqrt(GM_EARTH * A) * eph.ecc * sek / (C_LIGHT * C_LIGHT);
 
     sat_state->clk(0) = dts;                           // satellite clock bias (sec)
-    sat_state->clk(1) = (eph.af1 + eph.af2 * clk_dt);  // satellite drift rate (sec/s)
+    sat_state->clk(1) = (eph.af1 + 2.0 * eph.af2 * clk_dt);  // satellite drift rate (sec/s)
     sat_state->t = t;
 
     return Error::none();
-- 
2.43.0


From 58990accce83020aa50672c0f09b4afae46121eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 026/100] fix: Galileo orbits used the GPS gravitational
 constant

---
 common/satellite/satellite_state.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index dc2e5bd..087b630 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -5,6 +5,7 @@
 #include "common/print.h"
 
 static constexpr double MAXDTOE = 7200;  // Maximum allowable age of ephemeris (s)
+static constexpr double GM_EARTH_GALILEO = 3.986004418e14;  // Galileo OS SIS ICD (m^3/s^2)
 
 namespace mc {
 namespace satellite {
@@ -25,7 +26,8 @@ Error eph2Sat(const UTCTime& t,
 
     // https://www.ngs.noaa.gov/gps-toolbox/bc_velo/bc_velo.c
     const double A = eph.sqrta * eph.sqrta;
-    const double n0 = sqrt(GM_EARTH / (A * A * A));
+    const double gm = eph.gnssID == GnssID::Galileo ? GM_EARTH_GALILEO : GM_EARTH;
+    const double n0 = sqrt(gm / (A * A * A));
     const double mkdot = n0 + eph.delta_n;
     const double mk = eph.m0 + mkdot * dt;
 
@@ -96,7 +98,7 @@ Error eph2Sat(const UTCTime& t,
     double dts = eph.af0 + eph.af1 * clk_dt + eph.af2 * clk_dt * clk_dt;
 
     // Correct for relativistic effects on the satellite clock
-    dts -= 2.0 * sqrt(GM_EARTH * A) * eph.ecc * sek / (C_LIGHT * C_LIGHT);
+    dts -= 2.0 * sqrt(gm * A) * eph.ecc * sek / (C_LIGHT * C_LIGHT);
 
     sat_state->clk(0) = dts;                           // satellite clock bias (sec)
     sat_state->clk(1) = (eph.af1 + 2.0 * eph.af2 * clk_dt);  // satellite drift rate (sec/s)
-- 
2.43.0


From 83dedda8a074fc75abe8b42c0400abaf5ae7008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 027/100] fix: GLONASS orbit was integrated from whatever state
 the output held

---
 common/satellite/satellite_state.cxx | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 087b630..3abe196 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -121,22 +121,8 @@ Error eph2Sat(const UTCTime& t,
 
     // Position
     Vec6 x;
-    if (sat_state->t == INVALID_TIME)
-    {
-        auto p = x.head<3>();
-        auto v = x.tail<3>();
-        p = eph.pos;
-        v = eph.vel;
-    }
-    else
-    {
-        // Seed from last time
-        dt = (t - sat_state->t).toSec();
-        auto p = x.head<3>();
-        auto v = x.tail<3>();
-        p = sat_state->pos;
-        v = sat_state->vel;
-    }
+    x.head<3>() = eph.pos;
+    x.tail<3>() = eph.vel;
 
     double timestep = dt < 0.0 ? -TSTEP : TSTEP;
     int i = 0;
-- 
2.43.0


From ce89ab7a3ed2efab7a351f778dd576e7d787c7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 028/100] fix: assigning a vector to a DQuat did not compile

---
 common/math/dquat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/dquat.h b/common/math/dquat.h
index dc77701..a05d78a 100644
--- a/common/math/dquat.h
+++ b/common/math/dquat.h
@@ -118,7 +118,7 @@ class DQuat
     }
 
     template <typename Derived>
-    Quat<T>& operator=(Eigen::MatrixBase<Derived> const& in)
+    DQuat& operator=(Eigen::MatrixBase<Derived> const& in)
     {
         arr_ = in;
         return *this;
-- 
2.43.0


From 260de9dbe82f71346a04af183e9a4c103bbd9a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 029/100] fix: DQuat built from eight numbers kept identity in
 its real and dual parts

---
 common/math/dquat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/math/dquat.h b/common/math/dquat.h
index a05d78a..141e320 100644
--- a/common/math/dquat.h
+++ b/common/math/dquat.h
@@ -81,8 +81,9 @@ class DQuat
           const T& dx,
           const T& dy,
           const T& dz)
-        : buf_{rw, rx, ry, rz, dw, dx, dy, dz}, arr_(buf_)
+        : DQuat(buf_)
     {
+        arr_ << rw, rx, ry, rz, dw, dx, dy, dz;
     }
 
     DQuat(const Eigen::Ref<const Vec8> arr) : DQuat(arr.data()) {}
-- 
2.43.0


From 21a6e710e079f6886ade311aba50152a513e6b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 030/100] fix: Quat could not be built from SO3

---
 common/math/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index af20a3c..6e07ce8 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -38,7 +38,7 @@ class Quat
 
     Quat(const T* data) : arr_(const_cast<T*>(data)) {}
 
-    Quat(const SO3<T>& rot) { this = Quat<T>::from_R(rot); }
+    Quat(const SO3<T>& rot) : arr_(buf_) { arr_ = Quat<T>::from_R(rot.matrix()).arr_; }
 
     Quat(const T& roll, const T& pitch, const T& yaw) : arr_(buf_)
     {
-- 
2.43.0


From 8c9199924c683147c1715376d30d22b18fb77a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 031/100] fix: Quat::invert ran off its end without returning

---
 common/math/quat.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index 6e07ce8..bbfbc3a 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -488,7 +488,11 @@ class Quat
         return v + w() * t + t.colwise().cross(arr_.template segment<3>(1));
     }
 
-    Quat& invert() { arr_.template block<3, 1>(1, 0) *= (T)-1.0; }
+    Quat& invert()
+    {
+        arr_.template block<3, 1>(1, 0) *= (T)-1.0;
+        return *this;
+    }
 
     Quat inverse() const
     {
-- 
2.43.0


From 18fa9e4bbc2ba0132744d5023af22af9e3b2b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 032/100] fix: tile() returned uninitialised memory

---
 common/matrix_defs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/matrix_defs.h b/common/matrix_defs.h
index 9859b6a..aabd226 100644
--- a/common/matrix_defs.h
+++ b/common/matrix_defs.h
@@ -132,7 +132,7 @@ inline Eigen::MatrixXd tile(const Eigen::MatrixXd& a, size_t vcopies, size_t hco
     {
         for (size_t j = 0; j < hcopies; ++j)
         {
-            out.block(i * a.rows(), j * a.cols(), a.rows(), a.cols());
+            out.block(i * a.rows(), j * a.cols(), a.rows(), a.cols()) = a;
         }
     }
     return out;
-- 
2.43.0


From f4d093e9d6e9f76408f530f3105ec9dd26e2ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 033/100] fix: q *= q multiplied by a half-written quaternion

---
 common/math/quat.h | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index bbfbc3a..50ed9ae 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -100,17 +100,7 @@ class Quat
     }
     Quat& operator*=(const Quat& q)
     {
-        const T _w = w();
-        const T _x = x();
-        const T _y = y();
-        const T _z = z();
-
-        // clang-format off
-        arr_ << _w * q.w() - _x * q.x() - _y * q.y() - _z * q.z(),
-                _w * q.x() + _x * q.w() + _y * q.z() - _z * q.y(),
-                _w * q.y() - _x * q.z() + _y * q.w() + _z * q.x(),
-                _w * q.z() + _x * q.y() - _y * q.x() + _z * q.w();
-        // clang-format on
+        arr_ = otimes(q).arr_;
         return *this;
     }
 
-- 
2.43.0


From 9b410f3c1e55e69f1276e0db3b7c6e83e48f5113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 034/100] fix: log of a (dual) quaternion with negative real
 part went the long way round

---
 common/math/dquat.h | 20 ++++++++++++--------
 common/math/quat.h  |  7 +++++--
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/common/math/dquat.h b/common/math/dquat.h
index 141e320..0005d97 100644
--- a/common/math/dquat.h
+++ b/common/math/dquat.h
@@ -272,10 +272,12 @@ class DQuat
 
     Vec6 log() const
     {
-        const auto r = real().bar();
-        const auto d = dual().bar();
-        const auto r0 = real().w();
-        const auto d0 = dual().w();
+        // q and -q are the same transform, take the shortest way to it
+        const T sgn = (real().w() < (T)0.0) ? (T)-1.0 : (T)1.0;
+        const Vec3 r = sgn * real().bar();
+        const Vec3 d = sgn * dual().bar();
+        const T r0 = sgn * real().w();
+        const T d0 = sgn * dual().w();
 
         const T th2 = r.squaredNorm();
         const T gm = r.dot(d);
@@ -312,10 +314,12 @@ class DQuat
     template <JacobianSide SIDE = JacobianSide::LEFT>
     Vec6 log(Mat6* jac) const
     {
-        const auto r = real().bar();
-        const auto d = dual().bar();
-        const auto r0 = real().w();
-        const auto d0 = dual().w();
+        // q and -q are the same transform, take the shortest way to it
+        const T sgn = (real().w() < (T)0.0) ? (T)-1.0 : (T)1.0;
+        const Vec3 r = sgn * real().bar();
+        const Vec3 d = sgn * dual().bar();
+        const T r0 = sgn * real().w();
+        const T d0 = sgn * dual().w();
 
         const T s2 = r.squaredNorm();
         const T gm = r.dot(d);
diff --git a/common/math/quat.h b/common/math/quat.h
index 50ed9ae..284304a 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -213,7 +213,9 @@ class Quat
 
         if (norm_v > (T)4e-6)
         {
-            return (T)2.0 * atan2(norm_v, w()) * v / norm_v;
+            // q and -q are the same rotation, take the shortest way to it
+            const T s = (w() < (T)0.0) ? (T)-1.0 : (T)1.0;
+            return (T)2.0 * atan2(s * norm_v, s * w()) * v / norm_v;
         }
         else
         {
@@ -236,7 +238,8 @@ class Quat
         Vec3 r = v / norm_v;
         if (norm_v > (T)4e-6)
         {
-            th = 2. * atan2(norm_v, w());
+            const T s = (w() < (T)0.0) ? (T)-1.0 : (T)1.0;
+            th = 2. * atan2(s * norm_v, s * w());
             const T th2 = th * th;
             const T a = sin(th) / th;
             const T b = (1 - cos(th)) / th2;
-- 
2.43.0


From d5cf0ab3e562402dca9b6b89741e7b76c507b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 035/100] fix: Jacobian of the quaternion log was 0/0 at half a
 turn

---
 common/math/quat.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index 284304a..75bdbd2 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -241,10 +241,7 @@ class Quat
             const T s = (w() < (T)0.0) ? (T)-1.0 : (T)1.0;
             th = 2. * atan2(s * norm_v, s * w());
             const T th2 = th * th;
-            const T a = sin(th) / th;
-            const T b = (1 - cos(th)) / th2;
-            const T c = (1 - a) / th2;
-            e = (b - 2 * c) / (2 * a);
+            e = (1. - 0.5 * th * w() / norm_v) / th2;
         }
         else
         {
-- 
2.43.0


From fa560d9cfc766b799bb2e63207f911a9cff4d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 036/100] fix: small-angle series of the dual quaternion log
 had wrong coefficients

---
 common/math/dquat.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/common/math/dquat.h b/common/math/dquat.h
index 0005d97..ed8e7da 100644
--- a/common/math/dquat.h
+++ b/common/math/dquat.h
@@ -299,10 +299,8 @@ class DQuat
             const T r03 = r02 * r0;
             const T r05 = r03 * r02;
             const T th4 = th2 * th2;
-            const T th6 = th4 * th2;
-            const T a = 1. - 1. / (3. * r03) * th2 + 1. / (5. * r05) * th4;
-            const T c =
-                5. / 24. - 379. / 1920. * th2 + 46073. / 322560. * th4 - 127431. / 1146880. * th6;
+            const T a = 1. / r0 - 1. / (3. * r03) * th2 + 1. / (5. * r05) * th4;
+            const T c = -1. / r0 + 1. / (3. * r03) - 1. / (5. * r05) * th2;
             // clang-format off
             wv << (T)2.0 * a * r,
                   (T)2.0 * (a * d + (gm*c - d0)*r);
@@ -354,10 +352,8 @@ class DQuat
             const T r03 = r02 * r0;
             const T r05 = r03 * r02;
             const T s4 = s2 * s2;
-            const T s6 = s4 * s2;
-            const T a1 = 1. - 1. / (3. * r03) * s2 + 1. / (5. * r05) * s4;
-            const T c1 =
-                5. / 24. - 379. / 1920. * s2 + 46073. / 322560. * s4 - 127431. / 1146880. * s6;
+            const T a1 = 1. / r0 - 1. / (3. * r03) * s2 + 1. / (5. * r05) * s4;
+            const T c1 = -1. / r0 + 1. / (3. * r03) - 1. / (5. * r05) * s2;
             v = (T)2.0 * (a1 * d + (gm * c1 - d0) * r);
 
             const double th4 = th2 * th2;
-- 
2.43.0


From 500e259acfd141b7d3a2869a37a5930d0b735256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 037/100] fix: SO3 log Jacobian was NaN when the trace rounds
 above 3

---
 common/math/so3.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/common/math/so3.h b/common/math/so3.h
index bc509cb..5694097 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -183,8 +183,7 @@ class SO3
         T a, b, c;
         if (t >= 3.0 - eps)  // Theta close to zero
         {
-            const T th = std::acos((t - 1.) / 2.);
-            const T th2 = th * th;
+            const T th2 = 3. - t;  // acos is NaN when rounding leaves the trace above 3
             const T th4 = th2 * th2;
             a = 1. - th2 / 6. + th4 / 120.;
             b = 1. / 2. - th2 / 24. + th4 / 720.;
-- 
2.43.0


From d186862b44c827a437f56e0b4faecd994415860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 038/100] fix: SO3 log near half a turn returned the inverse
 rotation and a negated Jacobian

---
 common/math/so3.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/common/math/so3.h b/common/math/so3.h
index 5694097..e956e83 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -162,7 +162,7 @@ class SO3
             auto v = qarr.template tail<3>();
             T& w = qarr[0];
             T norm_v = v.norm();
-            return 2.0 * std::atan2(norm_v, w) * v / norm_v;
+            return -2.0 * std::atan2(norm_v, w) * v / norm_v;
         }
     }
 
@@ -202,20 +202,16 @@ class SO3
         else  // theta close to Pi
         {
             // First, go to quaternion, then compute the axis-angle
-            // Because the quaternion log is inverse the rotation log,
-            // we need to return the negative transpose of the quaternion jacobian
-            Quat<T> q = Quat<T>::from_R(rot_);
-            w = -q.log();
+            // (through the log above, so both agree on the sign at half a turn)
+            w = log();
             const T th2 = w.squaredNorm();
             const T th = sqrt(th2);
             a = sin(th) / th;
             b = (1 - cos(th)) / th2;
-            c = (1 - a) / th2;
 
-            // log_q = log_Rᵀ
-            const T e = (b - 2 * c) / (2 * a);
+            const T e = (1 - 0.5 * a / b) / th2;
             const Mat3 sk_w = skew(w);
-            *jac = -Mat3::Identity() + 1. / 2. * sk_w - e * sk_w * sk_w;
+            *jac = Mat3::Identity() - 1. / 2. * sk_w + e * sk_w * sk_w;
 
             return w;
         }
-- 
2.43.0


From a6649e76b3a17bfe999d1dc1e94c2f7b23713cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 039/100] fix: SE3 log was 0/0 at half a turn

---
 common/math/se3.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/math/se3.h b/common/math/se3.h
index 955e2dc..f516841 100644
--- a/common/math/se3.h
+++ b/common/math/se3.h
@@ -173,7 +173,7 @@ class SE3
             a = sin(th) / th;
             b = ((T)1. - cos(th)) / th2;
             c = ((T)1. - a) / th2;
-            e = (b * 0.5 - c) / a;
+            e = (1. - 0.5 * a / b) / th2;
             C1 = (a - 2 * b) / th2;
             C2 = (b - 3 * c) / th2;
         }
@@ -212,9 +212,8 @@ class SE3
         {
             const T a = sin(th) / th;
             const T b = ((T)1. - cos(th)) / th2;
-            const T c = ((T)1. - a) / th2;
 
-            e = (b * 0.5 - c) / a;
+            e = (1. - 0.5 * a / b) / th2;
         }
 
         Vec3 wxt = w.cross(t_);
-- 
2.43.0


From e2ea93d3d9f1331c44a9b9c55daaefa6c79ad392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 040/100] fix: rotation between parallel or opposite vectors
 was NaN or identity

---
 common/math/quat.h | 9 ++++++---
 common/math/so3.h  | 7 +++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index 75bdbd2..a3c64f8 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -346,9 +346,12 @@ class Quat
 
     static Quat from_two_unit_vectors(const Vec3& u, const Vec3& v)
     {
-        const T cos_theta = u.dot(v);
-        const Vec3 axis = u.cross(v).normalized();
-        return from_axis_angle(axis, -acos(cos_theta));
+        const Vec3 axis = u.cross(v);
+        const T sin_theta = axis.norm();
+        const T theta = atan2(sin_theta, u.dot(v));
+        // (anti-)parallel vectors have no unique axis, any perpendicular one does
+        return from_axis_angle(sin_theta > (T)0.0 ? Vec3(axis / sin_theta) : u.unitOrthogonal(),
+                               -theta);
     }
 
     static Quat Identity()
diff --git a/common/math/so3.h b/common/math/so3.h
index e956e83..512ad4b 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -246,9 +246,12 @@ class SO3
         const Vec3 u2 = _u2.normalized();
 
         const Vec3 axis = u1.cross(u2);
-        const T c = u1.dot(u2);  // cosine of angle
+        const T s = axis.norm();   // sine of angle
+        const T c = u1.dot(u2);    // cosine of angle
 
-        return exp(axis.normalized() * acos(c));
+        // (anti-)parallel vectors have no unique axis, any perpendicular one does
+        const Vec3 unit_axis = s > (T)0.0 ? Vec3(axis / s) : u1.unitOrthogonal();
+        return exp(unit_axis * atan2(s, c));
     }
 
     // SO3 is self-adjoint
-- 
2.43.0


From 30a6034ee45d54b834c2866b85bcac57fb9d44c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 041/100] fix: isFinite accepted infinities

---
 common/matrix_defs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/matrix_defs.h b/common/matrix_defs.h
index aabd226..45c6ba5 100644
--- a/common/matrix_defs.h
+++ b/common/matrix_defs.h
@@ -147,13 +147,13 @@ bool isNan(const Eigen::MatrixBase<Derived>& m)
 template <typename Derived>
 bool isFinite(const Eigen::MatrixBase<Derived>& m)
 {
-    return (m.array() == m.array()).all();
+    return m.array().isFinite().all();
 }
 
 template <typename Derived>
 bool isFinite(const Eigen::DiagonalBase<Derived>& m)
 {
-    return (m.diagonal().array() == m.diagonal().array()).all();
+    return m.diagonal().array().isFinite().all();
 }
 
 const Vec3 GRAVITY = 9.80665 * Vec3::UnitZ();
-- 
2.43.0


From e51fe0e5c89bc21e5034d8f2271ce0433ac4a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 042/100] fix: modf of values beyond the range of int was
 undefined

---
 common/matrix_defs.h | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/common/matrix_defs.h b/common/matrix_defs.h
index 45c6ba5..4db868c 100644
--- a/common/matrix_defs.h
+++ b/common/matrix_defs.h
@@ -188,21 +188,14 @@ Eigen::VectorXd argsort(const Eigen::MatrixBase<Derived>& x)
 template <typename Derived>
 Derived modf(const Derived& x, Derived* intpart)
 {
-    Eigen::Matrix<int, Derived::RowsAtCompileTime, Derived::ColsAtCompileTime> int_cast =
-        x.template cast<int>();
-    (*intpart) = int_cast.template cast<double>();
+    (*intpart) = x.unaryExpr([](const double v) { return std::trunc(v); });
     return x - (*intpart);
 }
 
 template <typename Derived>
 Derived modf(const Derived& x)
 {
-    Eigen::Matrix<int, Derived::RowsAtCompileTime, Derived::ColsAtCompileTime> int_cast =
-        x.template cast<int>();
-    Eigen::Matrix<double, Derived::RowsAtCompileTime, Derived::ColsAtCompileTime> floored =
-        int_cast.template cast<double>();
-
-    return x - floored;
+    return x - x.unaryExpr([](const double v) { return std::trunc(v); });
 }
 
 namespace detail {
-- 
2.43.0


From 68f6159d9aa998d7020efa443fefa8da1a4d643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 043/100] fix: integer search found nothing when every cost
 exceeds 1e18

---
 core/solver/lambda.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/solver/lambda.cxx b/core/solver/lambda.cxx
index e3a84c4..fb5aca7 100644
--- a/core/solver/lambda.cxx
+++ b/core/solver/lambda.cxx
@@ -1,4 +1,5 @@
 #include <Eigen/LU>
+#include <limits>
 
 #include "common/defs.h"
 #include "common/matrix_defs.h"
@@ -184,7 +185,7 @@ void search(const VectorXd& ahat,
     // sqrd_norms.resize(n);
     sqrd_norms.setZero();
 
-    double Chi2 = 1e18;
+    double Chi2 = std::numeric_limits<double>::infinity();
     VectorXd dist = VectorXd::Zero(n);
     bool end_search = false;
     int count = -1;  // number of candidates
-- 
2.43.0


From 9d78047121a476288fccf02b84c620f8fc7e861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 044/100] fix: ratio of a single integer candidate was read
 past the end

---
 core/solver/lambda.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/solver/lambda.cxx b/core/solver/lambda.cxx
index fb5aca7..80f2cc4 100644
--- a/core/solver/lambda.cxx
+++ b/core/solver/lambda.cxx
@@ -48,6 +48,7 @@ void lambda(const VectorXd& a,
             Out<double> ratio,
             int n_candidates)
 {
+    check(n_candidates >= 2, "The ratio needs at least two candidates");
     const int n = a.rows();
 
     // Pull integer offsets off the estimates (makes problem better conditioned)
-- 
2.43.0


From 075c8265490e6605c261e4e6f923cc717100db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 045/100] fix: argument order in the generated EKF depended on
 python's hash seed

Sets of size arguments were iterated in hash order, so declarations and calls
taking two sizes could disagree and swap the sizes of a block.
---
 core/ekf/ekf_gen/ekf_gen.py              |  8 ++++----
 core/ekf/ekf_gen/ekf_gen_matrix_manip.py | 20 ++++++++++++--------
 core/ekf/ekf_gen/ekf_gen_state.py        | 24 +++++++++++++-----------
 3 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index f2a8de9..a55ab9f 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -79,9 +79,9 @@ def make_jacobian(name, matrix, row_states, col_states):
                     out.append(f"Mat<{sr.dx}, {sc.dx}> {jac_member_name(sr, sc)};")
                 if sr.variable and sr.name == None:
                     # Per-observation block accessor
-                    args = {f"int idx"}
+                    args = ["int idx"]
                     if sc.variable:
-                        args.add(f"int {sc.counter_var}")
+                        args.append(f"int {sc.counter_var}")
                     start_idx = f"idx * {sr.base_dx}"
                     block = f"{buffer_name(sr,sc)}.block({start_idx}, 0, {sr.base_dx}, {dim(sc)})"
                     decl = f"inline auto {jac_member_name(sr, sc)}({', '.join(args)})"
@@ -90,7 +90,7 @@ def make_jacobian(name, matrix, row_states, col_states):
                     out.append(f"{decl} const {impl}")
 
                 if sr.variable or sc.variable:
-                    args = {f"int {s.counter_var}" for s in [sr, sc] if s.variable}
+                    args = dict.fromkeys(f"int {s.counter_var}" for s in [sr, sc] if s.variable)
                     block = f"{buffer_name(sr, sc)}.block(0, 0, {dim(sr)}, {dim(sc)})"
                     fname = f"inline auto {jac_member_name(sr, sc)}"
                     if sr.variable and sr.name == None:
@@ -196,7 +196,7 @@ def make_jacobian_dense_impl(matrix, name, row_states, col_states):
         col_expr = 0
         for c, cs in enumerate(col_states):
             if rs.variable or cs.variable:
-                args = {f"{s.counter_var}" for s in (rs, cs) if s.variable}
+                args = dict.fromkeys(f"{s.counter_var}" for s in (rs, cs) if s.variable)
                 assigner = f"out.block({row_expr}, {col_expr}, {dim(rs)}, {dim(cs)})"
                 fname = f"{jac_member_name(rs, cs)}"
                 if rs.variable and rs.name == None:
diff --git a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
index 791d07d..20fac80 100644
--- a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
+++ b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
@@ -49,7 +49,7 @@ def create_symbolic_dynamics_jacobian(cfg):
                 name = jac_member_name(rstate, cstate)
                 row.append(ConstBlock(name, dim(rstate), dim(cstate), rstate.dx, cstate.dx))
                 if rstate.variable or cstate.variable:
-                    args = {s.counter_var for s in [rstate, cstate] if s.variable}
+                    args = dict.fromkeys(s.counter_var for s in [rstate, cstate] if s.variable)
                     symbol_varname[name] = f"dxdx.{name}({', '.join(args)})"
                 else:
                     symbol_varname[name] = f"dxdx.{name}"
@@ -66,7 +66,7 @@ def create_symbolic_dynamics_jacobian(cfg):
                 name = jac_member_name(rstate, cstate)
                 row.append(ConstBlock(name, dim(rstate), dim(cstate), rstate.dx, cstate.dx))
                 if rstate.variable or cstate.variable:
-                    args = {s.counter_var for s in [rstate, cstate] if s.variable}
+                    args = dict.fromkeys(s.counter_var for s in [rstate, cstate] if s.variable)
                     symbol_varname[name] = f"dxdu.{name}({', '.join(args)})"
                 else:
                     symbol_varname[name] = f"dxdu.{name}"
@@ -85,7 +85,7 @@ def create_symbolic_covariance(cfg, var_name):
         if not rs.variable and not cs.variable:
             return f"{make_camel(rs.name)}_{make_camel(cs.name)}"
         else:
-            args = ', '.join({f"{s.counter_var}" for s in [rs, cs] if s.variable})
+            args = ', '.join(dict.fromkeys(f"{s.counter_var}" for s in [rs, cs] if s.variable))
             return f"{make_camel(rs.name)}_{make_camel(cs.name)}({args})"
 
     for r, rstate in enumerate(states):
@@ -192,7 +192,9 @@ def commit_mat_inplace_modify(matrix, var, modify_type='-', symmetric=False):
             expr = matrix[r, c]
             if not expr.is_zero:
                 if expr.is_variable():
-                    sizes = {f"({s} > 0)" for s in (expr.rows, expr.cols) if isinstance(s, str)}
+                    sizes = dict.fromkeys(
+                        f"({s} > 0)" for s in (expr.rows, expr.cols) if isinstance(s, str)
+                    )
                     out.append(f"if ({' && '.join(sizes)}) {{{{")
                     out.append(f"    {impl_expr(var[r,c])} {modify_type}= {impl_expr(expr)};")
                     out.append("}}")
@@ -214,7 +216,9 @@ def commit_mat(matrix, var, symmetric=False, dense=False, const=True, already_ch
                     continue
                 expr = matrix[r, c]
                 if expr.is_variable():
-                    sizes = {f"({s} > 0)" for s in (expr.rows, expr.cols) if isinstance(s, str)}
+                    sizes = dict.fromkeys(
+                        f"({s} > 0)" for s in (expr.rows, expr.cols) if isinstance(s, str)
+                    )
                     out.append(f"if ({' && '.join(sizes)}) {{{{")
                     out.append(f"    {impl_expr(var[r,c])} = {impl_expr(expr)};")
                     out.append("}}")
@@ -253,11 +257,11 @@ def commit_mat(matrix, var, symmetric=False, dense=False, const=True, already_ch
                     expr_text = make_type(expr)
                     symbol_varname[f"{name}_init"] = name
                     out.append(f"{expr_text} {{{name}_init}};")
-                    sizes = {
+                    sizes = dict.fromkeys(
                         f"({s} > 0)"
                         for s in (expr.rows, expr.cols)
                         if isinstance(s, str) and s not in already_checked_size
-                    }
+                    )
                     if len(sizes) > 0:
                         out.append(f"if ({' && '.join(sizes)}) {{{{")
                     sub_name = f"{name}.block(0, 0, {expr.rows}, {expr.cols})"
@@ -343,7 +347,7 @@ def create_symbolic_measurement_jacobian(cfg, key):
             name = f"{jac_member_name(sr, sc)}"
             dzdx.append(ConstBlock(name, dim(meas_state), dim(sc), sr.dx, sc.dx))
             if meas_state.variable or sc.variable:
-                args = {s.counter_var for s in (meas_state, sc) if s.variable}
+                args = dict.fromkeys(s.counter_var for s in (meas_state, sc) if s.variable)
                 symbol_varname[
                     name] = f"dzdx.{name}{'_all' if meas_state.variable else ''}({','.join(args)})"
             else:
diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 4b95a34..3c9e2c4 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -8,13 +8,13 @@ from core.ekf.ekf_gen.ekf_gen_utils import (
 
 def state_using_statements(cfg):
     states = cfg['state_composition']
-    needed_types = {s.type for s in states if s.manifold}
+    needed_types = dict.fromkeys(s.type for s in states if s.manifold)
     return "\n    ".join(f"using {t} = math::{t}<double>;" for t in needed_types)
 
 
 def input_using_statements(cfg):
     states = cfg['input']
-    needed_types = {s.type for s in states if s.manifold}
+    needed_types = dict.fromkeys(s.type for s in states if s.manifold)
     return "\n    ".join(f"using {t} = math::{t}<double>;" for t in needed_types)
 
 
@@ -48,7 +48,7 @@ def error_state_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::VectorXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = dict.fromkeys(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         out_type = f"Vec<{sum([s.dx for s in states])}>"
@@ -149,7 +149,7 @@ def covariance_members(cfg):
             if not s1.variable and not s2.variable:
                 out.append(f"Mat<{s1.dx}, {s2.dx}> {member_name(s1, s2)};")
             if s1.variable or s2.variable:
-                args = {f"int {s.counter_var}" for s in [s1, s2] if s.variable}
+                args = dict.fromkeys(f"int {s.counter_var}" for s in [s1, s2] if s.variable)
                 block = f"{buffer_name(s1, s2)}.block(0, 0, {dim(s1)}, {dim(s2)})"
                 out.append(
                     f"inline auto {member_name(s1, s2)}({', '.join(args)}){{ return {block}; }}"
@@ -206,7 +206,7 @@ def covariance_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = dict.fromkeys(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -510,7 +510,7 @@ def input_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::VectorXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = dict.fromkeys(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         out_type = f"Vec<{sum([s.dx for s in states])}>"
@@ -535,7 +535,7 @@ def process_covariance_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = dict.fromkeys(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -561,7 +561,7 @@ def input_covariance_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = dict.fromkeys(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -670,7 +670,7 @@ def make_dense_vector(states, name):
     out = []
     if len(variable_states) > 0:
         out_type = "Eigen::VectorXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = dict.fromkeys(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -707,7 +707,9 @@ def make_dense_matrix(row_states, col_states, name, symmetric=False, diagonal=Fa
     variable_col_states = [s for s in col_states if s.variable]
     if len(variable_rows_states) > 0 or len(variable_col_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_rows_states + variable_col_states}
+        args = dict.fromkeys(
+            f"int {s.counter_var}" for s in variable_rows_states + variable_col_states
+        )
     else:
         args = {}
         r_dx = sum([s.dx for s in fixed_rows_states])
@@ -729,7 +731,7 @@ def make_dense_matrix(row_states, col_states, name, symmetric=False, diagonal=Fa
                 getter = f"{make_camel(rs.name)}_{make_camel(cs.name)}"
         else:
             assign = f"out.block({row_accum}, {col_accum}, {dim(rs)}, {dim(cs)})"
-            args = {s.counter_var for s in (rs, cs) if s.variable}
+            args = dict.fromkeys(s.counter_var for s in (rs, cs) if s.variable)
             if diagonal:
                 getter = f"{make_camel(rs.name)}.replicate({rs.counter_var}, 1).asDiagonal()"
             else:
-- 
2.43.0


From d982b337455e5dcee3931dcbdf2bbd9f55496ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 046/100] fix: copying a generated EKF state lost its time

---
 core/ekf/ekf_gen/ekf_gen_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 3c9e2c4..eb27e4d 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -217,7 +217,7 @@ def covariance_dense_decl(cfg):
 def copy_state(cfg):
     states = cfg['state_composition']
 
-    out = []
+    out = ["t = other.t;"]
     for s in [s for s in states if not s.variable]:
         out.append(f"{s.name} = other.{s.name};")
     out.append("")
@@ -388,7 +388,7 @@ def boxplus_impl(cfg):
         else:
             return f"xp.{s.name}{idx} = {s.name}{idx} + dx.{s.name}{soft_idx};"
 
-    out = []
+    out = ["xp.t = t;"]
     for s in fixed_states:
         out.append(state_plus_impl(s))
     for s in variable_states:
-- 
2.43.0


From 342a2b92b1062fa2fd9dc9934e7648a6cf80440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 047/100] fix: generated EKF tested uninitialised memory for
 finiteness

Variable-size states, covariances and measurements live in fixed-size buffers
whose unused part was never written, but was checked and multiplied.
---
 core/ekf/ekf_gen/ekf_gen.py              | 3 ++-
 core/ekf/ekf_gen/ekf_gen_matrix_manip.py | 2 +-
 core/ekf/ekf_gen/ekf_gen_state.py        | 9 +++++----
 core/ekf/rtk_ekf_impl.cxx                | 4 ++--
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index a55ab9f..d34ab65 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -46,7 +46,8 @@ def make_jacobian(name, matrix, row_states, col_states):
         for row in matrix:
             for sr, sc in row:
                 if sr.variable or sc.variable:
-                    out.append(f"Mat<{sr.dx}, {sc.dx}> {buffer_name(sr, sc)};")
+                    buffer_type = f"Mat<{sr.dx}, {sc.dx}>"
+                    out.append(f"{buffer_type} {buffer_name(sr, sc)} = {buffer_type}::Zero();")
         return "\n    ".join(out)
 
     def dim(s):
diff --git a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
index 20fac80..8308035 100644
--- a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
+++ b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
@@ -405,7 +405,7 @@ def sparse_meas_update(cfg, key):
     else:
         inverse = f"llt().solve(MatX::Identity(size_{meas_state.name}, size_{meas_state.name}))"
         inverse = "inverse()"
-        HPHT_impl.append(f"{make_type(Sinv[0,0])} Sinv;")
+        HPHT_impl.append(f"{make_type(Sinv[0,0])} Sinv = {make_type(Sinv[0,0])}::Zero();")
         block_args = f"0,0,size_{meas_state.name},size_{meas_state.name}"
         HPHT_impl.append(f"Sinv.block({block_args}) = HPHT.block({block_args}).{inverse};")
     tmp = "\n    ".join(HPHT_impl)
diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index eb27e4d..3e66d83 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -24,7 +24,7 @@ def error_state_buffers(cfg):
 
     out = []
     for s in variable_states:
-        out.append(f"Vec<{s.dx}> {s.name}_buf_;")
+        out.append(f"Vec<{s.dx}> {s.name}_buf_ = Vec<{s.dx}>::Zero();")
 
     return "\n    ".join(out)
 
@@ -122,7 +122,8 @@ def covariance_buffers(cfg):
             if r > c:
                 continue
             if s1.variable or s2.variable:
-                out.append(f"Mat<{s1.dx}, {s2.dx}> {buffer_name(s1, s2)};")
+                buffer_type = f"Mat<{s1.dx}, {s2.dx}>"
+                out.append(f"{buffer_type} {buffer_name(s1, s2)} = {buffer_type}::Zero();")
     return "\n    ".join(out)
 
 
@@ -578,8 +579,8 @@ def finite_state(cfg):
     for i, s in enumerate(fixed_states):
         out.append(f"is_finite &= mc::isFinite(x.{s.name});")
     for s in variable_states:
-        out.append(f"for (const auto& sub_field : x.{s.name}){{")
-        out.append("    is_finite &= mc::isFinite(sub_field);")
+        out.append(f"for (size_t i = 0; i < x.{s.counter_var}; ++i) {{")
+        out.append(f"    is_finite &= mc::isFinite(x.{s.name}[i]);")
         out.append("}")
     out.append("return is_finite;")
     return "\n    ".join(out)
diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 5e27f4a..a4a1295 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -118,7 +118,7 @@ obsMeas::Residual h<obsMeas>(const obsMeas::ZType& z,
     const math::Quat<double> q_b2e = (x.pose.rotation().inverse() * x.T_I2e.rotation());
     const Vec3 v_I2g_e = q_b2e.rotp(v_I2g_b);
 
-    obsMeas::Residual residual;
+    obsMeas::Residual residual = obsMeas::Residual::Zero();
 
     for (size_t i = 0; i < z.size(); ++i)
     {
@@ -207,7 +207,7 @@ fixAndHoldMeas::Residual h<fixAndHoldMeas>(const fixAndHoldMeas::ZType& z,
           "estimate.  num_sd = {}, num_fix_and_hold = {}",
           fmt(num_sd, num_fix_and_hold));
 
-    fixAndHoldMeas::Residual res;
+    fixAndHoldMeas::Residual res = fixAndHoldMeas::Residual::Zero();
     for (int i = 0; i < num_sd; ++i)
     {
         res[i] = (z[i] - x.sd[i])[0];
-- 
2.43.0


From 67f581cdc8d5bdc2a0b6497d13c0d08fbd632592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 048/100] fix: EKF covariance built from variances left cross
 terms uninitialised

and filled the blocks of variable states with correlated copies.
---
 core/ekf/ekf_gen/ekf_gen_state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 3e66d83..4abfe5d 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -779,11 +779,11 @@ def covariance_dense(cfg):
 
 def covariance_from_process_cov(cfg):
     states = cfg["state_composition"]
-    out = []
+    out = ["setIdentity();"]
     for s in states:
         if s.variable:
             out.append(
-                f"{make_camel(s.name)}_{make_camel(s.name)}_buf_ = tile(cov.{make_camel(s.name)}.asDiagonal(), {s.bundle_size}, {s.bundle_size});"
+                f"{make_camel(s.name)}_{make_camel(s.name)}_buf_ = cov.{make_camel(s.name)}.replicate({s.bundle_size}, 1).asDiagonal();"
             )
         else:
             out.append(
-- 
2.43.0


From d947bd04c85688aeb02f0e2456163f151145c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 049/100] fix: EKF rotated gravity by the inverse of the
 attitude

The pose turns inertial vectors into body vectors with rotp (as the measurement
models do); a tilted vehicle at rest was predicted to accelerate.
---
 core/ekf/rtk_ekf_impl.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index a4a1295..5267ced 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -40,7 +40,7 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
     ErrorState xdot;
     xdot.pose.head<3>() = omega;
     xdot.pose.tail<3>() = x.vel;
-    xdot.vel = x.pose.rota(gravity) + acc;
+    xdot.vel = x.pose.rotp(gravity) + acc;
     xdot.acc_bias.setZero();
     xdot.gyro_bias.setZero();
     xdot.gps_clk.setZero();
-- 
2.43.0


From 99efb4285839231af59b6c3abda83c1fc925616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 050/100] fix: EKF ignored that its velocity and errors turn
 with the body

Velocity is kept in body axes, so it changes by -omega x v while turning, and
position and velocity errors rotate with the body. ImuModel already does so.
---
 core/ekf/rtk_ekf.yaml     |  2 +-
 core/ekf/rtk_ekf_impl.cxx | 22 ++++++++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/core/ekf/rtk_ekf.yaml b/core/ekf/rtk_ekf.yaml
index 550cca3..bcd5a22 100644
--- a/core/ekf/rtk_ekf.yaml
+++ b/core/ekf/rtk_ekf.yaml
@@ -61,7 +61,7 @@ input:
 dynamics:
   #  pose, vel, acc_bias, gyro_bias, gps_clk, gal_clk, glo_clk, p_b2g, T_I2e, sd,
   pose: [[pose, vel, gyro_bias], [gyro]]
-  vel: [[pose, acc_bias], [accel]]
+  vel: [[pose, vel, acc_bias, gyro_bias], [accel, gyro]]
   acc_bias: [[], []]
   gyro_bias: [[], []]
   gps_clk: [[gps_clk], []]
diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 5267ced..22ec8e9 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -6,28 +6,33 @@ namespace ekf {
 
 #define T transpose()
 
+static const Vec3 gravity = Vec3::Unit(2) * 9.80665;
+
 ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dxdu)
 {
     const Vec3 omega = u.gyro - x.gyro_bias;
     const Vec3 acc = u.accel - x.acc_bias;
-    static const Vec3 gravity = Vec3::Unit(2) * 9.80665;
 
     if (dxdx)
     {
         dxdx->setZero();
         auto dRotdRot = dxdx->dPose_dPose.block<3, 3>(0, 0);
         auto dPosdRot = dxdx->dPose_dPose.block<3, 3>(3, 0);
+        auto dPosdPos = dxdx->dPose_dPose.block<3, 3>(3, 3);
         auto dPosdVel = dxdx->dPose_dVel.block<3, 3>(3, 0);
         auto dRotdBg = dxdx->dPose_dGyroBias.block<3, 3>(0, 0);
         auto dVeldRot = dxdx->dVel_dPose.block<3, 3>(0, 0);
 
         dRotdRot = -skew(omega);
         dPosdRot = -skew(x.vel);
+        dPosdPos = -skew(omega);
         dPosdVel.setIdentity();
         dRotdBg = -Mat3::Identity();
-        dVeldRot = -skew(acc);
+        dVeldRot = skew(x.pose.rotp(gravity));
 
+        dxdx->dVel_dVel = -skew(omega);
         dxdx->dVel_dAccBias = -Mat3::Identity();
+        dxdx->dVel_dGyroBias = -skew(x.vel);
     }
 
     if (dxdu)
@@ -35,12 +40,13 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dxdu->setZero();
         dxdu->dPose_dGyro.topRows<3>().setIdentity();
         dxdu->dVel_dAccel.setIdentity();
+        dxdu->dVel_dGyro = skew(x.vel);
     }
 
     ErrorState xdot;
     xdot.pose.head<3>() = omega;
     xdot.pose.tail<3>() = x.vel;
-    xdot.vel = x.pose.rotp(gravity) + acc;
+    xdot.vel = x.pose.rotp(gravity) + acc - omega.cross(x.vel);
     xdot.acc_bias.setZero();
     xdot.gyro_bias.setZero();
     xdot.gps_clk.setZero();
@@ -62,9 +68,13 @@ ErrorState errorStateDynamics(const ErrorState& dx,
                               const Input& eta)
 {
     ErrorState out = ErrorState::Zero();
-    out.pose.head<3>() = -(u.gyro - x.gyro_bias).cross(dx.pose.head<3>()) - dx.gyro_bias + eta.gyro;
-    out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>());
-    out.vel = (-dx.acc_bias + eta.accel) - (u.accel - x.acc_bias).cross(dx.pose.head<3>());
+    const Vec3 omega = u.gyro - x.gyro_bias;
+    const Vec3 domega = -dx.gyro_bias + eta.gyro;
+    out.pose.head<3>() = -omega.cross(dx.pose.head<3>()) + domega;
+    out.pose.tail<3>() =
+        dx.vel - x.vel.cross(dx.pose.head<3>()) - omega.cross(dx.pose.tail<3>());
+    out.vel = (-dx.acc_bias + eta.accel) + x.pose.rotp(gravity).cross(dx.pose.head<3>()) -
+              omega.cross(dx.vel) + x.vel.cross(domega);
     return out;
 }
 
-- 
2.43.0


From fb1f37c15e749f478361a1a805e4f4412f4b42ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 051/100] fix: EKF clock bias uncertainty did not grow with the
 drift's

---
 core/ekf/rtk_ekf_impl.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 22ec8e9..bf94658 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -33,6 +33,11 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dxdx->dVel_dVel = -skew(omega);
         dxdx->dVel_dAccBias = -Mat3::Identity();
         dxdx->dVel_dGyroBias = -skew(x.vel);
+
+        // clock bias grows with clock drift
+        dxdx->dGpsClk_dGpsClk(0, 1) = 1.0;
+        dxdx->dGalClk_dGalClk(0, 1) = 1.0;
+        dxdx->dGloClk_dGloClk(0, 1) = 1.0;
     }
 
     if (dxdu)
@@ -75,6 +80,9 @@ ErrorState errorStateDynamics(const ErrorState& dx,
         dx.vel - x.vel.cross(dx.pose.head<3>()) - omega.cross(dx.pose.tail<3>());
     out.vel = (-dx.acc_bias + eta.accel) + x.pose.rotp(gravity).cross(dx.pose.head<3>()) -
               omega.cross(dx.vel) + x.vel.cross(domega);
+    out.gps_clk(0) = dx.gps_clk(1);
+    out.gal_clk(0) = dx.gal_clk(1);
+    out.glo_clk(0) = dx.glo_clk(1);
     return out;
 }
 
-- 
2.43.0


From a8b4ba6a11132cfdf5fb054d73a2b25502c45ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:03 +0000
Subject: [PATCH 052/100] fix: EKF generator failed when factoring a
 variable-size coupling

---
 core/ekf/ekf_gen/symb_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/symb_algebra.py b/core/ekf/ekf_gen/symb_algebra.py
index 12a228f..6267614 100644
--- a/core/ekf/ekf_gen/symb_algebra.py
+++ b/core/ekf/ekf_gen/symb_algebra.py
@@ -115,7 +115,7 @@ def factor_first_term(expr):
 def factor_last_term(expr):
     def strip_last_term(expr):
         if len(expr) == 1:
-            return ConstBlock("I", expr.rows, expr.rows), expr
+            return ConstBlock("I", expr.rows, expr.rows, expr.max_rows, expr.max_rows), expr
         elif isinstance(expr, Mult):
             if len(expr) == 2:
                 return expr[0], expr[1]
-- 
2.43.0


From 17c8f76ccd8458480c29aa00ae5e4e48414e246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 053/100] fix: comparing a quantised time with INVALID_TIME
 overflowed

---
 common/quantized_time.cxx | 40 +++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/common/quantized_time.cxx b/common/quantized_time.cxx
index ccd365e..19df40c 100644
--- a/common/quantized_time.cxx
+++ b/common/quantized_time.cxx
@@ -1,7 +1,23 @@
 #include "common/quantized_time.h"
 
+#include <limits>
+
 namespace mc {
 
+// Seconds from b to a.  INVALID_TIME, MIN_TIME and MAX_TIME sit at the ends of the range of the
+// seconds, the difference between them and a real time does not fit in an int64_t.
+static double secondsSince(const UTCTime& a, const UTCTime& b)
+{
+    static constexpr int64_t FAR = std::numeric_limits<int64_t>::max() / 2;
+    int64_t dsec;
+    if (__builtin_sub_overflow(a.sec, b.sec, &dsec) || dsec > FAR || dsec < -FAR)
+    {
+        return (a.sec > b.sec) ? std::numeric_limits<double>::infinity()
+                               : -std::numeric_limits<double>::infinity();
+    }
+    return (a - b).toSec();
+}
+
 QuantizedTime& QuantizedTime::operator=(const UTCTime& other)
 {
     UTCTime::operator=(other);
@@ -10,62 +26,62 @@ QuantizedTime& QuantizedTime::operator=(const UTCTime& other)
 
 bool QuantizedTime::operator>(const UTCTime& other) const
 {
-    return ((*this) - other).toSec() > resolution_half;
+    return secondsSince(*this, other) > resolution_half;
 }
 
 bool QuantizedTime::operator>=(const UTCTime& other) const
 {
-    return (other - (*this)).toSec() <= resolution_half;
+    return secondsSince(other, *this) <= resolution_half;
 }
 
 bool QuantizedTime::operator<(const UTCTime& other) const
 {
-    return (other - (*this)).toSec() > resolution_half;
+    return secondsSince(other, *this) > resolution_half;
 }
 
 bool QuantizedTime::operator<=(const UTCTime& other) const
 {
-    return ((*this) - other).toSec() <= resolution_half;
+    return secondsSince(*this, other) <= resolution_half;
 }
 
 bool QuantizedTime::operator==(const UTCTime& other) const
 {
-    return std::abs(((*this) - other).toSec()) <= resolution_half;
+    return std::abs(secondsSince(*this, other)) <= resolution_half;
 }
 
 bool QuantizedTime::operator!=(const UTCTime& other) const
 {
-    return std::abs(((*this) - other).toSec()) > resolution_half;
+    return std::abs(secondsSince(*this, other)) > resolution_half;
 }
 
 bool operator>(const UTCTime& t, const QuantizedTime& q)
 {
-    return (t - q).toSec() > q.resolution_half;
+    return secondsSince(t, q) > q.resolution_half;
 }
 
 bool operator>=(const UTCTime& t, const QuantizedTime& q)
 {
-    return (q - t).toSec() <= q.resolution_half;
+    return secondsSince(q, t) <= q.resolution_half;
 }
 
 bool operator<(const UTCTime& t, const QuantizedTime& q)
 {
-    return (q - t).toSec() > q.resolution_half;
+    return secondsSince(q, t) > q.resolution_half;
 }
 
 bool operator<=(const UTCTime& t, const QuantizedTime& q)
 {
-    return (t - q).toSec() <= q.resolution_half;
+    return secondsSince(t, q) <= q.resolution_half;
 }
 
 bool operator==(const UTCTime& t, const QuantizedTime& q)
 {
-    return std::abs((t - q).toSec()) <= q.resolution_half;
+    return std::abs(secondsSince(t, q)) <= q.resolution_half;
 }
 
 bool operator!=(const UTCTime& t, const QuantizedTime& q)
 {
-    return std::abs((t - q).toSec()) > q.resolution_half;
+    return std::abs(secondsSince(t, q)) > q.resolution_half;
 }
 
 }  // namespace mc
-- 
2.43.0


From 19c998282a66622dbf014f7c31739dce1adb6529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 054/100] fix: a late measurement applied others at the same
 time twice or emptied the state buffer

---
 core/ekf/rtk_ekf_estimator.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/core/ekf/rtk_ekf_estimator.h b/core/ekf/rtk_ekf_estimator.h
index 4037f19..d6ae98e 100644
--- a/core/ekf/rtk_ekf_estimator.h
+++ b/core/ekf/rtk_ekf_estimator.h
@@ -116,21 +116,33 @@ class RtkEkfEstimator
             }
         }
 
-        auto it = measurements_.insert(Meas{meas_time, z});
-
-        if (meas_time < t())
+        const Meas meas{meas_time, z};
+        const MeasIterator next = measurements_.upper_bound(meas);
+        if (next != measurements_.end() && states_.front().x.t >= next->t)
         {
-            // Out-of-order measurement.  We need to rewind to apply it.
-            MeasIterator catchup_begin = measurements_.lower_bound(Meas{meas_time, {}});
+            error("Unable to rewind to {}, oldest state in buffer time {}",
+                  fmt(meas_time, states_.front().x.t));
+            return Error::create("cannot handle stale measurement");
+        }
 
-            // rewind the state buffer
-            while (t() > catchup_begin->t)
+        MeasIterator start = measurements_.insert(meas);
+
+        if (next != measurements_.end())
+        {
+            // Out-of-order measurement.  Forget every state that has seen something that comes
+            // after it ...
+            while (states_.back().x.t >= next->t)
             {
                 states_.pop_back();
             }
+            // ... and apply again what the forgotten states had seen before it
+            while (start != measurements_.begin() && std::prev(start)->t > states_.back().x.t)
+            {
+                --start;
+            }
         }
 
-        rollFilter(it, measurements_.end());
+        rollFilter(start, measurements_.end());
 
         dropOldMeasurements();
 
-- 
2.43.0


From a63c38970e46baa61fca3974c254ea69233316f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 055/100] fix: an IMU sample just after another measurement
 ended the process

---
 core/ekf/rtk_ekf_estimator.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index d3a6969..41d7594 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -93,7 +93,7 @@ void RtkEkfEstimator::handleImu(const UTCTime& meas_time, const ImuMeas& z)
 
 void RtkEkfEstimator::handleImu(const UTCTime& meas_time, const Input& z)
 {
-    if (meas_time > t())
+    if (meas_time > t().quantized())
     {
         Snapshot& snap = states_.back();
         states_.emplace_back();
-- 
2.43.0


From 31c78cd2eb28ba0a010df2cfad65090b2992e2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 056/100] fix: every observation was modelled with the GPS
 clock

---
 core/ekf/rtk_ekf_estimator.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index 41d7594..ccf9128 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -154,7 +154,8 @@ void RtkEkfEstimator::handleObsMeas(const UTCTime& meas_time,
     for (const auto& o : obs_bundle)
     {
         check(o.t == meas_time, "all measurement timestamps in a GNSS bundle must match");
-        z.push_back({Vec2(o.pseudorange, o.doppler), getCache(o.t, o.gnss_id, o.sat_num)});
+        z.push_back({Vec2(o.pseudorange, o.doppler), getCache(o.t, o.gnss_id, o.sat_num),
+                     o.gnss_id});
     }
 
     const auto res = update<obsMeas>(make_out(snap()), z, obs_cov_, u());
-- 
2.43.0


From cc30e5bf20f4ba95fea4922e6ad270562365ea15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 057/100] fix: more than 30 observations in a bundle were
 written past the residual

---
 core/ekf/rtk_ekf_estimator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/ekf/rtk_ekf_estimator.h b/core/ekf/rtk_ekf_estimator.h
index d6ae98e..ced92ae 100644
--- a/core/ekf/rtk_ekf_estimator.h
+++ b/core/ekf/rtk_ekf_estimator.h
@@ -106,6 +106,11 @@ class RtkEkfEstimator
 
         if constexpr (std::is_same_v<T, std::vector<meas::GnssObservation>>)
         {
+            if (z.size() > obsMeas::MAX_SIZE / 2)
+            {
+                error("Too many observations in one bundle: {}", fmt(z.size()));
+                return Error::create("too many observations");
+            }
             for (const auto& obs : z)
             {
                 if (!hasCache(obs.gnss_id, obs.sat_num))
-- 
2.43.0


From 3e3f2ce192cf6996862952323d8cb27d75a38b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 058/100] fix: observing a satellite dropped from a full buffer
 ended the process

---
 core/ekf/rtk_ekf_estimator.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index ccf9128..59ad0e6 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -70,7 +70,10 @@ void RtkEkfEstimator::dropOldMeasurements()
 
 bool RtkEkfEstimator::hasCache(int gnss_id, int sat_num) const
 {
-    return sat_cache_.find(cacheId(gnss_id, sat_num)) != sat_cache_.end();
+    // the satellite manager holds a limited number of satellites, it may have dropped this one
+    const satellite::SatelliteBase* sat;
+    return sat_cache_.find(cacheId(gnss_id, sat_num)) != sat_cache_.end() &&
+           sat_manager_.getSat(gnss_id, sat_num, make_out(sat)).ok();
 }
 
 const satellite::SatelliteCache& RtkEkfEstimator::getCache(const UTCTime& t,
-- 
2.43.0


From 11782c71c0cdc874a275197c0f4cfd8dd4072aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 059/100] fix: a copied IMU error state refers to its own
 storage

---
 models/imu_state.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/models/imu_state.h b/models/imu_state.h
index 2a1d9f5..920169a 100644
--- a/models/imu_state.h
+++ b/models/imu_state.h
@@ -11,6 +11,18 @@ struct ImuErrorState : public Vec9
 {
     ImuErrorState();
 
+    // The maps must refer to our own storage, not to that of the object we copy
+    ImuErrorState(const ImuErrorState& other)
+        : Vec9(other), alpha(data()), beta(data() + 3), gamma(data() + 6)
+    {
+    }
+
+    ImuErrorState& operator=(const ImuErrorState& other)
+    {
+        Vec9::operator=(other);
+        return *this;
+    }
+
     template <typename Derived>
     ImuErrorState(const Eigen::MatrixBase<Derived>& other)
         : Vec9(other), alpha(data()), beta(data() + 3), gamma(data() + 6)
-- 
2.43.0


From 6933a34879423e025384a46f012f9d6a598df9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 060/100] fix: correct preintegrated IMU for the change of
 bias, not for the whole bias

---
 models/imu_model.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index e94b661..ef3a9b2 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -165,7 +165,7 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
 
     Map<Vec9> residual(_res);
 
-    const ImuErrorState bias_adjustment = dStatedBias() * bias;  //(bias - bias_);
+    const ImuErrorState bias_adjustment = dStatedBias() * (bias - bias_);
     ImuState adjusted_state = state() + bias_adjustment;
 
     const double dt = delta_t();
-- 
2.43.0


From a07cc31093cfc615b88ccd78d39aab55e9f25cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 061/100] fix: IMU residual jacobians for poses other than
 identity

---
 models/imu_model.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index ef3a9b2..add8b28 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -191,9 +191,9 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
             jac.dr1_drot() = skew(start_pose.rotation().rotp(
                 end_pose.translation() - start_pose.translation() - 0.5 * GRAVITY * dt * dt));
             jac.dr2_drot() = -dt * skew(start_pose.rotation().rotp(GRAVITY));
-            jac.dr3_drot() = -log_jac * adjusted_state.gamma.R() * start_pose.rotation().R();
+            jac.dr3_drot() = -log_jac * adjusted_state.gamma.R();
 
-            jac.dr1_dpos() = -start_pose.rotation().R().matrix();
+            jac.dr1_dpos() = -Mat3::Identity();
             jac.dr2_dpos().setZero();
             jac.dr3_dpos().setZero();
 
@@ -206,9 +206,10 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
 
             jac.dr1_drot().setZero();
             jac.dr2_drot().setZero();
-            jac.dr3_drot() = log_jac * adjusted_state.gamma.R() * start_pose.rotation().R();
+            const Mat3 R_end2start = start_pose.rotation().R() * end_pose.rotation().R().transpose();
+            jac.dr3_drot() = log_jac * adjusted_state.gamma.R() * R_end2start;
 
-            jac.dr1_dpos() = start_pose.rotation().R().matrix();
+            jac.dr1_dpos() = R_end2start;
             jac.dr2_dpos().setZero();
             jac.dr3_dpos().setZero();
 
-- 
2.43.0


From 292f4e9fe280698fe964d2cb4735dce3281a2bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:52 +0000
Subject: [PATCH 062/100] fix: splitting IMU integration next to a sample ended
 the process

---
 models/imu_model.cxx | 15 +++++++++++----
 models/imu_model.h   |  3 +++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index add8b28..9a34dc3 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -88,6 +88,14 @@ Error ImuModel::integrate(const meas::ImuSample& imu)
           "IMU Samples must be in order, and spaced more than {}s apart (dt = {})",
           fmt(TIME_QUANTIZATION, dt));
 
+    step(imu);
+    return Error::none();
+}
+
+void ImuModel::step(const meas::ImuSample& imu)
+{
+    const double dt = (imu.t - tf()).toSec();
+
     ImuErrorState dstate;
     Mat9 A;
     Mat96 B;
@@ -113,8 +121,6 @@ Error ImuModel::integrate(const meas::ImuSample& imu)
 
     check(isFinite(A), "NaN detected in state transition matrix on propagation");
     check(isFinite(covariance()), "NaN detected in covariance on propagation");
-
-    return Error::none();
 }
 
 Error ImuModel::finished()
@@ -319,10 +325,11 @@ ImuModel ImuModel::split(const UTCTime& t)
     split_sample.gyro = scale * it->z.gyro + (1.0 - scale) * prev_it->z.gyro;
     split_sample.t = t_split;
 
+    // Use step, because the split may be closer to a sample than samples may be to each other
     ImuModel second(split_sample, bias_, R_);
     while (it != history_.end())
     {
-        second.integrate(it->z);
+        second.step(it->z);
         ++it;
     }
 
@@ -333,7 +340,7 @@ ImuModel ImuModel::split(const UTCTime& t)
     // series so the end time is correct
     if (t_split != history_.back().z.t)
     {
-        integrate(split_sample);
+        step(split_sample);
     }
 
     return second;
diff --git a/models/imu_model.h b/models/imu_model.h
index e319def..657f765 100644
--- a/models/imu_model.h
+++ b/models/imu_model.h
@@ -70,6 +70,9 @@ class ImuModel
     const auto gyroBias() const { return bias_.tail<3>(); }
 
  private:
+    // Integrate to imu, however close it is to the previous sample
+    void step(const meas::ImuSample& imu);
+
     Vec6 bias_;      // Imu Bias
     const Vec6& R_;  // IMU covariance diagonal
 
-- 
2.43.0


From 0be75a653d2ece723146c35073b1629d08c24cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 063/100] fix: jacobian helpers of different sensor models
 shared a name and were mixed up by the linker

---
 models/gnss_dynamics_model.cxx          | 5 +++++
 models/imu_model.cxx                    | 5 +++++
 models/prange_model.cxx                 | 5 +++++
 models/relative_carrier_phase_model.cxx | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/models/gnss_dynamics_model.cxx b/models/gnss_dynamics_model.cxx
index 63886f8..d8899e8 100644
--- a/models/gnss_dynamics_model.cxx
+++ b/models/gnss_dynamics_model.cxx
@@ -10,6 +10,9 @@ GnssDynamics::GnssDynamics(const UTCTime& t0, const UTCTime& tf, const Vec3& Xi)
 {
 }
 
+// The models each have helpers of their own with these names
+namespace {
+
 template <int N>
 struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::RowMajor>>
 {
@@ -19,6 +22,8 @@ struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::
     auto sw() { return this->row(2); }
 };
 
+}  // namespace
+
 bool GnssDynamics::Evaluate(const double* const* parameters,
                             double* residuals,
                             double** jacobians) const
diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index 9a34dc3..f6c8e21 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -138,6 +138,9 @@ Error ImuModel::finished()
     return Error::none();
 }
 
+// The models each have helpers of their own with these names
+namespace {
+
 struct PoseJacobian
 {
     PoseJacobian(double* ptr) : mat(ptr) {}
@@ -159,6 +162,8 @@ struct PoseJacobian
     Map<Matrix<double, 9, 8, RowMajor>> mat;
 };
 
+}  // namespace
+
 bool ImuModel::Evaluate(const double* const* parameters, double* _res, double** _jac) const
 {
     const math::DQuat<double> start_pose(parameters[0]);
diff --git a/models/prange_model.cxx b/models/prange_model.cxx
index 9837e0c..c45b38c 100644
--- a/models/prange_model.cxx
+++ b/models/prange_model.cxx
@@ -52,6 +52,9 @@ double PseudorangeModel::computeSagnac(const Vec3& rec_pos_ecef)
            C_LIGHT;
 }
 
+// The models each have helpers of their own with these names
+namespace {
+
 struct PoseJacobian final : public MatRM36
 {
     auto drho_drot() { return block<1, 3>(0, 0); }
@@ -72,6 +75,8 @@ struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::
     auto dsw() { return this->row(2); }
 };
 
+}  // namespace
+
 bool PseudorangeModel::Evaluate(const double* const* parameters,
                                 double* _residual,
                                 double** jacobians) const
diff --git a/models/relative_carrier_phase_model.cxx b/models/relative_carrier_phase_model.cxx
index 3b9c9df..2681a68 100644
--- a/models/relative_carrier_phase_model.cxx
+++ b/models/relative_carrier_phase_model.cxx
@@ -63,6 +63,9 @@ void RelativeCarrierPhase::computeSatState(const meas::GnssObservation& obs,
     }
 }
 
+// The models each have helpers of their own with these names
+namespace {
+
 struct PoseJacobian final : public Vec6
 {
     auto drot() { return head<3>(); }
@@ -71,6 +74,8 @@ struct PoseJacobian final : public Vec6
     Vec8 by_elements(const DQ& Q) { return (*this).transpose() * Q.dGenDParam(); }
 };
 
+}  // namespace
+
 bool RelativeCarrierPhase::Evaluate(const double* const* parameters,
                                     double* residual,
                                     double** jacobians) const
-- 
2.43.0


From f53c2914965d1cde3f14c76de37df0701b21de1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 064/100] fix: pseudorange jacobians for correlated measurement
 noise

---
 models/prange_model.cxx | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/models/prange_model.cxx b/models/prange_model.cxx
index c45b38c..58f7337 100644
--- a/models/prange_model.cxx
+++ b/models/prange_model.cxx
@@ -73,6 +73,13 @@ struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::
     auto drho() { return this->row(0); }
     auto ddop() { return this->row(1); }
     auto dsw() { return this->row(2); }
+    void leftMultiply(const Mat3& m)
+    {
+        const Eigen::Matrix<double, 3, N> product = m * (*this);
+        this->row(0) = product.row(0);
+        this->row(1) = product.row(1);
+        this->row(2) = product.row(2);
+    }
 };
 
 }  // namespace
@@ -137,17 +144,19 @@ bool PseudorangeModel::Evaluate(const double* const* parameters,
         {
             VecJacobian<3> jac(jacobians[1]);
             jac.drho().setZero();
-            jac.ddop() = sw_var * -e.T * sqrt_inv_cov_(1, 1) * R_E2n.T * R_n2b.T;
+            jac.ddop() = sw_var * -e.T * R_E2n.T * R_n2b.T;
             jac.dsw().setZero();
+            jac.leftMultiply(sqrt_inv_cov_);
         }
 
         // res_by_clk
         if (jacobians[2])
         {
             VecJacobian<2> jac(jacobians[2]);
-            jac.drho() << sw_var * C_LIGHT / 1e9 * sqrt_inv_cov_(0, 0), 0;
-            jac.ddop() << 0, sw_var * C_LIGHT / 1e9 * sqrt_inv_cov_(1, 1);
+            jac.drho() << sw_var * C_LIGHT / 1e9, 0;
+            jac.ddop() << 0, sw_var * C_LIGHT / 1e9;
             jac.dsw().setZero();
+            jac.leftMultiply(sqrt_inv_cov_);
         }
 
         // res_by_T_r2n
@@ -167,17 +176,17 @@ bool PseudorangeModel::Evaluate(const double* const* parameters,
         if (jacobians[4])
         {
             Eigen::Map<Vec3> jac(jacobians[4]);
-            jac(0) = sqrt_inv_cov_(0, 0) * (est_prange - obs_.pseudorange);
-            jac(1) = sqrt_inv_cov_(1, 1) * (est_doppler - obs_.doppler);
-            jac(2) = -sqrt_inv_cov_(2, 2);
+            jac = sqrt_inv_cov_ *
+                  Vec3(est_prange - obs_.pseudorange, est_doppler - obs_.doppler, -1.0);
         }
         // res_by_p_b2g
         if (jacobians[5])
         {
             VecJacobian<3> jac(jacobians[5]);
-            jac.drho() = -sw_var * sqrt_inv_cov_(0, 0) * e.T * R_e2r.T * R_r2n.T * R_n2b.T;
+            jac.drho() = -sw_var * e.T * R_e2r.T * R_r2n.T * R_n2b.T;
             jac.ddop().setZero();
             jac.dsw().setZero();
+            jac.leftMultiply(sqrt_inv_cov_);
         }
     }
 
-- 
2.43.0


From 837e91c1813a07b108255ed11685243a102bc5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 065/100] fix: a UBX message without payload stopped the parser
 for good

---
 parsers/ubx/ubx.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 47145a4..f266f6f 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -226,7 +226,8 @@ void Ubx::receive_callback(const uint8_t *buf, size_t size)
             break;
         case GOT_LENGTH1:
             length_ |= (uint16_t)byte << 8;
-            parse_state_ = GOT_LENGTH2;
+            // a message without payload continues with its checksum
+            parse_state_ = (length_ == 0) ? GOT_PAYLOAD : GOT_LENGTH2;
             if (length_ > BUFFER_SIZE)
             {
                 warn("UBX message 0x{x}-0x{x} is too long ({} > {})",
-- 
2.43.0


From a41ab359c75923853c0c4b4483cc14b6f6d932ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 066/100] fix: an overlong UBX message ended the process

---
 parsers/ubx/ubx.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index f266f6f..6ff0fad 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -230,7 +230,7 @@ void Ubx::receive_callback(const uint8_t *buf, size_t size)
             parse_state_ = (length_ == 0) ? GOT_PAYLOAD : GOT_LENGTH2;
             if (length_ > BUFFER_SIZE)
             {
-                warn("UBX message 0x{x}-0x{x} is too long ({} > {})",
+                warn("UBX message 0x{:x}-0x{:x} is too long ({} > {})",
                      fmt(message_class_, message_type_, length_, BUFFER_SIZE));
                 num_errors_++;
                 prev_byte_ = byte;
-- 
2.43.0


From 706acf16c8acbebea66d1eb7cdd0fd4613cc9ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 067/100] fix: UBX version was read beyond the message and from
 extensions of the wrong size

---
 parsers/ubx/ubx.cxx    | 58 ++++++++++++------------------------------
 parsers/ubx/ubx.h      |  6 ++---
 parsers/ubx/ubx_defs.h |  2 +-
 3 files changed, 20 insertions(+), 46 deletions(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 6ff0fad..d80c589 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -25,6 +25,8 @@
 
 #include <cassert>
 #include <chrono>
+#include <cstddef>
+#include <cstdlib>
 #include <cstring>
 #include <sstream>
 
@@ -419,15 +421,19 @@ void Ubx::write(const uint8_t *byte, const size_t size)
 
 void Ubx::versionCb()
 {
-    for (int i = 0; i < 20; ++i)
+    // only what this message holds, the rest of the buffer is left over from others
+    const int n = (length_ - static_cast<int>(offsetof(MON_VER_t, extension))) / 30;
+    for (int i = 0; i < n; ++i)
     {
-        if (strncmp(in_message_.MON_VER.extension[i], "PROTVER=", 8) == 0)
+        char extension[31] = {0};
+        memcpy(extension, in_message_.buffer + offsetof(MON_VER_t, extension) + 30 * i, 30);
+        if (strncmp(extension, "PROTVER=", 8) == 0)
         {
-            extractVersionString(in_message_.MON_VER.extension[i]);
+            extractVersionString(extension);
         }
-        if (strncmp(in_message_.MON_VER.extension[i], "MOD=", 4) == 0)
+        if (strncmp(extension, "MOD=", 4) == 0)
         {
-            extractModuleName(in_message_.MON_VER.extension[i]);
+            extractModuleName(extension);
         }
     }
 
@@ -440,50 +446,18 @@ void Ubx::versionCb()
 void Ubx::extractVersionString(const char *str)
 {
     // Get major version
-    char tmp[5];
     const char *s = str + 8;
-    for (int j = 0; j < 5; j++)
-    {
-        if (*s == '.')
-        {
-            tmp[j] = 0;
-            ++s;
-            break;
-        }
-        tmp[j] = *s;
-        ++s;
-    }
-    major_version_ = atoi(tmp);
+    major_version_ = atoi(s);
 
     // Get minor version
-    memset(tmp, 0, sizeof(tmp));
-    for (int j = 0; j < 5; j++)
-    {
-        if (*s == 0)
-        {
-            tmp[j] = 0;
-            break;
-        }
-        tmp[j] = *s;
-        ++s;
-    }
-    minor_version_ = atoi(tmp);
+    const char *dot = strchr(s, '.');
+    minor_version_ = dot ? atoi(dot + 1) : 0;
 }
 
 void Ubx::extractModuleName(const char *str)
 {
-    const char *s = str + 4;
-    for (size_t i = 0; i < sizeof(module_name_); i++)
-    {
-        if (*s == 0)
-        {
-            module_name_[i] = 0;
-            break;
-        }
-
-        module_name_[i] = *s;
-        ++s;
-    }
+    strncpy(module_name_, str + 4, sizeof(module_name_) - 1);
+    module_name_[sizeof(module_name_) - 1] = 0;
 }
 
 }  // namespace ublox
diff --git a/parsers/ubx/ubx.h b/parsers/ubx/ubx.h
index 119af75..9c0a918 100644
--- a/parsers/ubx/ubx.h
+++ b/parsers/ubx/ubx.h
@@ -127,9 +127,9 @@ class Ubx : public async_comm::CommListener
     // local storage
     volatile bool new_data_;
 
-    int major_version_;
-    int minor_version_;
-    char module_name_[10];
+    int major_version_ = 0;
+    int minor_version_ = 0;
+    char module_name_[10] = {0};
 
     // Serial Port
     void write(const uint8_t byte);
diff --git a/parsers/ubx/ubx_defs.h b/parsers/ubx/ubx_defs.h
index e1bf217..a05f6af 100644
--- a/parsers/ubx/ubx_defs.h
+++ b/parsers/ubx/ubx_defs.h
@@ -825,7 +825,7 @@ typedef struct
 {
     char sw_version[30];     // Zero-terminated Software Version String.
     char hw_version[10];     // Zero-terminated Hardware Version String
-    char extension[30][10];  // Extended software information strings
+    char extension[10][30];  // Extended software information strings
 } __attribute__((packed)) MON_VER_t;
 
 typedef float R4;
-- 
2.43.0


From 873d9d2b646d5d6d74e471bd6dfc120a4acaefa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 068/100] fix: survey-in command carried what the message
 buffer held before

---
 parsers/ubx/ubx.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index d80c589..9cff8b4 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -119,6 +119,7 @@ bool Ubx::sendMessage(uint8_t msg_class, uint8_t msg_id, UbxMessage &message, ui
 
 void Ubx::startSurveyIn()
 {
+    memset(&out_message_, 0, sizeof(CFG_TMODE3_t));
     out_message_.CFG_TMODE3.flags = CFG_TMODE3_t::SURVEY_IN;
     out_message_.CFG_TMODE3.svin_min_dur = 60;   // Wait at least 1 minute
     out_message_.CFG_TMODE3.svin_acc_limit = 3;  // At least within 3 centimeters
-- 
2.43.0


From 22f4869fcee36de703ccc589893abb4d0d20ca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 069/100] fix: UBX messages arrive on another thread than the
 one that waits and registers listeners

---
 parsers/ubx/ubx.cxx |  8 +++++++-
 parsers/ubx/ubx.h   | 15 +++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 9cff8b4..e174e5a 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -336,7 +336,12 @@ bool Ubx::decodeMessage()
     }
 
     // call callbacks
-    for (auto &l : listeners_)
+    std::vector<UbxListener *> listeners;
+    {
+        std::lock_guard<std::mutex> lock(listeners_mutex_);
+        listeners = listeners_;
+    }
+    for (auto &l : listeners)
     {
         if (l->subscribed(message_class_, message_type_))
             l->gotUbx(message_class_, message_type_, in_message_);
@@ -347,6 +352,7 @@ bool Ubx::decodeMessage()
 
 void Ubx::registerListener(UbxListener *l)
 {
+    std::lock_guard<std::mutex> lock(listeners_mutex_);
     listeners_.push_back(l);
 }
 
diff --git a/parsers/ubx/ubx.h b/parsers/ubx/ubx.h
index 9c0a918..dedb68d 100644
--- a/parsers/ubx/ubx.h
+++ b/parsers/ubx/ubx.h
@@ -21,9 +21,11 @@
 
 #pragma once
 
+#include <atomic>
 #include <cstdint>
 #include <functional>
 #include <iostream>
+#include <mutex>
 #include <set>
 #include <vector>
 
@@ -111,11 +113,11 @@ class Ubx : public async_comm::CommListener
     // Parsing State Working Memory
     uint8_t prev_byte_ = 0;
     uint16_t buffer_head_ = 0;
-    bool start_message_ = false;
-    bool end_message_ = false;
-    bool got_ack_ = false;
-    bool got_ver_ = false;
-    bool got_nack_ = false;
+    std::atomic<bool> start_message_{false};
+    std::atomic<bool> end_message_{false};
+    std::atomic<bool> got_ack_{false};
+    std::atomic<bool> got_ver_{false};
+    std::atomic<bool> got_nack_{false};
     parse_state_t parse_state_ = parse_state_t::START;
     uint8_t message_class_ = 0;
     uint8_t message_type_ = 0;
@@ -123,7 +125,7 @@ class Ubx : public async_comm::CommListener
     uint8_t ck_a_ = 0;
     uint8_t ck_b_ = 0;
     uint32_t num_errors_ = 0;
-    uint32_t num_messages_received_ = 0;
+    std::atomic<uint32_t> num_messages_received_{0};
     // local storage
     volatile bool new_data_;
 
@@ -135,6 +137,7 @@ class Ubx : public async_comm::CommListener
     void write(const uint8_t byte);
     void write(const uint8_t *byte, const size_t size);
     async_comm::Comm &ser_;
+    std::mutex listeners_mutex_;
     std::vector<UbxListener *> listeners_;
 
     // Main buffers for communication
-- 
2.43.0


From db6222808eb4233b21ddd50341fa6b5efdb8df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 070/100] fix: recorded GLONASS frequencies were seven channels
 too high

---
 tools/gather_ephemeris.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/gather_ephemeris.cxx b/tools/gather_ephemeris.cxx
index d4bfcb6..a0a4dc4 100644
--- a/tools/gather_ephemeris.cxx
+++ b/tools/gather_ephemeris.cxx
@@ -103,8 +103,9 @@ struct ObsListener : public ublox::UbxListener
             break;
         case GnssID::Glonass:
                 using glo = ephemeris::GlonassEphemeris;
-                freq = sig_id == 0 ? glo::FREQ1_GLO + glo::DFRQ1_GLO * slot :
-                       sig_id == 2 ? glo::FREQ2_GLO + glo::DFRQ2_GLO * slot :
+                // slot is reported as channel + 7
+                freq = sig_id == 0 ? glo::FREQ1_GLO + glo::DFRQ1_GLO * (slot - 7) :
+                       sig_id == 2 ? glo::FREQ2_GLO + glo::DFRQ2_GLO * (slot - 7) :
                        -1;
             break;
         case GnssID::Galileo:
-- 
2.43.0


From f5f7664f8066c433dab47dc95c03e5d5140a0392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 071/100] fix: recorder read observations beyond the message
 buffer

---
 tools/gather_ephemeris.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/gather_ephemeris.cxx b/tools/gather_ephemeris.cxx
index a0a4dc4..3702b01 100644
--- a/tools/gather_ephemeris.cxx
+++ b/tools/gather_ephemeris.cxx
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <experimental/filesystem>
 #include <map>
 #include <vector>
@@ -132,7 +133,8 @@ struct ObsListener : public ublox::UbxListener
         const ublox::RXM_RAWX_t& data = msg.RXM_RAWX;
         const auto now = UTCTime::now();
         info("{}, Got {} observations", mc::fmt(now, data.num_meas));
-        for (int i = 0; i < data.num_meas; ++i)
+        const int max_meas = sizeof(data.meas) / sizeof(data.meas[0]);
+        for (int i = 0; i < std::min<int>(data.num_meas, max_meas); ++i)
         {
             const ublox::RXM_RAWX_t::RawxMeas& meas = data.meas[i];
 
-- 
2.43.0


From b5d4944b859387afdc2f5daa03cb6c1dfcc0a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 072/100] fix: recorded observations had no time and a Doppler
 shift in Hz instead of m/s

---
 tools/gather_ephemeris.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/gather_ephemeris.cxx b/tools/gather_ephemeris.cxx
index 3702b01..2fa1118 100644
--- a/tools/gather_ephemeris.cxx
+++ b/tools/gather_ephemeris.cxx
@@ -139,11 +139,13 @@ struct ObsListener : public ublox::UbxListener
             const ublox::RXM_RAWX_t::RawxMeas& meas = data.meas[i];
 
             meas::GnssObservation o;
+            o.t = UTCTime::fromGPS(data.week, 0) + data.rcv_tow;
             o.gnss_id = meas.gnss_id;
             o.sat_num = meas.sv_id;
             o.freq = get_freq(meas.gnss_id, meas.sig_id, meas.freq_id);
             o.pseudorange = meas.pr_meas;
-            o.doppler = meas.do_meas;
+            // reported in Hz, positive when approaching
+            o.doppler = -meas.do_meas * C_LIGHT / o.freq;
             o.carrier_phase = meas.cp_meas;
             if (o.freq > 0)
             {
-- 
2.43.0


From eb0616b0cc24086f3375a81e837a73a0d47b0b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 073/100] fix: simulated IMU biases walked with the measurement
 noise

---
 sim/sensors/imu.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim/sensors/imu.cxx b/sim/sensors/imu.cxx
index 2364c3d..22328b1 100644
--- a/sim/sensors/imu.cxx
+++ b/sim/sensors/imu.cxx
@@ -22,8 +22,8 @@ bool ImuSim::sample(const UTCTime& t, const math::TwoJet<double>& x, Out<meas::I
     {
         prev_t_ = t;
 
-        accel_bias_ += randomNormal<Vec3>() * options_.accel_noise_stdev * dt;
-        gyro_bias_ += randomNormal<Vec3>() * options_.gyro_noise_stdev * dt;
+        accel_bias_ += randomNormal<Vec3>() * options_.accel_walk_stdev * dt;
+        gyro_bias_ += randomNormal<Vec3>() * options_.gyro_walk_stdev * dt;
 
         imu->accel = x.d2x.linear() + accel_bias_ +
                      randomNormal<Vec3>() * options_.accel_noise_stdev - x.x.rota(GRAVITY);
-- 
2.43.0


From 8f05ce9dc433d311a9d06fe63a707af5f95d84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 074/100] fix: simulated accelerometer did not measure specific
 force in the body frame

---
 sim/sensors/imu.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sim/sensors/imu.cxx b/sim/sensors/imu.cxx
index 22328b1..f80e672 100644
--- a/sim/sensors/imu.cxx
+++ b/sim/sensors/imu.cxx
@@ -25,8 +25,9 @@ bool ImuSim::sample(const UTCTime& t, const math::TwoJet<double>& x, Out<meas::I
         accel_bias_ += randomNormal<Vec3>() * options_.accel_walk_stdev * dt;
         gyro_bias_ += randomNormal<Vec3>() * options_.gyro_walk_stdev * dt;
 
-        imu->accel = x.d2x.linear() + accel_bias_ +
-                     randomNormal<Vec3>() * options_.accel_noise_stdev - x.x.rota(GRAVITY);
+        // dx is expressed in the body frame, so its derivative alone misses the rotation of the frame
+        imu->accel = x.d2x.linear() + x.dx.angular().cross(x.dx.linear()) + accel_bias_ +
+                     randomNormal<Vec3>() * options_.accel_noise_stdev - x.x.rotp(GRAVITY);
         imu->gyro = x.dx.angular() + gyro_bias_ + randomNormal<Vec3>() * options_.gyro_noise_stdev;
         imu->t = t;
         return true;
-- 
2.43.0


From a13322dd3276917fcab018739a2c5c2401692f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 075/100] fix: simulated GNSS observations had no time

---
 sim/sensors/gnss.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/sensors/gnss.cxx b/sim/sensors/gnss.cxx
index 4128fe9..669bc6f 100644
--- a/sim/sensors/gnss.cxx
+++ b/sim/sensors/gnss.cxx
@@ -132,6 +132,7 @@ bool GnssSim::sample(const UTCTime& t,
             doppler += normal_(gen_) * options_.doppler_stdev_;
 
             obs->emplace_back();
+            obs->back().t = t;
             obs->back().pseudorange = pseudorange;
             obs->back().doppler = doppler;
             obs->back().carrier_phase = carrier_phase;
-- 
2.43.0


From 95bf274ff9b8021ec98f050e560e20c90756ccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 076/100] fix: simulator read ephemerides from an empty list
 and before their time

---
 sim/sensors/gnss.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sim/sensors/gnss.cxx b/sim/sensors/gnss.cxx
index 669bc6f..fd1fd7f 100644
--- a/sim/sensors/gnss.cxx
+++ b/sim/sensors/gnss.cxx
@@ -148,7 +148,7 @@ bool GnssSim::sample(const UTCTime& t,
 
 bool GnssSim::sampleGpsEph(const UTCTime& t, Out<ephemeris::GPSEphemeris> eph)
 {
-    if (std::get<UTCTime>(gps_ephemerides_.front()) >= t)
+    if (!gps_ephemerides_.empty() && std::get<UTCTime>(gps_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GPSEphemeris>(gps_ephemerides_.front());
         gps_ephemerides_.erase(gps_ephemerides_.begin());
@@ -159,7 +159,7 @@ bool GnssSim::sampleGpsEph(const UTCTime& t, Out<ephemeris::GPSEphemeris> eph)
 }
 bool GnssSim::sampleGloEph(const UTCTime& t, Out<ephemeris::GlonassEphemeris> eph)
 {
-    if (std::get<UTCTime>(glo_ephemerides_.front()) >= t)
+    if (!glo_ephemerides_.empty() && std::get<UTCTime>(glo_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GlonassEphemeris>(glo_ephemerides_.front());
         glo_ephemerides_.erase(glo_ephemerides_.begin());
@@ -170,7 +170,7 @@ bool GnssSim::sampleGloEph(const UTCTime& t, Out<ephemeris::GlonassEphemeris> ep
 }
 bool GnssSim::sampleGalEph(const UTCTime& t, Out<ephemeris::GalileoEphemeris> eph)
 {
-    if (std::get<UTCTime>(gal_ephemerides_.front()) >= t)
+    if (!gal_ephemerides_.empty() && std::get<UTCTime>(gal_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GalileoEphemeris>(gal_ephemerides_.front());
         gal_ephemerides_.erase(gal_ephemerides_.begin());
-- 
2.43.0


From edd6a338677f33114768229e3e8737f174d15bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 077/100] fix: simulated antenna lever arm was not initialised

---
 sim/sensors/gnss.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/sensors/gnss.h b/sim/sensors/gnss.h
index 05515e2..68ccee8 100644
--- a/sim/sensors/gnss.h
+++ b/sim/sensors/gnss.h
@@ -34,7 +34,7 @@ class GnssSim
         double clock_walk_stdev_ = 1e-9;
         double clock_init_stdev_ = 1e-10;
         math::DQuat<double> T_e2n;
-        Vec3 p_b2g;
+        Vec3 p_b2g = Vec3::Zero();
     };
 
     GnssSim(const Options& options, const UTCTime& t0);
-- 
2.43.0


From f9e8aea45a4715cf665c9c7ca2670a26e0aa63ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 078/100] fix: waypoint follower started at an arbitrary
 waypoint

---
 sim/dynamics/car.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/dynamics/car.h b/sim/dynamics/car.h
index 6655936..b35788a 100644
--- a/sim/dynamics/car.h
+++ b/sim/dynamics/car.h
@@ -44,7 +44,7 @@ struct SimCar final : public Dynamics
             return options_.waypoints[current_waypoint_ % options_.waypoints.size()];
         }
         Options options_;
-        int current_waypoint_;
+        int current_waypoint_ = 0;
     };
 
     SimCar(const Options& options);
-- 
2.43.0


From 08ad28db3b5a85ae5c272b2eb6516108eb0c9dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 079/100] fix: PID integrator wound up while the output was
 saturated

---
 sim/controllers/pid.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/controllers/pid.cxx b/sim/controllers/pid.cxx
index f0b1744..7b7faa1 100644
--- a/sim/controllers/pid.cxx
+++ b/sim/controllers/pid.cxx
@@ -67,7 +67,7 @@ double PID::run(double dt, double x, double x_c, bool update_integrator, double
     double u_sat = (u > options_.max)
                        ? options_.max
                        : (u < (double)-1.0 * options_.max) ? (double)-1.0 * options_.max : u;
-    if (u != u_sat && abs(i_term) > abs(u - p_term + d_term) && options_.ki > (double)0.0)
+    if (u != u_sat && abs(i_term) > abs(u_sat - p_term + d_term) && options_.ki > (double)0.0)
         integrator_ = (u_sat - p_term + d_term) / options_.ki;
 
     // Set output
-- 
2.43.0


From 2f0eb18d2743f7d61088de1cbd70b24972759b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 080/100] fix: configured vectors of another length were read
 beyond their end or cut

---
 utils/config.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/utils/config.h b/utils/config.h
index 0beddbf..f07be42 100644
--- a/utils/config.h
+++ b/utils/config.h
@@ -43,7 +43,7 @@ struct convert<Eigen::Matrix<T, Rows, Cols>>
                 ++it;
             }
         }
-        return true;
+        return it == node.end();
     }
 };
 }  // namespace YAML
@@ -61,7 +61,8 @@ class Config
     bool get(const std::string& key, MatOut<T, Rows, Cols> out, bool required = false)
     {
         std::vector<typename T::Scalar> row_major;
-        if (get(key, make_out(row_major), required))
+        if (get(key, make_out(row_major), required) &&
+            hasSize(key, row_major.size(), Rows * Cols, required))
         {
             (*out) = Eigen::Map<Eigen::Matrix<typename T::Scalar, Rows, Cols, Eigen::RowMajor>>(
                 row_major.data());
@@ -74,7 +75,8 @@ class Config
     bool get(const std::string& key, MatOut<T, Rows, 1> out, bool required = false)
     {
         std::vector<typename T::Scalar> row_major;
-        if (get(key, make_out(row_major), required))
+        if (get(key, make_out(row_major), required) &&
+            hasSize(key, row_major.size(), Rows, required))
         {
             (*out) = Eigen::Map<Eigen::Matrix<typename T::Scalar, Rows, 1>>(row_major.data());
             return true;
@@ -119,6 +121,18 @@ class Config
     }
 
     const YAML::Node yaml_;
+
+ private:
+    static bool hasSize(const std::string& key, size_t size, size_t expected, bool required)
+    {
+        if (size == expected)
+        {
+            return true;
+        }
+        error("{} has {} elements, expected {}", fmt(key, size, expected));
+        check(!required, "Invalid configuration {}", fmt(key));
+        return false;
+    }
 };
 
 }  // namespace utils
-- 
2.43.0


From cc6d8cfe2e68cf6c0f54d4ece5c9832744984d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 081/100] fix: a configuration value of the wrong type ended in
 an exception or passed as absent

---
 utils/config.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/config.h b/utils/config.h
index f07be42..82949da 100644
--- a/utils/config.h
+++ b/utils/config.h
@@ -91,7 +91,7 @@ class Config
         std::vector<std::string> key_path = split_string(key, '/');
         for (size_t i = 0; i < key_path.size(); ++i)
         {
-            if (node[key_path[i]])
+            if (node.IsMap() && node[key_path[i]])
             {
                 if (i == key_path.size() - 1)
                 {
@@ -100,10 +100,11 @@ class Config
                         (*out) = node[key_path[i]].as<T>();
                         return true;
                     }
-                    catch (const YAML::TypedBadConversion<T>& e)
+                    catch (const YAML::BadConversion& e)
                     {
                         error("Unable to convert {}", fmt(key));
                         error("{}", fmt(e.what()));
+                        check(!required, "Invalid configuration {}", fmt(key));
                     }
                 }
                 else
-- 
2.43.0


From c658b0925b673bf5ddea23399ea4865a7d6ff345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 082/100] fix: post processing ended before the first
 measurement

---
 tools/post_process.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index 72dd258..cb55dd5 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -102,6 +102,7 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
     }
     cfg.get("p_b2g0", make_out(x.p_b2g), true);
 
+    x.t = t;
     x.gps_clk.setZero();
     x.gal_clk.setZero();
     x.glo_clk.setZero();
-- 
2.43.0


From 604848a290ce1a0c4298d8e208056df295077b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 083/100] fix: estimate records did not have their declared
 size

---
 tools/post_process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index cb55dd5..fe02696 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -223,7 +223,7 @@ int main(int argc, char** argv)
         }
         log_writer.log(logging::ESTIMATE, ekf.t(), ekf.x().pose, ekf.x().vel, ekf.u().gyro,
                        ekf.u().accel, ekf.p_ecef(), ekf.x().gps_clk, ekf.x().gal_clk,
-                       ekf.x().glo_clk, ekf.cov());
+                       ekf.x().glo_clk);
 
         return Error::none();
     });
-- 
2.43.0


From 70c0be98aee905ae7b1da01f681586e24ff94aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 084/100] fix: post processing did not accept its shipped
 satellite delay configuration

---
 tools/post_process.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index fe02696..2aa97eb 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -31,7 +31,9 @@ ProcessCovariance getStateCovariance(const std::string& key, utils::Config& cfg)
     cfg.get(key + "/glo_clk", make_out(stdev.gloClk), true);
     cfg.get(key + "/p_b2g", make_out(stdev.pB2g), true);
     cfg.get(key + "/T_I2e", make_out(stdev.TI2e), true);
-    cfg.get(key + "/sd", make_out(stdev.sd), true);
+    double sd;
+    cfg.get(key + "/sd", make_out(sd), true);
+    stdev.sd.setConstant(sd);
 
     ProcessCovariance cov;
     cov.pose = stdev.pose.cwiseProduct(stdev.pose);
-- 
2.43.0


From 6cdcf60fbeb9b431beb65f67bef3a3c5be265a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 085/100] fix: initial heading moved the origin of the inertial
 frame

---
 tools/post_process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index 2aa97eb..cec18a2 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -100,7 +100,7 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
         math::Quatd q_hdg = math::Quatd::from_euler(0, 0, heading_rad);
 
         x.T_I2e = utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(lla_rad)).inverse();
-        x.T_I2e.real() = q_hdg * x.T_I2e.real();
+        x.T_I2e = math::DQuat<double>(q_hdg, Vec3::Zero()) * x.T_I2e;
     }
     cfg.get("p_b2g0", make_out(x.p_b2g), true);
 
-- 
2.43.0


From 9762144cba7770e350867e4018089b10dbeaf12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 086/100] fix: initial inertial frame ignored the antenna lever
 arm and initial pose

---
 tools/post_process.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index cec18a2..996ecab 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -69,6 +69,8 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
     Vec3 lla_deg = Vec3::Zero();
     double heading_deg = 0.0;
 
+    cfg.get("p_b2g0", make_out(x.p_b2g), true);
+
     bool use_init_sim_state = false;
     cfg.get("use_init_sim_state", make_out(use_init_sim_state), true);
 
@@ -84,7 +86,9 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
         u.accel = two_jet.d2x.linear() - Vec3(0, 0, 9.80665);
         u.gyro = two_jet.dx.angular();
 
-        x.T_I2e = T_e2g.inverse();
+        // the logged transform is that of the antenna, which is displaced from the body
+        const math::DQuat<double> T_b2g(math::Quat<double>::Identity(), x.p_b2g);
+        x.T_I2e = x.pose * T_b2g * T_e2g.inverse();
     }
     else
     {
@@ -102,7 +106,6 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
         x.T_I2e = utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(lla_rad)).inverse();
         x.T_I2e = math::DQuat<double>(q_hdg, Vec3::Zero()) * x.T_I2e;
     }
-    cfg.get("p_b2g0", make_out(x.p_b2g), true);
 
     x.t = t;
     x.gps_clk.setZero();
-- 
2.43.0


From d584e8d111c0d50e20771a4541fd7ab9c91b10da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:24 +0000
Subject: [PATCH 087/100] fix: shipped post processing configuration lacked the
 required obs_stdev

---
 config/rtk_ekf_post_process.yaml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config/rtk_ekf_post_process.yaml b/config/rtk_ekf_post_process.yaml
index ea53883..39a4dc2 100644
--- a/config/rtk_ekf_post_process.yaml
+++ b/config/rtk_ekf_post_process.yaml
@@ -23,6 +23,7 @@ P0_stdev:
 
 # Measurement Covariances (sqrt of diagonal)
 point_pos_stdev: [1, 1, 3, 0.1, 0.1, 0.3]
+obs_stdev: [0.01, 0.01]
 gps_obs_stdev: [0.01, 0.01]
 gal_obs_stdev: [0.01, 0.01]
 glo_obs_stdev: [0.01, 0.01]
-- 
2.43.0


From 57f749a2cac4ce1a4cef3d497818b7158dfffca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:28 +0000
Subject: [PATCH 088/100] fix: simulation ignored the configured input noise

---
 sim/simulate.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/simulate.cxx b/sim/simulate.cxx
index 4804850..e5ba0e8 100644
--- a/sim/simulate.cxx
+++ b/sim/simulate.cxx
@@ -53,6 +53,7 @@ int main(int argc, char** argv)
     cfg.get("eph_log", make_out(options.gnss_options.ephemeris_log), true);
     cfg.get("output_dir", make_out(output_dir), true);
 
+    cfg.get("input_noise", make_out(options.input_noise));
     cfg.get("max_speed", make_out(options.wp_options.max_speed));
     cfg.get("max_omega", make_out(options.wp_options.max_omega));
     cfg.get("gnss_update_rate", make_out(options.gnss_options.update_rate_hz_));
-- 
2.43.0


From 014ae1c7837ae10d74a12dd41408917429ea90f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:59 +0000
Subject: [PATCH 089/100] fix: uniform random matrices truncated the width of
 their interval to an integer

---
 common/random.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/random.h b/common/random.h
index c60df38..660f7ce 100644
--- a/common/random.h
+++ b/common/random.h
@@ -29,7 +29,7 @@ Derived randomUniformat(double lower_bound, double upper_bound)
     static std::uniform_real_distribution<double> U(0, 1.0);
     static std::default_random_engine g;
     Derived out;
-    const int width = upper_bound - lower_bound;
+    const double width = upper_bound - lower_bound;
     for (int i = 0; i < Derived::RowsAtCompileTime; i++)
     {
         for (int j = 0; j < Derived::ColsAtCompileTime; j++)
@@ -60,7 +60,7 @@ inline Eigen::MatrixXd randomUniform(double lower_bound, double upper_bound, int
     static std::uniform_real_distribution<double> U(0, 1.0);
     static std::default_random_engine g;
     Eigen::MatrixXd out(rows, cols);
-    const int width = upper_bound - lower_bound;
+    const double width = upper_bound - lower_bound;
     for (int i = 0; i < rows; i++)
     {
         for (int j = 0; j < cols; j++)
-- 
2.43.0


From ed55e582a7e9cefd434f42fb552abed2f6f2f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:59 +0000
Subject: [PATCH 090/100] fix: errors and fatal messages were withheld above
 level WARN

---
 common/print.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/print.cxx b/common/print.cxx
index 6cae90e..11f6c47 100644
--- a/common/print.cxx
+++ b/common/print.cxx
@@ -49,7 +49,7 @@ void error(const std::string fmt,
            const fmt::format_args& args,
            const std::experimental::source_location& location)
 {
-    if constexpr (LOGGING_LEVEL <= LoggingLevel::WARN)
+    if constexpr (LOGGING_LEVEL <= LoggingLevel::ERROR)
     {
         fmt::print(stderr, fg(fmt::color::crimson) | fmt::emphasis::bold, "{}:{} ",
                    location.file_name(), location.line());
@@ -61,7 +61,7 @@ void fatal(const std::string fmt,
            const fmt::format_args& args,
            const std::experimental::source_location& location)
 {
-    if constexpr (LOGGING_LEVEL <= LoggingLevel::WARN)
+    if constexpr (LOGGING_LEVEL <= LoggingLevel::FATAL)
     {
         fmt::print(stderr, bg(fmt::color::crimson) | fmt::emphasis::bold, "{}:{} ",
                    location.file_name(), location.line());
@@ -118,7 +118,7 @@ void error(bool condition,
            const fmt::format_args& args,
            const std::experimental::source_location& location)
 {
-    if constexpr (LOGGING_LEVEL <= LoggingLevel::WARN)
+    if constexpr (LOGGING_LEVEL <= LoggingLevel::ERROR)
     {
         if (condition)
         {
@@ -132,7 +132,7 @@ void fatal(bool condition,
            const fmt::format_args& args,
            const std::experimental::source_location& location)
 {
-    if constexpr (LOGGING_LEVEL <= LoggingLevel::WARN)
+    if constexpr (LOGGING_LEVEL <= LoggingLevel::FATAL)
     {
         if (condition)
         {
-- 
2.43.0


From 097573bb5c868786b336c1035a77935d8e03b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:10 +0000
Subject: [PATCH 091/100] fix: RETURN_IF_NOT_OK read itself when given a
 variable named err

---
 common/error.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/common/error.h b/common/error.h
index 7114bce..de9feac 100644
--- a/common/error.h
+++ b/common/error.h
@@ -6,13 +6,13 @@
 
 namespace mc {
 
-#define RETURN_IF_NOT_OK(expr)    \
-    {                             \
-        const Error err = (expr); \
-        if (!err.ok())            \
-        {                         \
-            return err;           \
-        }                         \
+#define RETURN_IF_NOT_OK(expr)                \
+    {                                         \
+        const Error returned_error_ = (expr); \
+        if (!returned_error_.ok())            \
+        {                                     \
+            return returned_error_;           \
+        }                                     \
     }
 
 class Error
-- 
2.43.0


From c7374a3a258c438d953eae5dae179d24dd27649e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:10 +0000
Subject: [PATCH 092/100] fix: RETURN_OR_ASSIGN evaluated its expression twice

---
 common/error_result.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/common/error_result.h b/common/error_result.h
index 0e349fc..8c565ac 100644
--- a/common/error_result.h
+++ b/common/error_result.h
@@ -3,13 +3,14 @@
 #include "common/check.h"
 #include "common/error.h"
 
-#define RETURN_OR_ASSIGN(err_result) \
-    ({                               \
-        if (!err_result.ok())        \
-        {                            \
-            return err_result.err(); \
-        }                            \
-        err_result.res();            \
+#define RETURN_OR_ASSIGN(err_result)                 \
+    ({                                               \
+        const auto& returned_result_ = (err_result); \
+        if (!returned_result_.ok())                  \
+        {                                            \
+            return returned_result_.err();           \
+        }                                            \
+        returned_result_.res();                      \
     })
 
 namespace mc {
-- 
2.43.0


From 136d01ff28f2a332a7ba4ed5dcc13d6823033f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:32 +0000
Subject: [PATCH 093/100] fix: post_process started from an input that was
 never set

Without use_init_sim_state the first estimate carried an uninitialised Input; start from the
configured resting input, as the other branch does.
---
 tools/post_process.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index 996ecab..472dc52 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -92,6 +92,7 @@ std::pair<State, Input> getState(utils::Config& cfg, logging::LogReader& log)
     }
     else
     {
+        u = getInput(cfg);
         t = log.startTime();
         cfg.get("translation0", make_out(translation), true);
         cfg.get("rotation0", make_out(q.arr_), true);
-- 
2.43.0


From 75107c43c56ad4750430c66d4e6dff023057151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:32 +0000
Subject: [PATCH 094/100] fix: State::size() counted a bundled state as one
 number per element

The size of the error state was only right for bundles of Vec1.
---
 core/ekf/ekf_gen/ekf_gen_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 4abfe5d..67b8155 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -98,7 +98,7 @@ def state_size(cfg):
     states = cfg['state_composition']
     accum = 0
     for s in states:
-        dim = s.dx if not s.variable else s.counter_var
+        dim = s.dx if not s.variable else f"{s.base_dx} * {s.counter_var}"
         accum = accumulate_expr(accum, dim)
     return accum
 
-- 
2.43.0


From 489a3ff3581651c002f06790977a6e725dd5baa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:33 +0000
Subject: [PATCH 095/100] fix: SO3 could not be used as a state of a generated
 filter

Generated states call setRandom() on their members, which every manifold but SO3 has.
---
 common/math/so3.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/math/so3.h b/common/math/so3.h
index 512ad4b..cf254f6 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -231,6 +231,7 @@ class SO3
         w.setRandom();
         return SO3::exp(w);
     }
+    void setRandom() { *this = Random(); }
 
     Vec3 rotp(const Vec3& v) const { return rot_ * v; }
     Vec3 rota(const Vec3& v) const { return rot_.transpose() * v; }
-- 
2.43.0


From 87e5ea7669e75b51949e7e19b74e89a616931739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:42 +0000
Subject: [PATCH 096/100] fix: update() did not compile for a single
 measurement with metadata

update() asks isFinite() about the measurement, which was only generated for bundled ones.
---
 core/ekf/ekf_gen/ekf_gen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index d34ab65..da6aade 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -444,6 +444,11 @@ def meas_is_finite(cfg, key):
         out += "    return is_finite;\n"
         out += "}"
         return out
+    if 'metadata' in meas_cfg:
+        out = f"bool isFinite(const {namespaces}::{make_camel(key)}Meas::ZType& z) {{\n"
+        out += "    return isFinite(z.z);\n"
+        out += "}"
+        return out
     return ""
 
 
@@ -523,7 +528,7 @@ def is_finite_decls(cfg):
         meas_cfg = cfg["measurements"][key]
         meas_state = State(key, meas_cfg['type'])
         type_name = f"{make_camel(key)}Meas"
-        if meas_state.variable:
+        if meas_state.variable or 'metadata' in meas_cfg:
             out.append(f"bool isFinite(const {namespaces}::{type_name}::ZType& z);")
         out.append(f"bool isFinite(const {namespaces}::{type_name}::Jac& z);")
     return "\n".join(out)
-- 
2.43.0


From 81b5222e5c86ec7e7991c37d506ea1c6830f1851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:42 +0000
Subject: [PATCH 097/100] fix: two bundled measurements of one type were
 generated with a duplicate isFinite()

---
 core/ekf/ekf_gen/ekf_gen.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index da6aade..abc802f 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -541,13 +541,21 @@ def is_finite_impls(cfg):
         make_jacobian_is_finite(make_dynamics_jacobian_matrix(cfg), f"{namespaces}::StateJac")
     )
     out.append(make_jacobian_is_finite(make_input_jacobian_matrix(cfg), f"{namespaces}::InputJac"))
+    plain_types = set()
     for key in cfg["measurements"]:
+        meas_cfg = cfg["measurements"][key]
         identifier = f"{make_camel(key)}Meas::Jac"
         out.append(
             make_jacobian_is_finite(
                 make_meas_jacobian_matrix(cfg, key), f"{namespaces}::{identifier}"
             )
         )
+        meas_state = State(key, meas_cfg['type'])
+        if meas_state.variable and 'metadata' not in meas_cfg:
+            # measurements without metadata share the plain type, and with it this function
+            if meas_state.type in plain_types:
+                continue
+            plain_types.add(meas_state.type)
         out.append(meas_is_finite(cfg, key))
     return "\n".join(out)
 
-- 
2.43.0


From c5c3bf691e1dd03f94d5c33aea03c529d038c356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:50 +0000
Subject: [PATCH 098/100] fix: the log reader crashed on a log path with a
 trailing separator

---
 common/logging/log_reader.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/logging/log_reader.cxx b/common/logging/log_reader.cxx
index 6dc4295..c1d54f2 100644
--- a/common/logging/log_reader.cxx
+++ b/common/logging/log_reader.cxx
@@ -32,7 +32,8 @@ bool isLogId(const std::string& maybe_log_id)
 
 fs::path getLatestLog(const fs::path& path)
 {
-    if (isLogId(path.stem()))
+    // The path may name the log with a trailing separator
+    if (isLogId(path.stem()) || (fs::exists(path) && isLogId(fs::canonical(path).stem())))
     {
         return path;
     }
-- 
2.43.0


From ef5f56c02e54eaaa8167c3c110ff955087f5ac86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:50 +0000
Subject: [PATCH 099/100] fix: an archived copy of a log was opened as the
 latest log

---
 common/logging/log_reader.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/logging/log_reader.cxx b/common/logging/log_reader.cxx
index c1d54f2..fae6bbc 100644
--- a/common/logging/log_reader.cxx
+++ b/common/logging/log_reader.cxx
@@ -41,12 +41,13 @@ fs::path getLatestLog(const fs::path& path)
     std::vector<std::string> options;
     for (const auto& entry : fs::directory_iterator(path))
     {
-        const auto split = utils::split_string(entry.path().string(), '/');
-        if (isLogId(entry.path().stem()))
+        // Only directories are logs, e.g. not the archived copy of one
+        if (isLogId(entry.path().filename()) && fs::is_directory(entry.path()))
         {
             options.push_back(entry.path());
         }
     }
+    check(!options.empty(), "Unable to find a log in {}", fmt(path));
     std::sort(options.begin(), options.end());
     return fs::path(options.back());
 }
-- 
2.43.0


From 8dbf6b16ad0f72a910d30225ff0bab11494b014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:50 +0000
Subject: [PATCH 100/100] fix: the python log reader took any file beside the
 logs as the latest log

---
 common/logging/log_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/logging/log_reader.py b/common/logging/log_reader.py
index 455ce5b..120e3f0 100644
--- a/common/logging/log_reader.py
+++ b/common/logging/log_reader.py
@@ -81,7 +81,8 @@ def get_log_files(file_path):
 def load(file_path, streams=None, normalize_time=True):
     # Load the most recent log if not supplied a direct id
     if not re.search(r'\d{8}_\d{6}\/?$', file_path):
-        file_path = os.path.join(file_path, sorted(os.listdir(file_path))[-1])
+        logs = [name for name in os.listdir(file_path) if re.fullmatch(r'\d{8}_\d{6}', name)]
+        file_path = os.path.join(file_path, sorted(logs)[-1])
 
     files = get_log_files(file_path)
 
-- 
2.43.0

