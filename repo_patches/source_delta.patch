From f11e5fa53f02757b53d579923d8a633ec2ef238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 01/30] fix: iterators over one database return stale records

An iterator cached a pointer into the database's read buffer and kept using
it after another iterator had made the database refill that buffer.
---
 include/flat_file.hpp | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 72e12d6..7d929ea 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -170,7 +170,7 @@ struct database<ValueType>::const_iterator {
 
   // clang-format off
   reference operator*() const { return current(); }
-  pointer   operator->() const { current(); return cur_; }
+  pointer   operator->() const { return &current(); }
 
   bool operator==(const const_iterator& other) const { return ffdb_ == other.ffdb_ && pos_ == other.pos_; }
   
@@ -179,8 +179,8 @@ struct database<ValueType>::const_iterator {
   const_iterator& operator--() { return *this -= 1; }
   const_iterator operator--(int) { const_iterator tmp = *this; --(*this); return tmp; } // NOLINT why const?
 
-  const_iterator& operator+=(std::size_t offset) { set_pos(pos_ + offset); return *this; }
-  const_iterator& operator-=(std::size_t offset) { set_pos(pos_ - offset); return *this; }
+  const_iterator& operator+=(std::size_t offset) { pos_ += offset; return *this; }
+  const_iterator& operator-=(std::size_t offset) { pos_ -= offset; return *this; }
 
   friend const_iterator operator+(const_iterator iter, std::size_t offset) { return iter += offset; }
   friend const_iterator operator+(std::size_t offset, const_iterator iter) { return iter += offset; }
@@ -196,22 +196,9 @@ struct database<ValueType>::const_iterator {
 private:
   database*   ffdb_ = nullptr;
   std::size_t pos_{};
-  // cur_ and cur_valid_ are mutable so that operator* can be const
-  mutable const value_type* cur_;
-  mutable bool              cur_valid_ = false;
 
-  void set_pos(std::size_t pos) {
-    pos_       = pos;
-    cur_valid_ = false;
-  }
-
-  reference current() const {
-    if (!cur_valid_) {
-      cur_       = &ffdb_->get_record(pos_);
-      cur_valid_ = true;
-    }
-    return *cur_;
-  }
+  // always ask the database: its buffer may have been refilled through another iterator
+  reference current() const { return ffdb_->get_record(pos_); }
 };
 
 template <typename ValueType, typename Comp = std::less<>, typename Proj = std::identity>
-- 
2.43.0


From 3a2f032c68c56e2ef742e71288eaf4679401acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 02/30] fix: a failed read spoils later reads of the same
 database

After a failed read the record window still claimed to be valid although the
buffer had been overwritten, and the stream stayed in its failed state. A
position beyond the end underflowed the number of records left.
---
 include/flat_file.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 7d929ea..e2bca19 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -119,11 +119,14 @@ public:
 
   const ValueType& get_record(std::size_t pos) {
     if (!(pos >= buf_start_ && pos < buf_end_)) { // NOLINT can be simplified
-      const std::size_t nrecs = std::min(buf_.size(), dbsize_ - pos);
+      const std::size_t nrecs = pos < dbsize_ ? std::min(buf_.size(), dbsize_ - pos) : 0;
       if (nrecs == 0) {
         throw std::runtime_error(
             "flat_file:get_record cannot return data, are you dereferencing db.end()?");
       }
+
+      buf_start_ = buf_end_ = 0; // the buffer holds nothing valid, should this read fail
+      db_.clear();               // an earlier failed read must not disturb this one
       db_.seekg(static_cast<std::streamoff>(pos * sizeof(ValueType)));
 
       db_.read(reinterpret_cast<char*>(buf_.data()), // NOLINT reinterpret_cast
-- 
2.43.0


From cd6a2c545bed649bfa599f31038ac4692c76a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 03/30] fix: stream_writer writes records twice, not at all or
 terminates

flush(true) did not flush the stream when the buffer happened to be empty, a
failed write was repeated by the destructor (which terminated the program),
and the destructor of a moved-from writer wrote records it no longer had.
---
 include/flat_file.hpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index e2bca19..7dbb689 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -53,13 +53,13 @@ public:
   }
 
   void flush(bool flush_stream = false) {
-    if (buf_pos_ != 0) {
+    // reset first: if the write throws these records must not be written again
+    if (const std::size_t nrecs = std::exchange(buf_pos_, 0); nrecs != 0) {
       db_.write(reinterpret_cast<char*>(buf_.data()), // NOLINT reincast
-                static_cast<std::streamsize>(sizeof(ValueType) * buf_pos_));
-      buf_pos_ = 0;
-      if (flush_stream) {
-        db_.flush();
-      }
+                static_cast<std::streamsize>(sizeof(ValueType) * nrecs));
+    }
+    if (flush_stream) {
+      db_.flush();
     }
   }
 
@@ -67,10 +67,18 @@ public:
   stream_writer(const stream_writer& other)            = delete;
   stream_writer& operator=(const stream_writer& other) = delete;
 
-  stream_writer(stream_writer&& other) noexcept            = default;
-  stream_writer& operator=(stream_writer&& other) noexcept = default;
+  // the moved-from writer must be left without records to write
+  stream_writer(stream_writer&& other) noexcept
+      : db_(other.db_), buf_pos_(std::exchange(other.buf_pos_, 0)), buf_(std::move(other.buf_)) {}
+  stream_writer& operator=(stream_writer&& other) = delete; // reference member
 
-  ~stream_writer() { flush(); }
+  // Cannot report errors (they remain in the state of the stream): call flush(true) for that.
+  ~stream_writer() {
+    try {
+      flush();
+    } catch (...) { // NOLINT empty catch
+    }
+  }
 
 private:
   std::ostream&          db_; // NOLINT ref
-- 
2.43.0


From 978ed11406c731aedd90c686fcf5f74ef7da10f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 04/30] fix: a moved file_writer loses its records

Its stream_writer kept referring to the stream inside the moved-from object.
---
 include/flat_file.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 7dbb689..8187089 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -15,6 +15,7 @@
 #include <ios>
 #include <iostream>
 #include <iterator>
+#include <memory>
 #include <queue>
 #include <stdexcept>
 #include <string>
@@ -28,10 +29,11 @@ namespace impl {
 
 struct ofstream_holder {
   explicit ofstream_holder(std::string dbfilename)
-      : filename_(std::move(dbfilename)), ofstream_(filename_, std::ios::binary) {}
+      : filename_(std::move(dbfilename)),
+        ofstream_(std::make_unique<std::ofstream>(filename_, std::ios::binary)) {}
 
-  std::string   filename_;
-  std::ofstream ofstream_;
+  std::string                    filename_;
+  std::unique_ptr<std::ofstream> ofstream_; // stream_writer refers to it: must survive a move
 };
 
 } // namespace impl
@@ -90,8 +92,8 @@ template <typename ValueType>
 class file_writer : private impl::ofstream_holder, public stream_writer<ValueType> {
 public:
   explicit file_writer(std::string dbfilename)
-      : ofstream_holder(std::move(dbfilename)), stream_writer<ValueType>(ofstream_) {
-    if (!ofstream_.is_open()) throw std::domain_error("cannot open db: " + filename_);
+      : ofstream_holder(std::move(dbfilename)), stream_writer<ValueType>(*ofstream_) {
+    if (!ofstream_->is_open()) throw std::domain_error("cannot open db: " + filename_);
   }
 };
 
-- 
2.43.0


From 45816f4c48886bbd387f12a600eb48919f412d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 05/30] fix: sorting an empty database divides by zero

Likewise with a memory limit smaller than one record.
---
 include/flat_file.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 8187089..a7bc6e3 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -221,7 +221,8 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
                                           std::size_t max_memory_usage = 1'000'000'000) {
 
   auto        records_to_sort = static_cast<std::size_t>(last - first);
-  std::size_t chunk_size      = std::min(records_to_sort, max_memory_usage / sizeof(ValueType));
+  std::size_t chunk_size      = std::max<std::size_t>(
+      1, std::min(records_to_sort, max_memory_usage / sizeof(ValueType)));
   std::size_t number_of_chunks =
       (records_to_sort / chunk_size) + static_cast<std::size_t>(records_to_sort % chunk_size != 0);
 
-- 
2.43.0


From 212bba04be1a8f329d7e2ca4a9f5536d4aef6df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 06/30] fix: a password ending inside a UTF-8 sequence is
 hashed without its tail

---
 src/ntlm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ntlm.cpp b/src/ntlm.cpp
index c40829b..7a852c6 100644
--- a/src/ntlm.cpp
+++ b/src/ntlm.cpp
@@ -3,6 +3,7 @@
 #include <codecvt>
 #include <cstddef>
 #include <locale>
+#include <stdexcept>
 #include <string>
 
 namespace hibp {
@@ -10,6 +11,9 @@ namespace hibp {
 std::string utf8_to_utf16_le(const std::string& utf8Str) {
   std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> converter;
   const std::u16string utf16_str = converter.from_bytes(utf8Str);
+  if (converter.converted() != utf8Str.size()) { // ends in the middle of a character
+    throw std::range_error("password is not valid UTF-8");
+  }
 
   // Convert UTF-16 to a byte string in little endian, on any platform
   std::string utf16_le;
-- 
2.43.0


From 60b1afae4b2d45f77edde8b7434dbd4466461bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 07/30] fix: disk sort reports success when its output could
 not be written

---
 include/flat_file.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index a7bc6e3..2a95ea6 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -254,6 +254,7 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
         });
     auto part = file_writer<ValueType>(chunk_filename);
     for (const auto& obj: objs) part.write(obj);
+    part.flush(true); // throws if not everything could be written
   }
   return chunk_filenames;
 }
@@ -307,6 +308,7 @@ void merge_sorted_chunks(const std::vector<std::string>& chunk_filenames,
       ++(chunk.current);
     }
   }
+  sorted.flush(true); // throws if not everything could be written
 
   for (const auto& filename: chunk_filenames) std::filesystem::remove(filename);
 }
-- 
2.43.0


From c7073d5c21ec22253b1c58db53f79f8efe6f9881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 08/30] fix: hibp-convert ignores read and write errors

---
 app/hibp_convert.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index 0ea2dfb..6a820f8 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -2,6 +2,7 @@
 #include "hibp.hpp"
 #include <CLI/CLI.hpp>
 #include <cstddef>
+#include <cstdio>
 #include <cstdlib>
 #include <exception>
 #include <filesystem>
@@ -88,6 +89,10 @@ void txt_to_bin(std::istream& input_stream, std::ostream& output_stream, std::si
   for (std::string line; std::getline(input_stream, line) && count != limit; count++) {
     writer.write(PwType{line});
   }
+  if (input_stream.bad() || std::ferror(stdin) != 0) { // the latter for std::cin
+    throw std::runtime_error("Error while reading the input.");
+  }
+  writer.flush(true); // throws if not everything could be written
 }
 
 template <hibp::pw_type PwType>
@@ -95,12 +100,15 @@ void bin_to_txt(const std::string& input_filename, std::ostream& output_stream,
 
   flat_file::database<PwType> db{input_filename, 4096 / sizeof(PwType)};
 
+  output_stream.exceptions(std::ios::badbit | std::ios::failbit); // throw on any write errors
+
   std::size_t count = 0;
   for (const auto& record: db) {
     output_stream << record << '\n';
     count++;
     if (count == limit) break;
   }
+  output_stream.flush();
 }
 
 void check_options(const cli_config_t& cli) {
-- 
2.43.0


From 6502dad3b010cd85a32a73a967bf9ef701bc0065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 09/30] fix: hibp-convert --bin-to-txt ignores --limit 0

---
 app/hibp_convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index 6a820f8..83f66dd 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -104,9 +104,9 @@ void bin_to_txt(const std::string& input_filename, std::ostream& output_stream,
 
   std::size_t count = 0;
   for (const auto& record: db) {
+    if (count == limit) break;
     output_stream << record << '\n';
     count++;
-    if (count == limit) break;
   }
   output_stream.flush();
 }
-- 
2.43.0


From f40bd42f2ff0577af95a00bf8d6ded9f036e974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 10/30] fix: hibp-topn --stdout mixes progress texts into the
 database

---
 app/hibp_topn.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index fef4656..a7a7a3e 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -90,7 +90,10 @@ void build_topn(const cli_config_t& cli) {
   }
   std::vector<PwType> memdb(cli.topn);
 
-  std::cout << fmt::format("{:50}", "Read db from disk and topN sort by count desc ...");
+  // standard output must contain nothing but the records, when they are written there
+  std::ostream& progress = cli.standard_output ? std::cerr : std::cout;
+
+  progress << fmt::format("{:50}", "Read db from disk and topN sort by count desc ...");
 
   using clk   = std::chrono::high_resolution_clock;
   using fsecs = std::chrono::duration<double>;
@@ -105,9 +108,9 @@ void build_topn(const cli_config_t& cli) {
                            return a.count > b.count;
                          });
 
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 
-  std::cout << fmt::format("{:50}", "Sort by hash ascending ...");
+  progress << fmt::format("{:50}", "Sort by hash ascending ...");
   start = clk::now();
   // default sort by hash ascending
   std::sort(
@@ -115,15 +118,15 @@ void build_topn(const cli_config_t& cli) {
       std::execution::par_unseq,
 #endif
       memdb.begin(), memdb.end());
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 
   start = clk::now();
-  std::cout << fmt::format("{:50}", "Write TopN db to disk ...");
+  progress << fmt::format("{:50}", "Write TopN db to disk ...");
   auto output_db = flat_file::stream_writer<PwType>(*output_stream);
   for (const auto& pw: memdb) {
     output_db.write(pw);
   }
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 }
 
 int main(int argc, char* argv[]) {
-- 
2.43.0


From df9efacd54e2c7cbcd93cb8fe92ab3adeb0ab12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 11/30] fix: hibp-topn ignores write errors

---
 app/hibp_topn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index a7a7a3e..dd6ce5e 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -126,6 +126,7 @@ void build_topn(const cli_config_t& cli) {
   for (const auto& pw: memdb) {
     output_db.write(pw);
   }
+  output_db.flush(true); // throws if not everything could be written
   progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 }
 
-- 
2.43.0


From a12b71e17419a2115bc7120ad6d53ec93e80376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 12/30] fix: hibp-download reports success when its output
 could not be written

---
 app/hibp_download.cpp    | 3 ++-
 include/dnl/queuemgt.hpp | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/app/hibp_download.cpp b/app/hibp_download.cpp
index 8bbc98e..626bc54 100644
--- a/app/hibp_download.cpp
+++ b/app/hibp_download.cpp
@@ -65,6 +65,7 @@ void launch(std::ofstream& output_db_stream, const hibp::dnl::cli_config_t& cli,
   auto ffsw = flat_file::stream_writer<PwType>(output_db_stream, 10'000);
   hibp::dnl::run([&](const std::string& line) { ffsw.write(PwType{line}); }, start_index,
                  cli.testing);
+  ffsw.flush(true); // throws if not everything could be written
 }
 
 template <hibp::pw_type PwType>
@@ -136,7 +137,7 @@ int main(int argc, char* argv[]) {
     if (cli.txt_out) {
       auto tw = hibp::dnl::text_writer(output_db_stream);
       hibp::dnl::run([&](const std::string& line) { tw.write(line); }, start_index, cli.testing);
-
+      output_db_stream.flush();
     } else {
       if (cli.ntlm) {
         launch<hibp::pawned_pw_ntlm>(output_db_stream, cli, start_index);
diff --git a/include/dnl/queuemgt.hpp b/include/dnl/queuemgt.hpp
index 3faae13..c5f7440 100644
--- a/include/dnl/queuemgt.hpp
+++ b/include/dnl/queuemgt.hpp
@@ -10,7 +10,9 @@ namespace hibp::dnl {
 // alternative simple text writer
 
 struct text_writer {
-  explicit text_writer(std::ostream& os) : os_(os) {}
+  explicit text_writer(std::ostream& os) : os_(os) {
+    os_.exceptions(std::ios::badbit | std::ios::failbit); // throw on any write errors
+  }
   void write(const std::string& line) {
     os_.write(line.c_str(), static_cast<std::streamsize>(line.length()));
     os_.write("\n", 1);
-- 
2.43.0


From 7dad0c3fe05d48989943cc3fee4a611b463181cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 13/30] fix: --resume with --sha1t64 never recognises a
 complete last range

---
 src/dnl/resume.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dnl/resume.cpp b/src/dnl/resume.cpp
index d31a6be..13b6583 100644
--- a/src/dnl/resume.cpp
+++ b/src/dnl/resume.cpp
@@ -38,12 +38,13 @@ std::size_t get_last_prefix(const std::string& filename, bool testing) {
   const std::string filebody = curl_sync_get(url<PwType>(prefix, testing));
 
   auto pos_colon = filebody.find_last_of(':');
-  if (pos_colon == std::string::npos || pos_colon < PwType::suffix_str_size) {
+  auto pos_line  = filebody.find_last_of('\n', pos_colon) + 1; // 0 for the only line
+  if (pos_colon == std::string::npos || pos_colon - pos_line < PwType::suffix_str_size) {
     throw std::runtime_error(fmt::format("Corrupt last file download with prefix '{}'.", prefix));
   }
 
-  auto last_file_hash =
-      filebody.substr(pos_colon - PwType::suffix_str_size, PwType::suffix_str_size);
+  // from the start of the line: for sha1t64 the served suffix is longer than the one stored
+  auto last_file_hash = filebody.substr(pos_line, PwType::suffix_str_size);
 
   if (last_file_hash == suffix) {
     std::size_t last_prefix{};
-- 
2.43.0


From 16ddf5ec352adf17e7a8086ef6147e715dacb6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 14/30] fix: a blank line that ends in CR is written as a
 garbage record

---
 src/dnl/queuemgt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnl/queuemgt.cpp b/src/dnl/queuemgt.cpp
index 0a1df6a..fb1f157 100644
--- a/src/dnl/queuemgt.cpp
+++ b/src/dnl/queuemgt.cpp
@@ -107,9 +107,9 @@ std::size_t write_lines(write_fn_t& write_fn, download& dl) {
   auto recordcount = 0UL;
 
   for (std::string line, prefixed_line; std::getline(ss, line);) {
+    line.erase(line.find_last_not_of('\r') + 1);
     if (!line.empty()) {
       prefixed_line = dl.prefix + line;
-      prefixed_line.erase(prefixed_line.find_last_not_of('\r') + 1);
 
       // calls text_writer or hibp_ff_sw, the latter via implicit conversion
       write_fn(prefixed_line);
-- 
2.43.0


From e9e0614b801bd71cb7d90cd6fce9d30feb78c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 15/30] fix: data race on the thread names with --debug

---
 src/dnl/queuemgt.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dnl/queuemgt.cpp b/src/dnl/queuemgt.cpp
index fb1f157..f67f501 100644
--- a/src/dnl/queuemgt.cpp
+++ b/src/dnl/queuemgt.cpp
@@ -234,8 +234,11 @@ void run(write_fn_t write_fn, std::size_t start_index_, bool testing_) {
       }
     });
 
-    req_thr_id           = requests_thread.get_id();
-    thrnames[req_thr_id] = "requests";
+    req_thr_id = requests_thread.get_id();
+    {
+      const std::lock_guard lk(cerr_mutex); // the threads read thrnames when logging
+      thrnames[req_thr_id] = "requests";
+    }
 
     std::jthread queuemgt_thread([&]() {
       try {
@@ -246,8 +249,11 @@ void run(write_fn_t write_fn, std::size_t start_index_, bool testing_) {
         req_stop_source.request_stop();
       }
     });
-    que_thr_id           = queuemgt_thread.get_id();
-    thrnames[que_thr_id] = "queuemgt";
+    que_thr_id = queuemgt_thread.get_id();
+    {
+      const std::lock_guard lk(cerr_mutex);
+      thrnames[que_thr_id] = "queuemgt";
+    }
 
   } // wait here until threads join
 
-- 
2.43.0


From 750f0f7ad4ef1576473cf3bf22423467b5dd2e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 16/30] fix: hibp-download --parallel-max 0 succeeds without
 downloading anything

---
 app/hibp_download.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/hibp_download.cpp b/app/hibp_download.cpp
index 626bc54..4a7aa39 100644
--- a/app/hibp_download.cpp
+++ b/app/hibp_download.cpp
@@ -42,7 +42,8 @@ void define_options(CLI::App& app, hibp::dnl::cli_config_t& cli) {
   app.add_flag("--force", cli.force, "Overwrite any existing file! Not with --resume.");
 
   app.add_option("--parallel-max", cli.parallel_max,
-                 "The maximum number of requests that will be started concurrently (default: 300)");
+                 "The maximum number of requests that will be started concurrently (default: 300)")
+      ->check(CLI::PositiveNumber);
 
   app.add_option("--limit", cli.index_limit,
                  "The maximum number (prefix) files that will be downloaded (default: 100 000 hex "
-- 
2.43.0


From 72e1e854827e8a45aa536e5bb43d348a196c366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 17/30] fix: hibp-diff fails on adjacent inserts and on an
 insert next to an update

---
 src/diffutils.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/diffutils.cpp b/src/diffutils.cpp
index 4a6c34e..c868dfd 100644
--- a/src/diffutils.cpp
+++ b/src/diffutils.cpp
@@ -60,9 +60,8 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
         deep_equals(*std::next(diff_iter_old), *diff_iter_new)) {
       throw std::runtime_error("Deletion from OLD");
     }
-    // fine to dereference std::next(new)
-    if (std::next(diff_iter_new) != db_new.end() &&
-        deep_equals(*diff_iter_old, *std::next(diff_iter_new))) {
+    // both are sorted by hash: a smaller hash in new is not in old
+    if (*diff_iter_new < *diff_iter_old) {
       const hunk h{hunk_type::insert, static_cast<unsigned>(diff_iter_old - db_old.begin()),
              *diff_iter_new};
       diff << h << '\n';
-- 
2.43.0


From 90aa073d704011bbf8e306e75dea73006cab4876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 18/30] fix: hibp-diff and hibp-dupes ignore write errors

---
 app/hibp_diff.cpp  | 2 ++
 app/hibp_dupes.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/app/hibp_diff.cpp b/app/hibp_diff.cpp
index cdf59d9..25c85b0 100644
--- a/app/hibp_diff.cpp
+++ b/app/hibp_diff.cpp
@@ -33,11 +33,13 @@ int main(int argc, char* argv[]) {
   CLI11_PARSE(app, argc, argv);
 
   try {
+    std::cout.exceptions(std::ios::badbit | std::ios::failbit); // throw on any write errors
     if (cli.ntlm) {
       hibp::diffutils::run_diff<hibp::pawned_pw_ntlm>(cli.db_file_old, cli.db_file_new, std::cout);
     } else {
       hibp::diffutils::run_diff<hibp::pawned_pw_sha1>(cli.db_file_old, cli.db_file_new, std::cout);
     }
+    std::cout.flush();
   } catch (const std::exception& e) {
     std::cerr << "something went wrong: " << e.what() << "\n";
     return EXIT_FAILURE;
diff --git a/app/hibp_dupes.cpp b/app/hibp_dupes.cpp
index 950ba70..b9b693b 100644
--- a/app/hibp_dupes.cpp
+++ b/app/hibp_dupes.cpp
@@ -55,11 +55,13 @@ int main(int argc, char* argv[]) {
   CLI11_PARSE(app, argc, argv);
 
   try {
+    std::cout.exceptions(std::ios::badbit | std::ios::failbit); // throw on any write errors
     if (cli.ntlm) {
       run_search<hibp::pawned_pw_ntlm>(cli);
     } else {
       run_search<hibp::pawned_pw_sha1>(cli);
     }
+    std::cout.flush();
   } catch (const std::exception& e) {
     std::cerr << "something went wrong: " << e.what() << "\n";
     return EXIT_FAILURE;
-- 
2.43.0


From 109b4d5f88dc5d9a50cb43b716027d271ade283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 19/30] fix: hibp-dupes reports a first record whose prefix is
 all ones

---
 app/hibp_dupes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/hibp_dupes.cpp b/app/hibp_dupes.cpp
index b9b693b..7606d60 100644
--- a/app/hibp_dupes.cpp
+++ b/app/hibp_dupes.cpp
@@ -8,6 +8,7 @@
 #include <fmt/chrono.h> // IWYU pragma: keep
 #include <fmt/format.h>
 #include <iostream>
+#include <optional>
 #include <string>
 // #include <unordered_set>
 
@@ -37,7 +38,7 @@ void run_search(const cli_config_t& cli) {
   flat_file::database<PwType> db(cli.db_filename, (1U << 16U) / sizeof(PwType));
 
   std::cout << fmt::format("Looking for duplicates in the first {} bits of the hash...\n", cli.bits);
-  std::uint64_t last = -1;
+  std::optional<std::uint64_t> last; // none before the first record
   for (auto& pw: db) {
     auto prefix = arrcmp::impl::bytearray_cast<std::uint64_t>(pw.hash.data()) >> (64 - cli.bits);
     if (prefix == last) {
-- 
2.43.0


From faa41af64ad3f35bdfd64808fb00fe59381b287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 20/30] fix: --force with the same input and output file
 destroys the input

---
 app/hibp_convert.cpp | 7 +++++++
 app/hibp_topn.cpp    | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index 83f66dd..180b4c0 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -14,6 +14,7 @@
 #include <ostream>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 
 struct cli_config_t {
   std::string output_filename;
@@ -145,6 +146,12 @@ void convert(const cli_config_t& cli) {
     input_stream_name = cli.input_filename;
   }
 
+  std::error_code ec; // opening the output would destroy the input
+  if (!cli.standard_input && !cli.standard_output &&
+      std::filesystem::equivalent(cli.input_filename, cli.output_filename, ec)) {
+    throw std::runtime_error("Input and output are the same file.");
+  }
+
   std::ostream* output_stream      = &std::cout;
   std::string   output_stream_name = "standard_output";
   std::ofstream ofs;
diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index dd6ce5e..dcfb903 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -21,6 +21,7 @@
 #include <ostream>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 #include <vector>
 
 struct cli_config_t {
@@ -72,6 +73,12 @@ std::ofstream get_output_stream(const std::string& output_filename, bool force)
 
 template <hibp::pw_type PwType>
 void build_topn(const cli_config_t& cli) {
+  std::error_code ec; // opening the output would destroy the input
+  if (!cli.standard_output &&
+      std::filesystem::equivalent(cli.input_filename, cli.output_filename, ec)) {
+    throw std::runtime_error("Input and output are the same file.");
+  }
+
   std::ostream* output_stream      = &std::cout;
   std::string   output_stream_name = "standard_output";
   std::ofstream ofs;
-- 
2.43.0


From 736bfa843a50e15cae8dbb003e866aa2952cd9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 21/30] fix: hibp-server does not decode percent-encoded
 passwords

---
 src/srv/server.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index 41e932b..1c10684 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -5,6 +5,8 @@
 #include "toc.hpp"
 #include <algorithm>
 #include <atomic>
+#include <charconv>
+#include <cstddef>
 #include <cstdlib>
 #include <exception>
 #include <fmt/format.h>
@@ -89,6 +91,23 @@ auto handle_hash_search(flat_file::database<PwType>& db, const std::string& pass
   return search_and_respond<PwType>(db, needle, req);
 }
 
+// undo the percent-encoding of a path segment ('+' is not special there)
+std::string percent_decode(const std::string& encoded) {
+  std::string decoded;
+  for (std::size_t i = 0; i != encoded.size(); i++) {
+    unsigned char byte{};
+    if (const char* hex = encoded.data() + i + 1;
+        encoded[i] == '%' && encoded.size() - i > 2 &&
+        std::from_chars(hex, hex + 2, byte, 16).ptr == hex + 2) {
+      decoded += static_cast<char>(byte);
+      i += 2;
+    } else {
+      decoded += encoded[i];
+    }
+  }
+  return decoded;
+}
+
 auto get_router(const std::string& sha1_db_filename, const std::string& ntlm_db_filename,
                 const std::string& sha1t64_db_filename) {
   auto router = std::make_unique<restinio::router::express_router_t<>>();
@@ -117,14 +136,15 @@ auto get_router(const std::string& sha1_db_filename, const std::string& ntlm_db_
       const std::string password{params["password"]};
 
       if (params["format"] == "plain") {
+        const std::string plain = percent_decode(password);
         if (sha1_db) {
-          return handle_plain_search(*sha1_db, password, req);
+          return handle_plain_search(*sha1_db, plain, req);
         }
         if (ntlm_db) {
-          return handle_plain_search(*ntlm_db, password, req);
+          return handle_plain_search(*ntlm_db, plain, req);
         }
         if (sha1t64_db) {
-          return handle_plain_search(*sha1t64_db, password, req);
+          return handle_plain_search(*sha1t64_db, plain, req);
         }
         return fail_missing_db_for_format(req, "--sha1-db, --sha1t64-db or --ntlm-db",
                                           "/check/plain");
-- 
2.43.0


From 9889b31ce0dfb843e3b7a6c7626e72243684d7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 22/30] fix: a second table of contents in one process
 continues the first

---
 src/toc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toc.cpp b/src/toc.cpp
index d7d5b2b..2f220cc 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -63,6 +63,7 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
                            toc_entry_size);
   std::cout << fmt::format("{:30s} {:15.0f} per query\n", "Max disk reads with ToC",
                            std::ceil(std::log2(toc_entry_size)));
+  toc<PwType>.clear(); // there may be one of another database already
   toc<PwType>.reserve(toc_entries);
 
   toc_entry last_pos = 0;
-- 
2.43.0


From 9ab79993fdcfb9e9cc5bae87998aded91e34474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 23/30] fix: an interrupted or failed save leaves a torn table
 of contents, read errors are ignored

---
 src/toc.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/toc.cpp b/src/toc.cpp
index 2f220cc..dd5ef93 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -17,6 +17,7 @@
 #include <ostream>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 #include <vector>
 
 namespace hibp {
@@ -90,9 +91,20 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
 template <pw_type PwType>
 void save(const std::filesystem::path& toc_filename) {
   std::cout << fmt::format("saving table of contents: {}\n", toc_filename);
-  auto toc_stream = std::ofstream(toc_filename, std::ios_base::binary);
+  // never leave an incomplete file under the name that load() trusts
+  const std::filesystem::path tmp_filename = toc_filename.string() + ".tmp";
+
+  auto toc_stream = std::ofstream(tmp_filename, std::ios_base::binary);
   toc_stream.write(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
                    static_cast<std::streamsize>(sizeof(toc_entry) * toc<PwType>.size()));
+  toc_stream.close();
+
+  std::error_code ec;
+  if (toc_stream) std::filesystem::rename(tmp_filename, toc_filename, ec);
+  if (!toc_stream || ec) { // can carry on with the one in memory
+    std::cerr << fmt::format("Warning: could not save table of contents: {}\n", toc_filename);
+    std::filesystem::remove(tmp_filename, ec);
+  }
 }
 
 template <pw_type PwType>
@@ -103,6 +115,9 @@ void load(const std::filesystem::path& toc_filename) {
   toc<PwType>              = std::vector<toc_entry>(toc_file_size / sizeof(toc_entry));
   toc_stream.read(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
                   static_cast<std::streamsize>(toc_file_size));
+  if (!toc_stream) {
+    throw std::runtime_error(fmt::format("Cannot read table of contents: {}", toc_filename));
+  }
 }
 
 template <pw_type PwType>
-- 
2.43.0


From 170ba9b45374a6899f17feadc9baf3557188fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 24/30] fix: a refused write to standard output ends the tools
 in std::terminate

---
 app/hibp_convert.cpp | 1 +
 app/hibp_diff.cpp    | 1 +
 app/hibp_dupes.cpp   | 1 +
 app/hibp_topn.cpp    | 1 +
 4 files changed, 4 insertions(+)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index 180b4c0..6f7979e 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -200,6 +200,7 @@ int main(int argc, char* argv[]) {
     convert(cli);
 
   } catch (const std::exception& e) {
+    std::cout.exceptions(std::ios::goodbit); // std::cerr flushes it: must not throw again
     std::cerr << fmt::format("Error: {}\n", e.what());
     return EXIT_FAILURE;
   }
diff --git a/app/hibp_diff.cpp b/app/hibp_diff.cpp
index 25c85b0..c736cbd 100644
--- a/app/hibp_diff.cpp
+++ b/app/hibp_diff.cpp
@@ -41,6 +41,7 @@ int main(int argc, char* argv[]) {
     }
     std::cout.flush();
   } catch (const std::exception& e) {
+    std::cout.exceptions(std::ios::goodbit); // std::cerr flushes it: must not throw again
     std::cerr << "something went wrong: " << e.what() << "\n";
     return EXIT_FAILURE;
   }
diff --git a/app/hibp_dupes.cpp b/app/hibp_dupes.cpp
index 7606d60..7a06aae 100644
--- a/app/hibp_dupes.cpp
+++ b/app/hibp_dupes.cpp
@@ -64,6 +64,7 @@ int main(int argc, char* argv[]) {
     }
     std::cout.flush();
   } catch (const std::exception& e) {
+    std::cout.exceptions(std::ios::goodbit); // std::cerr flushes it: must not throw again
     std::cerr << "something went wrong: " << e.what() << "\n";
     return EXIT_FAILURE;
   }
diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index dcfb903..bbd7f6b 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -165,6 +165,7 @@ int main(int argc, char* argv[]) {
     }
 
   } catch (const std::exception& e) {
+    std::cout.exceptions(std::ios::goodbit); // std::cerr flushes it: must not throw again
     std::cerr << fmt::format("Error: {}\n", e.what());
     return EXIT_FAILURE;
   }
-- 
2.43.0


From d7ff5317cc730c8c926cdd2604d5785bb81975f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:52 +0000
Subject: [PATCH 25/30] fix: --resume takes the body of a failed request for
 the last range

---
 src/dnl/requests.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dnl/requests.cpp b/src/dnl/requests.cpp
index 76f281d..95dd09c 100644
--- a/src/dnl/requests.cpp
+++ b/src/dnl/requests.cpp
@@ -272,7 +272,13 @@ std::string curl_sync_get(const std::string& url) {
                                          curl_easy_strerror(res)));
   }
 
+  long response_code = 0;
+  curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &response_code);
   curl_easy_cleanup(curl);
+  if (response_code != 200) { // not the contents of a range
+    throw std::runtime_error(fmt::format("curl_sync_get: Couldn't retrieve '{}'. http resp code: {}",
+                                         url, response_code));
+  }
   return result_body;
 }
 
-- 
2.43.0


From d22b53283d6d470a8fb8b7aa68287cc3a2d5d2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:54 +0000
Subject: [PATCH 26/30] fix: refuse text that is not a hash instead of making
 up a record

pawned_pw(text) only asserted that the text is long enough and hexadecimal.
In a build with NDEBUG, hibp-convert turned an empty, short or damaged line
(and hibp-download a body that is not a list of hashes) into a made-up record,
reading past the end of the text, and reported success.
---
 include/hibp.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/hibp.hpp b/include/hibp.hpp
index c9b9e31..92c0b33 100644
--- a/include/hibp.hpp
+++ b/include/hibp.hpp
@@ -9,6 +9,7 @@
 #include <cstdint>
 #include <fmt/format.h>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 
@@ -20,7 +21,9 @@ struct pawned_pw;
 namespace detail {
 
 constexpr std::byte make_nibble(char c) {
-  assert((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'));
+  if (!((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'))) {
+    throw std::runtime_error("Invalid hash: not a hexadecimal digit.");
+  }
   auto nibble = c - '0';
   if (nibble > 9) nibble = (nibble & ~('a' - 'A')) - ('A' - '0') + 10; // NOLINT signed
   assert(nibble >= 0 && nibble <= 15);
@@ -52,7 +55,7 @@ struct pawned_pw {
   pawned_pw() = default;
 
   explicit pawned_pw(const std::string& text) {
-    assert(text.length() >= hash_str_size);
+    if (text.length() < hash_str_size) throw std::runtime_error("Invalid hash: too short.");
     std::size_t i = 0;
     for (auto& b: hash) {
       b = detail::make_byte(&text[2 * i]);
-- 
2.43.0


From afc1fc502642eded7174e798408d4a211b835525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:43 +0000
Subject: [PATCH 27/30] fix: give every process its own temporary file when
 saving a table of contents

Two searches which build the same table at the same time shared the one
temporary name, so that one of them could rename the file which the other
had just truncated into place: an empty or incomplete table, newer than the
database, which every later search then trusted.
---
 src/toc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toc.cpp b/src/toc.cpp
index dd5ef93..9724870 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -15,6 +15,7 @@
 #include <limits>
 #include <optional>
 #include <ostream>
+#include <random>
 #include <stdexcept>
 #include <string>
 #include <system_error>
@@ -92,7 +93,9 @@ template <pw_type PwType>
 void save(const std::filesystem::path& toc_filename) {
   std::cout << fmt::format("saving table of contents: {}\n", toc_filename);
   // never leave an incomplete file under the name that load() trusts
-  const std::filesystem::path tmp_filename = toc_filename.string() + ".tmp";
+  // the name is our own, because other processes may be saving the same table
+  const std::filesystem::path tmp_filename =
+      fmt::format("{}.{:08x}.tmp", toc_filename.string(), std::random_device{}());
 
   auto toc_stream = std::ofstream(tmp_filename, std::ios_base::binary);
   toc_stream.write(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
-- 
2.43.0


From 58a25272f5f094d34c31de657310b052b85a4405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:53 +0000
Subject: [PATCH 28/30] fix: do not save a table of contents for a database
 that changed meanwhile

When the database is rewritten while a search reads it to build the table,
the file with the table of the old contents was saved after the rewrite,
hence newer than the database, and every later search trusted it.
---
 src/toc.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/toc.cpp b/src/toc.cpp
index 9724870..efed7a8 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -90,7 +90,8 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
 }
 
 template <pw_type PwType>
-void save(const std::filesystem::path& toc_filename) {
+void save(const std::filesystem::path& toc_filename, const std::filesystem::path& db_filename,
+          std::filesystem::file_time_type db_time) {
   std::cout << fmt::format("saving table of contents: {}\n", toc_filename);
   // never leave an incomplete file under the name that load() trusts
   // the name is our own, because other processes may be saving the same table
@@ -103,6 +104,13 @@ void save(const std::filesystem::path& toc_filename) {
   toc_stream.close();
 
   std::error_code ec;
+  if (std::filesystem::last_write_time(db_filename, ec) != db_time) {
+    // db was changed while we read it, the toc file would be newer and wrongly trusted
+    std::cerr << fmt::format("Warning: DB has changed, not saving table of contents: {}\n",
+                             toc_filename);
+    std::filesystem::remove(tmp_filename, ec);
+    return;
+  }
   if (toc_stream) std::filesystem::rename(tmp_filename, toc_filename, ec);
   if (!toc_stream || ec) { // can carry on with the one in memory
     std::cerr << fmt::format("Warning: could not save table of contents: {}\n", toc_filename);
@@ -157,8 +165,9 @@ void toc_build(const std::filesystem::path& db_filename, unsigned bits) {
   if (!std::filesystem::exists(toc_filename) || (std::filesystem::last_write_time(toc_filename) <=
                                                  std::filesystem::last_write_time(db_filename))) {
 
+    const auto db_time = std::filesystem::last_write_time(db_filename);
     details::build<PwType>(db_filename, bits);
-    details::save<PwType>(toc_filename);
+    details::save<PwType>(toc_filename, db_filename, db_time);
   } else {
     details::load<PwType>(toc_filename);
   }
-- 
2.43.0


From 88e9069c49453b88f9a57af2fd32c18c3c34d26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:46 +0000
Subject: [PATCH 29/30] fix: refuse a table of contents whose length is no
 multiple of its entries

It was read into memory four bytes per whole entry long, past its end.
---
 src/toc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toc.cpp b/src/toc.cpp
index efed7a8..6931b80 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -122,6 +122,9 @@ template <pw_type PwType>
 void load(const std::filesystem::path& toc_filename) {
   std::cout << fmt::format("loading table of contents: {}\n", toc_filename);
   const auto toc_file_size = std::filesystem::file_size(toc_filename);
+  if (toc_file_size % sizeof(toc_entry) != 0) {
+    throw std::runtime_error(fmt::format("Damaged table of contents: {}", toc_filename));
+  }
   auto       toc_stream    = std::ifstream(toc_filename, std::ios_base::binary);
   toc<PwType>              = std::vector<toc_entry>(toc_file_size / sizeof(toc_entry));
   toc_stream.read(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
-- 
2.43.0


From f288379585abf16db91bff05ea53048d1ff484b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:10 +0000
Subject: [PATCH 30/30] fix: hibp-search exits with success although its answer
 could not be written

---
 app/hibp_search.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app/hibp_search.cpp b/app/hibp_search.cpp
index 39fcf90..1455a3b 100644
--- a/app/hibp_search.cpp
+++ b/app/hibp_search.cpp
@@ -113,6 +113,7 @@ int main(int argc, char* argv[]) {
   CLI11_PARSE(app, argc, argv);
 
   try {
+    std::cout.exceptions(std::ios::badbit | std::ios::failbit); // throw on any write errors
     if (cli.ntlm) {
       run_search<hibp::pawned_pw_ntlm>(cli);
     } else if (cli.sha1t64) {
@@ -120,7 +121,9 @@ int main(int argc, char* argv[]) {
     } else {
       run_search<hibp::pawned_pw_sha1>(cli);
     }
+    std::cout.flush();
   } catch (const std::exception& e) {
+    std::cout.exceptions(std::ios::goodbit); // std::cerr flushes it: must not throw again
     std::cerr << "something went wrong: " << e.what() << "\n";
     return EXIT_FAILURE;
   }
-- 
2.43.0

