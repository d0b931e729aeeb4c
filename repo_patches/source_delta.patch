From 2898e3b7d057594f7f1da42dc672334708616388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 01/14] fix: unescape after spacing and leave quoted fields
 untouched when looking for a delimiter

With trim_right enabled the escape character following spacing was left in the
field and the spacing was dropped instead, and looking for a delimiter after a
closing quote unescaped (and accepted) the characters following it.
---
 include/ss/splitter.hpp | 5 +++--
 ssp.hpp                 | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ss/splitter.hpp b/include/ss/splitter.hpp
index 0f06499..93ba1f4 100644
--- a/include/ss/splitter.hpp
+++ b/include/ss/splitter.hpp
@@ -246,7 +246,6 @@ private:
 
         // not a delimiter
         if (!match(end, delim)) {
-            shift_if_escaped(end);
             return {1 + end - begin, false};
         }
 
@@ -374,7 +373,9 @@ private:
                     done_ = true;
                     break;
                 } else {
-                    end_ += width;
+                    end_ += width - 1;
+                    shift_if_escaped(end_);
+                    ++end_;
                     continue;
                 }
             } else {
diff --git a/ssp.hpp b/ssp.hpp
index 0fc4cd3..760192d 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1301,7 +1301,6 @@ private:
 
         // not a delimiter
         if (!match(end, delim)) {
-            shift_if_escaped(end);
             return {1 + end - begin, false};
         }
 
@@ -1429,7 +1428,9 @@ private:
                     done_ = true;
                     break;
                 } else {
-                    end_ += width;
+                    end_ += width - 1;
+                    shift_if_escaped(end_);
+                    ++end_;
                     continue;
                 }
             } else {
-- 
2.43.0


From e314eaf77653477ad5de80641a20a07da569d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 02/14] fix: release the buffers and the file of a parser which
 is move assigned to

---
 include/ss/parser.hpp | 8 ++++++++
 ssp.hpp               | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index b054328..0af3c1b 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -796,6 +796,14 @@ private:
 
         reader& operator=(reader&& other) noexcept {
             if (this != &other) {
+                std::free(buffer_);
+                std::free(next_line_buffer_);
+                std::free(helper_buffer_);
+
+                if (file_) {
+                    std::ignore = std::fclose(file_);
+                }
+
                 buffer_ = other.buffer_;
                 next_line_buffer_ = other.next_line_buffer_;
                 helper_buffer_ = other.helper_buffer_;
diff --git a/ssp.hpp b/ssp.hpp
index 760192d..69ca8a2 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -3071,6 +3071,14 @@ private:
 
         reader& operator=(reader&& other) noexcept {
             if (this != &other) {
+                std::free(buffer_);
+                std::free(next_line_buffer_);
+                std::free(helper_buffer_);
+
+                if (file_) {
+                    std::ignore = std::fclose(file_);
+                }
+
                 buffer_ = other.buffer_;
                 next_line_buffer_ = other.next_line_buffer_;
                 helper_buffer_ = other.helper_buffer_;
-- 
2.43.0


From bd6b2e7d7210377fe02be0b21ad89306720e1dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 03/14] fix: update eof when ignoring the last row

A file with only a header returned an additional invalid row if the header was
ignored, and each ignore_next call after the last row incremented the line.
---
 include/ss/parser.hpp | 7 ++++++-
 ssp.hpp               | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 0af3c1b..0845a1b 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -95,7 +95,12 @@ public:
     }
 
     bool ignore_next() {
-        return reader_.read_next();
+        if (eof_) {
+            return false;
+        }
+
+        read_line();
+        return !eof_;
     }
 
     template <typename T, typename... Ts>
diff --git a/ssp.hpp b/ssp.hpp
index 69ca8a2..bc25e86 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2370,7 +2370,12 @@ public:
     }
 
     bool ignore_next() {
-        return reader_.read_next();
+        if (eof_) {
+            return false;
+        }
+
+        read_line();
+        return !eof_;
     }
 
     template <typename T, typename... Ts>
-- 
2.43.0


From ced034b2ac3b5c0ffff69dcd62e7e52d3bd12b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 04/14] fix: do not move the position back when the end of a
 file is reached

---
 include/ss/common.hpp | 4 +++-
 ssp.hpp               | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index e507994..086f9e2 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -132,7 +132,9 @@ using ssize_t = intptr_t;
     ssize_t ssize = 0;
     if (file) {
         ssize = get_line_file(buffer, buffer_size, file);
-        curr_char += ssize;
+        if (ssize != -1) {
+            curr_char += ssize;
+        }
     } else {
         ssize = get_line_buffer(buffer, buffer_size, csv_data_buffer,
                                 csv_data_size, curr_char);
diff --git a/ssp.hpp b/ssp.hpp
index bc25e86..0de429c 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -749,7 +749,9 @@ using ssize_t = intptr_t;
     ssize_t ssize = 0;
     if (file) {
         ssize = get_line_file(buffer, buffer_size, file);
-        curr_char += ssize;
+        if (ssize != -1) {
+            curr_char += ssize;
+        }
     } else {
         ssize = get_line_buffer(buffer, buffer_size, csv_data_buffer,
                                 csv_data_size, curr_char);
-- 
2.43.0


From 38f957e6428a7ce68241b64c67c33453e8f40b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 05/14] fix: do not report bad_alloc at the end of the input
 because of a stale errno

---
 include/ss/common.hpp | 1 +
 ssp.hpp               | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index 086f9e2..fe231d7 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -130,6 +130,7 @@ using ssize_t = intptr_t;
     const char* const csv_data_buffer, size_t csv_data_size,
     size_t& curr_char) {
     ssize_t ssize = 0;
+    errno = 0;
     if (file) {
         ssize = get_line_file(buffer, buffer_size, file);
         if (ssize != -1) {
diff --git a/ssp.hpp b/ssp.hpp
index 0de429c..62f9cfe 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -747,6 +747,7 @@ using ssize_t = intptr_t;
     const char* const csv_data_buffer, size_t csv_data_size,
     size_t& curr_char) {
     ssize_t ssize = 0;
+    errno = 0;
     if (file) {
         ssize = get_line_file(buffer, buffer_size, file);
         if (ssize != -1) {
-- 
2.43.0


From c3e11351004e0e3b66d5b2076b3d32d904891de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 06/14] fix: skip the header in use_fields when empty lines
 precede it

With ignore_empty the header was returned as data if the first line was empty.
---
 include/ss/parser.hpp | 5 ++++-
 ssp.hpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 0845a1b..76bcbc3 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -43,6 +43,7 @@ public:
                 ignore_next();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_ = line();
             }
         } else {
             handle_error_file_not_open();
@@ -60,6 +61,7 @@ public:
                 ignore_next();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_ = line();
             }
         } else {
             handle_error_null_buffer();
@@ -248,7 +250,7 @@ public:
         reader_.next_line_converter_.set_column_mapping(column_mappings,
                                                         header_.size());
 
-        if (line() == 0) {
+        if (line() == header_line_) {
             ignore_next();
         }
     }
@@ -1071,6 +1073,7 @@ private:
     reader reader_;
     std::vector<std::string> header_;
     std::string raw_header_;
+    size_t header_line_{0};
     bool eof_{false};
 };
 
diff --git a/ssp.hpp b/ssp.hpp
index 62f9cfe..7a3fefd 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2321,6 +2321,7 @@ public:
                 ignore_next();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_ = line();
             }
         } else {
             handle_error_file_not_open();
@@ -2338,6 +2339,7 @@ public:
                 ignore_next();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_ = line();
             }
         } else {
             handle_error_null_buffer();
@@ -2526,7 +2528,7 @@ public:
         reader_.next_line_converter_.set_column_mapping(column_mappings,
                                                         header_.size());
 
-        if (line() == 0) {
+        if (line() == header_line_) {
             ignore_next();
         }
     }
@@ -3349,6 +3351,7 @@ private:
     reader reader_;
     std::vector<std::string> header_;
     std::string raw_header_;
+    size_t header_line_{0};
     bool eof_{false};
 };
 
-- 
2.43.0


From 3d55433d332b82c37040900546d3b13821f21255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 07/14] fix: discard the header with duplicate fields when
 throwing on error

The fields preceding the duplicate were kept, and used by the next use_fields.
---
 include/ss/parser.hpp | 2 +-
 ssp.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 76bcbc3..848ba06 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -567,8 +567,8 @@ private:
             std::string field{begin, end};
             if (std::find(header_.begin(), header_.end(), field) !=
                 header_.end()) {
-                handle_error_duplicate_header_field(field);
                 header_.clear();
+                handle_error_duplicate_header_field(field);
                 return;
             }
             header_.push_back(std::move(field));
diff --git a/ssp.hpp b/ssp.hpp
index 7a3fefd..7f3f53d 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2845,8 +2845,8 @@ private:
             std::string field{begin, end};
             if (std::find(header_.begin(), header_.end(), field) !=
                 header_.end()) {
-                handle_error_duplicate_header_field(field);
                 header_.clear();
+                handle_error_duplicate_header_field(field);
                 return;
             }
             header_.push_back(std::move(field));
-- 
2.43.0


From 12133592b2ba453c44b57918d35b462c6e2b3b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 08/14] fix: leave space for the null terminator when
 converting floating point values

---
 include/ss/extract.hpp | 2 +-
 ssp.hpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 58cea4e..86c6016 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -52,7 +52,7 @@ to_num(const char* const begin, const char* const end) {
     std::string long_buff;
 
     char* buff = nullptr;
-    if (string_range > buff_max) {
+    if (string_range >= buff_max) {
         long_buff = std::string{begin, end};
         buff = long_buff.data();
     } else {
diff --git a/ssp.hpp b/ssp.hpp
index 7f3f53d..bc65668 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1586,7 +1586,7 @@ to_num(const char* const begin, const char* const end) {
     std::string long_buff;
 
     char* buff = nullptr;
-    if (string_range > buff_max) {
+    if (string_range >= buff_max) {
         long_buff = std::string{begin, end};
         buff = long_buff.data();
     } else {
-- 
2.43.0


From 61f639e08c263954f9645e6dc0ee4aa47722197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 09/14] fix: reject empty fields when converting floating point
 values without fast_float

---
 include/ss/extract.hpp | 2 +-
 ssp.hpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 86c6016..85b7745 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -70,7 +70,7 @@ to_num(const char* const begin, const char* const end) {
         ret = std::strtod(buff, &parse_end);
     }
 
-    if (parse_end != buff + string_range) {
+    if (parse_end == buff || parse_end != buff + string_range) {
         return std::nullopt;
     }
 
diff --git a/ssp.hpp b/ssp.hpp
index bc65668..1e2428d 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1604,7 +1604,7 @@ to_num(const char* const begin, const char* const end) {
         ret = std::strtod(buff, &parse_end);
     }
 
-    if (parse_end != buff + string_range) {
+    if (parse_end == buff || parse_end != buff + string_range) {
         return std::nullopt;
     }
 
-- 
2.43.0


From 771739febfaa8711aeda08bab261747f93063025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 10/14] fix: clear the error of the previous split when
 splitting an empty line

---
 include/ss/converter.hpp | 1 +
 ssp.hpp                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 06e67d2..8583632 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -192,6 +192,7 @@ public:
                             const std::string& delim = default_delimiter) {
         splitter_.clear_split_data();
         if (line[0] == '\0') {
+            splitter_.clear_error();
             return splitter_.get_split_data();
         }
 
diff --git a/ssp.hpp b/ssp.hpp
index 1e2428d..5211e42 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1980,6 +1980,7 @@ public:
                             const std::string& delim = default_delimiter) {
         splitter_.clear_split_data();
         if (line[0] == '\0') {
+            splitter_.clear_error();
             return splitter_.get_split_data();
         }
 
-- 
2.43.0


From 82420066e743e5e336945b365447c2984759e115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 11/14] fix: keep unterminated multiline rows invalid for
 substitute conversions

The leftovers of the failed split were converted by or_else and or_object.
---
 include/ss/converter.hpp | 4 ++++
 ssp.hpp                  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 8583632..0661230 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -255,6 +255,7 @@ private:
         } else if constexpr (throw_on_error) {
             splitter_.handle_error_unterminated_escape();
         } else {
+            splitter_.handle_error_unterminated_escape();
             error_ = true;
         }
     }
@@ -267,6 +268,7 @@ private:
         } else if constexpr (throw_on_error) {
             splitter_.handle_error_unterminated_quote();
         } else {
+            splitter_.handle_error_unterminated_quote();
             error_ = true;
         }
     }
@@ -276,11 +278,13 @@ private:
         splitter_.unterminated_quote_ = false;
 
         if constexpr (string_error) {
+            splitter_.error_ = error_msg;
             error_.clear();
             error_.append(error_msg);
         } else if constexpr (throw_on_error) {
             throw ss::exception{error_msg};
         } else {
+            splitter_.error_ = true;
             error_ = true;
         }
     }
diff --git a/ssp.hpp b/ssp.hpp
index 5211e42..0ed0749 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2043,6 +2043,7 @@ private:
         } else if constexpr (throw_on_error) {
             splitter_.handle_error_unterminated_escape();
         } else {
+            splitter_.handle_error_unterminated_escape();
             error_ = true;
         }
     }
@@ -2055,6 +2056,7 @@ private:
         } else if constexpr (throw_on_error) {
             splitter_.handle_error_unterminated_quote();
         } else {
+            splitter_.handle_error_unterminated_quote();
             error_ = true;
         }
     }
@@ -2064,11 +2066,13 @@ private:
         splitter_.unterminated_quote_ = false;
 
         if constexpr (string_error) {
+            splitter_.error_ = error_msg;
             error_.clear();
             error_.append(error_msg);
         } else if constexpr (throw_on_error) {
             throw ss::exception{error_msg};
         } else {
+            splitter_.error_ = true;
             error_ = true;
         }
     }
-- 
2.43.0


From f714b3d424542856813cc76e3d9c768da471f457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 12/14] fix: do not keep the fields of an old row when the end
 of file is reached

A substitute conversion after the end of file converted the row before the last
one, the fields of which could point to released memory.
---
 include/ss/parser.hpp | 1 +
 ssp.hpp               | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 848ba06..4ee76a4 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -856,6 +856,7 @@ private:
         // read next line each time in order to set eof_
         [[nodiscard]] bool read_next() {
             next_line_converter_.clear_error();
+            next_line_converter_.splitter_.clear_split_data();
             size_t size = 0;
             while (size == 0) {
                 ++line_number_;
diff --git a/ssp.hpp b/ssp.hpp
index 0ed0749..1323c8c 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -3139,6 +3139,7 @@ private:
         // read next line each time in order to set eof_
         [[nodiscard]] bool read_next() {
             next_line_converter_.clear_error();
+            next_line_converter_.splitter_.clear_split_data();
             size_t size = 0;
             while (size == 0) {
                 ++line_number_;
-- 
2.43.0


From 9adf6bd6afe86ff470d1387299d43510d0fafc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 13/14] fix: report the line of the row which failed to convert

Substitute conversions reported the line following the row, and exceptions the
line following any empty lines ignored after it.
---
 include/ss/parser.hpp | 7 +++++--
 ssp.hpp               | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 4ee76a4..e5ec5e6 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -126,6 +126,7 @@ public:
                 try {
                     reader_.parse();
                 } catch (const ss::exception& e) {
+                    row_line_ = reader_.line_number_;
                     read_line();
                     decorate_rethrow(e);
                 }
@@ -134,6 +135,7 @@ public:
             }
         }
 
+        row_line_ = reader_.line_number_;
         reader_.update();
         if (!reader_.converter_.valid()) {
             handle_error_invalid_conversion();
@@ -654,7 +656,7 @@ private:
             error_.clear();
             error_.append(file_name_)
                 .append(" ")
-                .append(std::to_string(reader_.line_number_))
+                .append(std::to_string(row_line_))
                 .append(": ")
                 .append(reader_.converter_.error_msg());
         } else if constexpr (!throw_on_error) {
@@ -755,7 +757,7 @@ private:
                       "throw_on_error needs to be enabled to use this method");
         throw ss::exception{std::string{file_name_}
                                 .append(" ")
-                                .append(std::to_string(line()))
+                                .append(std::to_string(row_line_))
                                 .append(": ")
                                 .append(e.what())};
     }
@@ -1075,6 +1077,7 @@ private:
     std::vector<std::string> header_;
     std::string raw_header_;
     size_t header_line_{0};
+    size_t row_line_{0};
     bool eof_{false};
 };
 
diff --git a/ssp.hpp b/ssp.hpp
index 1323c8c..58e121a 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2409,6 +2409,7 @@ public:
                 try {
                     reader_.parse();
                 } catch (const ss::exception& e) {
+                    row_line_ = reader_.line_number_;
                     read_line();
                     decorate_rethrow(e);
                 }
@@ -2417,6 +2418,7 @@ public:
             }
         }
 
+        row_line_ = reader_.line_number_;
         reader_.update();
         if (!reader_.converter_.valid()) {
             handle_error_invalid_conversion();
@@ -2937,7 +2939,7 @@ private:
             error_.clear();
             error_.append(file_name_)
                 .append(" ")
-                .append(std::to_string(reader_.line_number_))
+                .append(std::to_string(row_line_))
                 .append(": ")
                 .append(reader_.converter_.error_msg());
         } else if constexpr (!throw_on_error) {
@@ -3038,7 +3040,7 @@ private:
                       "throw_on_error needs to be enabled to use this method");
         throw ss::exception{std::string{file_name_}
                                 .append(" ")
-                                .append(std::to_string(line()))
+                                .append(std::to_string(row_line_))
                                 .append(": ")
                                 .append(e.what())};
     }
@@ -3358,6 +3360,7 @@ private:
     std::vector<std::string> header_;
     std::string raw_header_;
     size_t header_line_{0};
+    size_t row_line_{0};
     bool eof_{false};
 };
 
-- 
2.43.0


From 8e36abe0cf4e77ac0735b10705aa65c6c63cd519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:05 +0000
Subject: [PATCH 14/14] fix: report the end of file again instead of the error
 of an old row

Reading at the end of file swapped the converters, the second read found the
converter of the last row: its conversion error was reported instead of the end of
file and line() was advanced, substitute conversions converted the old row.
---
 include/ss/parser.hpp | 11 +++++++++--
 ssp.hpp               | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index e5ec5e6..e45d724 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -133,6 +133,8 @@ public:
             } else {
                 reader_.parse();
             }
+        } else {
+            reader_.clear_next_line_converter();
         }
 
         row_line_ = reader_.line_number_;
@@ -855,10 +857,15 @@ private:
         reader(const reader& other) = delete;
         reader& operator=(const reader& other) = delete;
 
-        // read next line each time in order to set eof_
-        [[nodiscard]] bool read_next() {
+        // forget the results of the row which was read before
+        void clear_next_line_converter() {
             next_line_converter_.clear_error();
             next_line_converter_.splitter_.clear_split_data();
+        }
+
+        // read next line each time in order to set eof_
+        [[nodiscard]] bool read_next() {
+            clear_next_line_converter();
             size_t size = 0;
             while (size == 0) {
                 ++line_number_;
diff --git a/ssp.hpp b/ssp.hpp
index 58e121a..c363f90 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2416,6 +2416,8 @@ public:
             } else {
                 reader_.parse();
             }
+        } else {
+            reader_.clear_next_line_converter();
         }
 
         row_line_ = reader_.line_number_;
@@ -3138,10 +3140,15 @@ private:
         reader(const reader& other) = delete;
         reader& operator=(const reader& other) = delete;
 
-        // read next line each time in order to set eof_
-        [[nodiscard]] bool read_next() {
+        // forget the results of the row which was read before
+        void clear_next_line_converter() {
             next_line_converter_.clear_error();
             next_line_converter_.splitter_.clear_split_data();
+        }
+
+        // read next line each time in order to set eof_
+        [[nodiscard]] bool read_next() {
+            clear_next_line_converter();
             size_t size = 0;
             while (size == 0) {
                 ++line_number_;
-- 
2.43.0

