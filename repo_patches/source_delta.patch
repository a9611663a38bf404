From 0d14c61bd00b2c96ac6fa9325b0bbdaf480d3fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 01/49] fix: do not split a CRLF that straddles two chunks into
 two lines

Also do not dereference the end of the chunk.
---
 src/mlio/record_readers/detail/text_line.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mlio/record_readers/detail/text_line.cc b/src/mlio/record_readers/detail/text_line.cc
index 82de5a4..c2fd542 100644
--- a/src/mlio/record_readers/detail/text_line.cc
+++ b/src/mlio/record_readers/detail/text_line.cc
@@ -47,14 +47,20 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
 
     auto pos = chars.begin();
 
-    for (auto chr = *pos; pos < chars.end(); ++pos, chr = *pos) {
-        if (chr == '\n') {
+    for (; pos < chars.end(); ++pos) {
+        if (*pos == '\n') {
             break;
         }
 
-        if (chr == '\r') {
+        if (*pos == '\r') {
             auto next_pos = pos + 1;
 
+            // If the chunk ends right after the carriage we cannot tell
+            // yet whether it is followed by a new-line character.
+            if (next_pos == chars.end() && ignore_leftover) {
+                return {};
+            }
+
             // Check if we have a new line with a new-line character and
             // make sure that we eat the carriage in such case.
             if (next_pos < chars.end() && *next_pos == '\n') {
-- 
2.43.0


From 293adbe2266276448fb5bde33ff763b10a4fc827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 02/49] fix: strip a UTF-8 BOM at the beginning of a text
 stream only

---
 include/mlio/record_readers/text_record_reader.h | 4 +++-
 src/mlio/record_readers/text_record_reader.cc    | 9 +++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/mlio/record_readers/text_record_reader.h b/include/mlio/record_readers/text_record_reader.h
index a8b8da1..a40d214 100644
--- a/include/mlio/record_readers/text_record_reader.h
+++ b/include/mlio/record_readers/text_record_reader.h
@@ -51,7 +51,9 @@ private:
     virtual std::optional<Record> decode_text_record(Memory_slice &chunk, bool ignore_leftover) = 0;
 
     MLIO_HIDDEN
-    static bool skip_utf8_bom(Memory_slice &chunk, bool ignore_leftover) noexcept;
+    bool skip_utf8_bom(Memory_slice &chunk, bool ignore_leftover) noexcept;
+
+    bool bom_checked_{};
 };
 
 /// @}
diff --git a/src/mlio/record_readers/text_record_reader.cc b/src/mlio/record_readers/text_record_reader.cc
index 66e6a2f..f26b60b 100644
--- a/src/mlio/record_readers/text_record_reader.cc
+++ b/src/mlio/record_readers/text_record_reader.cc
@@ -44,6 +44,12 @@ std::optional<Record> Text_record_reader::decode_record(Memory_slice &chunk, boo
 
 bool Text_record_reader::skip_utf8_bom(Memory_slice &chunk, bool ignore_leftover) noexcept
 {
+    // A BOM can only be at the beginning of the stream; anywhere else the
+    // same bits are part of the text.
+    if (bom_checked_) {
+        return true;
+    }
+
     auto bits = as_span<const unsigned char>(chunk);
     if (bits.size() >= 3) {
         if (bits[0] == 0xEF && bits[1] == 0xBB && bits[2] == 0xBF) {
@@ -55,6 +61,9 @@ bool Text_record_reader::skip_utf8_bom(Memory_slice &chunk, bool ignore_leftover
             return false;
         }
     }
+
+    bom_checked_ = true;
+
     return true;
 }
 
-- 
2.43.0


From 897b0520cdc33641fb75d57e24da635f268d4387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 03/49] fix: reject only CSV rows that are longer than
 max_line_length

The check counted the line terminator (or half of it) and also rejected
rows that are exactly as long as the limit.
---
 src/mlio/record_readers/csv_record_reader.cc | 22 +++++++-------------
 src/mlio/record_readers/csv_record_reader.h  |  4 +---
 src/mlio/record_readers/detail/text_line.cc  | 13 +++++-------
 3 files changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/mlio/record_readers/csv_record_reader.cc b/src/mlio/record_readers/csv_record_reader.cc
index ceb959e..09d6904 100644
--- a/src/mlio/record_readers/csv_record_reader.cc
+++ b/src/mlio/record_readers/csv_record_reader.cc
@@ -187,10 +187,6 @@ has_carriage:
     goto new_line;  // NOLINT
 
 new_line : {
-    if (params_->max_line_length) {
-        check_line_length(chars, pos, *params_->max_line_length);
-    }
-
     auto offset = sizeof(char) * as_size(pos - chars.begin());
 
     Memory_slice payload;
@@ -201,15 +197,16 @@ new_line : {
         payload = chunk.first(offset - sizeof(char));
     }
 
+    check_line_length(payload.size() / sizeof(char));
+
     chunk = chunk.subslice(offset);
 
     return Record{std::move(payload)};
 }
 
 end:
-    if (params_->max_line_length) {
-        check_line_length(chars, pos, *params_->max_line_length);
-    }
+    // A trailing carriage is the beginning of a line terminator.
+    check_line_length(as_size(pos - chars.begin()) - (state == Parser_state::has_carriage ? 1 : 0));
 
     if (ignore_leftover) {
         return {};
@@ -252,14 +249,11 @@ inline bool Csv_record_reader::try_get_next_char(const stdx::span<const char> &c
     return true;
 }
 
-inline void Csv_record_reader::check_line_length(const stdx::span<const char> &chars,
-                                                 stdx::span<const char>::iterator &pos,
-                                                 std::size_t max_line_length)
+inline void Csv_record_reader::check_line_length(std::size_t line_length) const
 {
-    std::size_t num_chars_read = as_size(pos - chars.begin());
-    if (num_chars_read >= max_line_length) {
-        throw Record_too_large_error{
-            fmt::format("The text line exceeds the maximum length of {0:n}.", max_line_length)};
+    if (params_->max_line_length && line_length > *params_->max_line_length) {
+        throw Record_too_large_error{fmt::format("The text line exceeds the maximum length of {0:n}.",
+                                                 *params_->max_line_length)};
     }
 }
 
diff --git a/src/mlio/record_readers/csv_record_reader.h b/src/mlio/record_readers/csv_record_reader.h
index 594b6bc..a428bed 100644
--- a/src/mlio/record_readers/csv_record_reader.h
+++ b/src/mlio/record_readers/csv_record_reader.h
@@ -52,9 +52,7 @@ private:
                                   stdx::span<const char>::iterator &pos,
                                   char &chr) noexcept;
 
-    static void check_line_length(const stdx::span<const char> &chars,
-                                  stdx::span<const char>::iterator &pos,
-                                  std::size_t max_line_length);
+    void check_line_length(std::size_t line_length) const;
 
     const Csv_params *params_;
 };
diff --git a/src/mlio/record_readers/detail/text_line.cc b/src/mlio/record_readers/detail/text_line.cc
index c2fd542..057fa37 100644
--- a/src/mlio/record_readers/detail/text_line.cc
+++ b/src/mlio/record_readers/detail/text_line.cc
@@ -75,7 +75,10 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
 
     std::size_t num_chars_read = as_size(pos - chars.begin());
 
-    if (max_line_length && num_chars_read >= *max_line_length) {
+    // The line terminator is not part of the line.
+    std::size_t line_length = has_carriage ? num_chars_read - 1 : num_chars_read;
+
+    if (max_line_length && line_length > *max_line_length) {
         throw Record_too_large_error{
             fmt::format("The text line exceeds the maximum length of {0:n}.", *max_line_length)};
     }
@@ -86,13 +89,7 @@ read_line(Memory_slice &chunk, bool ignore_leftover, std::optional<std::size_t>
 
     auto offset = sizeof(char) * num_chars_read;
 
-    Memory_slice payload;
-    if (has_carriage) {
-        payload = chunk.first(offset - sizeof(char));
-    }
-    else {
-        payload = chunk.first(offset);
-    }
+    Memory_slice payload = chunk.first(sizeof(char) * line_length);
 
     // Check if we reached the end of the stream or encountered a
     // new-line character.
-- 
2.43.0


From 041b019e7b6e95601122d32420beee7ff70cf82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 04/49] fix: move a memory block to a file when the new size
 exceeds the threshold

The old size was compared instead, so that a block which was shrunk after
it had outgrown the threshold was copied into a smaller one.
---
 src/mlio/memory/file_backed_memory_allocator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mlio/memory/file_backed_memory_allocator.cc b/src/mlio/memory/file_backed_memory_allocator.cc
index 8816f49..b810563 100644
--- a/src/mlio/memory/file_backed_memory_allocator.cc
+++ b/src/mlio/memory/file_backed_memory_allocator.cc
@@ -77,7 +77,7 @@ void Hybrid_memory_block::resize(size_type size)
     // not true. Once we have a file-backed memory block there is no
     // need to move back to the heap; once initialized accessing a
     // file-backed memory region has no extra latency.
-    if (!file_backed_ && inner_->size() > oversize_threshold_) {
+    if (!file_backed_ && size > oversize_threshold_) {
         logger::debug(
             "The data is being moved from heap to file-backed memory block. Old size was {0:n} byte(s); new size is {1:n} bytes.",
             inner_->size(),
@@ -85,7 +85,7 @@ void Hybrid_memory_block::resize(size_type size)
 
         auto block = make_intrusive<File_backed_memory_block>(size);
 
-        std::copy(inner_->begin(), inner_->end(), block->begin());
+        std::copy_n(inner_->begin(), std::min(inner_->size(), size), block->begin());
 
         inner_ = std::move(block);
 
-- 
2.43.0


From 7a86e9fe78b73d453f416abb09438166ef8a8c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 05/49] fix: keep the position of a memory stream within its
 source

Seeking or reading by more than the address space allows wrapped around and
moved the position before the beginning of the source.
---
 src/mlio/streams/memory_input_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/streams/memory_input_stream.cc b/src/mlio/streams/memory_input_stream.cc
index 3cdd1a9..03f5df7 100644
--- a/src/mlio/streams/memory_input_stream.cc
+++ b/src/mlio/streams/memory_input_stream.cc
@@ -88,7 +88,7 @@ std::size_t Memory_input_stream::position() const
 
 void Memory_input_stream::advance_position(std::size_t distance) noexcept
 {
-    pos_ = std::min(pos_ + as_ssize(distance), source_.end());
+    pos_ += as_ssize(std::min(distance, as_size(source_.end() - pos_)));
 }
 
 void Memory_input_stream::check_if_closed() const
-- 
2.43.0


From 4059e40980d992f475816854498b7becfb1067b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 06/49] fix: convert short UTF-16 and UTF-32 texts read from
 non-seekable streams

The preamble bytes were mistaken for an incomplete character when the stream
had nothing after them.
---
 include/mlio/streams/utf8_input_stream.h |  1 +
 src/mlio/streams/utf8_input_stream.cc    | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/mlio/streams/utf8_input_stream.h b/include/mlio/streams/utf8_input_stream.h
index d78801c..48bdce8 100644
--- a/include/mlio/streams/utf8_input_stream.h
+++ b/include/mlio/streams/utf8_input_stream.h
@@ -88,6 +88,7 @@ private:
     Mutable_memory_block::iterator buffer_pos_{};
     Mutable_memory_block::iterator buffer_end_{};
     bool should_fill_buffer_ = true;
+    bool has_preamble_{};
     std::array<std::byte, 4> char_buffer_{};
     Memory_span remaining_bits_{};
 };
diff --git a/src/mlio/streams/utf8_input_stream.cc b/src/mlio/streams/utf8_input_stream.cc
index ba3b80a..7bcf5ad 100644
--- a/src/mlio/streams/utf8_input_stream.cc
+++ b/src/mlio/streams/utf8_input_stream.cc
@@ -134,16 +134,20 @@ std::size_t Utf8_input_stream::convert(Mutable_memory_span destination)
             if (buffer_pos_ == buffer_end_) {
                 // We reached the end of the stream; we should check if
                 // there are unconsumed bytes in the buffer that cannot
-                // be converted.
-                if (buffer_pos_ != buffer_->begin()) {
+                // be converted. A preamble has not been tried yet.
+                if (buffer_pos_ != buffer_->begin() && !has_preamble_) {
                     throw Stream_error{fmt::format(
                         "An invalid byte sequence encountered while converting from {0} to UTF-8.",
                         converter_->encoding().name())};
                 }
 
-                return 0;
+                if (!has_preamble_) {
+                    return 0;
+                }
             }
 
+            has_preamble_ = false;
+
             // If there were leftover bytes from the previous iteration
             // or call, we now have to reset the position back to the
             // beginning of the buffer.
@@ -219,6 +223,8 @@ void Utf8_input_stream::set_preamble(Memory_span value) noexcept
         // Otherwise put them into the buffer so they get converted by
         // the next call to read().
         buffer_pos_ = std::copy(value.begin(), value.end(), buffer_->begin());
+
+        has_preamble_ = !value.empty();
     }
 }
 
-- 
2.43.0


From 6f18a983d0c8df9acf7e809d649bf8c1a8e4f728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 07/49] fix: do not take a gzip header for the end of the
 stream

An inflate call that consumes input without having output made read() return
zero, so that callers ended early, and truncated data went unnoticed.
---
 src/mlio/streams/gzip_inflate_stream.cc | 42 ++++++++++++++-----------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/mlio/streams/gzip_inflate_stream.cc b/src/mlio/streams/gzip_inflate_stream.cc
index a89b3d6..acb6a22 100644
--- a/src/mlio/streams/gzip_inflate_stream.cc
+++ b/src/mlio/streams/gzip_inflate_stream.cc
@@ -43,30 +43,36 @@ std::size_t Gzip_inflate_stream::read(Mutable_memory_span destination)
         return 0;
     }
 
-    if (buffer_pos_ == buffer_.end()) {
-        buffer_ = inner_->read(0x8'0000);  // 512 KiB
-
-        // Make sure to reset the position before checking whether we
-        // reached the end of the stream; otherwise the function won't
-        // behave correctly if called a second time.
-        buffer_pos_ = buffer_.begin();
+    auto out = destination;
 
-        if (buffer_.empty()) {
-            if (!inflater_->eof()) {
-                throw Inflate_error{"The zlib stream contains invalid or incomplete deflate data."};
+    // Inflating might consume its input (e.g. a header) without having any
+    // output; as returning zero means the end of the stream, carry on until
+    // there is some.
+    while (out.size() == destination.size()) {
+        if (buffer_pos_ == buffer_.end()) {
+            buffer_ = inner_->read(0x8'0000);  // 512 KiB
+
+            // Make sure to reset the position before checking whether we
+            // reached the end of the stream; otherwise the function won't
+            // behave correctly if called a second time.
+            buffer_pos_ = buffer_.begin();
+
+            if (buffer_.empty()) {
+                if (!inflater_->eof()) {
+                    throw Inflate_error{
+                        "The zlib stream contains invalid or incomplete deflate data."};
+                }
+
+                return 0;
             }
-
-            return 0;
         }
-    }
 
-    Memory_span inp{buffer_pos_, buffer_.end()};
+        Memory_span inp{buffer_pos_, buffer_.end()};
 
-    auto out = destination;
-
-    inflater_->inflate(inp, out);
+        inflater_->inflate(inp, out);
 
-    buffer_pos_ = buffer_.end() - stdx::ssize(inp);
+        buffer_pos_ = buffer_.end() - stdx::ssize(inp);
+    }
 
     return destination.size() - out.size();
 }
-- 
2.43.0


From 76d9c93cd9bc759a409f9ba4a47d813cc058bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 08/49] fix: release a SageMaker pipe channel only once

Closing a closed stream again, which its destructor does too, put the
stream's stale FIFO id back although the channel might be in use by
another stream by then, so that the same FIFO could be opened twice.
Refuse to wait for a descriptor that does not fit into an fd_set.
---
 src/mlio/streams/sagemaker_pipe_input_stream.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mlio/streams/sagemaker_pipe_input_stream.cc b/src/mlio/streams/sagemaker_pipe_input_stream.cc
index 2177c9f..8453da1 100644
--- a/src/mlio/streams/sagemaker_pipe_input_stream.cc
+++ b/src/mlio/streams/sagemaker_pipe_input_stream.cc
@@ -111,7 +111,13 @@ void Sagemaker_pipe_input_stream::close() noexcept
 {
     fifo_fd_ = {};
 
-    detail::fifo_ids_[path_].exchange(fifo_id_);
+    // Release the channel only once; by the time a closed stream gets
+    // closed again the channel might be in use by another stream.
+    if (fifo_id_ != -1) {
+        detail::fifo_ids_[path_].exchange(fifo_id_);
+
+        fifo_id_ = -1;
+    }
 }
 
 Sagemaker_pipe_input_stream::Sagemaker_pipe_input_stream(std::string &&path,
@@ -191,6 +197,14 @@ void Sagemaker_pipe_input_stream::sleep() noexcept
 
 void Sagemaker_pipe_input_stream::wait_for_data()
 {
+    // A descriptor that does not fit into an fd_set would be written
+    // beyond its end.
+    if (fifo_fd_.get() >= FD_SETSIZE) {
+        std::error_code err = std::make_error_code(std::errc::too_many_files_open);
+        throw std::system_error{
+            err, fmt::format("FIFO {0:n} of the SageMaker pipe channel cannot be read.", fifo_id_)};
+    }
+
     ::fd_set readfds{};
     // NOLINTNEXTLINE(readability-isolate-declaration)
     FD_ZERO(&readfds);
-- 
2.43.0


From 9943f90836991aa4112ccb949d2ecb2d483d5769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:22 +0000
Subject: [PATCH 09/49] fix: do not report a string that is no unsigned number
 as an overflow

Abseil leaves 0 behind when it cannot parse a string, which was taken for
an overflow towards the minimum of the unsigned types.
---
 src/mlio/util/number.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mlio/util/number.cc b/src/mlio/util/number.cc
index c12c2ff..ad891f3 100644
--- a/src/mlio/util/number.cc
+++ b/src/mlio/util/number.cc
@@ -82,12 +82,15 @@ template<typename T>
 std::enable_if_t<sizeof(T) >= 4, Parse_result>
 try_parse_int_core(std::string_view s, T &result, const Int_parse_options &) noexcept
 {
-    // Do not use 0; otherwise we cannot distinguish between a failure
-    // and an overflow for unsigned types.
     T v = 1;
 
     if (!parser_traits<T>::parse_func(s, &v)) {
-        if (v == std::numeric_limits<T>::max() || v == std::numeric_limits<T>::min()) {
+        if (v == std::numeric_limits<T>::max()) {
+            return Parse_result::overflowed;
+        }
+        // An unsigned number cannot overflow towards its minimum; there
+        // 0 indicates that the string does not hold a number at all.
+        if (std::is_signed_v<T> && v == std::numeric_limits<T>::min()) {
             return Parse_result::overflowed;
         }
         return Parse_result::failed;
-- 
2.43.0


From 7e9dc8277edba3d6b6597007fac1cd62f4319e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 10/49] fix: check the size of a tensor without overflowing

Shapes and strides whose product does not fit into 64 bits wrapped around,
so that a tensor could extend beyond its data, and tensors with an empty
dimension could be rejected. The CSR tensor read the size of an array
that it had already moved from.
---
 src/mlio/tensor.cc | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/mlio/tensor.cc b/src/mlio/tensor.cc
index fcfd1b6..6df4af3 100644
--- a/src/mlio/tensor.cc
+++ b/src/mlio/tensor.cc
@@ -15,7 +15,7 @@
 
 #include "mlio/tensor.h"
 
-#include <cstdlib>
+#include <limits>
 #include <stdexcept>
 
 #include <fmt/format.h>
@@ -64,7 +64,14 @@ Ssize_vector Tensor::default_strides(const Size_vector &shape)
 
     auto d = shape.rbegin();
     for (auto s = strides.rbegin() + 1; s < strides.rend(); ++s, ++d) {
-        *s = *(s - 1) * as_ssize(*d);
+        constexpr std::size_t max_stride = std::numeric_limits<std::ptrdiff_t>::max();
+
+        std::size_t stride = as_size(*(s - 1));
+        if (stride != 0 && *d > max_stride / stride) {
+            throw std::invalid_argument{"The specified shape is too large."};
+        }
+
+        *s = as_ssize(stride * *d);
     }
 
     return strides;
@@ -99,17 +106,39 @@ void Dense_tensor::validate_data_size() const
         return;
     }
 
+    // A tensor with an empty dimension has no elements at all.
+    for (std::size_t dim : shape()) {
+        if (dim == 0) {
+            return;
+        }
+    }
+
     auto stride_pos = strides().begin();
 
-    std::size_t last_idx = 0;
+    bool fits = !data_->empty();
+
+    // The number of elements that can follow the first one.
+    std::size_t room = fits ? data_->size() - 1 : 0;
+
     for (std::size_t dim : shape()) {
-        last_idx += (dim - 1) * as_size(std::abs(*stride_pos));
+        std::size_t stride = as_size(*stride_pos);
+        if (*stride_pos < 0) {
+            stride = 0 - stride;
+        }
+
+        // Beware of an overflow if the dimension or stride is too large.
+        if (fits && stride != 0 && dim - 1 > room / stride) {
+            fits = false;
+        }
+
+        if (fits) {
+            room -= (dim - 1) * stride;
+        }
 
         ++stride_pos;
     }
 
-    std::size_t expected_size = last_idx + 1;
-    if (expected_size > data_->size()) {
+    if (!fits) {
         throw std::invalid_argument{
             "The size of the data array does not match the specified shape."};
     }
@@ -181,7 +210,7 @@ Csr_tensor::Csr_tensor(Size_vector shape,
         num_rows = shp[0];
     }
 
-    if (indptr->size() != num_rows + 1) {
+    if (indptr_->size() != num_rows + 1) {
         throw std::invalid_argument{
             "The size of the index pointer array does not match the size of the row dimension."};
     }
-- 
2.43.0


From fdc5a7e4a40486a5fb77a59f41d2ca9d2d603c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 11/49] fix: pad the last example if pad_warn is specified

---
 src/mlio/instance_batch_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance_batch_reader.cc b/src/mlio/instance_batch_reader.cc
index 84e1917..9ece789 100644
--- a/src/mlio/instance_batch_reader.cc
+++ b/src/mlio/instance_batch_reader.cc
@@ -75,7 +75,8 @@ std::optional<Instance_batch> Instance_batch_reader::read_instance_batch()
     }
 
     std::size_t size{};
-    if (params_->last_example_handling == Last_example_handling::pad) {
+    if (params_->last_example_handling == Last_example_handling::pad ||
+        params_->last_example_handling == Last_example_handling::pad_warn) {
         size = params_->batch_size;
     }
     else {
-- 
2.43.0


From 4f1862d1face5b8540d344212184a47e2a5eee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 12/49] fix: leave nothing of a bad instance behind in a padded
 example

The values of a bad instance that had been decoded before the failure
stayed in the padding, and shifted the rows of the sparse features by one.
---
 src/mlio/coo_tensor_builder.cc       | 19 +++++++++++
 src/mlio/coo_tensor_builder.h        | 14 ++++++++
 src/mlio/csv_reader.cc               |  6 ++++
 src/mlio/detail/tensor.h             | 50 ++++++++++++++++++++++++++++
 src/mlio/recordio_protobuf_reader.cc | 21 ++++++++++++
 5 files changed, 110 insertions(+)
 create mode 100644 src/mlio/detail/tensor.h

diff --git a/src/mlio/coo_tensor_builder.cc b/src/mlio/coo_tensor_builder.cc
index fb514e7..020a800 100644
--- a/src/mlio/coo_tensor_builder.cc
+++ b/src/mlio/coo_tensor_builder.cc
@@ -15,6 +15,8 @@
 
 #include "mlio/coo_tensor_builder.h"
 
+#include <algorithm>
+
 #include "mlio/util/cast.h"
 
 namespace mlio {
@@ -73,6 +75,23 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
     return true;
 }
 
+std::size_t Coo_tensor_builder::truncate_indices(std::size_t num_rows)
+{
+    std::vector<std::size_t> &rows = coordinates_[0];
+
+    auto pos = std::lower_bound(rows.begin(), rows.end(), num_rows);
+
+    auto num_values = as_size(pos - rows.begin());
+
+    for (std::vector<std::size_t> &indices : coordinates_) {
+        indices.resize(num_values);
+    }
+
+    row_idx_ = num_rows;
+
+    return num_values;
+}
+
 Intrusive_ptr<Tensor> Coo_tensor_builder::build_core(std::unique_ptr<Device_array> &&data)
 {
     // Wrap index lists into device arrays.
diff --git a/src/mlio/coo_tensor_builder.h b/src/mlio/coo_tensor_builder.h
index 9f4d3d8..7478692 100644
--- a/src/mlio/coo_tensor_builder.h
+++ b/src/mlio/coo_tensor_builder.h
@@ -47,11 +47,17 @@ public:
 
     virtual ~Coo_tensor_builder();
 
+    /// Discards everything that was appended to the rows starting from
+    /// @p num_rows, including the values of a failed append operation.
+    virtual void truncate(std::size_t num_rows) = 0;
+
     virtual Intrusive_ptr<Tensor> build() = 0;
 
 protected:
     bool append_indices(stdx::span<const std::uint64_t> indices);
 
+    std::size_t truncate_indices(std::size_t num_rows);
+
     Intrusive_ptr<Tensor> build_core(std::unique_ptr<Device_array> &&data);
 
 private:
@@ -70,6 +76,8 @@ public:
 
     bool append(stdx::span<const value_type> values, stdx::span<const std::uint64_t> indices);
 
+    void truncate(std::size_t num_rows) final;
+
     Intrusive_ptr<Tensor> build() final;
 
 private:
@@ -85,6 +93,12 @@ bool Coo_tensor_builder_impl<dt>::append(stdx::span<const value_type> values,
     return append_indices(indices);
 }
 
+template<Data_type dt>
+void Coo_tensor_builder_impl<dt>::truncate(std::size_t num_rows)
+{
+    data_.resize(truncate_indices(num_rows));
+}
+
 template<Data_type dt>
 Intrusive_ptr<Tensor> Coo_tensor_builder_impl<dt>::build()
 {
diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 3177993..2a4d99b 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -31,6 +31,7 @@
 #include "mlio/data_reader.h"
 #include "mlio/data_reader_error.h"
 #include "mlio/data_stores/data_store.h"
+#include "mlio/detail/tensor.h"
 #include "mlio/example.h"
 #include "mlio/instance.h"
 #include "mlio/instance_batch.h"
@@ -551,6 +552,11 @@ Csv_reader::decode_ser(Decoder_state &state, const Instance_batch &batch) const
                 params().bad_example_handling != Bad_example_handling::pad_warn) {
                 throw std::invalid_argument{"The specified bad example handling is invalid."};
             }
+
+            // Do not leave anything of the bad row behind.
+            for (Intrusive_ptr<Tensor> &tensor : *state.tensors) {
+                detail::clear_row(static_cast<Dense_tensor &>(*tensor), row_idx);
+            }
         }
     }
 
diff --git a/src/mlio/detail/tensor.h b/src/mlio/detail/tensor.h
new file mode 100644
index 0000000..49bf0f1
--- /dev/null
+++ b/src/mlio/detail/tensor.h
@@ -0,0 +1,50 @@
+/*
+ * Copyright 2019-2020 Amazon.com, Inc. or its affiliates. All Rights Reserved.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License"). You
+ * may not use this file except in compliance with the License. A copy of
+ * the License is located at
+ *
+ *      http://aws.amazon.com/apache2.0/
+ *
+ * or in the "license" file accompanying this file. This file is
+ * distributed on an "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF
+ * ANY KIND, either express or implied. See the License for the specific
+ * language governing permissions and limitations under the License.
+ */
+
+#pragma once
+
+#include <algorithm>
+#include <cstddef>
+
+#include "mlio/data_type.h"
+#include "mlio/tensor.h"
+#include "mlio/util/cast.h"
+
+namespace mlio {
+inline namespace abi_v1 {
+namespace detail {
+
+template<Data_type dt>
+struct clear_row_op {
+    void operator()(Dense_tensor &tensor, std::size_t row_idx)
+    {
+        std::ptrdiff_t num_values = tensor.strides()[0];
+
+        auto data = tensor.data().as<data_type_t<dt>>();
+
+        std::fill_n(
+            data.begin() + as_ssize(row_idx) * num_values, num_values, data_type_t<dt>{});
+    }
+};
+
+/// Zeroes the values of a single row of a batch.
+inline void clear_row(Dense_tensor &tensor, std::size_t row_idx)
+{
+    dispatch<clear_row_op>(tensor.data_type(), tensor, row_idx);
+}
+
+}  // namespace detail
+}  // namespace abi_v1
+}  // namespace mlio
diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index f9a5d4b..0027f4c 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -29,6 +29,7 @@
 #include "mlio/cpu_array.h"
 #include "mlio/data_reader_error.h"
 #include "mlio/detail/protobuf/recordio_protobuf.pb.h"
+#include "mlio/detail/tensor.h"
 #include "mlio/instance.h"
 #include "mlio/instance_batch.h"
 #include "mlio/logger.h"
@@ -57,6 +58,8 @@ class Recordio_protobuf_reader::Decoder_state {
 public:
     explicit Decoder_state(const Recordio_protobuf_reader &r, std::size_t batch_size);
 
+    void discard_row(std::size_t row_idx);
+
     const Recordio_protobuf_reader *reader;
     bool warn_bad_instance;
     bool error_bad_example;
@@ -361,6 +364,9 @@ Recordio_protobuf_reader::decode_serial(Decoder_state &state, const Instance_bat
                 params().bad_example_handling != Bad_example_handling::pad_warn) {
                 throw std::invalid_argument{"The specified bad example handling is invalid."};
             }
+
+            // Do not leave anything of the bad instance behind.
+            state.discard_row(row_idx);
         }
     }
 
@@ -429,6 +435,21 @@ Recordio_protobuf_reader::Decoder_state::Decoder_state(const Recordio_protobuf_r
     init_state(*r.schema(), batch_size);
 }
 
+void Recordio_protobuf_reader::Decoder_state::discard_row(std::size_t row_idx)
+{
+    for (Intrusive_ptr<Tensor> &tensor : tensors) {
+        if (tensor != nullptr) {
+            detail::clear_row(static_cast<Dense_tensor &>(*tensor), row_idx);
+        }
+    }
+
+    for (std::unique_ptr<Coo_tensor_builder> &builder : coo_tensor_builders) {
+        if (builder != nullptr) {
+            builder->truncate(row_idx);
+        }
+    }
+}
+
 void Recordio_protobuf_reader::Decoder_state::init_state(const Schema &schema,
                                                          std::size_t batch_size)
 {
-- 
2.43.0


From 256bb488586f39d66f5542c10fd0f47ea4eefda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 13/49] fix: do not divide by zero if a sparse feature has an
 empty dimension

---
 src/mlio/coo_tensor_builder.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mlio/coo_tensor_builder.cc b/src/mlio/coo_tensor_builder.cc
index 020a800..eb3ce3d 100644
--- a/src/mlio/coo_tensor_builder.cc
+++ b/src/mlio/coo_tensor_builder.cc
@@ -55,6 +55,12 @@ bool Coo_tensor_builder::append_indices(stdx::span<const std::uint64_t> indices)
         for (auto zip_pos = zip_beg; zip_pos < zip_end; ++zip_pos) {
             std::size_t stride = as_size(std::get<1>(*zip_pos));
 
+            // A stride of zero means that one of the dimensions is empty
+            // and that there are no valid indices.
+            if (stride == 0) {
+                return false;
+            }
+
             std::size_t dim_idx = idx / stride;
 
             // Make sure that the index is within the dimension.
-- 
2.43.0


From 35c32f313cde592cc9cf527611049ae1b31a176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 14/49] fix: reject an instance that has two features with the
 same name

A label and a feature can get the same name; counting both hid that another
feature is missing.
---
 src/mlio/recordio_protobuf_reader.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 0027f4c..35bb38b 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -106,6 +106,7 @@ private:
     std::size_t row_idx_{};
     std::size_t attr_idx_{};
     const Attribute *attr_{};
+    std::vector<bool> decoded_attrs_{};
 };
 
 Recordio_protobuf_reader::Recordio_protobuf_reader(Data_reader_params params)
@@ -503,6 +504,8 @@ bool Recordio_protobuf_reader::Decoder::decode(std::size_t row_idx, const Instan
 
     instance_ = &instance;
 
+    decoded_attrs_.assign(state_->reader->schema()->attributes().size(), false);
+
     const aialgs::data::Record *proto_msg = parse_proto(instance);
     if (proto_msg == nullptr) {
         return false;
@@ -609,6 +612,29 @@ bool Recordio_protobuf_reader::Decoder::decode_feature(const std::string &name,
 
     attr_ = &schema->attributes()[attr_idx_];
 
+    // A label and a feature can end up with the same name.
+    if (decoded_attrs_[attr_idx_]) {
+        if (state_->warn_bad_instance || state_->error_bad_example) {
+            auto msg = fmt::format(
+                "The instance #{1:n} in the data store '{0}' has more than one feature named '{2}'.",
+                instance_->data_store().id(),
+                instance_->index(),
+                name);
+
+            if (state_->warn_bad_instance) {
+                logger::warn(msg);
+            }
+
+            if (state_->error_bad_example) {
+                throw Invalid_instance_error{msg};
+            }
+        }
+
+        return false;
+    }
+
+    decoded_attrs_[attr_idx_] = true;
+
     switch (value.value_case()) {
     case aialgs::data::Value::ValueCase::kFloat32Tensor:
         return decode_feature<Data_type::float32>(value.float32_tensor());
-- 
2.43.0


From b747b67cb9b5c89fdd3a2b8e59f028976d3c8a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 15/49] fix: throw out_of_range for the indices of an invalid
 dimension

The noexcept specifier turned the exception into a call of terminate().
---
 include/mlio/tensor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mlio/tensor.h b/include/mlio/tensor.h
index 22590d3..a91a9cd 100644
--- a/include/mlio/tensor.h
+++ b/include/mlio/tensor.h
@@ -157,12 +157,12 @@ public:
         return Device_array_view{*data_};
     }
 
-    Device_array_span indices(std::size_t dim) noexcept
+    Device_array_span indices(std::size_t dim)
     {
         return *coordinates_.at(dim);
     }
 
-    Device_array_view indices(std::size_t dim) const noexcept
+    Device_array_view indices(std::size_t dim) const
     {
         return *coordinates_.at(dim);
     }
-- 
2.43.0


From 740d13178928b3dc8da80e9b697f5c13b07a88e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 16/49] fix: reject a sample ratio that is not a number

---
 src/mlio/instance_readers/sampled_instance_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance_readers/sampled_instance_reader.cc b/src/mlio/instance_readers/sampled_instance_reader.cc
index 58adb46..32bf86d 100644
--- a/src/mlio/instance_readers/sampled_instance_reader.cc
+++ b/src/mlio/instance_readers/sampled_instance_reader.cc
@@ -27,7 +27,8 @@ Sampled_instance_reader::Sampled_instance_reader(const Data_reader_params &param
                                                  std::unique_ptr<Instance_reader> &&inner)
     : params_{&params}, inner_{std::move(inner)}
 {
-    if (params_->sample_ratio <= 0.0F || params_->sample_ratio >= 1.0F) {
+    // Written so that it does not let NaN through either.
+    if (!(params_->sample_ratio > 0.0F && params_->sample_ratio < 1.0F)) {
         throw std::invalid_argument{"The sample ratio must be greater than 0 and less than 1."};
     }
 
-- 
2.43.0


From da70d6bca50acdd9d1067565e7eb2b509883252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 17/49] fix: infer the schema of a CSV dataset anew after a
 failed attempt

---
 src/mlio/csv_reader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 2a4d99b..7d72169 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -188,6 +188,9 @@ Intrusive_ptr<const Schema> Csv_reader::infer_schema(const std::optional<Instanc
 
 void Csv_reader::infer_column_types(const std::optional<Instance> &instance)
 {
+    // Leave nothing behind of an earlier attempt that failed.
+    column_types_.clear();
+
     // If we don't have any data rows, assume that all fields are of the
     // default data type or of type string.
     if (instance == std::nullopt) {
@@ -331,7 +334,10 @@ Intrusive_ptr<const Schema> Csv_reader::init_parsers_and_make_schema()
 
     std::size_t num_columns = column_names_.size();
 
+    column_ignores_.clear();
     column_ignores_.reserve(num_columns);
+
+    column_parsers_.clear();
     column_parsers_.reserve(num_columns);
 
     auto idx_beg = tbb::counting_iterator<std::size_t>(0);
-- 
2.43.0


From 1647a7807552a412f57ff2ec80a7ecae0e9b5d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 18/49] fix: treat a CSV row with an unclosed quote as a bad
 instance

---
 src/mlio/csv_reader.cc | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 7d72169..502d935 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -74,6 +74,8 @@ public:
     bool decode(std::size_t row_idx, const Instance &instance);
 
 private:
+    bool decode_fields(std::size_t row_idx, const Instance &instance);
+
     Decoder_state *state_;
     Csv_record_tokenizer *tokenizer_;
     Col_iter col_beg_;
@@ -637,6 +639,31 @@ Csv_reader::Decoder_state::Decoder_state(const Csv_reader &r,
 
 template<typename Col_iter>
 bool Csv_reader::Decoder<Col_iter>::decode(std::size_t row_idx, const Instance &instance)
+{
+    try {
+        return decode_fields(row_idx, instance);
+    }
+    catch (const Corrupt_record_error &) {
+        if (state_->warn_bad_instance || state_->error_bad_example) {
+            auto msg = fmt::format("The row #{1:n} in the data store '{0}' is corrupt.",
+                                   instance.data_store().id(),
+                                   instance.index());
+
+            if (state_->warn_bad_instance) {
+                logger::warn(msg);
+            }
+
+            if (state_->error_bad_example) {
+                std::throw_with_nested(Invalid_instance_error{msg});
+            }
+        }
+
+        return false;
+    }
+}
+
+template<typename Col_iter>
+bool Csv_reader::Decoder<Col_iter>::decode_fields(std::size_t row_idx, const Instance &instance)
 {
     auto col_pos = col_beg_;
 
-- 
2.43.0


From 3577ea4acbe1811a4f4daa0717b747c6d1af9dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 19/49] fix: take no column names from a corrupt CSV header

---
 src/mlio/csv_reader.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 502d935..4db1b82 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -135,6 +135,8 @@ void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &
             return;
         }
 
+        std::vector<std::string> names{};
+
         Csv_record_tokenizer tokenizer{params_, hdr->payload()};
         while (tokenizer.next()) {
             std::string name;
@@ -144,8 +146,11 @@ void Csv_reader::read_names_from_header(const Data_store &store, Record_reader &
             else {
                 name = params_.name_prefix + tokenizer.value();
             }
-            column_names_.emplace_back(std::move(name));
+            names.emplace_back(std::move(name));
         }
+
+        // Take no names from a corrupt header.
+        column_names_ = std::move(names);
     }
     catch (const Corrupt_record_error &) {
         std::throw_with_nested(Schema_error{fmt::format(
-- 
2.43.0


From af6da522513704a5429ef8e5d439a89dd6523bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 20/49] hook: let the verification build choose the cut-off of
 parallel CSV decoding

---
 src/mlio/csv_reader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 4db1b82..63c01c6 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -435,7 +435,11 @@ Intrusive_ptr<Example> Csv_reader::decode(const Instance_batch &batch) const
 
     std::size_t num_instances = batch.instances().size();
 
+#ifdef MLIO_VERIF_CSV_CUT_OFF
+    const std::size_t cut_off = MLIO_VERIF_CSV_CUT_OFF;
+#else
     constexpr std::size_t cut_off = 10'000'000;
+#endif
 
     bool should_run_serial =
         // If bad example handling mode is pad, we cannot parallelize
-- 
2.43.0


From 7ece92ea09fc4e1c8b3c8059bd879b66eb8686ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 21/49] fix: report a split record left open at the end of the
 dataset

---
 src/mlio/instance_readers/core_instance_reader.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mlio/instance_readers/core_instance_reader.cc b/src/mlio/instance_readers/core_instance_reader.cc
index c70c0a9..4b8e61f 100644
--- a/src/mlio/instance_readers/core_instance_reader.cc
+++ b/src/mlio/instance_readers/core_instance_reader.cc
@@ -126,6 +126,8 @@ Core_instance_reader::read_split_record_payload(std::optional<Record> record)
 
     std::size_t payload_size = 0;
 
+    Data_store *store = store_;
+
     // A split record must start with a 'begin' record...
     if (record->kind() == Record_kind::begin) {
         payload_size += record->payload().size();
@@ -150,6 +152,12 @@ Core_instance_reader::read_split_record_payload(std::optional<Record> record)
         records.emplace_back(std::move(*record));
     }
     else {
+        // If we have reached the end of the dataset, there is no data
+        // store anymore to which we can attribute the error.
+        if (store_ == nullptr) {
+            store_ = store;
+        }
+
         throw_corrupt_split_record_error();
     }
 
-- 
2.43.0


From 2c98809efbf175cfc0a853e81fb0421e654d0666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 22/49] fix: keep the position of instance readers when their
 inner reader fails

---
 .../instance_readers/ranged_instance_reader.cc | 18 +++++++++---------
 .../instance_readers/ranged_instance_reader.h  |  2 +-
 .../sampled_instance_reader.cc                 | 14 ++++++++++++--
 .../instance_readers/sampled_instance_reader.h |  1 +
 .../sharded_instance_reader.cc                 | 18 ++++++++++++++----
 .../instance_readers/sharded_instance_reader.h |  1 +
 6 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/mlio/instance_readers/ranged_instance_reader.cc b/src/mlio/instance_readers/ranged_instance_reader.cc
index cacf3d6..e083b56 100644
--- a/src/mlio/instance_readers/ranged_instance_reader.cc
+++ b/src/mlio/instance_readers/ranged_instance_reader.cc
@@ -31,15 +31,15 @@ Ranged_instance_reader::Ranged_instance_reader(const Data_reader_params &params,
 
 std::optional<Instance> Ranged_instance_reader::read_instance_core()
 {
-    if (first_read_) {
-        first_read_ = false;
-
-        for (std::size_t i = 0; i < params_->num_instances_to_skip; i++) {
-            std::optional<Instance> instance = inner_->read_instance();
-            if (instance == std::nullopt) {
-                return {};
-            }
+    // Count the skipped instances one by one; otherwise we would lose our
+    // position if the inner reader throws an exception.
+    while (num_instances_skipped_ < params_->num_instances_to_skip) {
+        std::optional<Instance> instance = inner_->read_instance();
+        if (instance == std::nullopt) {
+            return {};
         }
+
+        num_instances_skipped_++;
     }
 
     if (should_stop_reading()) {
@@ -69,7 +69,7 @@ void Ranged_instance_reader::reset_core() noexcept
 {
     inner_->reset();
 
-    first_read_ = true;
+    num_instances_skipped_ = 0;
 
     num_instances_read_ = 0;
 }
diff --git a/src/mlio/instance_readers/ranged_instance_reader.h b/src/mlio/instance_readers/ranged_instance_reader.h
index 4322b72..84199fe 100644
--- a/src/mlio/instance_readers/ranged_instance_reader.h
+++ b/src/mlio/instance_readers/ranged_instance_reader.h
@@ -41,7 +41,7 @@ private:
 
     const Data_reader_params *params_;
     std::unique_ptr<Instance_reader> inner_;
-    bool first_read_ = true;
+    std::size_t num_instances_skipped_{};
     std::size_t num_instances_read_{};
 };
 
diff --git a/src/mlio/instance_readers/sampled_instance_reader.cc b/src/mlio/instance_readers/sampled_instance_reader.cc
index 32bf86d..d24ffa1 100644
--- a/src/mlio/instance_readers/sampled_instance_reader.cc
+++ b/src/mlio/instance_readers/sampled_instance_reader.cc
@@ -39,7 +39,7 @@ Sampled_instance_reader::Sampled_instance_reader(const Data_reader_params &param
 
 std::optional<Instance> Sampled_instance_reader::read_instance_core()
 {
-    if (buffer_pos_ == buffer_.end()) {
+    if (filling_buffer_ || buffer_pos_ == buffer_.end()) {
         fill_buffer_from_inner();
     }
 
@@ -52,7 +52,13 @@ std::optional<Instance> Sampled_instance_reader::read_instance_core()
 
 void Sampled_instance_reader::fill_buffer_from_inner()
 {
-    buffer_.clear();
+    // If the inner reader has thrown an exception while we were filling
+    // the buffer, we continue with the instances read so far.
+    if (!filling_buffer_) {
+        buffer_.clear();
+
+        filling_buffer_ = true;
+    }
 
     while (buffer_.size() < num_instances_to_read_) {
         std::optional<Instance> instance = inner_->read_instance();
@@ -71,6 +77,8 @@ void Sampled_instance_reader::fill_buffer_from_inner()
     }
 
     buffer_pos_ = buffer_.begin();
+
+    filling_buffer_ = false;
 }
 
 void Sampled_instance_reader::reset_core() noexcept
@@ -80,6 +88,8 @@ void Sampled_instance_reader::reset_core() noexcept
     buffer_.clear();
 
     buffer_pos_ = buffer_.end();
+
+    filling_buffer_ = false;
 }
 
 }  // namespace detail
diff --git a/src/mlio/instance_readers/sampled_instance_reader.h b/src/mlio/instance_readers/sampled_instance_reader.h
index c14ed1b..9564744 100644
--- a/src/mlio/instance_readers/sampled_instance_reader.h
+++ b/src/mlio/instance_readers/sampled_instance_reader.h
@@ -47,6 +47,7 @@ private:
     std::unique_ptr<Instance_reader> inner_;
     std::vector<std::optional<Instance>> buffer_{};
     std::vector<std::optional<Instance>>::iterator buffer_pos_{};
+    bool filling_buffer_{};
 };
 
 }  // namespace detail
diff --git a/src/mlio/instance_readers/sharded_instance_reader.cc b/src/mlio/instance_readers/sharded_instance_reader.cc
index 1ab1c17..a763e72 100644
--- a/src/mlio/instance_readers/sharded_instance_reader.cc
+++ b/src/mlio/instance_readers/sharded_instance_reader.cc
@@ -38,22 +38,30 @@ std::optional<Instance> Sharded_instance_reader::read_instance_core()
     std::size_t num_instances_to_skip{};
 
     if (first_read_) {
-        first_read_ = false;
-
         num_instances_to_skip = params_->shard_index;
     }
     else {
         num_instances_to_skip = params_->num_shards - 1;
     }
 
-    for (std::size_t i = 0; i < num_instances_to_skip; i++) {
+    // Count the skipped instances one by one; otherwise we would lose our
+    // position if the inner reader throws an exception.
+    while (num_instances_skipped_ < num_instances_to_skip) {
         std::optional<Instance> instance = inner_->read_instance();
         if (instance == std::nullopt) {
             return {};
         }
+
+        num_instances_skipped_++;
     }
 
-    return inner_->read_instance();
+    std::optional<Instance> instance = inner_->read_instance();
+
+    first_read_ = false;
+
+    num_instances_skipped_ = 0;
+
+    return instance;
 }
 
 void Sharded_instance_reader::reset_core() noexcept
@@ -61,6 +69,8 @@ void Sharded_instance_reader::reset_core() noexcept
     inner_->reset();
 
     first_read_ = true;
+
+    num_instances_skipped_ = 0;
 }
 
 }  // namespace detail
diff --git a/src/mlio/instance_readers/sharded_instance_reader.h b/src/mlio/instance_readers/sharded_instance_reader.h
index 22180af..689eb80 100644
--- a/src/mlio/instance_readers/sharded_instance_reader.h
+++ b/src/mlio/instance_readers/sharded_instance_reader.h
@@ -40,6 +40,7 @@ private:
     const Data_reader_params *params_;
     std::unique_ptr<Instance_reader> inner_;
     bool first_read_ = true;
+    std::size_t num_instances_skipped_{};
 };
 
 }  // namespace detail
-- 
2.43.0


From 11a574e17652d8273b9c59e28e71ea688007c153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 23/49] hook: choose the cut-off of parallel RecordIO-protobuf
 decoding, too

---
 src/mlio/csv_reader.cc               | 4 ++--
 src/mlio/recordio_protobuf_reader.cc | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mlio/csv_reader.cc b/src/mlio/csv_reader.cc
index 63c01c6..4a8d798 100644
--- a/src/mlio/csv_reader.cc
+++ b/src/mlio/csv_reader.cc
@@ -435,8 +435,8 @@ Intrusive_ptr<Example> Csv_reader::decode(const Instance_batch &batch) const
 
     std::size_t num_instances = batch.instances().size();
 
-#ifdef MLIO_VERIF_CSV_CUT_OFF
-    const std::size_t cut_off = MLIO_VERIF_CSV_CUT_OFF;
+#ifdef MLIO_VERIF_CUT_OFF
+    const std::size_t cut_off = MLIO_VERIF_CUT_OFF;
 #else
     constexpr std::size_t cut_off = 10'000'000;
 #endif
diff --git a/src/mlio/recordio_protobuf_reader.cc b/src/mlio/recordio_protobuf_reader.cc
index 35bb38b..4a9a644 100644
--- a/src/mlio/recordio_protobuf_reader.cc
+++ b/src/mlio/recordio_protobuf_reader.cc
@@ -272,7 +272,11 @@ Intrusive_ptr<Example> Recordio_protobuf_reader::decode(const Instance_batch &ba
 
     std::size_t num_instances = batch.instances().size();
 
+#ifdef MLIO_VERIF_CUT_OFF
+    const std::size_t cut_off = MLIO_VERIF_CUT_OFF;
+#else
     constexpr std::size_t cut_off = 10'000'000;
+#endif
 
     bool should_run_serial =
         // If we have any sparse features, we cannot decode the example
-- 
2.43.0


From f47196f247b3b49c785c84ec53aaa6ab08836dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 24/49] fix: format the message of a failed image resize

---
 src/mlio/image_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index cf9e9fb..7b7cb36 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -313,7 +313,7 @@ bool Image_reader::resize(cv::Mat &src, cv::Mat &dst, const Instance &instance)
     catch (const cv::Exception &e) {
         if (warn_bad_instances() || error_bad_example_) {
             auto msg = fmt::format(
-                "The image resize operation failed for the image #{2:n} in the data store '{0}' with the following exception: {2}",
+                "The image resize operation failed for the image #{1:n} in the data store '{0}' with the following exception: {2}",
                 instance.data_store().id(),
                 instance.index(),
                 e.what());
-- 
2.43.0


From 32be44837b55a9aadb68d9d91093affe110e2529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 25/49] fix: keep the alpha channel of an image that is
 converted to RGB

---
 src/mlio/image_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 7b7cb36..983c81d 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -207,7 +207,9 @@ bool Image_reader::decode_core(stdx::span<std::uint8_t> out, const Instance &ins
 
     if (params_.to_rgb && tmp.channels() != 1) {
         try {
-            cv::cvtColor(tmp, tmp, cv::COLOR_BGR2RGB);
+            // Make sure that we preserve the alpha channel.
+            cv::cvtColor(
+                tmp, tmp, tmp.channels() == 4 ? cv::COLOR_BGRA2RGBA : cv::COLOR_BGR2RGB);
         }
         catch (const cv::Exception &e) {
             if (warn_bad_instances() || error_bad_example_) {
-- 
2.43.0


From 5f1d91e34c31500a4f78cb18bdb9cee5c8a261ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 26/49] fix: treat a RecordIO image without header as a bad
 instance

---
 src/mlio/image_reader.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index 983c81d..edec2df 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -160,7 +160,27 @@ bool Image_reader::decode_core(stdx::span<std::uint8_t> out, const Instance &ins
         // Skip the 24-byte header defined in image_recordio.h in the
         // MXNet GitHub repository. This header contains metadata and
         // is not relevant in our implementation.
-        img_buf = instance.bits().subslice(recordio_image_header_offset_);
+        Memory_slice bits = instance.bits();
+        if (bits.size() < recordio_image_header_offset_) {
+            if (warn_bad_instances() || error_bad_example_) {
+                auto msg = fmt::format(
+                    "The image #{1:n} in the data store '{0}' has no RecordIO image header.",
+                    instance.data_store().id(),
+                    instance.index());
+
+                if (warn_bad_instances()) {
+                    logger::warn(msg);
+                }
+
+                if (error_bad_example_) {
+                    throw Invalid_instance_error{msg};
+                }
+            }
+
+            return false;
+        }
+
+        img_buf = bits.subslice(recordio_image_header_offset_);
     }
     else {
         img_buf = instance.bits();
-- 
2.43.0


From 2ef10c35493c56920694bed5100ae1cd2125f6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 27/49] fix: treat an image with a wrong number of channels as
 a bad instance

---
 src/mlio/image_reader.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index edec2df..bf2ddee 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -303,11 +303,23 @@ cv::Mat Image_reader::decode_image(const cv::Mat &buf, int mode, const Instance
     }
 
     if (mode == cv::ImreadModes::IMREAD_UNCHANGED && decoded_img.channels() != 4) {
-        throw std::invalid_argument{fmt::format(
-            "The image #{1:n} in the data store '{0}' contains {2:n} channels while it is expected to contain 4 channels.",
-            instance.data_store().id(),
-            instance.index(),
-            decoded_img.channels())};
+        if (warn_bad_instances() || error_bad_example_) {
+            auto msg = fmt::format(
+                "The image #{1:n} in the data store '{0}' contains {2:n} channels while it is expected to contain 4 channels.",
+                instance.data_store().id(),
+                instance.index(),
+                decoded_img.channels());
+
+            if (warn_bad_instances()) {
+                logger::warn(msg);
+            }
+
+            if (error_bad_example_) {
+                throw std::invalid_argument{msg};
+            }
+        }
+
+        return {};
     }
 
     return decoded_img;
-- 
2.43.0


From 1e1c2b4e5e87612265fa496b8414cab55ad26ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 28/49] fix: do not scan an empty hash remainder for its first
 bit

---
 src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h
index 08c56a8..15432e8 100644
--- a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h
+++ b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h
@@ -43,7 +43,8 @@
 
 #if defined(__has_builtin) && (defined(__GNUC__) || defined(__clang__))
 
-#define _GET_CLZ(x, b) (uint8_t) std::min(b, ::__builtin_clz(x)) + 1
+// The result of __builtin_clz(0) is undefined.
+#define _GET_CLZ(x, b) (uint8_t) std::min(b, (x) == 0 ? 32 : ::__builtin_clz(x)) + 1
 
 #else
 
-- 
2.43.0


From d1e733aef70531444df268f070e69781329387aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:18 +0000
Subject: [PATCH 29/49] fix: merge HyperLogLog registers by their maximum

---
 src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
index dffc9d7..6f6ddbc 100644
--- a/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
+++ b/src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc
@@ -106,7 +106,7 @@ void HyperLogLog::merge(const HyperLogLog &other)
     }
     for (uint32_t r = 0; r < m_; ++r) {
         if (M_[r] < other.M_[r]) {
-            M_[r] |= other.M_[r];
+            M_[r] = other.M_[r];
         }
     }
 }
-- 
2.43.0


From 10c6666cf28ad7927f10c10bff2a4efc2ae4d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 30/49] fix: report the number of finite values as
 numeric_finite_count

---
 src/mlio-py/mlio/contrib/insights/module.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/contrib/insights/module.cc b/src/mlio-py/mlio/contrib/insights/module.cc
index 105fee3..ec3eeab 100644
--- a/src/mlio-py/mlio/contrib/insights/module.cc
+++ b/src/mlio-py/mlio/contrib/insights/module.cc
@@ -99,7 +99,7 @@ PYBIND11_MODULE(insights, m)
     std::vector<std::pair<const char *, size_t Column_analysis::*>> long_stat_names = {
         {"rows_seen", &Column_analysis::rows_seen},
         {"numeric_count", &Column_analysis::numeric_count},
-        {"numeric_finite_count", &Column_analysis::numeric_count},
+        {"numeric_finite_count", &Column_analysis::numeric_finite_count},
         {"numeric_nan_count", &Column_analysis::numeric_nan_count},
         {"numeric_int_count", &Column_analysis::numeric_int_count},
         {"string_empty_count", &Column_analysis::str_empty_count},
-- 
2.43.0


From 6af7361824fee92a589efc7a46463f19d51dabb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 31/49] fix: keep the mean when a batch has no finite values

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index c9f4a9b..063e7d7 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -155,8 +155,11 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         // Update the mean of numeric values based on the entire range of values.
         auto ncc = static_cast<double>(numeric_column_count);
         auto nfc = static_cast<double>(stats.numeric_finite_count);
-        double numeric_column_mean = numeric_column_sum / ncc;
-        stats.numeric_finite_mean += (numeric_column_mean - stats.numeric_finite_mean) * ncc / nfc;
+        if (numeric_column_count > 0) {
+            double numeric_column_mean = numeric_column_sum / ncc;
+            stats.numeric_finite_mean +=
+                (numeric_column_mean - stats.numeric_finite_mean) * ncc / nfc;
+        }
 
         // Update average length of string values baseed on entire range of values.
         auto scc = static_cast<double>(string_column_count);
-- 
2.43.0


From 3b9491c6cd9aab0877061a45f646563b7f2acc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 32/49] fix: average the string length across all rows

---
 .../mlio/contrib/insights/column_analyzer.cc       | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 063e7d7..3f168d5 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -66,6 +66,8 @@ void Column_analyzer::analyze(const mlio::Example &example) const
 
             stats.rows_seen++;
 
+            string_column_count++;
+
             // String analyzers.
             if (cell.empty()) {
                 stats.str_empty_count++;
@@ -80,7 +82,6 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             stats.str_min_length_not_empty = std::min(stats.str_min_length_not_empty, cell.size());
 
             string_column_length_sum += cell.size();
-            string_column_count++;
 
             stats.str_cardinality_estimator_.add(cell);
 
@@ -162,10 +163,13 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         }
 
         // Update average length of string values baseed on entire range of values.
-        auto scc = static_cast<double>(string_column_count);
-        auto rows_seen = static_cast<double>(stats.rows_seen);
-        double string_column_avg_length = static_cast<double>(string_column_length_sum) / scc;
-        stats.str_avg_length += (string_column_avg_length - stats.str_avg_length) * scc / rows_seen;
+        if (string_column_count > 0) {
+            auto scc = static_cast<double>(string_column_count);
+            auto rows_seen = static_cast<double>(stats.rows_seen);
+            double string_column_avg_length = static_cast<double>(string_column_length_sum) / scc;
+            stats.str_avg_length +=
+                (string_column_avg_length - stats.str_avg_length) * scc / rows_seen;
+        }
     }
 };
 
-- 
2.43.0


From 2b3d241244421c4ff10a5219dc6e508f823212eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 33/49] fix: count the empty strings for the minimum string
 length

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 3f168d5..01d1bb7 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -72,6 +72,8 @@ void Column_analyzer::analyze(const mlio::Example &example) const
             if (cell.empty()) {
                 stats.str_empty_count++;
 
+                stats.str_min_length = 0;
+
                 // All other analysis is irrelevant if we have an empty string.
                 continue;
             }
-- 
2.43.0


From 5d5bd3441831e6a95360464d82a1091b5f84a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 34/49] fix: do not analyze the padding of an example

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 01d1bb7..8dbc10e 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -47,6 +47,9 @@ void Column_analyzer::analyze(const mlio::Example &example) const
         const auto &dense_tsr = static_cast<const mlio::Dense_tensor &>(*tensor);
         auto cells = dense_tsr.data().as<std::string>();
 
+        // Leave out the padding of the last batch.
+        cells = cells.first(cells.size() - example.padding);
+
         Column_analysis &stats = (*columns_)[feature_idx];
 
         // Used to update the mean.
-- 
2.43.0


From f7f276cf663367466d087104f46cc1d00bf7f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 35/49] fix: keep counting the captured values once the limit
 is reached

---
 src/mlio-py/mlio/contrib/insights/column_analyzer.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
index 8dbc10e..a327f5d 100644
--- a/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
+++ b/src/mlio-py/mlio/contrib/insights/column_analyzer.cc
@@ -145,11 +145,14 @@ void Column_analyzer::analyze(const mlio::Example &example) const
 
             // Capture the values if specified.
             if (should_capture && !stats.str_captured_unique_values_overflowed) {
-                if (stats.str_captured_unique_values.size() < max_capture_count_) {
-                    ++stats.str_captured_unique_values[cell];
+                if (auto value = stats.str_captured_unique_values.find(cell);
+                    value != stats.str_captured_unique_values.end()) {
+                    ++value->second;
                 }
-                else if (stats.str_captured_unique_values.find(cell) ==
-                         stats.str_captured_unique_values.end()) {
+                else if (stats.str_captured_unique_values.size() < max_capture_count_) {
+                    stats.str_captured_unique_values.emplace(cell, 1);
+                }
+                else {
                     // If the value isn't present but we're not adding it
                     // because we're at a limit then we should flag that we
                     // have overflowed.
-- 
2.43.0


From bb64ee3b038a21278f57ee93f0baa592d13b5692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 36/49] fix: load an empty data store that is read as one
 instance

---
 src/mlio/instance.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mlio/instance.cc b/src/mlio/instance.cc
index 16a87fc..0fb14ec 100644
--- a/src/mlio/instance.cc
+++ b/src/mlio/instance.cc
@@ -15,6 +15,8 @@
 
 #include "mlio/instance.h"
 
+#include <algorithm>
+#include <cstddef>
 #include <exception>
 #include <system_error>
 
@@ -93,7 +95,8 @@ Memory_slice Instance::read_stream(Input_stream &stream) const
         }
         else {
             if (stream.seekable()) {
-                block = memory_allocator().allocate(stream.size());
+                // Leave room to find the end of an empty stream.
+                block = memory_allocator().allocate(std::max(stream.size(), std::size_t{1}));
             }
             else {
                 block = memory_allocator().allocate(0x100000);  // 1MiB
-- 
2.43.0


From 9bbde068d01e2f1965dc88297e389857d318e420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 37/49] fix: keep the default AWS credentials provider for the
 next client

---
 src/mlio/s3_client.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mlio/s3_client.cc b/src/mlio/s3_client.cc
index f2a90e4..3cf3453 100644
--- a/src/mlio/s3_client.cc
+++ b/src/mlio/s3_client.cc
@@ -42,13 +42,13 @@ std::once_flag chain_initialized;
 
 Aws::Auth::AWSCredentials get_default_aws_credentials()
 {
-    std::unique_ptr<Aws::Auth::DefaultAWSCredentialsProviderChain> chain{};
+    static std::unique_ptr<Aws::Auth::DefaultAWSCredentialsProviderChain> chain{};
 
     // Compilers are allowed to initialize local static variables before
     // entering the main function. As the credentials provider chain has
     // to be constructed after calling the Aws::InitAPI function here we
     // initialize lazily.
-    std::call_once(chain_initialized, [&chain]() {
+    std::call_once(chain_initialized, []() {
         chain = std::make_unique<Aws::Auth::DefaultAWSCredentialsProviderChain>();
     });
 
-- 
2.43.0


From ec870919c298b0a69cd23e5127bbf68f9eb32b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 38/49] fix: keep an example alive while its features are
 iterated

---
 src/mlio-py/mlio/core/example.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/example.cc b/src/mlio-py/mlio/core/example.cc
index d9ae92a..7f97217 100644
--- a/src/mlio-py/mlio/core/example.cc
+++ b/src/mlio-py/mlio/core/example.cc
@@ -79,7 +79,8 @@ void register_example(py::module &m)
         .def("__iter__",
              [](Example &self) {
                  return py::make_iterator(self.features().begin(), self.features().end());
-             })
+             },
+             py::keep_alive<0, 1>())
         .def("__repr__", &Example::repr)
         .def_property_readonly("schema", &Example::schema, "Gets the schema of the example.")
         .def_readwrite("padding",
-- 
2.43.0


From 8ae5633ce7377d7a37acbd90c7bdac2994ba416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 39/49] fix: respect the strides of a Python buffer

---
 src/mlio-py/mlio/core/py_buffer.cc | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/mlio-py/mlio/core/py_buffer.cc b/src/mlio-py/mlio/core/py_buffer.cc
index b90449a..cfe0ae6 100644
--- a/src/mlio-py/mlio/core/py_buffer.cc
+++ b/src/mlio-py/mlio/core/py_buffer.cc
@@ -219,6 +219,18 @@ std::optional<Data_type> get_data_type(const py::buffer_info &info)
     return {};
 }
 
+// Copies the elements of a buffer that can have any strides. Unless they
+// already are contiguous, the elements are put in row-major order.
+void copy_elements(const py::buffer_info &info, void *destination)
+{
+    const ::Py_buffer *view = info.view();
+
+    if (::PyBuffer_ToContiguous(
+            destination, const_cast<::Py_buffer *>(view), view->len, 'A') != 0) {  // NOLINT
+        throw py::error_already_set();
+    }
+}
+
 template<Data_type dt>
 struct Make_cpu_array_op {
     using T = data_type_t<dt>;
@@ -230,13 +242,18 @@ struct Make_cpu_array_op {
         auto size = static_cast<std::size_t>(info.size);
 
         if (cpy) {
-            std::vector<T> lst;
+            std::vector<T> lst(size);
 
-            lst.assign(data, data + size);
+            copy_elements(info, lst.data());
 
             return wrap_cpu_array<dt>(std::move(lst));
         }
 
+        if (::PyBuffer_IsContiguous(info.view(), 'A') == 0) {
+            throw std::invalid_argument{
+                "A Python buffer that is not contiguous cannot be used without copying."};
+        }
+
         Py_buffer_container<T> container{data, size, std::move(info)};
 
         return wrap_cpu_array<dt>(std::move(container));
@@ -252,7 +269,9 @@ struct Make_cpu_array_op<Data_type::string> {
         std::vector<std::string> lst;
         lst.reserve(size);
 
-        auto **obj_buffer = static_cast<PyObject **>(info.ptr);
+        std::vector<PyObject *> obj_buffer(size);
+
+        copy_elements(info, obj_buffer.data());
 
         for (std::size_t i = 0; i < size; i++) {
             lst.emplace_back(py::cast<std::string>(obj_buffer[i]));
-- 
2.43.0


From 6915acc17a3b8cad8a9f92a6cee642ea8d7d561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 40/49] fix: do not terminate if a string tensor holds invalid
 UTF-8

---
 src/mlio-py/mlio/core/py_device_array.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mlio-py/mlio/core/py_device_array.cc b/src/mlio-py/mlio/core/py_device_array.cc
index 73e138d..100ad56 100644
--- a/src/mlio-py/mlio/core/py_device_array.cc
+++ b/src/mlio-py/mlio/core/py_device_array.cc
@@ -15,6 +15,7 @@
 
 #include "py_device_array.h"
 
+#include <exception>
 #include <string>
 
 #include "module.h"
@@ -50,7 +51,13 @@ void *Py_device_array::make_or_get_string_buffer()
                 string_buf_.push_back(obj.release().ptr());
             }
         }
-        catch (std::runtime_error &) {
+        catch (const std::exception &) {
+            for (py::handle obj : string_buf_) {
+                obj.dec_ref();
+            }
+
+            string_buf_.clear();
+
             PyErr_SetString(
                 PyExc_ValueError,
                 "The string Tensor contains an invalid UTF-8 sequence. Please make sure that you "
-- 
2.43.0


From 679d6a14d5658924e2623fb0a1ff7fc36c66a5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 41/49] fix: release the GIL while a data reader is reset

---
 src/mlio-py/mlio/core/data_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mlio-py/mlio/core/data_reader.cc b/src/mlio-py/mlio/core/data_reader.cc
index bc2c441..80e9c6a 100644
--- a/src/mlio-py/mlio/core/data_reader.cc
+++ b/src/mlio-py/mlio/core/data_reader.cc
@@ -608,6 +608,7 @@ void register_data_readers(py::module &m)
              "Returns the ``Schema`` of the dataset.")
         .def("reset",
              &Data_reader::reset,
+             py::call_guard<py::gil_scoped_release>(),
              "Resets the state of the reader. Calling ``read_example()`` the "
              "next time will start reading from the beginning of the dataset.")
         .def("__iter__",
-- 
2.43.0


From 4b722bb8920ead075d0d8a89bc5b09aa00e97989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 42/49] fix: derive the strides of a tensor from the item size
 of the array

---
 src/mlio-py/mlio/integ/numpy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mlio-py/mlio/integ/numpy.py b/src/mlio-py/mlio/integ/numpy.py
index 74ac5c7..2352981 100644
--- a/src/mlio-py/mlio/integ/numpy.py
+++ b/src/mlio-py/mlio/integ/numpy.py
@@ -48,7 +48,7 @@ def as_tensor(arr):
 
     return DenseTensor(arr.shape,
                        data=arr,
-                       strides=tuple(s // 8 for s in arr.strides),
+                       strides=tuple(s // arr.itemsize for s in arr.strides),
                        copy=False)
 
 
@@ -56,6 +56,9 @@ def to_tensor(arr):
     """
     Converts the specified NumPy array to a Tensor.
     """
+    if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
+        arr = np.ascontiguousarray(arr)
+
     return DenseTensor(arr.shape,
                        data=arr,
-                       strides=tuple(s // 8 for s in arr.strides))
+                       strides=tuple(s // arr.itemsize for s in arr.strides))
-- 
2.43.0


From a352b468f5bfd38f1746ec91ffcfe62fb3a2038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 43/49] fix: convert a one-dimensional COO tensor to SciPy

---
 src/mlio-py/mlio/integ/scipy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mlio-py/mlio/integ/scipy.py b/src/mlio-py/mlio/integ/scipy.py
index f77556d..41fd0fe 100644
--- a/src/mlio-py/mlio/integ/scipy.py
+++ b/src/mlio-py/mlio/integ/scipy.py
@@ -31,12 +31,16 @@ def to_coo_matrix(tensor):
         raise ValueError("Only one- and two-dimensional COO tensors are "
                          "supported.")
 
+    data = np.array(tensor.data, copy=False)
+
     if len(s) == 1:
         s = (1,) + s
 
-    data = np.array(tensor.data, copy=False)
-    rows = np.array(tensor.indices(0), copy=False)
-    cols = np.array(tensor.indices(1), copy=False)
+        cols = np.array(tensor.indices(0), copy=False)
+        rows = np.zeros_like(cols)
+    else:
+        rows = np.array(tensor.indices(0), copy=False)
+        cols = np.array(tensor.indices(1), copy=False)
 
     return coo_matrix((data, (rows, cols)), s, copy=True)
 
-- 
2.43.0


From 2bea74ffbc5c751e890e78f9b14ec996d8d0a67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 44/49] fix: remove the temporary file if it cannot be
 allocated

---
 src/mlio/memory/file_backed_memory_block.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mlio/memory/file_backed_memory_block.cc b/src/mlio/memory/file_backed_memory_block.cc
index 7f62eba..70dfb08 100644
--- a/src/mlio/memory/file_backed_memory_block.cc
+++ b/src/mlio/memory/file_backed_memory_block.cc
@@ -53,14 +53,18 @@ void File_backed_memory_block::make_temporary_file()
     std::string path{"/tmp/mlio-XXXXXX"};
 
     fd_ = ::mkstemp(&path.front());
-
-    auto off = static_cast<::off_t>(size_);
-    if (fd_ == -1 || ::ftruncate(fd_.get(), off) != 0) {
+    if (fd_ == -1) {
         throw std::system_error{current_error_code(),
                                 "The file-backed memory block cannot be allocated."};
     }
 
     ::unlink(&path.front());
+
+    auto off = static_cast<::off_t>(size_);
+    if (::ftruncate(fd_.get(), off) != 0) {
+        throw std::system_error{current_error_code(),
+                                "The file-backed memory block cannot be allocated."};
+    }
 }
 
 void File_backed_memory_block::resize(size_type size)
-- 
2.43.0


From 0f3c62367db2f45ebc3cf99685a6227aa377869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:55 +0000
Subject: [PATCH 45/49] fix: restore the signal mask if a thread cannot be
 started

---
 src/mlio/detail/thread.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mlio/detail/thread.h b/src/mlio/detail/thread.h
index 8505d57..efd1a5c 100644
--- a/src/mlio/detail/thread.h
+++ b/src/mlio/detail/thread.h
@@ -16,6 +16,7 @@
 #pragma once
 
 #include <csignal>
+#include <exception>
 #include <system_error>
 #include <thread>
 #include <utility>
@@ -41,7 +42,16 @@ std::thread start_thread(Func &&f, Args &&... args)
         throw std::system_error{s, std::generic_category()};
     }
 
-    std::thread t{std::forward<Func>(f), std::forward<Args>(args)...};
+    std::thread t{};
+    try {
+        t = std::thread{std::forward<Func>(f), std::forward<Args>(args)...};
+    }
+    catch (const std::exception &) {
+        // Do not leave the signals of the calling thread blocked.
+        ::pthread_sigmask(SIG_SETMASK, &original_mask, nullptr);
+
+        throw;
+    }
 
     // Restore the signal mask.
     s = ::pthread_sigmask(SIG_SETMASK, &original_mask, nullptr);
-- 
2.43.0


From cb2758b188b92f43bb358e09c12bbe29289c0c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 46/49] fix: do not wait for a pipeline that could not be
 started

---
 src/mlio/parallel_data_reader.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mlio/parallel_data_reader.cc b/src/mlio/parallel_data_reader.cc
index 2a16aea..a657a52 100644
--- a/src/mlio/parallel_data_reader.cc
+++ b/src/mlio/parallel_data_reader.cc
@@ -152,7 +152,15 @@ void Parallel_data_reader::ensure_pipeline_running()
 
     state_ = Run_state::running;
 
-    thread_ = detail::start_thread(&Parallel_data_reader::run_pipeline, this);
+    try {
+        thread_ = detail::start_thread(&Parallel_data_reader::run_pipeline, this);
+    }
+    catch (const std::exception &) {
+        // There is no pipeline to wait for.
+        state_ = Run_state::not_started;
+
+        throw;
+    }
 }
 
 void Parallel_data_reader::run_pipeline()
-- 
2.43.0


From 0927a24fdcd00dea271088394053abd126665f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:23 +0000
Subject: [PATCH 47/49] fix: treat an image without 8 bits per channel as a bad
 instance

---
 src/mlio/image_reader.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/mlio/image_reader.cc b/src/mlio/image_reader.cc
index bf2ddee..00b8ad2 100644
--- a/src/mlio/image_reader.cc
+++ b/src/mlio/image_reader.cc
@@ -322,6 +322,27 @@ cv::Mat Image_reader::decode_image(const cv::Mat &buf, int mode, const Instance
         return {};
     }
 
+    // The output has 8 bits per channel; a pixel with more bits cannot be
+    // stored in it.
+    if (decoded_img.depth() != CV_8U) {
+        if (warn_bad_instances() || error_bad_example_) {
+            auto msg = fmt::format(
+                "The image #{1:n} in the data store '{0}' does not have 8 bits per channel.",
+                instance.data_store().id(),
+                instance.index());
+
+            if (warn_bad_instances()) {
+                logger::warn(msg);
+            }
+
+            if (error_bad_example_) {
+                throw Invalid_instance_error{msg};
+            }
+        }
+
+        return {};
+    }
+
     return decoded_img;
 }
 
-- 
2.43.0


From b882426b55403ac37959620260dd3aa9dbb5c093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 48/49] fix: allow what an Intrusive_ptr owns to be assigned to
 it

---
 include/mlio/intrusive_ptr.h | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/mlio/intrusive_ptr.h b/include/mlio/intrusive_ptr.h
index 08d2d85..607ba52 100644
--- a/include/mlio/intrusive_ptr.h
+++ b/include/mlio/intrusive_ptr.h
@@ -103,9 +103,7 @@ public:
 
     Intrusive_ptr &operator=(Intrusive_ptr &&other) noexcept
     {
-        move_assign(other.ptr_);
-
-        other.ptr_ = nullptr;
+        move_assign(other.release());
 
         return *this;
     }
@@ -115,9 +113,7 @@ public:
     {
         static_assert(std::is_convertible<U *, T *>::value, "U must be convertible to T.");
 
-        move_assign(static_cast<T *>(other.ptr_));
-
-        other.ptr_ = nullptr;
+        move_assign(static_cast<T *>(other.release()));
 
         return *this;
     }
@@ -155,11 +151,8 @@ public:
 private:
     void copy_assign(T *other_ptr) noexcept
     {
-        if (ptr_ == other_ptr) {
-            return;
-        }
-
-        decrement_ref_count();
+        // The new object might be kept alive by nothing but the old one.
+        Intrusive_ptr old{ptr_, /*increment_ref*/ false};
 
         ptr_ = other_ptr;
 
@@ -168,7 +161,7 @@ private:
 
     void move_assign(T *other_ptr) noexcept
     {
-        decrement_ref_count();
+        Intrusive_ptr old{ptr_, /*increment_ref*/ false};
 
         ptr_ = other_ptr;
     }
-- 
2.43.0


From 93acf2a86d23eb80d54fc6824bdf743213918acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:22 +0000
Subject: [PATCH 49/49] fix: keep failing once the stream of a record reader
 has failed

A chunk that could not be filled left the record reader with a slice of a
buffer that may have been overwritten or freed, and what had been read before
the failure was lost.
---
 .../mlio/record_readers/stream_record_reader.h   |  2 ++
 src/mlio/record_readers/stream_record_reader.cc  | 16 +++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/mlio/record_readers/stream_record_reader.h b/include/mlio/record_readers/stream_record_reader.h
index f813f99..63cd720 100644
--- a/include/mlio/record_readers/stream_record_reader.h
+++ b/include/mlio/record_readers/stream_record_reader.h
@@ -16,6 +16,7 @@
 #pragma once
 
 #include <cstddef>
+#include <exception>
 #include <memory>
 #include <optional>
 
@@ -74,6 +75,7 @@ private:
 
     std::unique_ptr<detail::Chunk_reader> chunk_reader_;
     Memory_slice chunk_{};
+    std::exception_ptr exception_ptr_{};
 };
 
 /// @}
diff --git a/src/mlio/record_readers/stream_record_reader.cc b/src/mlio/record_readers/stream_record_reader.cc
index 2775635..eca5bf2 100644
--- a/src/mlio/record_readers/stream_record_reader.cc
+++ b/src/mlio/record_readers/stream_record_reader.cc
@@ -15,6 +15,7 @@
 
 #include "mlio/record_readers/stream_record_reader.h"
 
+#include <exception>
 #include <optional>
 #include <utility>
 
@@ -44,6 +45,11 @@ Stream_record_reader::Stream_record_reader(Intrusive_ptr<Input_stream> stream)
 
 std::optional<Record> Stream_record_reader::read_record_core()
 {
+    // What was left of the last chunk cannot be relied on after a failure.
+    if (exception_ptr_) {
+        std::rethrow_exception(exception_ptr_);
+    }
+
     std::optional<Record> record{};
 
     while (true) {
@@ -52,7 +58,15 @@ std::optional<Record> Stream_record_reader::read_record_core()
             break;
         }
 
-        chunk_ = chunk_reader_->read_chunk(chunk_);
+        try {
+            chunk_ = chunk_reader_->read_chunk(chunk_);
+        }
+        catch (...) {
+            exception_ptr_ = std::current_exception();
+
+            throw;
+        }
+
         if (chunk_.empty()) {
             break;
         }
-- 
2.43.0

