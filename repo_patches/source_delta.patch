From 586a020676c2ccc6ad7763115f3f4adb7b25124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 01/40] fix: count chunks and shards of a dimension without
 32-bit overflow

---
 src/streaming/zarr.common.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/streaming/zarr.common.cpp b/src/streaming/zarr.common.cpp
index f70fde0..ed2738d 100644
--- a/src/streaming/zarr.common.cpp
+++ b/src/streaming/zarr.common.cpp
@@ -76,8 +76,9 @@ zarr::chunks_along_dimension(const ZarrDimension& dimension)
 {
     EXPECT(dimension.chunk_size_px > 0, "Invalid chunk size.");
 
-    return (dimension.array_size_px + dimension.chunk_size_px - 1) /
-           dimension.chunk_size_px;
+    const uint64_t array_size = dimension.array_size_px;
+    const uint64_t chunk_size = dimension.chunk_size_px;
+    return (array_size + chunk_size - 1) / chunk_size;
 }
 
 uint32_t
@@ -87,7 +88,7 @@ zarr::shards_along_dimension(const ZarrDimension& dimension)
         return 0;
     }
 
-    const auto shard_size = dimension.shard_size_chunks;
-    const auto n_chunks = chunks_along_dimension(dimension);
+    const uint64_t shard_size = dimension.shard_size_chunks;
+    const uint64_t n_chunks = chunks_along_dimension(dimension);
     return (n_chunks + shard_size - 1) / shard_size;
 }
-- 
2.43.0


From ff426bbe3a6193abd5d4fb4fba752bba73ee3e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 02/40] fix: compute frame-to-chunk strides in 64 bits

---
 src/streaming/zarr.dimension.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/streaming/zarr.dimension.cpp b/src/streaming/zarr.dimension.cpp
index 4629f70..5049bdc 100644
--- a/src/streaming/zarr.dimension.cpp
+++ b/src/streaming/zarr.dimension.cpp
@@ -49,7 +49,7 @@ ArrayDimensions::chunk_lattice_index(uint64_t frame_id,
 
     // the first dimension is a special case
     if (dim_index == 0) {
-        auto divisor = dims_.front().chunk_size_px;
+        size_t divisor = dims_.front().chunk_size_px;
         for (auto i = 1; i < ndims() - 2; ++i) {
             const auto& dim = dims_[i];
             divisor *= dim.array_size_px;
@@ -78,8 +78,7 @@ ArrayDimensions::tile_group_offset(uint64_t frame_id) const
     std::vector<size_t> strides(dims_.size(), 1);
     for (auto i = dims_.size() - 1; i > 0; --i) {
         const auto& dim = dims_[i];
-        const auto a = dim.array_size_px, c = dim.chunk_size_px;
-        strides[i - 1] = strides[i] * ((a + c - 1) / c);
+        strides[i - 1] = strides[i] * zarr::chunks_along_dimension(dim);
     }
 
     size_t offset = 0;
-- 
2.43.0


From 37a93c8442b373b68e44478ece534d50bdea843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 03/40] fix: report failed file writes and flushes in FileSink

---
 src/streaming/file.sink.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/streaming/file.sink.cpp b/src/streaming/file.sink.cpp
index 312d90c..2cc9988 100644
--- a/src/streaming/file.sink.cpp
+++ b/src/streaming/file.sink.cpp
@@ -1,4 +1,5 @@
 #include "file.sink.hh"
+#include "macros.hh"
 
 #include <filesystem>
 
@@ -19,6 +20,15 @@ zarr::FileSink::write(size_t offset, std::span<const std::byte> data)
 
     file_.seekp(offset);
     file_.write(reinterpret_cast<const char*>(data.data()), bytes_of_buf);
+    if (!file_) {
+        LOG_ERROR("Failed to write ",
+                  bytes_of_buf,
+                  " bytes at offset ",
+                  offset,
+                  " of file");
+        return false;
+    }
+
     return true;
 }
 
@@ -26,5 +36,10 @@ bool
 zarr::FileSink::flush_()
 {
     file_.flush();
+    if (!file_) {
+        LOG_ERROR("Failed to flush file");
+        return false;
+    }
+
     return true;
 }
-- 
2.43.0


From 3b69ce190261aa86fe9ca8f6ffcbb37c1026b63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 04/40] fix: keep the 64-bit offset of vectored file writes

---
 src/streaming/vectorized.file.writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/vectorized.file.writer.cpp b/src/streaming/vectorized.file.writer.cpp
index 18b57f8..52392cb 100644
--- a/src/streaming/vectorized.file.writer.cpp
+++ b/src/streaming/vectorized.file.writer.cpp
@@ -191,7 +191,7 @@ zarr::VectorizedFileWriter::write_vectors(
     ssize_t bytes_written = pwritev(fd_,
                                     iovecs.data(),
                                     static_cast<int>(iovecs.size()),
-                                    static_cast<int>(offset));
+                                    static_cast<off_t>(offset));
 
     if (bytes_written != total_bytes) {
         auto error = get_last_error_as_string();
-- 
2.43.0


From f14c2d9b68f6a2eb3cc7ffbb9da1138cf92860de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:17 +0000
Subject: [PATCH 05/40] fix: record the outcome of a sink creation job before
 signalling it

---
 src/streaming/sink.creator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index d1343c2..c74d2f9 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -268,8 +268,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                  [dirname, &latch, &all_successful](std::string& err) -> bool {
                      if (dirname.empty()) {
                          err = "Directory name must not be empty.";
-                         latch.count_down();
                          all_successful.fetch_and(0);
+                         latch.count_down();
                          return false;
                      }
 
@@ -279,8 +279,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                      } else if (fs::exists(dirname)) {
                          err =
                            "'" + dirname + "' exists but is not a directory";
-                         latch.count_down();
                          all_successful.fetch_and(0);
+                         latch.count_down();
                          return false;
                      }
 
@@ -289,8 +289,8 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                          if (!fs::create_directories(dirname, ec)) {
                              err = "Failed to create directory '" + dirname +
                                    "': " + ec.message();
-                             latch.count_down();
                              all_successful.fetch_and(0);
+                             latch.count_down();
                              return false;
                          }
                      }
@@ -344,8 +344,8 @@ zarr::SinkCreator::make_files_(std::queue<std::string>& file_paths,
                                "': " + exc.what();
                      }
 
-                     latch.count_down();
                      all_successful.fetch_and((char)success);
+                     latch.count_down();
 
                      return success;
                  }),
@@ -395,8 +395,8 @@ zarr::SinkCreator::make_files_(
                                "': " + exc.what();
                      }
 
-                     latch.count_down();
                      all_successful.fetch_and((char)success);
+                     latch.count_down();
 
                      return success;
                  }),
-- 
2.43.0


From e9bed770c03b5de5d9f11fb9bb9a67be79adb69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 06/40] fix: a directory job no longer throws before signalling
 completion

---
 src/streaming/sink.creator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index c74d2f9..c0074fc 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -273,10 +273,12 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
                          return false;
                      }
 
-                     if (fs::is_directory(dirname)) {
+                     std::error_code status_ec;
+                     const auto status = fs::status(dirname, status_ec);
+                     if (fs::is_directory(status)) {
                          latch.count_down();
                          return true;
-                     } else if (fs::exists(dirname)) {
+                     } else if (fs::exists(status)) {
                          err =
                            "'" + dirname + "' exists but is not a directory";
                          all_successful.fetch_and(0);
-- 
2.43.0


From 3823e218376a140c09b3edda0e903b50d0b2594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 07/40] fix: a flush with a failed chunk or shard write reports
 failure

---
 src/streaming/zarrv2.array.writer.cpp |  8 ++++++--
 src/streaming/zarrv3.array.writer.cpp | 15 ++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/streaming/zarrv2.array.writer.cpp b/src/streaming/zarrv2.array.writer.cpp
index 8b620ca..f8d230b 100644
--- a/src/streaming/zarrv2.array.writer.cpp
+++ b/src/streaming/zarrv2.array.writer.cpp
@@ -5,6 +5,7 @@
 
 #include <nlohmann/json.hpp>
 
+#include <atomic>
 #include <latch>
 #include <stdexcept>
 
@@ -83,6 +84,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
 
     CHECK(data_sinks_.size() == chunk_buffers_.size());
 
+    std::atomic<char> all_successful = 1;
     std::latch latch(chunk_buffers_.size());
     {
         std::scoped_lock lock(buffers_mutex_);
@@ -92,7 +94,8 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
                      std::move([&sink = data_sinks_.at(i),
                                 data_ = chunk.data(),
                                 size = chunk.size(),
-                                &latch](std::string& err) -> bool {
+                                &latch,
+                                &all_successful](std::string& err) -> bool {
                          bool success = false;
                          try {
                              std::span data{
@@ -105,6 +108,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
                                    std::string(exc.what());
                          }
 
+                         all_successful.fetch_and((char)success);
                          latch.count_down();
                          return success;
                      })),
@@ -115,7 +119,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
     // wait for all threads to finish
     latch.wait();
 
-    return true;
+    return (bool)all_successful;
 }
 
 bool
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index d687076..5d15c43 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -6,6 +6,7 @@
 #include <nlohmann/json.hpp>
 
 #include <algorithm> // std::fill
+#include <atomic>
 #include <latch>
 #include <stdexcept>
 
@@ -91,6 +92,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
 
     // write out chunks to shards
     auto write_table = is_finalizing_ || should_rollover_();
+    std::atomic<char> all_successful = 1;
     std::latch latch(n_shards);
     for (auto i = 0; i < n_shards; ++i) {
         const auto& chunks = chunk_in_shards.at(i);
@@ -103,8 +105,9 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        file_offset,
                                        write_table,
                                        &latch,
+                                       &all_successful,
                                        this](std::string& err) {
-            bool success = false;
+            bool success = true;
 
             try {
                 for (const auto& chunk_idx : chunks) {
@@ -132,9 +135,15 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                     success = sink->write(*file_offset, data);
                 }
             } catch (const std::exception& exc) {
+                success = false;
                 err = "Failed to write chunk: " + std::string(exc.what());
             }
 
+            if (!success && err.empty()) {
+                err = "Failed to write to shard";
+            }
+
+            all_successful.fetch_and((char)success);
             latch.count_down();
             return success;
         }),
@@ -144,6 +153,10 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
     // wait for all threads to finish
     latch.wait();
 
+    if (!all_successful) {
+        return false;
+    }
+
     // reset shard tables and file offsets
     if (write_table) {
         for (auto& table : shard_tables_) {
-- 
2.43.0


From 1059f65cdea99eee9b9aac1e4c9c0832d51ca4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 08/40] fix: index chunks of every append layer of a shard in
 their own slot

---
 src/streaming/zarrv3.array.writer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 5d15c43..9c235e9 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -90,6 +90,12 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
         chunk_in_shards[index].push_back(i);
     }
 
+    // position of these chunks along the append dimension of their shards
+    const auto& dims = config_.dimensions;
+    const auto layer = dims->chunk_lattice_index(frames_written_ - 1, 0) %
+                       dims->final_dim().shard_size_chunks;
+    const auto layer_offset = layer * dims->number_of_chunks_in_memory();
+
     // write out chunks to shards
     auto write_table = is_finalizing_ || should_rollover_();
     std::atomic<char> all_successful = 1;
@@ -104,6 +110,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        &chunk_table,
                                        file_offset,
                                        write_table,
+                                       layer_offset,
                                        &latch,
                                        &all_successful,
                                        this](std::string& err) {
@@ -120,7 +127,8 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                     }
 
                     const auto internal_idx =
-                      config_.dimensions->shard_internal_index(chunk_idx);
+                      config_.dimensions->shard_internal_index(layer_offset +
+                                                               chunk_idx);
                     chunk_table.at(2 * internal_idx) = *file_offset;
                     chunk_table.at(2 * internal_idx + 1) = chunk.size();
 
-- 
2.43.0


From 21d580654fbbf982b7ec055ff5195fddc8fdd919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 09/40] fix: finalizing completes the shard files an earlier
 flush left open

---
 src/streaming/array.writer.cpp        | 14 +++++++-------
 src/streaming/zarrv3.array.writer.cpp |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 0c7fd21..143d85d 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -395,20 +395,20 @@ zarr::ArrayWriter::compress_buffers_()
 void
 zarr::ArrayWriter::flush_()
 {
-    if (bytes_to_flush_ == 0) {
+    // finalizing also completes the files left open by an earlier flush
+    const bool has_open_files = is_finalizing_ && !data_sinks_.empty();
+    if (bytes_to_flush_ == 0 && !has_open_files) {
         return;
     }
 
     // compress buffers and write out
-    compress_buffers_();
+    if (bytes_to_flush_ > 0) {
+        compress_buffers_();
+    }
     CHECK(flush_impl_());
 
-    const auto should_rollover = should_rollover_();
-    if (should_rollover) {
+    if (should_rollover_() || is_finalizing_) {
         rollover_();
-    }
-
-    if (should_rollover || is_finalizing_) {
         CHECK(write_array_metadata_());
     }
 
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 9c235e9..4ca6d28 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -83,9 +83,9 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
     const auto n_shards = config_.dimensions->number_of_shards();
     CHECK(data_sinks_.size() == n_shards);
 
-    // get shard indices for each chunk
+    // get shard indices for each chunk (there may be only a table to write)
     std::vector<std::vector<size_t>> chunk_in_shards(n_shards);
-    for (auto i = 0; i < chunk_buffers_.size(); ++i) {
+    for (auto i = 0; bytes_to_flush_ > 0 && i < chunk_buffers_.size(); ++i) {
         const auto index = config_.dimensions->shard_index_for_chunk(i);
         chunk_in_shards[index].push_back(i);
     }
-- 
2.43.0


From 573da4f433fd62b610eb7541574b3a582327728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 10/40] fix: a chunk that could not be compressed fails the
 flush

---
 src/streaming/array.writer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 143d85d..2c51736 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -4,6 +4,7 @@
 #include "zarr.stream.hh"
 #include "sink.creator.hh"
 
+#include <atomic>
 #include <cmath>
 #include <functional>
 #include <latch>
@@ -349,10 +350,11 @@ zarr::ArrayWriter::compress_buffers_()
     const auto bytes_per_px = bytes_of_type(config_.dtype);
 
     std::scoped_lock lock(buffers_mutex_);
+    std::atomic<char> all_successful = 1;
     std::latch latch(chunk_buffers_.size());
     for (auto& chunk : chunk_buffers_) {
         EXPECT(thread_pool_->push_job(
-                 [&params, buf = &chunk, bytes_per_px, &latch](
+                 [&params, buf = &chunk, bytes_per_px, &latch, &all_successful](
                    std::string& err) -> bool {
                      bool success = false;
                      const size_t bytes_of_chunk = buf->size();
@@ -372,6 +374,7 @@ zarr::ArrayWriter::compress_buffers_()
                                               params.codec_id.c_str(),
                                               0 /* blocksize - 0:automatic */,
                                               1);
+                         EXPECT(nb > 0, "blosc_compress_ctx returned ", nb);
 
                          tmp.resize(nb);
                          buf->swap(tmp);
@@ -381,6 +384,7 @@ zarr::ArrayWriter::compress_buffers_()
                          err = "Failed to compress chunk: " +
                                std::string(exc.what());
                      }
+                     all_successful.fetch_and((char)success);
                      latch.count_down();
 
                      return success;
@@ -390,6 +394,8 @@ zarr::ArrayWriter::compress_buffers_()
 
     // wait for all threads to finish
     latch.wait();
+
+    EXPECT(all_successful, "Failed to compress chunk buffers");
 }
 
 void
-- 
2.43.0


From 0c579e816d35ca96b2649c2751e7776cd593d5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 11/40] fix: guard the stream's error message, which worker
 threads set

---
 src/streaming/zarr.stream.cpp | 24 ++++++++++++++++--------
 src/streaming/zarr.stream.hh  |  5 +++++
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 1f1f8cb..c925e6b 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -393,10 +393,10 @@ ZarrStream::ZarrStream_s(struct ZarrStreamSettings_s* settings)
       zarr::bytes_of_frame(*dimensions_, static_cast<ZarrDataType>(dtype_)));
 
     // create the data store
-    EXPECT(create_store_(), error_);
+    EXPECT(create_store_(), get_error_());
 
     // allocate writers
-    EXPECT(create_writers_(), error_);
+    EXPECT(create_writers_(), get_error_());
 
     // allocate multiscale frame placeholders
     if (multiscale_) {
@@ -404,22 +404,22 @@ ZarrStream::ZarrStream_s(struct ZarrStreamSettings_s* settings)
     }
 
     // allocate metadata sinks
-    EXPECT(create_metadata_sinks_(), error_);
+    EXPECT(create_metadata_sinks_(), get_error_());
 
     // write base metadata
-    EXPECT(write_base_metadata_(), error_);
+    EXPECT(write_base_metadata_(), get_error_());
 
     // write group metadata
-    EXPECT(write_group_metadata_(), error_);
+    EXPECT(write_group_metadata_(), get_error_());
 
     // write external metadata
-    EXPECT(write_external_metadata_(), error_);
+    EXPECT(write_external_metadata_(), get_error_());
 }
 
 size_t
 ZarrStream::append(const void* data_, size_t nbytes)
 {
-    EXPECT(error_.empty(), "Cannot append data: ", error_.c_str());
+    EXPECT(get_error_().empty(), "Cannot append data: ", get_error_());
 
     if (0 == nbytes) {
         return 0;
@@ -536,9 +536,17 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
 void
 ZarrStream_s::set_error_(const std::string& msg)
 {
+    std::scoped_lock lock(error_mutex_);
     error_ = msg;
 }
 
+std::string
+ZarrStream_s::get_error_() const
+{
+    std::scoped_lock lock(error_mutex_);
+    return error_;
+}
+
 bool
 ZarrStream_s::create_store_()
 {
@@ -967,7 +975,7 @@ finalize_stream(struct ZarrStream_s* stream)
     }
 
     if (!stream->write_group_metadata_()) {
-        LOG_ERROR("Error finalizing Zarr stream: ", stream->error_);
+        LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
         return false;
     }
 
diff --git a/src/streaming/zarr.stream.hh b/src/streaming/zarr.stream.hh
index d359391..0dc5757 100644
--- a/src/streaming/zarr.stream.hh
+++ b/src/streaming/zarr.stream.hh
@@ -10,6 +10,7 @@
 
 #include <cstddef> // size_t
 #include <memory>  // unique_ptr
+#include <mutex>
 #include <optional>
 
 struct ZarrStream_s
@@ -40,6 +41,7 @@ struct ZarrStream_s
     };
 
     std::string error_; // error message. If nonempty, an error occurred.
+    mutable std::mutex error_mutex_; // guards error_, set by worker threads
 
     ZarrVersion version_;
     std::string store_path_;
@@ -77,6 +79,9 @@ struct ZarrStream_s
      */
     void set_error_(const std::string& msg);
 
+    /** @brief Get a copy of the error message. */
+    std::string get_error_() const;
+
     /** @brief Create the data store. */
     [[nodiscard]] bool create_store_();
 
-- 
2.43.0


From aad9648c3ad62eb509c4658a63b98cda01d7afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 12/40] fix: the log level is read by worker threads, make it
 atomic

---
 src/logger/logger.cpp | 2 +-
 src/logger/logger.hh  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/logger/logger.cpp b/src/logger/logger.cpp
index 4f7b291..0569d37 100644
--- a/src/logger/logger.cpp
+++ b/src/logger/logger.cpp
@@ -4,7 +4,7 @@
 #include <string>
 #include <thread>
 
-LogLevel Logger::current_level_ = LogLevel_Info;
+std::atomic<LogLevel> Logger::current_level_ = LogLevel_Info;
 std::mutex Logger::log_mutex_{};
 
 void
diff --git a/src/logger/logger.hh b/src/logger/logger.hh
index 4efaaf0..33d9546 100644
--- a/src/logger/logger.hh
+++ b/src/logger/logger.hh
@@ -1,5 +1,6 @@
 #include "logger.types.h"
 
+#include <atomic>
 #include <filesystem>
 #include <iostream>
 #include <mutex>
@@ -61,7 +62,7 @@ class Logger
     }
 
   private:
-    static LogLevel current_level_;
+    static std::atomic<LogLevel> current_level_;
     static std::mutex log_mutex_;
 
     static void format_arg_(std::ostream& ss) {}; // base case
-- 
2.43.0


From 0654b5cb562eb0e849dc06876c6236441612bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 13/40] fix: append frames that arrive in pieces whole, in
 order and once

---
 src/streaming/zarr.stream.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index c925e6b..0cf7e03 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -445,30 +445,32 @@ ZarrStream::append(const void* data_, size_t nbytes)
             // ready to flush the frame buffer
             if (frame_buffer_offset_ == bytes_of_frame) {
                 const size_t bytes_written_this_frame =
-                  writers_[0]->write_frame({ data, bytes_of_frame });
+                  writers_[0]->write_frame(frame_buffer_);
                 if (bytes_written_this_frame == 0) {
                     break;
                 }
 
-                bytes_written += bytes_to_copy;
-                data += bytes_to_copy;
+                write_multiscale_frames_(frame_buffer_.data(),
+                                         bytes_written_this_frame);
+
                 frame_buffer_offset_ = 0;
             }
         } else if (bytes_remaining < bytes_of_frame) { // begin partial frame
-            memcpy(frame_buffer_.data(), data, bytes_remaining);
+            memcpy(
+              frame_buffer_.data(), data + bytes_written, bytes_remaining);
             frame_buffer_offset_ = bytes_remaining;
             bytes_written += bytes_remaining;
         } else { // at least one full frame
-            const size_t bytes_written_this_frame =
-              writers_[0]->write_frame({ data, bytes_of_frame });
+            const size_t bytes_written_this_frame = writers_[0]->write_frame(
+              { data + bytes_written, bytes_of_frame });
             if (bytes_written_this_frame == 0) {
                 break;
             }
 
-            write_multiscale_frames_(data, bytes_written_this_frame);
+            write_multiscale_frames_(data + bytes_written,
+                                     bytes_written_this_frame);
 
             bytes_written += bytes_written_this_frame;
-            data += bytes_written_this_frame;
         }
     }
 
-- 
2.43.0


From 63bbc2522296390b81297cf2ae4039862cc22249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 14/40] fix: downsample whole pixels into a buffer of the right
 size and type

---
 src/streaming/zarr.stream.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 0cf7e03..03b41c4 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -287,12 +287,13 @@ dimension_type_to_string(ZarrDimensionType type)
 
 template<typename T>
 [[nodiscard]] std::byte*
-scale_image(const std::byte* const src,
+scale_image(const std::byte* const src_,
             size_t& bytes_of_src,
             size_t& width,
             size_t& height)
 {
-    CHECK(src);
+    CHECK(src_);
+    const T* const src = reinterpret_cast<const T*>(src_);
 
     const size_t bytes_of_frame = width * height * sizeof(T);
     EXPECT(bytes_of_src >= bytes_of_frame,
@@ -301,22 +302,18 @@ scale_image(const std::byte* const src,
            bytes_of_src);
 
     const int downscale = 2;
-    constexpr auto bytes_of_type = static_cast<double>(sizeof(T));
     const double factor = 0.25;
 
     const auto w_pad = static_cast<double>(width + (width % downscale));
     const auto h_pad = static_cast<double>(height + (height % downscale));
 
-    const auto size_downscaled =
-      static_cast<uint32_t>(w_pad * h_pad * factor * bytes_of_type);
-
-    auto* dst = new T[size_downscaled];
-    EXPECT(dst,
-           "Failed to allocate ",
-           size_downscaled,
-           " bytes for destination frame");
+    const size_t size_downscaled = (width + width % downscale) / downscale *
+                                   ((height + height % downscale) / downscale) *
+                                   sizeof(T);
 
-    memset(dst, 0, size_downscaled);
+    auto* dst_ = new std::byte[size_downscaled];
+    memset(dst_, 0, size_downscaled);
+    T* dst = reinterpret_cast<T*>(dst_);
 
     size_t dst_idx = 0;
     for (auto row = 0; row < height; row += downscale) {
@@ -344,7 +341,7 @@ scale_image(const std::byte* const src,
     width = static_cast<size_t>(w_pad) / 2;
     height = static_cast<size_t>(h_pad) / 2;
 
-    return reinterpret_cast<std::byte*>(dst);
+    return dst_;
 }
 
 template<typename T>
-- 
2.43.0


From 77cfbe335342b5901cdd342703c5cdc01e276ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 15/40] fix: release every downsampled frame exactly once

---
 src/streaming/zarr.stream.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 03b41c4..a29925d 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -933,33 +933,30 @@ ZarrStream_s::write_multiscale_frames_(const std::byte* data,
     size_t frame_width = dimensions_->width_dim().array_size_px;
     size_t frame_height = dimensions_->height_dim().array_size_px;
 
-    std::byte* dst;
+    std::unique_ptr<std::byte[]> level; // the frame the next level is made from
     for (auto i = 1; i < writers_.size(); ++i) {
-        dst = scale(data, bytes_of_data, frame_width, frame_height);
+        std::unique_ptr<std::byte[]> dst(
+          scale(data, bytes_of_data, frame_width, frame_height));
 
         // bytes_of data is now downscaled
         // frame_width and frame_height are now the new dimensions
 
         if (scaled_frames_[i]) {
-            average2(dst, bytes_of_data, *scaled_frames_[i], bytes_of_data);
-            std::span frame_data{ reinterpret_cast<const std::byte*>(dst),
-                                  bytes_of_data };
+            // clean up this LOD
+            std::unique_ptr<std::byte[]> previous(*scaled_frames_[i]);
+            scaled_frames_[i].reset();
+
+            average2(dst.get(), bytes_of_data, previous.get(), bytes_of_data);
+            std::span<const std::byte> frame_data{ dst.get(), bytes_of_data };
             EXPECT(writers_[i]->write_frame(frame_data),
                    "Failed to write frame to writer %zu",
                    i);
 
-            // clean up this LOD
-            delete[] *scaled_frames_[i];
-            scaled_frames_[i].reset();
-
             // set up for next iteration
-            if (i + 1 < writers_.size()) {
-                data = dst;
-            } else {
-                delete[] dst;
-            }
+            level = std::move(dst);
+            data = level.get();
         } else {
-            scaled_frames_[i] = dst;
+            scaled_frames_[i] = dst.release();
             break;
         }
     }
-- 
2.43.0


From e2d4d9bf3bc8c27bd8c739d41fe5828550c54df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 16/40] fix: give S3 connections back when an operation fails

---
 src/streaming/s3.sink.cpp      |  9 +++++++--
 src/streaming/sink.creator.cpp |  7 ++++++-
 src/streaming/zarr.stream.cpp  | 11 +++++++++--
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index 81150ab..b94ba27 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -194,8 +194,13 @@ zarr::S3Sink::finalize_multipart_upload_()
     const auto& upload_id = multipart_upload_->upload_id;
     const auto& parts = multipart_upload_->parts;
 
-    bool retval = connection->complete_multipart_object(
-      bucket_name_, object_key_, upload_id, parts);
+    bool retval = false;
+    try {
+        retval = connection->complete_multipart_object(
+          bucket_name_, object_key_, upload_id, parts);
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error: ", exc.what());
+    }
 
     connection_pool_->return_connection(std::move(connection));
 
diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index c0074fc..9826440 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -417,7 +417,12 @@ zarr::SinkCreator::bucket_exists_(std::string_view bucket_name)
     EXPECT(connection_pool_, "S3 connection pool not provided.");
 
     auto conn = connection_pool_->get_connection();
-    bool bucket_exists = conn->bucket_exists(bucket_name);
+    bool bucket_exists = false;
+    try {
+        bucket_exists = conn->bucket_exists(bucket_name);
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error: ", exc.what());
+    }
 
     connection_pool_->return_connection(std::move(conn));
 
diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index a29925d..84b1dff 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -565,11 +565,18 @@ ZarrStream_s::create_store_()
 
         // test the S3 connection
         auto conn = s3_connection_pool_->get_connection();
-        if (!conn->is_connection_valid()) {
+        bool is_valid = false;
+        try {
+            is_valid = conn->is_connection_valid();
+        } catch (const std::exception& e) {
+            LOG_ERROR("Error: ", e.what());
+        }
+        s3_connection_pool_->return_connection(std::move(conn));
+
+        if (!is_valid) {
             set_error_("Failed to connect to S3");
             return false;
         }
-        s3_connection_pool_->return_connection(std::move(conn));
     } else {
         if (fs::exists(store_path_)) {
             // remove everything inside the store path
-- 
2.43.0


From c1ea96eb879572295e28420564ad059033559e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 17/40] fix: upload no parts to a multipart upload that could
 not be created

---
 src/streaming/s3.sink.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index b94ba27..774bf9e 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -128,12 +128,16 @@ zarr::S3Sink::is_multipart_upload_() const
 void
 zarr::S3Sink::create_multipart_upload_()
 {
-    multipart_upload_ = MultiPartUpload{};
-
     auto connection = connection_pool_->get_connection();
-    multipart_upload_->upload_id =
-      connection->create_multipart_object(bucket_name_, object_key_);
+    try {
+        std::string upload_id =
+          connection->create_multipart_object(bucket_name_, object_key_);
+        multipart_upload_ = MultiPartUpload{ .upload_id = upload_id };
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error: ", exc.what());
+    }
 
+    // cleanup
     connection_pool_->return_connection(std::move(connection));
 }
 
@@ -147,6 +151,9 @@ zarr::S3Sink::flush_part_()
     if (!is_multipart_upload_()) {
         create_multipart_upload_();
     }
+    if (!is_multipart_upload_()) {
+        return false; // no upload to add the part to
+    }
 
     auto connection = connection_pool_->get_connection();
 
-- 
2.43.0


From d44f9fc0bab53196c74e8faa4c28dec645ee6d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 18/40] fix: keep the buffered bytes of a part that could not
 be uploaded

---
 src/streaming/s3.sink.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index 774bf9e..9c07e3e 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -181,14 +181,15 @@ zarr::S3Sink::flush_part_()
         parts.push_back(part);
 
         retval = true;
+
+        nbytes_flushed_ += nbytes_buffered_;
+        nbytes_buffered_ = 0;
     } catch (const std::exception& exc) {
         LOG_ERROR("Error: ", exc.what());
     }
 
     // cleanup
     connection_pool_->return_connection(std::move(connection));
-    nbytes_flushed_ += nbytes_buffered_;
-    nbytes_buffered_ = 0;
 
     return retval;
 }
-- 
2.43.0


From 4fda7935138bef27793c4c419df83fd48e66bc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 19/40] fix: refuse S3 writes that would leave a hole

---
 src/streaming/s3.sink.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index 9c07e3e..2a249cb 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -63,6 +63,13 @@ zarr::S3Sink::write(size_t offset, std::span<const std::byte> data)
                   nbytes_flushed_);
         return false;
     }
+    if (offset > nbytes_flushed_ + nbytes_buffered_) {
+        LOG_ERROR("Cannot write data at offset ",
+                  offset,
+                  ", only written to ",
+                  nbytes_flushed_ + nbytes_buffered_);
+        return false;
+    }
     nbytes_buffered_ = offset - nbytes_flushed_;
 
     size_t bytes_of_data = data.size();
-- 
2.43.0


From 9d39c9d3470cc38c8b8ec3dae8dec9f6eecaf0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 20/40] fix: refuse null strings in the settings

---
 src/streaming/zarr.stream.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 84b1dff..2d7894f 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -32,6 +32,13 @@ is_compressed_acquisition(const struct ZarrStreamSettings_s* settings)
 [[nodiscard]] bool
 validate_s3_settings(const ZarrS3Settings* settings)
 {
+    if (settings->endpoint == nullptr || settings->bucket_name == nullptr ||
+        settings->access_key_id == nullptr ||
+        settings->secret_access_key == nullptr) {
+        LOG_ERROR("Null pointer: S3 settings");
+        return false;
+    }
+
     if (zarr::is_empty_string(settings->endpoint, "S3 endpoint is empty")) {
         return false;
     }
@@ -159,6 +166,11 @@ validate_dimension(const ZarrDimensionProperties* dimension,
                    ZarrVersion version,
                    bool is_append)
 {
+    if (dimension->name == nullptr) {
+        LOG_ERROR("Null pointer: dimension name");
+        return false;
+    }
+
     if (zarr::is_empty_string(dimension->name, "Dimension name is empty")) {
         return false;
     }
-- 
2.43.0


From 35faa7db4ce1c28b90721267705dd7465f017684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 21/40] fix: hand out dimension arrays without stray pointers

---
 src/streaming/acquire.zarr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/acquire.zarr.cpp b/src/streaming/acquire.zarr.cpp
index 3e9b183..614c2b5 100644
--- a/src/streaming/acquire.zarr.cpp
+++ b/src/streaming/acquire.zarr.cpp
@@ -106,7 +106,7 @@ extern "C"
         ZarrDimensionProperties* dimensions = nullptr;
 
         try {
-            dimensions = new ZarrDimensionProperties[dimension_count];
+            dimensions = new ZarrDimensionProperties[dimension_count]{};
         } catch (const std::bad_alloc&) {
             LOG_ERROR("Failed to allocate memory for dimensions");
             return ZarrStatusCode_OutOfMemory;
-- 
2.43.0


From aba5ce780185146275c8c95787f8f884bed2e67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 22/40] fix: validate the store path that will be used

---
 src/streaming/zarr.stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 2d7894f..bbabf5a 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -216,7 +216,7 @@ validate_settings(const struct ZarrStreamSettings_s* settings)
         LOG_ERROR("Null pointer: store_path");
         return false;
     }
-    std::string_view store_path(settings->store_path);
+    const std::string store_path = zarr::trim(settings->store_path);
 
     // we require the store path (root of the dataset) to be nonempty
     if (store_path.empty()) {
-- 
2.43.0


From f081d088b02d69af9e4822eb008171fed0445ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 23/40] fix: store raw chunks when the compressor is None

---
 src/streaming/zarr.stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index bbabf5a..01e059d 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -519,7 +519,8 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
         };
     }
 
-    if (is_compressed_acquisition(settings)) {
+    if (is_compressed_acquisition(settings) &&
+        settings->compression_settings->compressor != ZarrCompressor_None) {
         compression_settings_ = {
             .compressor = settings->compression_settings->compressor,
             .codec = settings->compression_settings->codec,
-- 
2.43.0


From f9496df15931871d4b7aae41523449996b84b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 24/40] fix: stop downsampling when no dimension gets smaller

---
 src/streaming/array.writer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 2c51736..cd86c10 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -63,6 +63,7 @@ zarr::downsample(const ArrayWriterConfig& config,
     downsampled_config.compression_params = config.compression_params;
 
     // can we downsample downsampled_config?
+    bool has_smaller_dim = false;
     for (auto i = 0; i < config.dimensions->ndims(); ++i) {
         // downsampling made the chunk size strictly smaller
         const auto& dim = config.dimensions->at(i);
@@ -71,9 +72,14 @@ zarr::downsample(const ArrayWriterConfig& config,
         if (dim.chunk_size_px > downsampled_dim.chunk_size_px) {
             return false;
         }
+
+        if (downsampled_dim.array_size_px < dim.array_size_px) {
+            has_smaller_dim = true;
+        }
     }
 
-    return true;
+    // every further level would be the same as this one
+    return has_smaller_dim;
 }
 
 /// Writer
-- 
2.43.0


From 62ddcc7ee0b6ef6a29c1b793aa66dedad4c36797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 25/40] fix: count the frames of a shard without 32-bit
 overflow

---
 src/streaming/zarrv3.array.writer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 4ca6d28..bd1f54c 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -265,7 +265,8 @@ zarr::ZarrV3ArrayWriter::should_rollover_() const
     const auto& dims = config_.dimensions;
     const auto& append_dim = dims->final_dim();
     size_t frames_before_flush =
-      append_dim.chunk_size_px * append_dim.shard_size_chunks;
+      static_cast<size_t>(append_dim.chunk_size_px) *
+      append_dim.shard_size_chunks;
     for (auto i = 1; i < dims->ndims() - 2; ++i) {
         frames_before_flush *= dims->at(i).array_size_px;
     }
-- 
2.43.0


From 8df05051b3d66c2224d93ffe14407a6fc3487815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 26/40] fix: destroying a stream finalizes and frees
 everything, whatever fails

---
 src/streaming/acquire.zarr.cpp |  8 ++++++--
 src/streaming/zarr.stream.cpp  | 11 +++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/streaming/acquire.zarr.cpp b/src/streaming/acquire.zarr.cpp
index 614c2b5..6505bd4 100644
--- a/src/streaming/acquire.zarr.cpp
+++ b/src/streaming/acquire.zarr.cpp
@@ -151,8 +151,12 @@ extern "C"
 
     void ZarrStream_destroy(struct ZarrStream_s* stream)
     {
-        if (!finalize_stream(stream)) {
-            return;
+        try {
+            if (!finalize_stream(stream)) {
+                LOG_ERROR("Failed to finalize Zarr stream");
+            }
+        } catch (const std::exception& e) {
+            LOG_ERROR("Error finalizing Zarr stream: ", e.what());
         }
 
         delete stream;
diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 01e059d..c68d524 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -990,16 +990,19 @@ finalize_stream(struct ZarrStream_s* stream)
         return true;
     }
 
+    // a failure is reported, but everything else is still finalized
+    bool success = true;
+
     if (!stream->write_group_metadata_()) {
         LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
-        return false;
+        success = false;
     }
 
     for (auto& [sink_name, sink] : stream->metadata_sinks_) {
         if (!finalize_sink(std::move(sink))) {
             LOG_ERROR("Error finalizing Zarr stream. Failed to write ",
                       sink_name);
-            return false;
+            success = false;
         }
     }
     stream->metadata_sinks_.clear();
@@ -1008,7 +1011,7 @@ finalize_stream(struct ZarrStream_s* stream)
         if (!finalize_array(std::move(stream->writers_[i]))) {
             LOG_ERROR("Error finalizing Zarr stream. Failed to write array ",
                       i);
-            return false;
+            success = false;
         }
     }
     stream->writers_.clear(); // flush before shutting down thread pool
@@ -1020,5 +1023,5 @@ finalize_stream(struct ZarrStream_s* stream)
         }
     }
 
-    return true;
+    return success;
 }
-- 
2.43.0


From 790aa3370b997572c076394e5b5fd4a6c209b975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 27/40] fix: finalizing a sink reports an exception as a
 failure

---
 src/streaming/sink.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/streaming/sink.cpp b/src/streaming/sink.cpp
index e351a7b..c492285 100644
--- a/src/streaming/sink.cpp
+++ b/src/streaming/sink.cpp
@@ -9,7 +9,12 @@ zarr::finalize_sink(std::unique_ptr<zarr::Sink>&& sink)
         return true;
     }
 
-    if (!sink->flush_()) {
+    try {
+        if (!sink->flush_()) {
+            return false;
+        }
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Failed to flush sink: ", exc.what());
         return false;
     }
 
-- 
2.43.0


From 78b426e059819bfa467d8b4afb655f970fe81613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 28/40] fix: append strided Python arrays in C order

---
 python/acquire-zarr-py.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/acquire-zarr-py.cpp b/python/acquire-zarr-py.cpp
index f50d7e0..2239850 100644
--- a/python/acquire-zarr-py.cpp
+++ b/python/acquire-zarr-py.cpp
@@ -376,6 +376,12 @@ class PyZarrStream
             throw py::error_already_set();
         }
 
+        // strided arrays must be laid out contiguously first
+        image_data = py::array::ensure(image_data, py::array::c_style);
+        if (!image_data) {
+            throw py::error_already_set();
+        }
+
         auto buf = image_data.request();
         auto* ptr = (uint8_t*)buf.ptr;
 
-- 
2.43.0


From 876417febb4bed624aa578b7957e804907c1c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 29/40] fix: a group metadata exception does not keep the
 arrays from being finalized

---
 src/streaming/zarr.stream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index c68d524..d9c2e69 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -993,8 +993,13 @@ finalize_stream(struct ZarrStream_s* stream)
     // a failure is reported, but everything else is still finalized
     bool success = true;
 
-    if (!stream->write_group_metadata_()) {
-        LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
+    try {
+        if (!stream->write_group_metadata_()) {
+            LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
+            success = false;
+        }
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error finalizing Zarr stream: ", exc.what());
         success = false;
     }
 
-- 
2.43.0


From 21360a69319b269149757692683847bcbcd5232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 30/40] fix: count frames in 64 bits

---
 src/streaming/array.writer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/array.writer.hh b/src/streaming/array.writer.hh
index 076b114..a05f8f8 100644
--- a/src/streaming/array.writer.hh
+++ b/src/streaming/array.writer.hh
@@ -72,7 +72,7 @@ class ArrayWriter
 
     /// Bookkeeping
     uint64_t bytes_to_flush_;
-    uint32_t frames_written_;
+    uint64_t frames_written_;
     uint32_t append_chunk_index_;
     bool is_finalizing_;
 
-- 
2.43.0


From 45ea5965d5eddb5fde0f0712da9bf44d2cf9705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:58 +0000
Subject: [PATCH 31/40] fix: tile frames in 64 bits

---
 src/streaming/array.writer.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index cd86c10..cfe79de 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -258,12 +258,12 @@ zarr::ArrayWriter::write_frame_to_chunks_(std::span<const std::byte> data)
     const auto& dimensions = config_.dimensions;
 
     const auto& x_dim = dimensions->width_dim();
-    const auto frame_cols = x_dim.array_size_px;
-    const auto tile_cols = x_dim.chunk_size_px;
+    const size_t frame_cols = x_dim.array_size_px;
+    const size_t tile_cols = x_dim.chunk_size_px;
 
     const auto& y_dim = dimensions->height_dim();
-    const auto frame_rows = y_dim.array_size_px;
-    const auto tile_rows = y_dim.chunk_size_px;
+    const size_t frame_rows = y_dim.array_size_px;
+    const size_t tile_rows = y_dim.chunk_size_px;
 
     if (tile_cols == 0 || tile_rows == 0) {
         return 0;
@@ -286,14 +286,14 @@ zarr::ArrayWriter::write_frame_to_chunks_(std::span<const std::byte> data)
     const auto chunk_offset =
       static_cast<long long>(dimensions->chunk_internal_offset(frame_id));
 
-    for (auto i = 0; i < n_tiles_y; ++i) {
+    for (size_t i = 0; i < n_tiles_y; ++i) {
         // TODO (aliddell): we can optimize this when tiles_per_frame_x_ is 1
-        for (auto j = 0; j < n_tiles_x; ++j) {
+        for (size_t j = 0; j < n_tiles_x; ++j) {
             const auto c = group_offset + i * n_tiles_x + j;
             auto& chunk = chunk_buffers_[c];
             auto chunk_it = chunk.begin() + chunk_offset;
 
-            for (auto k = 0; k < tile_rows; ++k) {
+            for (size_t k = 0; k < tile_rows; ++k) {
                 const auto frame_row = i * tile_rows + k;
                 if (frame_row < frame_rows) {
                     const auto frame_col = j * tile_cols;
-- 
2.43.0


From 8d9b3b53f070262c3470e27b653aa3834bdcc72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:23 +0000
Subject: [PATCH 32/40] fix: average pixels without overflowing their type

---
 src/streaming/zarr.stream.cpp | 39 +++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index d9c2e69..9d1b54c 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -9,6 +9,7 @@
 #include <blosc.h>
 
 #include <filesystem>
+#include <type_traits>
 
 #ifdef min
 #undef min
@@ -297,6 +298,25 @@ dimension_type_to_string(ZarrDimensionType type)
     }
 }
 
+/**
+ * @brief The mean of some pixels, rounded to the pixel type.
+ * @details 64-bit integers are averaged as integers: a double can neither hold
+ * all of their digits nor, once rounded, always be converted back.
+ */
+template<typename T, typename... Ts>
+T
+mean_of(T px, Ts... others)
+{
+    constexpr auto n = static_cast<T>(1 + sizeof...(others));
+    if constexpr (std::is_integral_v<T> && sizeof(T) == 8) {
+        return ((px / n) + ... + (others / n)) +
+               ((px % n) + ... + (others % n)) / n;
+    } else {
+        return static_cast<T>(
+          (static_cast<double>(px) + ... + static_cast<double>(others)) / n);
+    }
+}
+
 template<typename T>
 [[nodiscard]] std::byte*
 scale_image(const std::byte* const src_,
@@ -314,7 +334,6 @@ scale_image(const std::byte* const src_,
            bytes_of_src);
 
     const int downscale = 2;
-    const double factor = 0.25;
 
     const auto w_pad = static_cast<double>(width + (width % downscale));
     const auto h_pad = static_cast<double>(height + (height % downscale));
@@ -335,17 +354,15 @@ scale_image(const std::byte* const src_,
             size_t src_idx = row * width + col;
             const bool pad_width = (col == width - 1 && width != w_pad);
 
-            auto here = static_cast<double>(src[src_idx]);
-            auto right = static_cast<double>(
-              src[src_idx + (1 - static_cast<int>(pad_width))]);
-            auto down = static_cast<double>(
-              src[src_idx + width * (1 - static_cast<int>(pad_height))]);
-            auto diag = static_cast<double>(
+            const T here = src[src_idx];
+            const T right = src[src_idx + (1 - static_cast<int>(pad_width))];
+            const T down =
+              src[src_idx + width * (1 - static_cast<int>(pad_height))];
+            const T diag =
               src[src_idx + width * (1 - static_cast<int>(pad_height)) +
-                  (1 - static_cast<int>(pad_width))]);
+                  (1 - static_cast<int>(pad_width))];
 
-            dst[dst_idx++] =
-              static_cast<T>(factor * (here + right + down + diag));
+            dst[dst_idx++] = mean_of<T>(here, right, down, diag);
         }
     }
 
@@ -375,7 +392,7 @@ average_two_frames(void* dst_,
 
     const auto num_pixels = bytes_of_src / sizeof(T);
     for (auto i = 0; i < num_pixels; ++i) {
-        dst[i] = static_cast<T>(0.5 * (dst[i] + src[i]));
+        dst[i] = mean_of<T>(dst[i], src[i]);
     }
 }
 } // namespace
-- 
2.43.0


From b33d6ee5179e295055919a5539af60697aa4ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:26 +0000
Subject: [PATCH 33/40] fix: halving a dimension of 2^32-1 pixels wraps to zero

---
 src/streaming/array.writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index cfe79de..71495c4 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -27,7 +27,7 @@ zarr::downsample(const ArrayWriterConfig& config,
             downsampled_dims[i] = dim;
         } else {
             const uint32_t array_size_px =
-              (dim.array_size_px + (dim.array_size_px % 2)) / 2;
+              dim.array_size_px / 2 + (dim.array_size_px % 2);
 
             const uint32_t chunk_size_px =
               dim.array_size_px == 0
-- 
2.43.0


From a7b69e23ff03e9bf770c72e464f84700a3a44a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:40 +0000
Subject: [PATCH 34/40] fix: 0/.zattrs is created but left empty, which is not
 a JSON document

---
 src/streaming/zarr.stream.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 9d1b54c..8929831 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -766,6 +766,21 @@ ZarrStream_s::write_base_metadata_()
         return false;
     }
 
+    if (version_ == 2) {
+        // the full-resolution array has no attributes of its own
+        const auto it = metadata_sinks_.find("0/.zattrs");
+        if (it != metadata_sinks_.end() && it->second) {
+            const std::string attrs_str = nlohmann::json::object().dump(4);
+            std::span attrs{ reinterpret_cast<const std::byte*>(
+                               attrs_str.data()),
+                             attrs_str.size() };
+            if (!it->second->write(0, attrs)) {
+                set_error_("Error writing array attributes");
+                return false;
+            }
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From 9418d5500016344063e94dc7360501d2c320d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:40 +0000
Subject: [PATCH 35/40] fix: empty custom metadata leave an empty acquire.json
 behind

---
 src/streaming/zarr.stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 8929831..b90ea57 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -522,7 +522,8 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
     store_path_ = zarr::trim(settings->store_path);
     if (settings->custom_metadata) {
         custom_metadata_ = zarr::trim(settings->custom_metadata);
-    } else {
+    }
+    if (custom_metadata_.empty()) {
         custom_metadata_ = "{}";
     }
 
-- 
2.43.0


From 506fed1f4e0f5b992027db5ecd580f60e8f91256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:34 +0000
Subject: [PATCH 36/40] fix: a failed write-out was retried on finalised files
 and compressed buffers

---
 src/streaming/array.writer.cpp | 7 +++++++
 src/streaming/array.writer.hh  | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 71495c4..d62d3bd 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -100,6 +100,7 @@ zarr::ArrayWriter::ArrayWriter(
   , frames_written_{ 0 }
   , append_chunk_index_{ 0 }
   , is_finalizing_{ false }
+  , has_failed_{ false }
 {
 }
 
@@ -119,6 +120,8 @@ zarr::ArrayWriter::write_frame(std::span<const std::byte> data)
         return 0;
     }
 
+    EXPECT(!has_failed_, "Cannot write frame: an earlier write failed");
+
     if (chunk_buffers_.empty()) {
         make_buffers_();
     }
@@ -413,6 +416,9 @@ zarr::ArrayWriter::flush_()
         return;
     }
 
+    EXPECT(!has_failed_, "Cannot write out: an earlier write failed");
+    has_failed_ = true; // until everything below has succeeded
+
     // compress buffers and write out
     if (bytes_to_flush_ > 0) {
         compress_buffers_();
@@ -429,6 +435,7 @@ zarr::ArrayWriter::flush_()
 
     // reset state
     bytes_to_flush_ = 0;
+    has_failed_ = false;
 }
 
 void
diff --git a/src/streaming/array.writer.hh b/src/streaming/array.writer.hh
index a05f8f8..6c60524 100644
--- a/src/streaming/array.writer.hh
+++ b/src/streaming/array.writer.hh
@@ -75,6 +75,7 @@ class ArrayWriter
     uint64_t frames_written_;
     uint32_t append_chunk_index_;
     bool is_finalizing_;
+    bool has_failed_; // a write-out failed and left files or buffers undefined
 
     std::shared_ptr<S3ConnectionPool> s3_connection_pool_;
 
-- 
2.43.0


From f6c7aa5913b65c3423cbdb26800e442710ba05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 37/40] fix: refuse dimension names that are not UTF-8 before
 removing the old store

---
 src/streaming/zarr.stream.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index b90ea57..35d9be7 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -176,6 +176,14 @@ validate_dimension(const ZarrDimensionProperties* dimension,
         return false;
     }
 
+    // names are stored as JSON, which refuses anything but UTF-8
+    try {
+        (void)nlohmann::json(dimension->name).dump();
+    } catch (const nlohmann::json::exception& e) {
+        LOG_ERROR("Invalid dimension name: ", e.what());
+        return false;
+    }
+
     if (dimension->type >= ZarrDimensionTypeCount) {
         LOG_ERROR("Invalid dimension type: ", dimension->type);
         return false;
-- 
2.43.0


From 40cba0b0b0acf658df077a94fc2fbd6c6eb9bcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:15 +0000
Subject: [PATCH 38/40] fix: refuse negative enumerators in the settings

---
 src/streaming/zarr.stream.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 35d9be7..9804cd9 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -98,12 +98,14 @@ validate_filesystem_store_path(std::string_view data_root)
 [[nodiscard]] bool
 validate_compression_settings(const ZarrCompressionSettings* settings)
 {
-    if (settings->compressor >= ZarrCompressorCount) {
+    if (settings->compressor < ZarrCompressor_None ||
+        settings->compressor >= ZarrCompressorCount) {
         LOG_ERROR("Invalid compressor: ", settings->compressor);
         return false;
     }
 
-    if (settings->codec >= ZarrCompressionCodecCount) {
+    if (settings->codec < ZarrCompressionCodec_None ||
+        settings->codec >= ZarrCompressionCodecCount) {
         LOG_ERROR("Invalid compression codec: ", settings->codec);
         return false;
     }
@@ -184,7 +186,8 @@ validate_dimension(const ZarrDimensionProperties* dimension,
         return false;
     }
 
-    if (dimension->type >= ZarrDimensionTypeCount) {
+    if (dimension->type < ZarrDimensionType_Space ||
+        dimension->type >= ZarrDimensionTypeCount) {
         LOG_ERROR("Invalid dimension type: ", dimension->type);
         return false;
     }
@@ -240,7 +243,8 @@ validate_settings(const struct ZarrStreamSettings_s* settings)
         return false;
     }
 
-    if (settings->data_type >= ZarrDataTypeCount) {
+    if (settings->data_type < ZarrDataType_uint8 ||
+        settings->data_type >= ZarrDataTypeCount) {
         LOG_ERROR("Invalid data type: ", settings->data_type);
         return false;
     }
-- 
2.43.0


From 0c5cf3022ab6951611cf3cdf5b86ab48fd1dd506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:32 +0000
Subject: [PATCH 39/40] fix: create the store where its files go when its path
 starts with file://

---
 src/streaming/zarr.stream.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 9804cd9..bdd26db 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -64,6 +64,21 @@ validate_s3_settings(const ZarrS3Settings* settings)
     return true;
 }
 
+// The path of the store, without surrounding whitespace and, on the filesystem,
+// without the "file://" that the sinks leave out of file names as well.
+[[nodiscard]] std::string
+get_store_path(const struct ZarrStreamSettings_s* settings)
+{
+    std::string store_path = zarr::trim(settings->store_path);
+    if (!is_s3_acquisition(settings)) {
+        while (store_path.starts_with("file://")) {
+            store_path = store_path.substr(7);
+        }
+    }
+
+    return store_path;
+}
+
 [[nodiscard]] bool
 validate_filesystem_store_path(std::string_view data_root)
 {
@@ -228,7 +243,7 @@ validate_settings(const struct ZarrStreamSettings_s* settings)
         LOG_ERROR("Null pointer: store_path");
         return false;
     }
-    const std::string store_path = zarr::trim(settings->store_path);
+    const std::string store_path = get_store_path(settings);
 
     // we require the store path (root of the dataset) to be nonempty
     if (store_path.empty()) {
@@ -531,7 +546,7 @@ void
 ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
 {
     version_ = settings->version;
-    store_path_ = zarr::trim(settings->store_path);
+    store_path_ = get_store_path(settings);
     if (settings->custom_metadata) {
         custom_metadata_ = zarr::trim(settings->custom_metadata);
     }
-- 
2.43.0


From 1080cca67ceee672c2cff2f61f16fb30d7957040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:12 +0000
Subject: [PATCH 40/40] fix: join started workers when the thread pool cannot
 start another

The constructor let the exception of std::thread through with the workers
already started still waiting, so ZarrStream_create hung (or the process was
terminated) instead of returning NULL.
---
 src/streaming/thread.pool.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/streaming/thread.pool.cpp b/src/streaming/thread.pool.cpp
index aede31d..e002bde 100644
--- a/src/streaming/thread.pool.cpp
+++ b/src/streaming/thread.pool.cpp
@@ -8,8 +8,14 @@ zarr::ThreadPool::ThreadPool(unsigned int n_threads, ErrorCallback&& err)
     const auto max_threads = std::max(std::thread::hardware_concurrency(), 1u);
     n_threads = std::clamp(n_threads, 1u, max_threads);
 
-    for (auto i = 0; i < n_threads; ++i) {
-        threads_.emplace_back([this] { process_tasks_(); });
+    try {
+        for (auto i = 0; i < n_threads; ++i) {
+            threads_.emplace_back([this] { process_tasks_(); });
+        }
+    } catch (...) {
+        // a thread could not be started, join those that were
+        await_stop();
+        throw;
     }
 }
 
-- 
2.43.0

