From 5ba5f4fa59d91f79da2b4bc2d0e0ee24059fd0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 01/18] fix: skip list height assertion was inverted, so every
 insertion aborted

---
 db/skiplist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/skiplist.h b/db/skiplist.h
index 9b17dd4..bb4cc5a 100644
--- a/db/skiplist.h
+++ b/db/skiplist.h
@@ -246,7 +246,7 @@ int SkipList<Key, Comparator>::RandomHeight() {
   while (height < kMaxHeight && ((rnd_.Next() % kBranching) == 0)) {
     height++;
   }
-  assert(height < 0);
+  assert(height > 0);
   assert(height <= kMaxHeight);
   return height;
 }
-- 
2.43.0


From e346448ccf27d70f3ce05cde4170dc7a82ac33dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 02/18] fix: capacities close to SIZE_MAX overflowed and made
 the cache cache nothing

---
 util/cache.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/cache.cc b/util/cache.cc
index 3830e26..2c20625 100644
--- a/util/cache.cc
+++ b/util/cache.cc
@@ -391,7 +391,9 @@ const int kNumShards = 1 << kNumShardBits;
 class ShardedLRUCache : public Cache {
  public:
   explicit ShardedLRUCache(size_t capacity) : last_id_(0) {
-    const size_t per_shard = (capacity + (kNumShards - 1)) / kNumShards;
+    // Round up without overflowing for capacities close to SIZE_MAX.
+    const size_t per_shard =
+        capacity / kNumShards + (capacity % kNumShards != 0 ? 1 : 0);
     for (int s = 0; s < kNumShards; ++s) {
       shard_[s].SetCapacity(per_shard);
     }
-- 
2.43.0


From 865d2db4dcf2dac95bb27dcf46826badd6b2948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 03/18] fix: in-memory environment forgot files created by
 NewAppendableFile and crashed on their next use

---
 helpers/memenv/memenv.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index cbcd91f..516aad0 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -282,6 +282,7 @@ class InMemoryEnv : public EnvWapper {
     if (file == nullptr) {
       file = new FileState();
       file->Ref();
+      *sptr = file;
     }
     *result = new WritableFileImpl(file);
     return Status::OK();
-- 
2.43.0


From 99f91501e80ed9b8adf78fa56eb2d4f802b991e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 04/18] fix: in-memory environment reports a missing file as
 not-found when opening it, as env.h asks

---
 helpers/memenv/memenv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 516aad0..13f043b 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -235,7 +235,7 @@ class InMemoryEnv : public EnvWapper {
     MutexLock lock(&mutex_);
     if (file_map_.find(filename) == file_map_.end()) {
       *result = nullptr;
-      return Status::IOError(filename, "File not found");
+      return Status::NotFound(filename, "File not found");
     }
 
     *result = new SequentialFileImpl(file_map_[filename]);
@@ -247,7 +247,7 @@ class InMemoryEnv : public EnvWapper {
     MutexLock lock(&mutex_);
     if (file_map_.find(filename) == file_map_.end()) {
       *result = nullptr;
-      return Status::IOError(filename, "File not found");
+      return Status::NotFound(filename, "File not found");
     }
 
     *result = new RandomAccessFileImpl(file_map_[filename]);
-- 
2.43.0


From d8e171d8411f1119f85567b3acc9e8a8f550b068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 05/18] fix: in-memory environment lost a file that was renamed
 onto itself

---
 helpers/memenv/memenv.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 13f043b..046cdcc 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -351,6 +351,11 @@ class InMemoryEnv : public EnvWapper {
       return Status::IOError(src, "File not found");
     }
 
+    // Renaming a file onto itself must not remove it.
+    if (src == target) {
+      return Status::OK();
+    }
+
     RemoveFileInternal(target);
     file_map_[target] = file_map_[src];
     file_map_.erase(src);
-- 
2.43.0


From 213fd1982d5451186ab0ef778535fce2f10f3967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 06/18] fix: opening an empty file for random reads failed
 while it was to be mapped

---
 util/env_posix.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 509fcf6..315da35 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -527,6 +527,12 @@ class PosixEnv : public Env {
 
     uint64_t file_size;
     Status status = GetFileSize(filename, &file_size);
+    if (status.ok() && file_size == 0) {
+      // An empty file cannot be mapped.
+      mmap_limiter_.Release();
+      *result = new PosixRandomAccessFile(filename, fd, &fd_limiter_);
+      return Status::OK();
+    }
     if (status.ok()) {
       void* mmap_base =
           ::mmap(nullptr, file_size, PROT_READ, MAP_SHARED, fd, 0);
-- 
2.43.0


From 8598ce0a66346afc9294eb91e95f7cf12e9bd701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 07/18] fix: reads of a mapped file across its end failed, and
 overflowing ones left the mapping

---
 util/env_posix.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 315da35..7568d04 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -227,10 +227,13 @@ class PosixMmapReadableFile final : public RandomAccessFile {
 
   Status Read(uint64_t offset, size_t n, Slice* result,
               char* scratch) const override {
-    if (offset + n > length_) {
+    if (offset > length_) {
       *result = Slice();
       return PosixError(filename_, EINVAL);
     }
+    if (n > length_ - offset) {
+      n = static_cast<size_t>(length_ - offset);
+    }
 
     *result = Slice(mmap_base_ + offset, n);
     return Status::OK();
-- 
2.43.0


From 6725301ae940565cf486c4f4b1fa85430576c93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 08/18] fix: sequential Skip passed the end of the file and
 went backwards for huge counts

---
 util/env_posix.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 7568d04..dfa419d 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -127,6 +127,17 @@ class PosixSequentialFile final : public SequentialFile {
   }
 
   Status Skip(uint64_t n) override {
+    struct ::stat file_stat;
+    const off_t pos = ::lseek(fd_, 0, SEEK_CUR);
+    if (pos == static_cast<off_t>(-1) || ::fstat(fd_, &file_stat) != 0) {
+      return PosixError(filename_, errno);
+    }
+    // Stop at the end of the file.
+    const uint64_t available =
+        file_stat.st_size > pos ? file_stat.st_size - pos : 0;
+    if (n > available) {
+      n = available;
+    }
     if (::lseek(fd_, n, SEEK_CUR) == static_cast<off_t>(-1)) {
       return PosixError(filename_, errno);
     }
-- 
2.43.0


From 69e4878506e42a22a0f0a815756d507d68076121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 09/18] fix: a file replaced while it was opened for random
 reads was mapped with the size of its successor

---
 util/env_posix.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index dfa419d..3d30f4a 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -539,8 +539,16 @@ class PosixEnv : public Env {
       return Status::OK();
     }
 
-    uint64_t file_size;
-    Status status = GetFileSize(filename, &file_size);
+    // Ask the open file for its size: the name may belong to another file by
+    // now.
+    uint64_t file_size = 0;
+    Status status;
+    struct ::stat file_stat;
+    if (::fstat(fd, &file_stat) == 0) {
+      file_size = file_stat.st_size;
+    } else {
+      status = PosixError(filename, errno);
+    }
     if (status.ok() && file_size == 0) {
       // An empty file cannot be mapped.
       mmap_limiter_.Release();
-- 
2.43.0


From 5c12b1229b183d7b1d67940ac921052fda20f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 10/18] fix: syncing a manifest in the root directory failed
 because its directory name came out empty

---
 util/env_posix.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 3d30f4a..df0f987 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -414,6 +414,10 @@ class PosixWritableFile final : public WritableFile {
     // If it does, the splitting was done incorrectly.
     assert(filename.find('/', separator_pos + 1) == std::string::npos);
 
+    // A file in the root directory.
+    if (separator_pos == 0) {
+      return std::string("/");
+    }
     return filename.substr(0, separator_pos);
   }
 
-- 
2.43.0


From a4e0bcdfee72ae7538c9fc5b17a481e528353fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 11/18] fix: a second attempt to lock a file made the process
 lose the lock it holds

---
 util/env_posix.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index df0f987..a6c1c12 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -665,16 +665,20 @@ class PosixEnv : public Env {
   Status LockFile(const std::string& filename, FileLock** lock) override {
     *lock = nullptr;
 
-    int fd = ::open(filename.c_str(), O_RDWR | O_CREAT | kOpenBaseFlags, 0644);
-    if (fd < 0) {
-      return PosixError(filename, errno);
-    }
-
+    // This must come first: closing any descriptor of a file gives up every
+    // fcntl() lock this process has on it, so a file that the process has
+    // locked already must not even be opened.
     if (!locks_.Insert(filename)) {
-      ::close(fd);
       return Status::IOError("lock " + filename, "already held by process");
     }
 
+    int fd = ::open(filename.c_str(), O_RDWR | O_CREAT | kOpenBaseFlags, 0644);
+    if (fd < 0) {
+      int open_errno = errno;
+      locks_.Remove(filename);
+      return PosixError(filename, open_errno);
+    }
+
     if (LockOrUnlock(fd, true) == -1) {
       int lock_errno = errno;
       ::close(fd);
-- 
2.43.0


From 3548c396769f7f8d05ddb05f95aa7adc46cfdb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:14 +0000
Subject: [PATCH 12/18] fix: unlocking a file could drop the lock another
 thread had just taken on it

---
 util/env_posix.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index a6c1c12..fb7e0d8 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -698,8 +698,10 @@ class PosixEnv : public Env {
     if (LockOrUnlock(posix_file_lock->fd(), false) == -1) {
       return PosixError("unlock " + posix_file_lock->filename(), errno);
     }
-    locks_.Remove(posix_file_lock->filename());
+    // Closing first: once the name is free another thread may lock the file
+    // again, and would lose that lock to this close().
     ::close(posix_file_lock->fd());
+    locks_.Remove(posix_file_lock->filename());
     delete posix_file_lock;
     return Status::OK();
   }
-- 
2.43.0


From 5e8d1f600413fd5e7e6a558e56750229f1c80131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 13/18] fix: GetChildren reported success with an incomplete
 list when reading the directory failed

---
 util/env_posix.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index fb7e0d8..5059ab9 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -617,10 +617,19 @@ class PosixEnv : public Env {
       return PosixError(directory_path, errno);
     }
     struct ::dirent* entry;
+    // readdir() returns null both at the end and on failure, only the latter
+    // sets errno.
+    errno = 0;
     while ((entry = ::readdir(dir)) != nullptr) {
       result->emplace_back(entry->d_name);
+      errno = 0;
     }
+    const int read_errno = errno;
     ::closedir(dir);
+    if (read_errno != 0) {
+      result->clear();
+      return PosixError(directory_path, read_errno);
+    }
     return Status::OK();
   }
 
-- 
2.43.0


From a7465e08aff45e9b56b7beebff427e255348b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 14/18] fix: random reads interrupted by a signal failed
 instead of being retried

---
 util/env_posix.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 5059ab9..ac8ba4d 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -189,7 +189,10 @@ class PosixRandomAccessFile final : public RandomAccessFile {
     assert(fd != -1);
 
     Status status;
-    ssize_t read_size = ::pread(fd, scratch, n, static_cast<off_t>(offset));
+    ssize_t read_size;
+    do {
+      read_size = ::pread(fd, scratch, n, static_cast<off_t>(offset));
+    } while (read_size < 0 && errno == EINTR);
     *result = Slice(scratch, (read_size < 0) ? 0 : read_size);
     if (read_size < 0) {
       // An error: return a non-ok status.
-- 
2.43.0


From cee4e5b61edf93a932975a1666dbeb2eeb5f0ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:25 +0000
Subject: [PATCH 15/18] fix: report a test directory that could not be created

---
 util/env_posix.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index ac8ba4d..503cd00 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -742,8 +742,13 @@ class PosixEnv : public Env {
       *result = buf;
     }
 
-    // The CreateDir status is ignored because the directory may already exists.
-    CreateDir(*result);
+    // A CreateDir failure only matters if the directory doesn't already exist.
+    Status status = CreateDir(*result);
+    struct ::stat dir_stat;
+    if (!status.ok() && (::stat(result->c_str(), &dir_stat) != 0 ||
+                         !S_ISDIR(dir_stat.st_mode))) {
+      return status;
+    }
 
     return Status::OK();
   }
-- 
2.43.0


From 9c1ec01c01c2f63855dbd6293c586915c74bd2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 16/18] fix: log messages of nearly INT_MAX bytes overflowed
 the logger's sizes

---
 util/posix_logger.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/util/posix_logger.h b/util/posix_logger.h
index 9bd7c40..54bd11e 100644
--- a/util/posix_logger.h
+++ b/util/posix_logger.h
@@ -53,15 +53,17 @@ class PosixLogger final : public Logger {
     static_assert(sizeof(stack_buffer) == static_cast<size_t>(kStackBufferSize),
                   "sizeof(char) is expected to be 1 in C++");
 
-    int dynamic_buffer_size = 0;  // Computed in the first iteration.
+    // Sizes are not ints: a message of nearly INT_MAX bytes plus its header is
+    // longer than an int can tell.
+    size_t dynamic_buffer_size = 0;  // Computed in the first iteration.
     for (int iteration = 0; iteration < 2; ++iteration) {
-      const int buffer_size =
+      const size_t buffer_size =
           (iteration == 0) ? kStackBufferSize : dynamic_buffer_size;
       char* const buffer =
           (iteration == 0) ? stack_buffer : new char[dynamic_buffer_size];
 
       // Print the header into the buffer.
-      int buffer_offset = std::snprintf(
+      size_t buffer_offset = std::snprintf(
           buffer, buffer_size, "%04d/%02d/%02d-%02d:%02d:%02d.%06d %s ",
           now_components.tm_year + 1900, now_components.tm_mon + 1,
           now_components.tm_mday, now_components.tm_hour, now_components.tm_min,
@@ -79,10 +81,13 @@ class PosixLogger final : public Logger {
       // Print the message into the buffer.
       std::va_list arguments_copy;
       va_copy(arguments_copy, arguments);
-      buffer_offset +=
+      const int message_size =
           std::vsnprintf(buffer + buffer_offset, buffer_size - buffer_offset,
               format, arguments_copy);
       va_end(arguments_copy);
+      if (message_size > 0) {  // Negative if there is no such message.
+        buffer_offset += message_size;
+      }
 
       // The code below may append a newline at the end of the buffer, which
       // requires an extra character.
-- 
2.43.0


From 628851d40a6efe46212321386dff533a53c07684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:34 +0000
Subject: [PATCH 17/18] fix: keep status messages of 4 GiB and more whole

The length was computed and stored in 32 bits. A message whose parts add
up to 4 GiB or more was cut, and what did not fit the wrapped length was
written behind the allocated block.
---
 include/lsmdb/status.h |  8 ++++----
 util/status.cc         | 34 +++++++++++++++++-----------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/include/lsmdb/status.h b/include/lsmdb/status.h
index b9bbef9..f593843 100644
--- a/include/lsmdb/status.h
+++ b/include/lsmdb/status.h
@@ -82,16 +82,16 @@ class LSMDB_EXPORT Status {
   };
 
   Code code() const {
-    return (state_ == nullptr) ? kOk : static_cast<Code>(state_[4]);
+    return (state_ == nullptr) ? kOk : static_cast<Code>(state_[8]);
   }
   Status(Code code, const Slice& msg, const Slice& msg2);
   static const char* CopyState(const char* s);
 
   // OK status has a null state_. Otherwise, state_ is a new[] array
   // of the following form:
-  //    state_[0..3] == length of message
-  //    state_[4]    == code
-  //    state_[5..]  == message
+  //    state_[0..7] == length of message
+  //    state_[8]    == code
+  //    state_[9..]  == message
   const char* state_;
 };
 
diff --git a/util/status.cc b/util/status.cc
index bad77c5..0df7752 100644
--- a/util/status.cc
+++ b/util/status.cc
@@ -13,30 +13,30 @@ namespace lsmdb {
 const char *Status::CopyState(const char *state) {
   // OK status has a null state_. Otherwise, state_ is a new[] array
   // of the following form:
-  //    state_[0..3] == length of message
-  //    state_[4]    == code
-  //    state_[5..]  == message
-  uint32_t size;
+  //    state_[0..7] == length of message
+  //    state_[8]    == code
+  //    state_[9..]  == message
+  uint64_t size;
   std::memcpy(&size, state, sizeof(size));
-  char *result = new char[size + 5];
-  std::memcpy(result, state, size + 5);
+  char *result = new char[size + 9];
+  std::memcpy(result, state, size + 9);
   return result;
 }
 
 Status::Status(lsmdb::Status::Code code, const lsmdb::Slice &msg,
                const lsmdb::Slice &msg2) {
   assert(code != kOk);
-  auto len1 = static_cast<uint32_t>(msg.size());
-  auto len2 = static_cast<uint32_t>(msg2.size());
-  const uint32_t size = len1 + (len2 ? (2 + len2) : 0);
-  char *result = new char[size + 5];
+  auto len1 = static_cast<uint64_t>(msg.size());
+  auto len2 = static_cast<uint64_t>(msg2.size());
+  const uint64_t size = len1 + (len2 ? (2 + len2) : 0);
+  char *result = new char[size + 9];
   std::memcpy(result, &size, sizeof(size));
-  result[4] = static_cast<char>(code);
-  std::memcpy(result + 5, msg.data(), len1);
+  result[8] = static_cast<char>(code);
+  std::memcpy(result + 9, msg.data(), len1);
   if (len2) {
-    result[5 + len1] = ':';
-    result[6 + len1] = ' ';
-    std::memcpy(result + 7 + len1, msg2.data(), len2);
+    result[9 + len1] = ':';
+    result[10 + len1] = ' ';
+    std::memcpy(result + 11 + len1, msg2.data(), len2);
   }
   state_ = result;
 }
@@ -73,9 +73,9 @@ std::string Status::ToString() const {
         break;
     }
     std::string result(type);
-    uint32_t length;
+    uint64_t length;
     std::memcpy(&length, state_, sizeof(length));
-    result.append(state_ + 5, length);
+    result.append(state_ + 9, length);
     return result;
   }
 }
-- 
2.43.0


From c6db0af9c6c542491406d70c24b8583b57247087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:57 +0000
Subject: [PATCH 18/18] fix: random reads of more than 2 GiB return all bytes
 of the range

---
 util/env_posix.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 503cd00..52b7ce9 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -190,10 +190,17 @@ class PosixRandomAccessFile final : public RandomAccessFile {
 
     Status status;
     ssize_t read_size;
+    size_t total = 0;
     do {
-      read_size = ::pread(fd, scratch, n, static_cast<off_t>(offset));
-    } while (read_size < 0 && errno == EINTR);
-    *result = Slice(scratch, (read_size < 0) ? 0 : read_size);
+      // One call transfers at most about 2 GiB.
+      read_size = ::pread(fd, scratch + total, n - total,
+                          static_cast<off_t>(offset + total));
+      if (read_size > 0) {
+        total += read_size;
+      }
+    } while ((read_size > 0 && total < n) ||
+             (read_size < 0 && errno == EINTR));
+    *result = Slice(scratch, (read_size < 0) ? 0 : total);
     if (read_size < 0) {
       // An error: return a non-ok status.
       status = PosixError(filename_, errno);
-- 
2.43.0

