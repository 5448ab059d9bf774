From 83ad16c7fdd3200fa6135d992e3105e867bba885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 01/14] fix: sync the root directory for a manifest file in it

---
 util/env_posix.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 509fcf6..02972ef 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -400,6 +400,10 @@ class PosixWritableFile final : public WritableFile {
     // If it does, the splitting was done incorrectly.
     assert(filename.find('/', separator_pos + 1) == std::string::npos);
 
+    if (separator_pos == 0) {
+      // The file is in the root directory.
+      return std::string("/");
+    }
     return filename.substr(0, separator_pos);
   }
 
-- 
2.43.0


From 2c9535f02ab1851d7ea592ba6358bff8f8755349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 02/14] fix: sequential Skip stops at the end of the file

---
 util/env_posix.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 02972ef..69f293b 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -127,7 +127,20 @@ class PosixSequentialFile final : public SequentialFile {
   }
 
   Status Skip(uint64_t n) override {
-    if (::lseek(fd_, n, SEEK_CUR) == static_cast<off_t>(-1)) {
+    // Seeking past the end of the file would drop bytes appended later, so
+    // stop at the current end.
+    struct ::stat file_stat;
+    const off_t position = ::lseek(fd_, 0, SEEK_CUR);
+    if (position == static_cast<off_t>(-1) || ::fstat(fd_, &file_stat) != 0) {
+      return PosixError(filename_, errno);
+    }
+    const uint64_t available =
+        file_stat.st_size > position ? file_stat.st_size - position : 0;
+    if (n > available) {
+      n = available;
+    }
+    if (::lseek(fd_, static_cast<off_t>(n), SEEK_CUR) ==
+        static_cast<off_t>(-1)) {
       return PosixError(filename_, errno);
     }
     return Status::OK();
-- 
2.43.0


From 54f5876bbe315b7b137bcb8390d35ac78f13b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 03/14] fix: bounds check of mapped reads does not overflow

---
 util/env_posix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 69f293b..fc424a3 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -240,7 +240,7 @@ class PosixMmapReadableFile final : public RandomAccessFile {
 
   Status Read(uint64_t offset, size_t n, Slice* result,
               char* scratch) const override {
-    if (offset + n > length_) {
+    if (offset > length_ || n > length_ - offset) {
       *result = Slice();
       return PosixError(filename_, EINVAL);
     }
-- 
2.43.0


From f5f6577fd4bae0117538e6e3aed2546b71a2eeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 04/14] fix: open empty files for random access

---
 util/env_posix.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index fc424a3..4f62e7a 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -544,6 +544,12 @@ class PosixEnv : public Env {
 
     uint64_t file_size;
     Status status = GetFileSize(filename, &file_size);
+    if (status.ok() && file_size == 0) {
+      // An empty file cannot be mapped.
+      mmap_limiter_.Release();
+      *result = new PosixRandomAccessFile(filename, fd, &fd_limiter_);
+      return Status::OK();
+    }
     if (status.ok()) {
       void* mmap_base =
           ::mmap(nullptr, file_size, PROT_READ, MAP_SHARED, fd, 0);
-- 
2.43.0


From 65789fece6bb6d1ceccad5c4f934cbc47f870ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 05/14] fix: retry interrupted random-access reads

---
 util/env_posix.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 4f62e7a..544f66b 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -191,7 +191,10 @@ class PosixRandomAccessFile final : public RandomAccessFile {
     assert(fd != -1);
 
     Status status;
-    ssize_t read_size = ::pread(fd, scratch, n, static_cast<off_t>(offset));
+    ssize_t read_size;
+    do {
+      read_size = ::pread(fd, scratch, n, static_cast<off_t>(offset));
+    } while (read_size < 0 && errno == EINTR);  // Retry
     *result = Slice(scratch, (read_size < 0) ? 0 : read_size);
     if (read_size < 0) {
       // An error: return a non-ok status.
-- 
2.43.0


From 84a022c07065c5e69f102d8d5613e5f9304468d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 06/14] fix: map a random-access file with the size of the
 opened file

---
 util/env_posix.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 544f66b..1ece64c 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -545,8 +545,15 @@ class PosixEnv : public Env {
       return Status::OK();
     }
 
-    uint64_t file_size;
-    Status status = GetFileSize(filename, &file_size);
+    // Ask the open descriptor: the name may refer to another file by now.
+    struct ::stat file_stat;
+    Status status;
+    uint64_t file_size = 0;
+    if (::fstat(fd, &file_stat) == 0) {
+      file_size = file_stat.st_size;
+    } else {
+      status = PosixError(filename, errno);
+    }
     if (status.ok() && file_size == 0) {
       // An empty file cannot be mapped.
       mmap_limiter_.Release();
-- 
2.43.0


From c347b6a561ff1c560b463c793ac3c88b70f85815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 07/14] fix: report directory read errors from GetChildren

---
 util/env_posix.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 1ece64c..a9c6791 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -617,12 +617,17 @@ class PosixEnv : public Env {
     if (dir == nullptr) {
       return PosixError(directory_path, errno);
     }
+    // readdir() returns nullptr at the end and on errors; only errno tells.
+    Status status;
     struct ::dirent* entry;
-    while ((entry = ::readdir(dir)) != nullptr) {
+    while (errno = 0, (entry = ::readdir(dir)) != nullptr) {
       result->emplace_back(entry->d_name);
     }
+    if (errno != 0) {
+      status = PosixError(directory_path, errno);
+    }
     ::closedir(dir);
-    return Status::OK();
+    return status;
   }
 
   Status RemoveFile(const std::string& filename) override {
-- 
2.43.0


From e302054a5281edc1e01842ad2dd9fe5efacafac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 08/14] fix: a second LockFile does not drop the lock of its
 process

---
 util/env_posix.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index a9c6791..40e65bd 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -671,16 +671,19 @@ class PosixEnv : public Env {
   Status LockFile(const std::string& filename, FileLock** lock) override {
     *lock = nullptr;
 
-    int fd = ::open(filename.c_str(), O_RDWR | O_CREAT | kOpenBaseFlags, 0644);
-    if (fd < 0) {
-      return PosixError(filename, errno);
-    }
-
+    // Closing any descriptor of a file drops all fcntl() locks this process
+    // has on it, so the file must not be opened while it is locked.
     if (!locks_.Insert(filename)) {
-      ::close(fd);
       return Status::IOError("lock " + filename, "already held by process");
     }
 
+    int fd = ::open(filename.c_str(), O_RDWR | O_CREAT | kOpenBaseFlags, 0644);
+    if (fd < 0) {
+      int open_errno = errno;
+      locks_.Remove(filename);
+      return PosixError(filename, open_errno);
+    }
+
     if (LockOrUnlock(fd, true) == -1) {
       int lock_errno = errno;
       ::close(fd);
-- 
2.43.0


From ba4ce1cf52ae9c534bc01e01d598e8b8dcb942b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:12 +0000
Subject: [PATCH 09/14] fix: UnlockFile closes the file before another thread
 can lock it

---
 util/env_posix.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 40e65bd..31ead07 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -703,8 +703,10 @@ class PosixEnv : public Env {
     if (LockOrUnlock(posix_file_lock->fd(), false) == -1) {
       return PosixError("unlock " + posix_file_lock->filename(), errno);
     }
-    locks_.Remove(posix_file_lock->filename());
+    // Close first: closing the descriptor would drop the lock that another
+    // thread may take as soon as the name is removed from the table.
     ::close(posix_file_lock->fd());
+    locks_.Remove(posix_file_lock->filename());
     delete posix_file_lock;
     return Status::OK();
   }
-- 
2.43.0


From f9189a0bb17bb6cbe02a1855bc99e9d8bbc3b055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 10/14] fix: a file created by NewAppendableFile is stored
 under its name

---
 helpers/memenv/memenv.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index cbcd91f..516aad0 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -282,6 +282,7 @@ class InMemoryEnv : public EnvWapper {
     if (file == nullptr) {
       file = new FileState();
       file->Ref();
+      *sptr = file;
     }
     *result = new WritableFileImpl(file);
     return Status::OK();
-- 
2.43.0


From 184909f0bc299b6b4b55b5693ccd748f413fdc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 11/14] fix: renaming an in-memory file onto its own name keeps
 it

---
 helpers/memenv/memenv.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 516aad0..035e0d1 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -350,6 +350,9 @@ class InMemoryEnv : public EnvWapper {
     if (file_map_.find(src) == file_map_.end()) {
       return Status::IOError(src, "File not found");
     }
+    if (src == target) {
+      return Status::OK();
+    }
 
     RemoveFileInternal(target);
     file_map_[target] = file_map_[src];
-- 
2.43.0


From c9cca2f461184635aa26ee2404edab0993e2bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 12/14] fix: in-memory Skip uses one reading of the file size

---
 helpers/memenv/memenv.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 035e0d1..af4e8c4 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -165,10 +165,12 @@ class SequentialFileImpl : public SequentialFile {
   }
 
   Status Skip(uint64_t n) override {
-    if (pos_ > file_->Size()) {
+    // The file may be truncated at any time; look at its size only once.
+    const uint64_t size = file_->Size();
+    if (pos_ > size) {
       return Status::IOError("pos_ > file_->Slice()");
     }
-    const uint64_t available = file_->Size() - pos_;
+    const uint64_t available = size - pos_;
     if (n > available) {
       n = available;
     }
-- 
2.43.0


From 12ba8778b1820df98423814d94fc21afabbcb506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 13/14] fix: capacity of a cache partition does not overflow

---
 util/cache.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/cache.cc b/util/cache.cc
index 3830e26..b327a70 100644
--- a/util/cache.cc
+++ b/util/cache.cc
@@ -391,7 +391,8 @@ const int kNumShards = 1 << kNumShardBits;
 class ShardedLRUCache : public Cache {
  public:
   explicit ShardedLRUCache(size_t capacity) : last_id_(0) {
-    const size_t per_shard = (capacity + (kNumShards - 1)) / kNumShards;
+    const size_t per_shard =
+        capacity / kNumShards + (capacity % kNumShards != 0 ? 1 : 0);
     for (int s = 0; s < kNumShards; ++s) {
       shard_[s].SetCapacity(per_shard);
     }
-- 
2.43.0


From 18a1e5f2efa25dfb1a80f9b6dd5c8ced44daf8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 14/14] fix: skip-list insertion accepts the height of a new
 node

---
 db/skiplist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/skiplist.h b/db/skiplist.h
index 9b17dd4..bb4cc5a 100644
--- a/db/skiplist.h
+++ b/db/skiplist.h
@@ -246,7 +246,7 @@ int SkipList<Key, Comparator>::RandomHeight() {
   while (height < kMaxHeight && ((rnd_.Next() % kBranching) == 0)) {
     height++;
   }
-  assert(height < 0);
+  assert(height > 0);
   assert(height <= kMaxHeight);
   return height;
 }
-- 
2.43.0

