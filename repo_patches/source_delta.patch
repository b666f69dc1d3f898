From 287f76a17d161c10eff4d6fbdeeba123a3bba68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:29 +0000
Subject: [PATCH 01/49] fix: Queue::clone copied all but the last element (and
 one too many when empty)

---
 rpp/queue.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rpp/queue.h b/rpp/queue.h
index d036f02..2534086 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -77,17 +77,15 @@ struct Queue {
         if constexpr(Trivially_Copyable<T>) {
             Libc::memcpy(ret.data_, data_, capacity_ * sizeof(T));
         } else if constexpr(Clone<T>) {
-            u64 start = start_idx();
-            u64 end = end_idx();
-            for(u64 i = start; i != end; i = i == capacity_ - 1 ? 0 : i + 1) {
-                new(&ret.data_[i]) T{data_[i].clone()};
+            for(u64 i = 0; i < length_; i++) {
+                u64 idx = idx_at(i);
+                new(&ret.data_[idx]) T{data_[idx].clone()};
             }
         } else {
             static_assert(Copy_Constructable<T>);
-            u64 start = start_idx();
-            u64 end = end_idx();
-            for(u64 i = start; i != end; i = i == capacity_ - 1 ? 0 : i + 1) {
-                new(&ret.data_[i]) T{data_[i]};
+            for(u64 i = 0; i < length_; i++) {
+                u64 idx = idx_at(i);
+                new(&ret.data_[idx]) T{data_[idx]};
             }
         }
         return ret;
-- 
2.43.0


From 6c329cf0e0ff3811da2178c98041a1b826b88fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:40 +0000
Subject: [PATCH 02/49] fix: Queue::erase_first moved the tail away from the
 erased element

---
 rpp/queue.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rpp/queue.h b/rpp/queue.h
index 2534086..6ba74be 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -240,15 +240,16 @@ struct Queue {
     {
         bool found = false;
         u64 idx = start_idx();
+        u64 prev = idx;
         u64 consumed = 0;
         while(consumed < length_) {
             u64 next = idx == capacity_ - 1 ? 0 : idx + 1;
             if(found) {
                 if constexpr(Trivially_Movable<T>) {
-                    Libc::memcpy(&data_[next], &data_[idx], sizeof(T));
+                    Libc::memcpy(&data_[prev], &data_[idx], sizeof(T));
                 } else {
                     static_assert(Move_Constructable<T>);
-                    new(&data_[next]) T{rpp::move(data_[idx])};
+                    new(&data_[prev]) T{rpp::move(data_[idx])};
                 }
             } else if(data_[idx] == value) {
                 if constexpr(Must_Destruct<T>) {
@@ -256,6 +257,7 @@ struct Queue {
                 }
                 found = true;
             }
+            prev = idx;
             idx = next;
             consumed++;
         }
-- 
2.43.0


From fe7a7e2e4598983715258c21c26154a7103541b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 03/49] fix: Slice::sub accepted a start beyond the end when
 start + length wraps

---
 rpp/slice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/slice.h b/rpp/slice.h
index f2f2058..ff1c062 100644
--- a/rpp/slice.h
+++ b/rpp/slice.h
@@ -114,7 +114,7 @@ struct Slice {
     }
 
     [[nodiscard]] constexpr Slice sub(u64 start, u64 length) const noexcept {
-        assert(start + length <= length_);
+        assert(start <= length_ && length <= length_ - start);
         return Slice{data_ + start, length};
     }
 
-- 
2.43.0


From a7aad6c80a38347f9d3b1d3e5fdc85929b8949c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:15 +0000
Subject: [PATCH 04/49] fix: String::write accepted an offset that wraps past
 the end

---
 rpp/string1.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/string1.h b/rpp/string1.h
index bdf9b9c..71ebbb8 100644
--- a/rpp/string1.h
+++ b/rpp/string1.h
@@ -120,14 +120,14 @@ template<Allocator A>
 template<Allocator A>
 template<Allocator B>
 [[nodiscard]] u64 String<A>::write(u64 i, const String<B>& text) noexcept {
-    assert(i + text.length() <= length_);
+    assert(i <= length_ && text.length() <= length_ - i);
     Libc::memcpy(data_ + i, text.data(), text.length());
     return i + text.length();
 }
 
 template<Allocator A>
 [[nodiscard]] u64 String<A>::write(u64 i, String_View text) noexcept {
-    assert(i + text.length() <= length_);
+    assert(i <= length_ && text.length() <= length_ - i);
     Libc::memcpy(data_ + i, text.data(), text.length());
     return i + text.length();
 }
-- 
2.43.0


From d0b319aa0a5b6681f74e7484a68df646af4e8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 05/49] fix: String equality stopped comparing at an embedded
 NUL

---
 rpp/string0.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/rpp/string0.h b/rpp/string0.h
index d692e42..d0679b9 100644
--- a/rpp/string0.h
+++ b/rpp/string0.h
@@ -198,8 +198,7 @@ template<Allocator A>
 
 [[nodiscard]] constexpr bool operator==(String_View l, String_View r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 [[nodiscard]] constexpr bool operator<(String_View l, String_View r) noexcept {
@@ -214,22 +213,19 @@ template<Allocator A>
 template<Allocator A>
 [[nodiscard]] bool operator==(const String<A>& l, String_View r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator B>
 [[nodiscard]] bool operator==(String_View l, const String<B>& r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator A, Allocator B>
 [[nodiscard]] bool operator==(const String<A>& l, const String<B>& r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator A, Allocator B>
-- 
2.43.0


From 5715f7ddfe7f5ce845077c0e202840e4ad47813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 06/49] fix: file_suffix and remove_file_suffix ignored a
 separator at the start

---
 rpp/string1.h | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/rpp/string1.h b/rpp/string1.h
index 71ebbb8..09fb368 100644
--- a/rpp/string1.h
+++ b/rpp/string1.h
@@ -66,48 +66,36 @@ template<Allocator RA>
 
     if(length_ == 0) return String_View{};
 
-    u64 i = length_ - 1;
-    u64 offset = 0;
+    u64 i = length_;
 
     for(; i != 0; i--) {
-        if(data_[i] == '\\' || data_[i] == '/') {
-            offset = 1;
-            break;
-        }
+        if(data_[i - 1] == '\\' || data_[i - 1] == '/') break;
     }
-    return String_View{data_ + i + offset, length_ - i - offset};
+    return String_View{data_ + i, length_ - i};
 }
 
 [[nodiscard]] constexpr String_View String_View::file_extension() const noexcept {
 
     if(length_ == 0) return String_View{};
 
-    u64 i = length_ - 1;
-    u64 offset = 0;
+    u64 i = length_;
 
     for(; i != 0; i--) {
-        if(data_[i] == '.' || data_[i] == '\\' || data_[i] == '/') {
-            offset = 1;
-            break;
-        }
+        if(data_[i - 1] == '.' || data_[i - 1] == '\\' || data_[i - 1] == '/') break;
     }
-    return String_View{data_ + i + offset, length_ - i - offset};
+    return String_View{data_ + i, length_ - i};
 }
 
 [[nodiscard]] constexpr String_View String_View::remove_file_suffix() const noexcept {
 
     if(length_ == 0) return String_View{};
 
-    bool found = 0;
-    u64 i = length_ - 1;
+    u64 i = length_;
 
     for(; i != 0; i--) {
-        if(data_[i] == '\\' || data_[i] == '/') {
-            found = 1;
-            break;
-        }
+        if(data_[i - 1] == '\\' || data_[i - 1] == '/') break;
     }
-    return String_View{data_, i + found};
+    return String_View{data_, i};
 }
 
 template<Allocator A>
-- 
2.43.0


From 69c291a6cc69f46891ac49e154eb72a003d86352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:50 +0000
Subject: [PATCH 07/49] fix: Heap::top read an empty heap

---
 rpp/heap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/heap.h b/rpp/heap.h
index dc65cae..fe6ab72 100644
--- a/rpp/heap.h
+++ b/rpp/heap.h
@@ -174,9 +174,11 @@ struct Heap {
     }
 
     [[nodiscard]] T& top() noexcept {
+        assert(length_ > 0);
         return data_[0];
     }
     [[nodiscard]] const T& top() const noexcept {
+        assert(length_ > 0);
         return data_[0];
     }
 
-- 
2.43.0


From 3b8bd532bf7cd8a5763c6c4b9bc4f1010e649b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:57 +0000
Subject: [PATCH 08/49] fix: Thread::sleep truncated long waits and woke early
 on signals

---
 rpp/pos/thread_pos.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/thread_pos.cpp b/rpp/pos/thread_pos.cpp
index 949ec4a..78121a5 100644
--- a/rpp/pos/thread_pos.cpp
+++ b/rpp/pos/thread_pos.cpp
@@ -35,7 +35,11 @@ namespace rpp::Thread {
 static_assert(sizeof(Id) == sizeof(pthread_t), "Id != pthread_t");
 
 void sleep(u64 ms) noexcept {
-    usleep(ms * 1000);
+    struct timespec left;
+    left.tv_sec = static_cast<time_t>(ms / 1000);
+    left.tv_nsec = static_cast<long>((ms % 1000) * 1000000);
+    while(nanosleep(&left, &left) == -1 && errno == EINTR) {
+    }
 }
 
 [[nodiscard]] u64 id_len() noexcept {
-- 
2.43.0


From 5ead4ef3decbf43536ee59d68ddad5579e3da6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:57 +0000
Subject: [PATCH 09/49] fix: Flag::block died when a signal interrupted the
 wait

---
 rpp/pos/thread_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/thread_pos.cpp b/rpp/pos/thread_pos.cpp
index 78121a5..6f98989 100644
--- a/rpp/pos/thread_pos.cpp
+++ b/rpp/pos/thread_pos.cpp
@@ -165,7 +165,7 @@ void Flag::block() noexcept {
 #ifdef RPP_OS_LINUX
     while(__atomic_load_n(&value_, __ATOMIC_SEQ_CST) == 0) {
         int ret = syscall(SYS_futex, &value_, FUTEX_WAIT, 0, NULL, NULL, 0);
-        if(ret == -1 && errno != EAGAIN) {
+        if(ret == -1 && errno != EAGAIN && errno != EINTR) {
             die("Failed to wait on futex: %", error(errno));
         }
     }
-- 
2.43.0


From 11cb9dba2b8f7dbd6ec60c11b0aed32def0b6f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:57 +0000
Subject: [PATCH 10/49] fix: Thread::Lock move assignment never released the
 mutex it held

---
 rpp/thread0.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpp/thread0.h b/rpp/thread0.h
index efe4e20..44ceedb 100644
--- a/rpp/thread0.h
+++ b/rpp/thread0.h
@@ -64,7 +64,11 @@ struct Lock {
     Lock& operator=(const Lock&) noexcept = delete;
 
     Lock(Lock&& src) noexcept = default;
-    Lock& operator=(Lock&& src) noexcept = default;
+    Lock& operator=(Lock&& src) noexcept {
+        this->~Lock();
+        mutex_ = rpp::move(src.mutex_);
+        return *this;
+    }
 
 private:
     Ref<Mutex> mutex_;
-- 
2.43.0


From a90d9f6da7b8fd3b7189c94b660b67422d7028cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 11/49] fix: Files::read lost the rest of a short read and
 leaked its descriptor on failure

---
 rpp/pos/files_pos.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 1a9af7f..63f8357 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -1,6 +1,7 @@
 
 #include "../files.h"
 
+#include <errno.h>
 #include <fcntl.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -21,17 +22,30 @@ namespace rpp::Files {
     }
 
     off_t full_size = lseek(fd, 0, SEEK_END);
-    lseek(fd, 0, SEEK_SET);
+    if(full_size == -1 || lseek(fd, 0, SEEK_SET) == -1) {
+        warn("Failed to size file %: %", path_, Log::sys_error());
+        close(fd);
+        return {};
+    }
 
     assert(full_size <= RPP_UINT32_MAX);
 
     Vec<u8, Alloc> data(static_cast<u64>(full_size));
     data.resize(static_cast<u64>(full_size));
 
-    if(::read(fd, data.data(), full_size) == -1) {
-        warn("Failed to read file %: %", path_, Log::sys_error());
-        return {};
+    u64 done = 0;
+    while(done < data.length()) {
+        ssize_t ret = ::read(fd, data.data() + done, data.length() - done);
+        if(ret == -1) {
+            if(errno == EINTR) continue;
+            warn("Failed to read file %: %", path_, Log::sys_error());
+            close(fd);
+            return {};
+        }
+        if(ret == 0) break;
+        done += static_cast<u64>(ret);
     }
+    data.resize(done);
 
     close(fd);
     return Opt{rpp::move(data)};
-- 
2.43.0


From d7f8ae43846f7ae753574f12ed8e0ba48553cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 12/49] fix: Files::write opened the file read-only, so it
 always failed

---
 rpp/pos/files_pos.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 63f8357..378a8fe 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -56,7 +56,7 @@ namespace rpp::Files {
     int fd = -1;
     Region(R) {
         auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_RDONLY);
+        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC, 0644);
     }
 
     if(fd == -1) {
@@ -64,9 +64,16 @@ namespace rpp::Files {
         return false;
     }
 
-    if(::write(fd, data.data(), data.length()) == -1) {
-        warn("Failed to write file %: %", path_, Log::sys_error());
-        return false;
+    u64 done = 0;
+    while(done < data.length()) {
+        ssize_t ret = ::write(fd, data.data() + done, data.length() - done);
+        if(ret == -1) {
+            if(errno == EINTR) continue;
+            warn("Failed to write file %: %", path_, Log::sys_error());
+            close(fd);
+            return false;
+        }
+        done += static_cast<u64>(ret);
     }
 
     close(fd);
-- 
2.43.0


From e673b3466ff8b06845fb8d3de0272331cbc7bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 13/49] fix: async file IO leaked descriptors, created files
 without a mode and ignored short transfers

---
 rpp/pos/asyncio_pos.cpp | 50 ++---------------------------------------
 1 file changed, 2 insertions(+), 48 deletions(-)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 8748b85..e5b9771 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -2,9 +2,7 @@
 #include "../asyncio.h"
 #include "../files.h"
 
-#include <fcntl.h>
 #include <sys/epoll.h>
-#include <sys/stat.h>
 #include <sys/timerfd.h>
 #include <unistd.h>
 
@@ -13,55 +11,11 @@
 namespace rpp::Async {
 
 [[nodiscard]] Task<Opt<Vec<u8, Files::Alloc>>> read(Pool<>& pool, String_View path_) noexcept {
-
-    int fd = -1;
-    Region(R) {
-        auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_RDONLY);
-    }
-
-    if(fd == -1) {
-        warn("Failed to open file %: %", path_, Log::sys_error());
-        co_return {};
-    }
-
-    off_t full_size = lseek(fd, 0, SEEK_END);
-    lseek(fd, 0, SEEK_SET);
-
-    assert(full_size <= UINT32_MAX);
-
-    Vec<u8, Files::Alloc> data(static_cast<u64>(full_size));
-    data.resize(static_cast<u64>(full_size));
-
-    if(::read(fd, data.data(), full_size) == -1) {
-        warn("Failed to read file %: %", path_, Log::sys_error());
-        co_return {};
-    }
-
-    close(fd);
-    co_return Opt{rpp::move(data)};
+    co_return Files::read(path_);
 }
 
 [[nodiscard]] Task<bool> write(Pool<>& pool, String_View path_, Slice<u8> data) noexcept {
-
-    int fd = -1;
-    Region(R) {
-        auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC);
-    }
-
-    if(fd == -1) {
-        warn("Failed to create file %: %", path_, Log::sys_error());
-        co_return false;
-    }
-
-    if(::write(fd, data.data(), data.length()) == -1) {
-        warn("Failed to write file %: %", path_, Log::sys_error());
-        co_return false;
-    }
-
-    close(fd);
-    co_return true;
+    co_return Files::write(path_, Slice<const u8>{data.data(), data.length()});
 }
 
 [[nodiscard]] Task<void> wait(Pool<>& pool, u64 ms) noexcept {
-- 
2.43.0


From bf31b6498bee847043526822160d9d70d0612f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 14/49] fix: Udp move assignment leaked the socket it held

---
 rpp/pos/net_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 5da2d9b..72420b3 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -44,6 +44,7 @@ Udp::Udp(Udp&& src) noexcept {
 }
 
 Udp& Udp::operator=(Udp&& src) noexcept {
+    this->~Udp();
     fd = src.fd;
     src.fd = -1;
     return *this;
-- 
2.43.0


From 60508281a90f302ab8b60d97af147c6085ce8fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 15/49] fix: Udp::recv reported a failed receive as a huge
 packet

---
 rpp/pos/net_pos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 72420b3..c5b1d2c 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -67,6 +67,10 @@ void Udp::bind(Address address) noexcept {
     if(ret == -1 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
         return Opt<Data>{};
     }
+    if(ret == -1) {
+        warn("Failed to receive packet: %", Log::sys_error());
+        return Opt<Data>{};
+    }
 
     return Opt{Data{static_cast<u64>(ret), rpp::move(src)}};
 }
-- 
2.43.0


From b56fcca5b3fce056d872aee2fb631d050f8296f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 16/49] fix: Net::Address read past the end of an unterminated
 view

---
 rpp/pos/net_pos.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index c5b1d2c..9190514 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -12,9 +12,12 @@ Address::Address(String_View address, u16 port) noexcept {
     sockaddr_.sin_family = AF_INET;
     sockaddr_.sin_port = htons(port);
 
-    if(inet_pton(AF_INET, reinterpret_cast<const char*>(address.data()),
-                 &sockaddr_.sin_addr.s_addr) != 1) {
-        die("Failed to create address: %", Log::sys_error());
+    Region(R) {
+        auto terminated = address.terminate<Mregion<R>>();
+        if(inet_pton(AF_INET, reinterpret_cast<const char*>(terminated.data()),
+                     &sockaddr_.sin_addr.s_addr) != 1) {
+            die("Failed to create address: %", Log::sys_error());
+        }
     }
 }
 
-- 
2.43.0


From 60e008b1632f2ad7dcd01cf5991dad5bfae7105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 17/49] fix: Event::wait_any died when a signal interrupted the
 wait

---
 rpp/pos/async_pos.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index 7877f47..f5de4a7 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -1,6 +1,7 @@
 
 #include "../async.h"
 
+#include <errno.h>
 #include <sys/epoll.h>
 #include <sys/eventfd.h>
 #include <unistd.h>
@@ -83,7 +84,10 @@ void Event::reset() const noexcept {
     }
 
     epoll_event ev;
-    int ret = epoll_wait(epfd, &ev, 1, -1);
+    int ret = -1;
+    do {
+        ret = epoll_wait(epfd, &ev, 1, -1);
+    } while(ret == -1 && errno == EINTR);
 
     if(ret == -1) {
         die("Failed to wait on events: %", Log::sys_error());
-- 
2.43.0


From b1f1a4dac0efbfb5d4daf90a4b286526ded4120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:42 +0000
Subject: [PATCH 18/49] fix: Task::then kept a reference to a temporary
 continuation across suspension

---
 rpp/async.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rpp/async.h b/rpp/async.h
index 8fb0f15..c66ad4b 100644
--- a/rpp/async.h
+++ b/rpp/async.h
@@ -215,15 +215,21 @@ struct Task {
     template<typename F>
         requires Invocable<F, R> && Is_Task<Invoke_Result<F, R>>
     [[nodiscard]] auto then(F&& f) noexcept -> Invoke_Result<F, R> {
+        return then<F>(*this, rpp::forward<F>(f));
+    }
+
+private:
+    // The continuation lives in the coroutine frame: a temporary does not outlive the call.
+    template<typename F>
+    [[nodiscard]] static auto then(Task& task, F f) noexcept -> Invoke_Result<F, R> {
         if constexpr(Same<R, void>) {
-            co_await *this;
+            co_await task;
             co_return (co_await f());
         } else {
-            co_return (co_await f(co_await *this));
+            co_return (co_await f(co_await task));
         }
     }
 
-private:
     std::coroutine_handle<Promise<R, A>> handle;
 };
 
-- 
2.43.0


From 158a1b280832a852bed884f91e7089cc2f9fe4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:42 +0000
Subject: [PATCH 19/49] fix: Async::wait(0) disarmed its timer and never
 completed

---
 rpp/pos/asyncio_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index e5b9771..5739b03 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -28,6 +28,7 @@ namespace rpp::Async {
     itimerspec spec = {};
     spec.it_value.tv_sec = ms / 1000;
     spec.it_value.tv_nsec = (ms % 1000) * 1000000;
+    if(ms == 0) spec.it_value.tv_nsec = 1; // A zero value would disarm the timer.
 
     if(timerfd_settime(fd, 0, &spec, null) == -1) {
         die("Failed to set timerfd: %", Log::sys_error());
-- 
2.43.0


From 3ce128d195ce01460014eacd113e83640b10195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:04 +0000
Subject: [PATCH 20/49] fix: Async::Pool had no workers (and divided by zero)
 with one hardware thread

---
 rpp/pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/pool.h b/rpp/pool.h
index eaad301..3e2cd50 100644
--- a/rpp/pool.h
+++ b/rpp/pool.h
@@ -52,7 +52,7 @@ template<Allocator A = Alloc>
 struct Pool {
 
     explicit Pool() noexcept
-        : thread_states{Vec<Thread_State, A>::make(Thread::hardware_threads() - 1)} {
+        : thread_states{Vec<Thread_State, A>::make(Math::max(Thread::hardware_threads(), u64{2}) - 1)} {
 
         u64 h_threads = Thread::hardware_threads();
         u64 n_threads = thread_states.length();
@@ -61,7 +61,7 @@ struct Pool {
         for(u64 i = 0; i < n_threads; i++) {
             threads.push(Thread::Thread([this, i, h_threads] {
                 u64 j = i < h_threads / 2 ? i * 2 : (i - h_threads / 2) * 2 + 1;
-                Thread::set_affinity(j);
+                Thread::set_affinity(j % h_threads);
                 do_work(i);
             }));
         }
-- 
2.43.0


From e01f065501bee64365f2a2c348701a8c6713fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:51 +0000
Subject: [PATCH 21/49] fix: Map counted an overwritten key as a new entry

---
 rpp/map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index d3ddf09..b106a74 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -163,6 +163,7 @@ struct Map {
         Libc::memset(data_, 0, capacity_ * sizeof(Slot));
         usable_ = (capacity_ / 4) * 3;
         shift_ = Math::ctlz(capacity_) + 1;
+        length_ = 0;
 
         for(u64 i = 0; i < old_capacity; i++) {
             if(old_data[i].hash != Slot::EMPTY)
@@ -219,7 +220,6 @@ struct Map {
         if(full()) grow();
         Slot slot{rpp::move(key), rpp::move(value)};
         Slot& placed = insert_slot(rpp::move(slot));
-        length_ += 1;
         return placed.data->second;
     }
 
@@ -229,7 +229,6 @@ struct Map {
         if(full()) grow();
         Slot slot{rpp::move(key), V{rpp::forward<Args>(args)...}};
         Slot& placed = insert_slot(rpp::move(slot));
-        length_ += 1;
         return placed.data->second;
     }
 
@@ -412,6 +411,7 @@ private:
             u64 hash = data_[idx].hash;
             if(hash == Slot::EMPTY) {
                 data_[idx] = rpp::move(slot);
+                length_ += 1;
                 return placement ? *placement : data_[idx];
             }
             if(hash == slot.hash && data_[idx].data->first == slot.data->first) {
-- 
2.43.0


From 4dbf8407f4e4b02c0a98bf5d65316c765fa911db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:51 +0000
Subject: [PATCH 22/49] fix: Map::reserve kept a capacity that is not a power
 of two, so clones lost their entries

---
 rpp/map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/map.h b/rpp/map.h
index b106a74..9e5164c 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -153,6 +153,7 @@ struct Map {
     }
 
     void reserve(u64 new_capacity) noexcept {
+        new_capacity = Math::next_pow2(new_capacity);
         if(new_capacity <= capacity_) return;
 
         Slot* old_data = data_;
-- 
2.43.0


From 393e8bce8613194414d9d1c27e06788af1d5dc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:51 +0000
Subject: [PATCH 23/49] fix: Map with capacity one never terminated an
 insertion

---
 rpp/map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index 9e5164c..edfd0c8 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -80,7 +80,7 @@ struct Map {
     explicit Map(u64 capacity) noexcept {
         capacity_ = Math::next_pow2(capacity);
         shift_ = Math::ctlz(capacity_) + 1;
-        usable_ = (capacity_ / 4) * 3;
+        usable_ = capacity_ - (capacity_ + 3) / 4;
         length_ = 0;
         data_ = reinterpret_cast<Slot*>(A::alloc(capacity_ * sizeof(Slot)));
         Libc::memset(data_, 0, capacity_ * sizeof(Slot));
@@ -162,7 +162,7 @@ struct Map {
         capacity_ = new_capacity;
         data_ = reinterpret_cast<Slot*>(A::alloc(capacity_ * sizeof(Slot)));
         Libc::memset(data_, 0, capacity_ * sizeof(Slot));
-        usable_ = (capacity_ / 4) * 3;
+        usable_ = capacity_ - (capacity_ + 3) / 4;
         shift_ = Math::ctlz(capacity_) + 1;
         length_ = 0;
 
-- 
2.43.0


From 0314eed322974248390cec5026387d29bc1ec28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:51 +0000
Subject: [PATCH 24/49] fix: Map::get by view read a null table when the map
 was empty

---
 rpp/map.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index edfd0c8..83345f2 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -290,9 +290,8 @@ struct Map {
     [[nodiscard]] V& get(String_View key) noexcept
         requires(Any_String<K>)
     {
-        if(auto idx = try_get_<String_View>(key); idx.ok()) {
-            return data_[*idx].data->second;
-        }
+        Opt<Ref<V>> value = try_get(key);
+        if(value.ok()) return **value;
         die("Failed to find key %!", key);
     }
 
-- 
2.43.0


From 79f8c9a22f3c34b77ad22230f4fe394ac0b8176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:51 +0000
Subject: [PATCH 25/49] fix: Map::get_or_insert with a temporary key did not
 compile

---
 rpp/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/map.h b/rpp/map.h
index 83345f2..1a2c559 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -329,7 +329,7 @@ struct Map {
         requires Default_Constructable<V>
     {
         Opt<Ref<V>> entry = try_get(key);
-        if(entry) {
+        if(entry.ok()) {
             return **entry;
         }
         return insert(rpp::move(key), V{});
-- 
2.43.0


From fde87d71c6c14e667dd5c8275488d50ee72a1d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:51 +0000
Subject: [PATCH 26/49] fix: the reflection of a map slot named a field that
 does not exist

---
 rpp/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/map.h b/rpp/map.h
index 1a2c559..3c501b9 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -474,7 +474,7 @@ private:
 
 template<Key K, Move_Constructable V>
 RPP_NAMED_TEMPLATE_RECORD(::rpp::detail::Map_Slot, "Slot", RPP_PACK(K, V), RPP_FIELD(hash),
-                          RPP_FIELD(data_));
+                          RPP_FIELD(data));
 
 template<Key K, Move_Constructable V, Allocator A>
 RPP_TEMPLATE_RECORD(Map, RPP_PACK(K, V, A), RPP_FIELD(data_), RPP_FIELD(capacity_),
-- 
2.43.0


From bd112bb1bf249a52c5eb4bd9b6c0d1ad3ee4db79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:39 +0000
Subject: [PATCH 27/49] fix: region allocations were not aligned for the types
 stored in them

---
 rpp/impl/alloc.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rpp/impl/alloc.cpp b/rpp/impl/alloc.cpp
index e5efca6..24eabe2 100644
--- a/rpp/impl/alloc.cpp
+++ b/rpp/impl/alloc.cpp
@@ -10,12 +10,14 @@ static Thread::Atomic g_net_allocs;
 
 using Regions = Mallocator<"Regions", false>;
 
-struct Chunk {
+constexpr u64 REGION_ALIGNMENT = 16;
+
+struct alignas(REGION_ALIGNMENT) Chunk {
     Chunk* up = null;
     u64 size = 0;
     u64 used = 0;
 };
-static_assert(sizeof(Chunk) == 24);
+static_assert(sizeof(Chunk) == 32);
 
 constexpr u64 FIRST_CHUNK_SIZE = Math::KB(1);
 constexpr u64 MAX_REGION_DEPTH = 128;
@@ -49,6 +51,7 @@ static void assert_brand(Region brand) noexcept {
 
 [[nodiscard]] void* Region_Allocator::alloc(Region brand, u64 size) noexcept {
     assert_brand(brand);
+    size = Math::align_pow2(size, REGION_ALIGNMENT);
     if(chunks->size - chunks->used < size) {
         new_chunk(size);
     }
-- 
2.43.0


From be6a94b9c4b26fabd36b50eb72f279d1956f1331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:39 +0000
Subject: [PATCH 28/49] fix: pool allocation of sizes that are not a power of
 two did not compile

---
 rpp/alloc1.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpp/alloc1.h b/rpp/alloc1.h
index 2f89c61..bd6ed34 100644
--- a/rpp/alloc1.h
+++ b/rpp/alloc1.h
@@ -57,7 +57,8 @@ private:
     using Backing = Mallocator<name>;
 
     struct Block {
-        alignas(Math::min<u64>(N, 16)) u8 data[N];
+        // The largest power of two dividing N is enough for any type of size N.
+        alignas(Math::min<u64>(N & (~N + 1), 16)) u8 data[N];
     };
 
     struct Finalizer {
-- 
2.43.0


From 83d7e3c8b354099a255e85aa73ceada1fd123233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:09 +0000
Subject: [PATCH 29/49] fix: parse_string accepts single characters and drops
 trailing whitespace

---
 rpp/format1.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rpp/format1.h b/rpp/format1.h
index 3b8215f..640991a 100644
--- a/rpp/format1.h
+++ b/rpp/format1.h
@@ -60,13 +60,13 @@ template<Enum E>
         start++;
     }
     for(u64 i = start; i < s.length(); i++) {
-        if((i + 1 == s.length() && start < i)) {
-            return Opt<Pair<String_View, String_View>>{Pair{s.sub(start, i + 1), String_View{}}};
-        }
         if(ascii::is_whitespace(s[i])) {
             return Opt<Pair<String_View, String_View>>{
                 Pair{s.sub(start, i), s.sub(i + 1, s.length())}};
         }
+        if(i + 1 == s.length()) {
+            return Opt<Pair<String_View, String_View>>{Pair{s.sub(start, i + 1), String_View{}}};
+        }
     }
     return {};
 }
-- 
2.43.0


From c9e3606051b9efbee30cc679b1d31beb6d525e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:19 +0000
Subject: [PATCH 30/49] fix: reflected cases of Kind include char_

---
 rpp/reflect.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rpp/reflect.h b/rpp/reflect.h
index 7b8ea33..3fb77c4 100644
--- a/rpp/reflect.h
+++ b/rpp/reflect.h
@@ -496,10 +496,11 @@ struct Refl<Kind> {
     constexpr static Literal name = "Kind";
     constexpr static Kind kind = Kind::enum_;
     constexpr static Kind default_ = Kind::void_;
-    using members = List<RPP_CASE(void_), RPP_CASE(i8_), RPP_CASE(i16_), RPP_CASE(i32_),
-                         RPP_CASE(i64_), RPP_CASE(u8_), RPP_CASE(u16_), RPP_CASE(u32_),
-                         RPP_CASE(u64_), RPP_CASE(f32_), RPP_CASE(f64_), RPP_CASE(bool_),
-                         RPP_CASE(array_), RPP_CASE(pointer_), RPP_CASE(enum_), RPP_CASE(record_)>;
+    using members = List<RPP_CASE(void_), RPP_CASE(char_), RPP_CASE(i8_), RPP_CASE(i16_),
+                         RPP_CASE(i32_), RPP_CASE(i64_), RPP_CASE(u8_), RPP_CASE(u16_),
+                         RPP_CASE(u32_), RPP_CASE(u64_), RPP_CASE(f32_), RPP_CASE(f64_),
+                         RPP_CASE(bool_), RPP_CASE(array_), RPP_CASE(pointer_), RPP_CASE(enum_),
+                         RPP_CASE(record_)>;
 };
 
 } // namespace Reflect
-- 
2.43.0


From 90bb53bad2777862712e00ea698fdf5fe610430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 31/49] fix: unary minus on a vector negated its operand

---
 rpp/vmath.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index e3d5f3e..c2462be 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -242,14 +242,15 @@ struct Vect : Vect_Base<T, N> {
             for(u64 i = 0; i < N; i++) r.data[i] = Math::abs(this->data[i]);
         return r;
     }
-    constexpr Vect operator-() noexcept
+    constexpr Vect operator-() const noexcept
         requires is_float || Signed_Int<T>
     {
+        Vect r;
         if constexpr(is_simd)
-            this->pack = F32x4::sub(F32x4::zero(), this->pack);
+            r.pack = F32x4::sub(F32x4::zero(), this->pack);
         else
-            for(u64 i = 0; i < N; i++) this->data[i] = -this->data[i];
-        return *this;
+            for(u64 i = 0; i < N; i++) r.data[i] = -this->data[i];
+        return r;
     }
 
     constexpr Vect normalize() noexcept
-- 
2.43.0


From 56784888748c3ad5e16ecc4016414ef29d476c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 32/49] fix: scalar - Vec4 and scalar / Vec4 swapped their
 operands

---
 rpp/vmath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index c2462be..ab02ef1 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -901,7 +901,7 @@ constexpr Math::Vect<T, N> operator+(T s, Math::Vect<T, N> v) noexcept {
 template<typename T, u64 N>
 constexpr Math::Vect<T, N> operator-(T s, Math::Vect<T, N> v) noexcept {
     if constexpr(Math::Vect<T, N>::is_simd)
-        return Math::Vect<T, N>{SIMD::F32x4::sub(v.pack, SIMD::F32x4::set1(s))};
+        return Math::Vect<T, N>{SIMD::F32x4::sub(SIMD::F32x4::set1(s), v.pack)};
     else {
         Math::Vect<T, N> r;
         for(u64 i = 0; i < N; i++) r.data[i] = s - v.data[i];
@@ -923,7 +923,7 @@ constexpr Math::Vect<T, N> operator*(T s, Math::Vect<T, N> v) noexcept {
 template<typename T, u64 N>
 constexpr Math::Vect<T, N> operator/(T s, Math::Vect<T, N> v) noexcept {
     if constexpr(Math::Vect<T, N>::is_simd)
-        return Math::Vect<T, N>{SIMD::F32x4::div(v.pack, SIMD::F32x4::set1(s))};
+        return Math::Vect<T, N>{SIMD::F32x4::div(SIMD::F32x4::set1(s), v.pack)};
     else {
         Math::Vect<T, N> r;
         for(u64 i = 0; i < N; i++) r.data[i] = s / v.data[i];
-- 
2.43.0


From 30e4e5608bac14caf101b25a2c3c24c52a75785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 33/49] fix: Quat::euler turned about z instead of x for (180,
 0, 0)

---
 rpp/vmath.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index ab02ef1..e2bcfe4 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -672,8 +672,7 @@ struct Quat : detail::Vect_Base<f32, 4> {
         return Quat(x, y, z, w).unit();
     }
     static Quat euler(Vec3 angles) noexcept {
-        if(angles == Vec3{0.0f, 0.0f, 180.0f} || angles == Vec3{180.0f, 0.0f, 0.0f})
-            return Quat{0.0f, 0.0f, -1.0f, 0.0f};
+        if(angles == Vec3{0.0f, 0.0f, 180.0f}) return Quat{0.0f, 0.0f, -1.0f, 0.0f};
         f32 c1 = Math::cos(Math::radians(angles[2] * 0.5f));
         f32 c2 = Math::cos(Math::radians(angles[1] * 0.5f));
         f32 c3 = Math::cos(Math::radians(angles[0] * 0.5f));
-- 
2.43.0


From cae4d682a53b050f6b6c32d5232fbc086f1bc131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 34/49] fix: Mat4::ortho scaled depth by two, so far landed
 outside the depth range

---
 rpp/impl/vmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/impl/vmath.cpp b/rpp/impl/vmath.cpp
index 585bceb..d267218 100644
--- a/rpp/impl/vmath.cpp
+++ b/rpp/impl/vmath.cpp
@@ -228,7 +228,7 @@ Mat4 Mat4::ortho(f32 l, f32 r, f32 b, f32 t, f32 n, f32 f) noexcept {
     Mat4 ret;
     ret[0][0] = 2.0f / (r - l);
     ret[1][1] = 2.0f / (t - b);
-    ret[2][2] = 2.0f / (n - f);
+    ret[2][2] = 1.0f / (n - f);
     ret[3][0] = (-l - r) / (r - l);
     ret[3][1] = (-b - t) / (t - b);
     ret[3][2] = -n / (f - n);
-- 
2.43.0


From e6ffc721f8d9d618a9161a7fd2fe5a065b3c1767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 35/49] fix: Stream::unit scaled by 1e-24 instead of 2^-24 and
 was always zero

---
 rpp/rng.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 7a3a5f1..73d689e 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -29,11 +29,11 @@ struct Stream {
     [[nodiscard]] constexpr F unit() noexcept {
         if constexpr(Same<F, f32>) {
             u64 r = operator()() >> 40;
-            return r * 1e-24f;
+            return r * 0x1.0p-24f;
         } else {
             static_assert(Same<F, f64>);
             u64 r = operator()() >> 11;
-            return r * 1e-53;
+            return r * 0x1.0p-53;
         }
     }
 
-- 
2.43.0


From b66fdef7fe613c6548f3d38deeef94955a393822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 36/49] fix: Stream::range returned values below min for signed
 types

---
 rpp/rng.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 73d689e..b37a100 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -57,8 +57,8 @@ struct Stream {
 
     template<Int I>
     [[nodiscard]] constexpr I range(I min, I max) noexcept {
-        I r = max - min;
-        return min + static_cast<I>(operator()()) % r;
+        u64 r = static_cast<u64>(max) - static_cast<u64>(min);
+        return static_cast<I>(static_cast<u64>(min) + operator()() % r);
     }
 
 private:
-- 
2.43.0


From a16758be90fa43dba3185c708cff64b5e4e46aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 37/49] fix: Stream::shuffle of an empty vector divided by zero

---
 rpp/rng.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index b37a100..66953b8 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -44,7 +44,7 @@ struct Stream {
 
     template<Allocator A, Move_Constructable T>
     constexpr void shuffle(Vec<T, A>& vec) noexcept {
-        for(u64 i = 0; i < vec.length() - 1; i++) {
+        for(u64 i = 0; i + 1 < vec.length(); i++) {
             u64 j = range(i, vec.length());
             swap(vec[i], vec[j]);
         }
-- 
2.43.0


From cd3b573f4f6badfdc5793ec602f8e38dd0db5ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:26 +0000
Subject: [PATCH 38/49] fix: Range_Allocator::allocate rejects sizes whose
 padded size wraps

---
 rpp/range_allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index d65b490..d320458 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -90,7 +90,7 @@ struct Range_Allocator {
         u64 padding = 0;
         while(block) {
             padding = Math::align(block->start, alignment) - block->start;
-            if(block->size >= size + padding) {
+            if(block->size >= padding && block->size - padding >= size) {
                 break;
             }
             block = block->next_free;
-- 
2.43.0


From b49aac77b45aef76390a29cd777d65278282f10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:48 +0000
Subject: [PATCH 39/49] fix: Range_Allocator move destroyed the mutex it goes
 on to use

---
 rpp/range_allocator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index d320458..9689d90 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -30,7 +30,12 @@ struct Range_Allocator {
         *this = rpp::move(src);
     }
     Range_Allocator& operator=(Range_Allocator&& src) noexcept {
-        this->~Range_Allocator();
+        if(this == &src) return *this;
+
+        {
+            Thread::Lock lock(mutex);
+            reset();
+        }
 
         Thread::Lock lock(src.mutex);
 
-- 
2.43.0


From 49c23d3e2cb047167617f5729bd71f295b1fe4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:48 +0000
Subject: [PATCH 40/49] fix: Range_Allocator::statistics reads its counters
 under the lock

---
 rpp/range_allocator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index 9689d90..32a2f0b 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -218,6 +218,7 @@ struct Range_Allocator {
     };
 
     [[nodiscard]] Stats statistics() noexcept {
+        Thread::Lock lock(mutex);
         return stats;
     }
 
-- 
2.43.0


From 996f18a5573e0fda00d9832cedcbc9b7a35f8fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:41 +0000
Subject: [PATCH 41/49] fix: clone into another allocator did not compile

---
 rpp/box.h     | 6 +++---
 rpp/heap.h    | 2 ++
 rpp/map.h     | 2 ++
 rpp/queue.h   | 2 ++
 rpp/stack.h   | 4 +++-
 rpp/string0.h | 2 ++
 rpp/vec.h     | 2 ++
 7 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/rpp/box.h b/rpp/box.h
index c8c2c2d..777ca65 100644
--- a/rpp/box.h
+++ b/rpp/box.h
@@ -66,12 +66,12 @@ struct Box {
     [[nodiscard]] Box<T, R> clone() const noexcept
         requires(Clone<T> || Copy_Constructable<T>)
     {
-        if(!data_) return Box{};
+        if(!data_) return Box<T, R>{};
         if constexpr(Clone<T>) {
-            return Box{data_->clone()};
+            return Box<T, R>{data_->clone()};
         } else {
             static_assert(Copy_Constructable<T>);
-            return Box{*data_};
+            return Box<T, R>{*data_};
         }
     }
 
diff --git a/rpp/heap.h b/rpp/heap.h
index fe6ab72..9868dfe 100644
--- a/rpp/heap.h
+++ b/rpp/heap.h
@@ -257,6 +257,8 @@ private:
     u64 length_ = 0;
     u64 capacity_ = 0;
 
+    template<Heapable, Allocator>
+    friend struct Heap;
     friend struct Reflect::Refl<Heap>;
 };
 
diff --git a/rpp/map.h b/rpp/map.h
index 3c501b9..3bc2352 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -467,6 +467,8 @@ private:
     u64 usable_ = 0;
     u64 shift_ = 0;
 
+    template<Key, Move_Constructable, Allocator>
+    friend struct Map;
     friend struct Reflect::Refl<Map>;
     template<bool>
     friend struct Iterator;
diff --git a/rpp/queue.h b/rpp/queue.h
index 6ba74be..95cdd9b 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -350,6 +350,8 @@ private:
     u64 last_ = 0;
     u64 capacity_ = 0;
 
+    template<Move_Constructable, Allocator>
+    friend struct Queue;
     friend struct Reflect::Refl<Queue>;
     template<bool>
     friend struct Iterator;
diff --git a/rpp/stack.h b/rpp/stack.h
index eac7486..7c0512d 100644
--- a/rpp/stack.h
+++ b/rpp/stack.h
@@ -36,7 +36,7 @@ struct Stack {
         requires Clone<T> || Copy_Constructable<T>
     {
         Stack<T, B> ret;
-        ret.data_ = data_.clone();
+        ret.data_ = data_.template clone<B>();
         return ret;
     }
 
@@ -99,6 +99,8 @@ struct Stack {
 private:
     Vec<T, A> data_;
 
+    template<Move_Constructable, Allocator>
+    friend struct Stack;
     friend struct Reflect::Refl<Stack>;
 };
 
diff --git a/rpp/string0.h b/rpp/string0.h
index d0679b9..e670216 100644
--- a/rpp/string0.h
+++ b/rpp/string0.h
@@ -183,6 +183,8 @@ private:
     u64 capacity_ = 0;
 
     friend struct String_View;
+    template<Allocator>
+    friend struct String;
     friend struct Reflect::Refl<String>;
 };
 
diff --git a/rpp/vec.h b/rpp/vec.h
index 9bde9cc..b9debaf 100644
--- a/rpp/vec.h
+++ b/rpp/vec.h
@@ -266,6 +266,8 @@ private:
     u64 length_ = 0;
     u64 capacity_ = 0;
 
+    template<typename, Allocator>
+    friend struct Vec;
     friend struct Reflect::Refl<Vec>;
 };
 
-- 
2.43.0


From 03c9ec07ee548d2c2cdf49b64d0a725e2b61271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:41 +0000
Subject: [PATCH 42/49] fix: hash of -0.0 differs from that of 0.0

---
 rpp/hash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/hash.h b/rpp/hash.h
index 206eba5..632a018 100644
--- a/rpp/hash.h
+++ b/rpp/hash.h
@@ -54,6 +54,7 @@ struct Hash<char> {
 template<>
 struct Hash<f32> {
     [[nodiscard]] static u64 hash(f32 key) noexcept {
+        if(key == 0.0f) key = 0.0f; // -0.0f == 0.0f
         return squirrel5(static_cast<u64>(*reinterpret_cast<u32*>(&key)));
     }
 };
@@ -61,6 +62,7 @@ struct Hash<f32> {
 template<>
 struct Hash<f64> {
     [[nodiscard]] static u64 hash(f64 key) noexcept {
+        if(key == 0.0) key = 0.0; // -0.0 == 0.0
         return squirrel5(*reinterpret_cast<u64*>(&key));
     }
 };
-- 
2.43.0


From 423f3583f5707a66cbf2b39e27ff7ed66d6d23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:03 +0000
Subject: [PATCH 43/49] fix: Async::Pool with an allocator of one's own did not
 compile

---
 rpp/pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/pool.h b/rpp/pool.h
index 3e2cd50..674bf3c 100644
--- a/rpp/pool.h
+++ b/rpp/pool.h
@@ -59,14 +59,14 @@ struct Pool {
         assert(n_threads <= h_threads && n_threads <= 64);
 
         for(u64 i = 0; i < n_threads; i++) {
-            threads.push(Thread::Thread([this, i, h_threads] {
+            threads.push(Thread::Thread<A>([this, i, h_threads] {
                 u64 j = i < h_threads / 2 ? i * 2 : (i - h_threads / 2) * 2 + 1;
                 Thread::set_affinity(j % h_threads);
                 do_work(i);
             }));
         }
         pending_events.push(Event{});
-        event_thread = Thread::Thread([this] { do_events(); });
+        event_thread = Thread::Thread<A>([this] { do_events(); });
     }
     ~Pool() noexcept {
         shutdown.exchange(true);
-- 
2.43.0


From 9374cba294d9e6dab1ae34138b8fddeabe31fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:26 +0000
Subject: [PATCH 44/49] fix: Math::pow squared once too often and overflowed

---
 rpp/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/math.h b/rpp/math.h
index 24f550f..932810f 100644
--- a/rpp/math.h
+++ b/rpp/math.h
@@ -68,7 +68,7 @@ template<Int I>
             result *= base;
         }
         exp >>= 1;
-        base *= base;
+        if(exp) base *= base; // one more square may overflow
     }
     return result;
 }
-- 
2.43.0


From 11fbef4bbe0b2b78265acf3697b2b8c8b5cd1f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:02 +0000
Subject: [PATCH 45/49] fix: the Record and Enum concepts did not look at the
 kind

---
 rpp/reflect.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/reflect.h b/rpp/reflect.h
index 3fb77c4..55ca2d7 100644
--- a/rpp/reflect.h
+++ b/rpp/reflect.h
@@ -288,14 +288,14 @@ concept Enum = requires() {
     Reflectable<typename Refl<E>::underlying>;
     All<Is_Enum_Case, typename Refl<E>::members>;
     Same<E, decltype(Refl<E>::default_)>;
-    Refl<E>::kind == Kind::enum_;
+    requires Refl<E>::kind == Kind::enum_;
 };
 
 template<typename R>
 concept Record = requires() {
     Reflectable<R>;
     All<Is_Record_Field, typename Refl<R>::members>;
-    Refl<R>::kind == Kind::record_;
+    requires Refl<R>::kind == Kind::record_;
 };
 
 template<typename F>
-- 
2.43.0


From bbd6fbf1e30288f44cf259e517fcd794ce7bb859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:36 +0000
Subject: [PATCH 46/49] fix: entering a profile scope again restarted and
 counted its parent

---
 rpp/impl/profile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpp/impl/profile.cpp b/rpp/impl/profile.cpp
index f1b40a3..6ae6fe3 100644
--- a/rpp/impl/profile.cpp
+++ b/rpp/impl/profile.cpp
@@ -134,8 +134,9 @@ void Profile::Frame_Profile::enter(Log::Location loc) noexcept {
         nodes.push(Timing_Node::make(rpp::move(loc), current_node));
         current_node = child_idx;
     } else {
-        node.begin = timestamp();
-        node.calls++;
+        Timing_Node& child = nodes[current_node];
+        child.begin = timestamp();
+        child.calls++;
     }
 }
 
-- 
2.43.0


From 87ad1f0daf919848b2024ddb216c4db396422614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:36 +0000
Subject: [PATCH 47/49] fix: a thread that ended in a profile frame dropped its
 frames before ending it

---
 rpp/profile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/profile.h b/rpp/profile.h
index 62d2369..dc26bd1 100644
--- a/rpp/profile.h
+++ b/rpp/profile.h
@@ -141,9 +141,9 @@ private:
         }
 
         void finalize() noexcept {
-            frames = {};
             if(during_frame) Profile::end_frame();
             if(registered) Profile::unregister_thread();
+            frames = {};
         }
 
         bool ready() noexcept {
-- 
2.43.0


From 21e4d410086748dda928b6a97afbbcbf658f5696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:36 +0000
Subject: [PATCH 48/49] fix: profile warnings and statistics were logged with
 the accounts locked

---
 rpp/impl/profile.cpp | 42 ++++++++++++++++++++++++++++--------------
 rpp/profile.h        |  8 ++++++++
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/rpp/impl/profile.cpp b/rpp/impl/profile.cpp
index 6ae6fe3..6da6cac 100644
--- a/rpp/impl/profile.cpp
+++ b/rpp/impl/profile.cpp
@@ -160,15 +160,15 @@ void Profile::Frame_Profile::exit() noexcept {
 
 void Profile::alloc(Alloc a) noexcept {
     if constexpr(DO_PROFILE) {
+        // Log callbacks may allocate, so don't warn while holding the lock.
+        bool reallocated = false, no_entry = false;
         {
             Thread::Lock lock(allocs_lock);
             Alloc_Profile& prof = allocs.get_or_insert(a.name);
 
             if(a.size) {
 
-                if(prof.current_set.contains(a.address)) {
-                    warn("Profile: % reallocated %!", a.name, a.address);
-                }
+                reallocated = prof.current_set.contains(a.address);
                 prof.current_set.insert(a.address, a.size);
 
                 prof.allocate_size += a.size;
@@ -180,7 +180,7 @@ void Profile::alloc(Alloc a) noexcept {
 
                 Opt<Ref<u64>> sz = prof.current_set.try_get(a.address);
                 if(!sz.ok()) {
-                    warn("Profile: % freed % with no entry!", a.name, a.address);
+                    no_entry = true;
                 } else {
                     i64 size = **sz;
                     prof.current_set.erase(a.address);
@@ -190,6 +190,8 @@ void Profile::alloc(Alloc a) noexcept {
                 }
             }
         }
+        if(reallocated) warn("Profile: % reallocated %!", a.name, a.address);
+        if(no_entry) warn("Profile: % freed % with no entry!", a.name, a.address);
         {
             Thread::Lock lock(this_thread.frames_lock);
             if(this_thread.during_frame) {
@@ -215,18 +217,30 @@ void Profile::finalize() noexcept {
     }
     this_thread.finalize();
     {
-        Thread::Lock lock(allocs_lock);
-        for(auto& prof : allocs) {
-            info("Allocation stats for [%]:", prof.first);
-            info("\tAllocs: %", prof.second.allocates);
-            info("\tFrees: %", prof.second.frees);
-            info("\tHigh water: %", prof.second.high_water);
-            info("\tAlloc size: %", prof.second.allocate_size);
-            info("\tFree size: %", prof.second.free_size);
-            if(prof.second.current_set_size != 0) {
-                warn("\tUnbalanced size: %", prof.second.current_set_size);
+        Vec<Alloc_Stats, Mhidden> stats;
+        {
+            Thread::Lock lock(allocs_lock);
+            for(auto& prof : allocs) {
+                stats.push(Alloc_Stats{prof.first, prof.second.allocates, prof.second.frees,
+                                       prof.second.high_water, prof.second.allocate_size,
+                                       prof.second.free_size, prof.second.current_set_size});
             }
         }
+        // Log callbacks may allocate, so don't log while holding the lock.
+        for(auto& prof : stats) {
+            info("Allocation stats for [%]:", prof.name);
+            info("\tAllocs: %", prof.allocates);
+            info("\tFrees: %", prof.frees);
+            info("\tHigh water: %", prof.high_water);
+            info("\tAlloc size: %", prof.allocate_size);
+            info("\tFree size: %", prof.free_size);
+            if(prof.current_set_size != 0) {
+                warn("\tUnbalanced size: %", prof.current_set_size);
+            }
+        }
+    }
+    {
+        Thread::Lock lock(allocs_lock);
         allocs.~Map();
     }
     {
diff --git a/rpp/profile.h b/rpp/profile.h
index dc26bd1..76b86af 100644
--- a/rpp/profile.h
+++ b/rpp/profile.h
@@ -121,6 +121,14 @@ private:
         Map<void*, u64, Mhidden> current_set;
     };
 
+    struct Alloc_Stats {
+        String_View name;
+        i64 allocates = 0, frees = 0;
+        i64 high_water = 0;
+        i64 allocate_size = 0, free_size = 0;
+        i64 current_set_size = 0;
+    };
+
     struct Frame_Profile {
         [[nodiscard]] Time_Point begin() noexcept;
         void end() noexcept;
-- 
2.43.0


From 65b01a268cd2cc08e5591488f619ed5496a7b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:01 +0000
Subject: [PATCH 49/49] fix: run finalizers without holding the finalizer lock,
 so that they may register further ones

---
 rpp/impl/profile.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rpp/impl/profile.cpp b/rpp/impl/profile.cpp
index 6da6cac..eea3575 100644
--- a/rpp/impl/profile.cpp
+++ b/rpp/impl/profile.cpp
@@ -208,12 +208,17 @@ void Profile::finalizer(Function<void()> f) noexcept {
 
 void Profile::finalize() noexcept {
     // All threads must have exited before we can finalize.
-    {
-        Thread::Lock lock(finalizers_lock);
-        for(auto& f : finalizers) {
+    // Finalizers may register further ones, so don't run them while holding the lock.
+    for(;;) {
+        Vec<Function<void()>, Mhidden> run;
+        {
+            Thread::Lock lock(finalizers_lock);
+            run = rpp::move(finalizers);
+        }
+        if(run.empty()) break;
+        for(auto& f : run) {
             f();
         }
-        finalizers.~Vec();
     }
     this_thread.finalize();
     {
-- 
2.43.0

