From ba0581e9604371b43141f18ddfba26e41ababea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 01/23] fix: circular_queue::size() divided by zero in the
 invalid (moved-from, cleared) state

---
 base/circular_queue.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/circular_queue.h b/base/circular_queue.h
index 1b00eff..7270d52 100755
--- a/base/circular_queue.h
+++ b/base/circular_queue.h
@@ -35,7 +35,10 @@ public:
         return *this;
     }
 
-    size_t size() const { return (tail_ - head_ + max_size_) % max_size_; }
+    size_t size() const {
+        if(max_size_ == 0) return 0;
+        return (tail_ - head_ + max_size_) % max_size_;
+    }
 
     size_t vec_size() const { return max_size_; }
 
-- 
2.43.0


From 8e679e55791a8694a6daf31af78661ff7929353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 02/23] fix: pattern parser ran past the end of a pattern
 ending in an incomplete '%' item

---
 sinks/formatters/pattern_formatter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sinks/formatters/pattern_formatter.cpp b/sinks/formatters/pattern_formatter.cpp
index 9b989ea..1479426 100755
--- a/sinks/formatters/pattern_formatter.cpp
+++ b/sinks/formatters/pattern_formatter.cpp
@@ -59,9 +59,8 @@ void pattern_formatter::analyse_pattern_(const std::string& pattern) {
 
             spaces_info sp_info = analyse_spaces_info_(++it, end);
 
-            if (it != end) {
-                append_flag_formatter_(*it, sp_info);
-            }
+            if (it == end) break;   // 格式字符缺失，避免 ++it 越过 end
+            append_flag_formatter_(*it, sp_info);
         }
         else {
             if (!as_is_formatter) {
-- 
2.43.0


From a2d19d47db8c075cd7d8fa617b470f2349537029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 03/23] fix: a long padding width in a pattern overflowed
 instead of being capped

---
 sinks/formatters/pattern_formatter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sinks/formatters/pattern_formatter.cpp b/sinks/formatters/pattern_formatter.cpp
index 1479426..c6e9d14 100755
--- a/sinks/formatters/pattern_formatter.cpp
+++ b/sinks/formatters/pattern_formatter.cpp
@@ -102,7 +102,8 @@ spaces_info pattern_formatter::analyse_spaces_info_(std::string::const_iterator&
     size_t fill_len = static_cast<size_t>(*it) - '0';
     ++it;
     while (it != end && std::isdigit(static_cast<unsigned char>(*it))) {
-        fill_len = fill_len * 10 + static_cast<size_t>(*it) - '0';
+        // 及时截断至 MAX_SPACES_LEN，避免数字过长时溢出
+        fill_len = std::min<size_t>(fill_len * 10 + static_cast<size_t>(*it) - '0', MAX_SPACES_LEN);
         ++it;
     }
 
-- 
2.43.0


From bcd05f2b34a39b61b022aeaa3b6893e62724b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 04/23] fix: month name of September had four letters, breaking
 %b and the width of %c

---
 sinks/formatters/flag_formatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index 1bef636..477f4c6 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -71,7 +71,7 @@ static const std::array<const char *, 7> weekday_name{
     {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"} };
 
 static const std::array<const char *, 12> month_name{
-    {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sept", "Oct", "Nov", "Dec"}};
+    {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}};
 
 // 格式化星期几
 class a_formatter final : public flag_formatter {
-- 
2.43.0


From c12c70f537b98c8b4fa13694bdad93dce92b862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 05/23] fix: create_dir() failed for absolute paths

---
 base/os.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index a664aa1..0eaed9b 100755
--- a/base/os.h
+++ b/base/os.h
@@ -206,7 +206,8 @@ inline bool create_dir(const filename_t& path) {
         }
 #endif
 
-        if (!dir_exist(curr_dir) && !mkdir_(curr_dir)) {
+        // 绝对路径的第一个分隔符之前为空，无需创建
+        if (curr_dir.size() != 0 && !dir_exist(curr_dir) && !mkdir_(curr_dir)) {
             return false;
         }
         offset = spr_pos + 1;
-- 
2.43.0


From fa11a8625f425796b0cfe31daa0c23283295fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 06/23] fix: sleep_for_ms() slept microseconds

---
 base/os.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index 0eaed9b..426ce46 100755
--- a/base/os.h
+++ b/base/os.h
@@ -78,7 +78,7 @@ inline void sleep_for_ms(size_t ms) noexcept {
 #ifdef _WIN32
     ::Sleep(static_cast<DWORD>(ms));
 #else
-    std::this_thread::sleep_for(microseconds{ms});
+    std::this_thread::sleep_for(milliseconds{ms});
 #endif
 }
 
-- 
2.43.0


From a484c7d5d528c4e5d5784f846bbc054ddfa2a2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 07/23] fix: is_color_terminal() never evaluated the
 environment and was always true

---
 base/os.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index 426ce46..2c1c8fe 100755
--- a/base/os.h
+++ b/base/os.h
@@ -116,7 +116,7 @@ inline bool is_color_terminal() noexcept {
         return std::any_of(terms.begin(), terms.end(), [&](const char *term) {
             return std::strstr(env_term, term) != nullptr;
         });
-    };
+    }();
 
     return result;
 #endif
-- 
2.43.0


From f7793fafdf42d10213964d0e8db50b84ba87d6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 08/23] fix: loggers initialised after set_global_formatter()
 did not get the global formatter

---
 base/registry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index 99a4a22..0a32c02 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -10,9 +10,9 @@ using namespace base;
 
 void registry::initialize_logger(logger_shr_ptr new_logger) {
     std::lock_guard<std::mutex> lock(loggers_mutex_);
-    new_logger->set_formatter(global_formatter_->clone());
     std::string pattern = global_pattern_;
     new_logger->set_pattern(pattern);
+    new_logger->set_formatter(global_formatter_->clone());
     new_logger->set_log_level(global_log_level_);
     new_logger->set_flush_level(global_flush_level_);
     
-- 
2.43.0


From 79a9b24ca8ee86b73b60b3981e3b5fd56fb482ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 09/23] fix: async_logger worker waited on its own queue when
 the flush level was reached

---
 include/async_logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/async_logger.h b/include/async_logger.h
index f849331..88a8202 100644
--- a/include/async_logger.h
+++ b/include/async_logger.h
@@ -80,7 +80,7 @@ private:
         }
 
         if (should_flush_(msg_popped.level)) {
-            flush_sink_();
+            do_flush_sink_();
         }
     }
     
-- 
2.43.0


From cc917a8ae857a4ecb36b813094126871817e1dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 10/23] fix: periodic_function destructor could lose the
 wake-up of its thread

---
 base/periodic_function.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/periodic_function.h b/base/periodic_function.h
index 5d6fa49..52636e3 100644
--- a/base/periodic_function.h
+++ b/base/periodic_function.h
@@ -36,7 +36,10 @@ public:
 
     ~periodic_function() {
         if (thread_.joinable()) {
-            active_ = false;
+            {
+                std::lock_guard<std::mutex> lock(mutex_);
+                active_ = false;
+            }
             cv_.notify_one();
             thread_.join();
         }
-- 
2.43.0


From 613bb0886261b83e0a2f46db689589c151c784cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 11/23] fix: file_base::close() kept a dangling stream when
 fclose() failed

---
 base/file_base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/file_base.h b/base/file_base.h
index 57835e6..e9cc6ec 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -10,14 +10,14 @@ namespace file_base {
 // 关闭文件
 inline void close(FILE** fpp, const filename_t& fname) {
     if (*fpp != nullptr) {
-        if (::fclose(*fpp) != 0) {
+        FILE* fp = *fpp;
+        *fpp = nullptr;     // 无论 fclose() 是否成功，fp 都不能再次使用
+        if (::fclose(fp) != 0) {
             source_loc loc{__FILE__, __LINE__, __func__};
             std::string fname_str(fname.begin(), fname.end());
             std::string err_str = fmt::format("learnlog::file_base::close() failed, filename: '{}'", fname_str);
             throw_learnlog_excpt(err_str, os::get_errno(), loc);
         }
-        
-        *fpp = nullptr;
     }
 }
 
-- 
2.43.0


From 9c36815c3b67d54cde4487c102ced07ad984d5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 12/23] fix: disable_backtrace() dereferenced null when
 backtrace was never enabled

---
 include/logger.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/logger.h b/include/logger.h
index 107174b..de25a0a 100755
--- a/include/logger.h
+++ b/include/logger.h
@@ -189,7 +189,11 @@ public:
         }
         tracer_->enable_with_size(msg_num);
     }
-    void disable_backtrace() { tracer_->disable(); }
+    void disable_backtrace() {
+        if (tracer_ != nullptr) {
+            tracer_->disable();
+        }
+    }
     void dump_backtrace();
 
     const std::vector<sink_shr_ptr>& sinks() const { return sinks_; }
-- 
2.43.0


From a9c3de55b56e2ee31f0d6b1d09ac4210971aa92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 13/23] fix: logger::swap() left the patterns behind and
 learnlog::swap() was not defined

---
 src/logger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index 3c2a5d4..74f33fe 100755
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -10,6 +10,7 @@ void logger::swap(logger& other) noexcept {
     std::swap(log_level_, other.log_level_);
     std::swap(flush_level_, other.flush_level_);
     std::swap(tracer_, other.tracer_);
+    pattern_.swap(other.pattern_);
 }
 
 void logger::set_pattern(std::string pattern) {
@@ -73,4 +74,4 @@ void logger::flush_sink_() {
 }
 
 
-void swap(logger& a, logger& b) { a.swap(b); }
\ No newline at end of file
+void learnlog::swap(logger& a, logger& b) { a.swap(b); }
\ No newline at end of file
-- 
2.43.0


From 74b45d14af77d51f43291e01eaed86b2c8ad5973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 14/23] fix: atomic_token lock did not order the enqueues it
 protects

---
 base/lockfree_concurrent_thread_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index b963788..c2013c9 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -19,13 +19,14 @@ struct atomic_token {
     void enqueue_lock() {
         bool expected = false;
         while (!enqueuing_.compare_exchange_weak(expected, true,
+                                             std::memory_order_acquire,
                                              std::memory_order_relaxed)) {
             expected = false;
         }
     }
 
     void release() {
-        enqueuing_.store(false, std::memory_order_relaxed);
+        enqueuing_.store(false, std::memory_order_release);
     }
 };
 
-- 
2.43.0


From 4b8a20b441bf742e642f91a730ee1e0010ea1ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 15/23] fix: threads reused the producer token of a destroyed
 lockfree_concurrent_thread_pool

---
 base/lockfree_concurrent_thread_pool.cpp |  1 +
 base/lockfree_concurrent_thread_pool.h   | 17 +++++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/base/lockfree_concurrent_thread_pool.cpp b/base/lockfree_concurrent_thread_pool.cpp
index ecda9fa..4e86329 100644
--- a/base/lockfree_concurrent_thread_pool.cpp
+++ b/base/lockfree_concurrent_thread_pool.cpp
@@ -5,4 +5,5 @@ using namespace base;
 
 #ifdef LEARNLOG_USE_TLS
     thread_local atomic_token* lockfree_concurrent_thread_pool::token_ = nullptr;
+    thread_local std::unordered_map<size_t, atomic_token*> lockfree_concurrent_thread_pool::producer_tokens_;
 #endif
diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index c2013c9..5421f6d 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -174,15 +174,17 @@ private:
     void enqueue_async_msg_(async_msg&& amsg) override {
         atomic_token* token = nullptr;
 #ifdef LEARNLOG_USE_TLS
-        if (token_ == nullptr) {
+        // 每个线程为每个线程池分别保存 token，线程池销毁后不会误用其 token
+        atomic_token*& producer_token = producer_tokens_[pool_id_];
+        if (producer_token == nullptr) {
             size_t cnt = producer_cnt_.fetch_add(1, std::memory_order_relaxed);
             {
                 std::lock_guard<std::mutex> lock(t_mutex_);
-                token_ = atomic_tokens_[cnt % threads_num_];
+                producer_token = atomic_tokens_[cnt % threads_num_];
             }
             producer_sema_.signal();
         }
-        token = token_;
+        token = producer_token;
 #else
         size_t tid = os::thread_id();
         {
@@ -232,7 +234,14 @@ private:
     std::mutex t_mutex_;
     std::vector<atomic_token*> atomic_tokens_;
 #ifdef LEARNLOG_USE_TLS
-    static thread_local atomic_token* token_;
+    static thread_local atomic_token* token_;       // 消费者 token
+    static thread_local std::unordered_map<size_t, atomic_token*> producer_tokens_;
+    const size_t pool_id_{next_pool_id_()};         // 线程池的唯一编号，不会重复使用
+
+    static size_t next_pool_id_() {
+        static std::atomic<size_t> next_id{0};
+        return next_id.fetch_add(1, std::memory_order_relaxed);
+    }
 #else
     std::mutex p_mutex_;
     std::unordered_map<size_t, atomic_token*> producer_atomic_tokens_;
-- 
2.43.0


From 592e7e003fd114430a998761ce7ad969357936b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 16/23] fix: destroying a file sink terminated the program when
 flushing or closing failed

---
 sinks/basic_file_sink.h   | 7 +++++--
 sinks/rolling_file_sink.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/sinks/basic_file_sink.h b/sinks/basic_file_sink.h
index 461cfee..57c7edb 100644
--- a/sinks/basic_file_sink.h
+++ b/sinks/basic_file_sink.h
@@ -24,8 +24,11 @@ public:
     }
     
     ~basic_file_sink() override {
-        basic_sink<Mutex>::flush();
-        base::file_base::close(&file_, filename_);
+        // 析构函数不能抛出异常，否则程序终止
+        try { basic_sink<Mutex>::flush(); }
+        LEARNLOG_CATCH
+        try { base::file_base::close(&file_, filename_); }
+        LEARNLOG_CATCH
     }
 
     filename_t filename() const { return filename_; }
diff --git a/sinks/rolling_file_sink.h b/sinks/rolling_file_sink.h
index db233bd..fc1ca5c 100644
--- a/sinks/rolling_file_sink.h
+++ b/sinks/rolling_file_sink.h
@@ -41,8 +41,11 @@ public:
     }
 
     ~rolling_file_sink() { 
-        basic_sink<Mutex>::flush();
-        base::file_base::close(&file_, get_rolling_filename(file_index_));
+        // 析构函数不能抛出异常，否则程序终止
+        try { basic_sink<Mutex>::flush(); }
+        LEARNLOG_CATCH
+        try { base::file_base::close(&file_, get_rolling_filename(file_index_)); }
+        LEARNLOG_CATCH
     }
    
     filename_t base_filename() const { return base_fname_; }
-- 
2.43.0


From c6fbe07e08e0a46b11b126b223b1cd3fccaa4075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 17/23] fix: log_msg_buf lost its text when copy-assigned to
 itself

---
 base/log_msg_buf.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/log_msg_buf.h b/base/log_msg_buf.h
index e1d4b93..0cc77de 100755
--- a/base/log_msg_buf.h
+++ b/base/log_msg_buf.h
@@ -29,6 +29,7 @@ public:
     }
 
     log_msg_buf& operator=(const log_msg_buf &other) {
+        if (this == &other) return *this;
         log_msg::operator=(other);
         buf_.clear();
         buf_.append(other.buf_.data(), other.buf_.data() + other.buf_.size());
-- 
2.43.0


From 5ac9c4a3c23890ffc45705520911bc202c4d686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:37 +0000
Subject: [PATCH 18/23] fix: %C dereferenced null for a source location without
 a function name

---
 sinks/formatters/flag_formatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index 477f4c6..74e478e 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -424,7 +424,7 @@ public:
         : flag_formatter(sp_info) {}
 
     void format(const base::log_msg& msg, const std::tm&, fmt_memory_buf& dest_buf) override {
-        if (msg.loc.empty()) {
+        if (msg.loc.empty() || msg.loc.funcname == nullptr) {
             filler f(0, spaces_info_, dest_buf);
             return;
         }
-- 
2.43.0


From 604aba5f032d96934b634678769fc138b890cfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 19/23] fix: lockfree_thread_pool hung when more threads logged
 than it had memory blocks

---
 base/lockfree_thread_pool.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/lockfree_thread_pool.h b/base/lockfree_thread_pool.h
index f5e890f..b99be91 100644
--- a/base/lockfree_thread_pool.h
+++ b/base/lockfree_thread_pool.h
@@ -105,8 +105,12 @@ public:
 
 private:
     void enqueue_async_msg_(async_msg&& amsg) override {
-        while (!msg_q_.try_enqueue(std::move(amsg)))
-            continue;
+        while (!msg_q_.try_enqueue(std::move(amsg))) {
+            // 队列未满，但预分配的内存块都被其他生产者线程占用，需要分配新的内存块
+            if (current_msg_count() < msg_q_size_ && msg_q_.enqueue(std::move(amsg))) {
+                break;
+            }
+        }
     }
 
     void dequeue_async_msg_(async_msg& amsg) override {
-- 
2.43.0


From 38cd4e3b8670f94aeabd5e9847bc98b31c51616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 20/23] fix: learnlog::initialize_thread_pool() and
 flush_every() let exceptions reach the caller

---
 include/learnlog.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/learnlog.h b/include/learnlog.h
index dc2efe2..d2c662d 100644
--- a/include/learnlog.h
+++ b/include/learnlog.h
@@ -108,8 +108,11 @@ void remove_all();
 // 完成后自动调用 register_thread_pool() 注册
 template <typename Threadpool>
 void initialize_thread_pool(size_t msg_queue_size, size_t thread_num) {
-    base::registry::instance().initialize_thread_pool<Threadpool>(msg_queue_size, 
-                                                                  thread_num);
+    try {
+        base::registry::instance().initialize_thread_pool<Threadpool>(msg_queue_size, 
+                                                                      thread_num);
+    }
+    LEARNLOG_CATCH
 }
 
 // 注册线程池
@@ -126,7 +129,10 @@ void close();
 //  learnlog::flush_every(std::chrono::seconds(1));
 template <typename Rep, typename Period>
 void flush_every(std::chrono::duration<Rep, Period> interval) {
-    base::registry::instance().flush_every(interval);
+    try {
+        base::registry::instance().flush_every(interval);
+    }
+    LEARNLOG_CATCH
 }
 
 // 通过 factory 创建 logger 对象，创建时需要指定 logger 使用的 sink、
-- 
2.43.0


From d58e94b3abf4e55c9a1e63035fd178d69fc7e20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 21/23] fix: destroying a lockfree_thread_pool could lose
 messages submitted by other threads

---
 base/lockfree_thread_pool.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/lockfree_thread_pool.h b/base/lockfree_thread_pool.h
index b99be91..8d2976c 100644
--- a/base/lockfree_thread_pool.h
+++ b/base/lockfree_thread_pool.h
@@ -84,7 +84,9 @@ public:
     }
 
     ~lockfree_thread_pool() override {
-        while (current_msg_count() != 0) {
+        // 等待所有消息都已出队：current_msg_count() 为 0 时，工作线程可能还未取出最后的消息，
+        // 此时入队的 terminate 消息可能先被取出，导致其他线程提交的消息丢失
+        while (pending_cnt_.load() != 0) {
             // os::sleep_for_ms(1);
         }
         for (size_t i = 0; i < threads_num_; i++) {
@@ -105,6 +107,7 @@ public:
 
 private:
     void enqueue_async_msg_(async_msg&& amsg) override {
+        pending_cnt_.fetch_add(1);
         while (!msg_q_.try_enqueue(std::move(amsg))) {
             // 队列未满，但预分配的内存块都被其他生产者线程占用，需要分配新的内存块
             if (current_msg_count() < msg_q_size_ && msg_q_.enqueue(std::move(amsg))) {
@@ -125,6 +128,7 @@ private:
         }
         msg_q_.wait_dequeue(*token, amsg);
 #endif
+        pending_cnt_.fetch_sub(1);
     }
 
 #ifdef LEARNLOG_USE_TLS
@@ -134,6 +138,7 @@ private:
     std::unordered_map<size_t, c_token_uni_ptr> tokens_;
 #endif
 
+    std::atomic<size_t> pending_cnt_{0};    // 已提交但还未出队的消息数量
     moodycamel::BlockingConcurrentQueue<async_msg> msg_q_;
 };
 
-- 
2.43.0


From d527be5d850f58e9a1590b561aee4a8629c9b16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 22/23] fix: report errors of set_global_pattern and
 set_global_formatter instead of throwing

---
 src/learnlog.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/learnlog.cpp b/src/learnlog.cpp
index 914cd07..50c3603 100644
--- a/src/learnlog.cpp
+++ b/src/learnlog.cpp
@@ -40,11 +40,15 @@ void learnlog::set_default_logger(logger_shr_ptr new_default_logger) {
 }
 
 void learnlog::set_global_pattern(std::string pattern) {
-    base::registry::instance().set_global_pattern(std::move(pattern));
+    try {
+        base::registry::instance().set_global_pattern(std::move(pattern));
+    } LEARNLOG_CATCH
 }
 
 void learnlog::set_global_formatter(formatter_uni_ptr new_formatter) {
-    base::registry::instance().set_global_formatter(std::move(new_formatter));
+    try {
+        base::registry::instance().set_global_formatter(std::move(new_formatter));
+    } LEARNLOG_CATCH
 }
 
 void learnlog::set_pattern(const std::string& logger_name, std::string pattern) {
-- 
2.43.0


From 5c97c187ea121c69a2d1e772fc301bddc66bcff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:10 +0000
Subject: [PATCH 23/23] fix: a thread that exits while a lockfree queue is
 destroyed read a freed producer

---
 base/concurrentqueue/concurrentqueue.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/concurrentqueue/concurrentqueue.h b/base/concurrentqueue/concurrentqueue.h
index 23e8a63..f4dffab 100644
--- a/base/concurrentqueue/concurrentqueue.h
+++ b/base/concurrentqueue/concurrentqueue.h
@@ -610,9 +610,11 @@ namespace details
 			// This thread is about to exit, let everyone know!
 			assert(this == &instance() && "If this assert fails, you likely have a buggy compiler! Change the preprocessor conditions such that MOODYCAMEL_CPP11_THREAD_LOCAL_SUPPORTED is no longer defined.");
 			std::lock_guard<std::mutex> guard(mutex());
-			for (auto ptr = tail; ptr != nullptr; ptr = ptr->next) {
+			for (auto ptr = tail; ptr != nullptr; ) {
+				auto next = ptr->next;		// the callback marks the producer inactive, from then on its queue may free it (and the listener)
 				ptr->chain = nullptr;
 				ptr->callback(ptr->userData);
+				ptr = next;
 			}
 		}
 		
@@ -2437,7 +2439,7 @@ private:
 			
 #ifdef MOODYCAMEL_CPP11_THREAD_LOCAL_SUPPORTED
 			// Unregister ourselves for thread termination notification
-			if (!this->inactive.load(std::memory_order_relaxed)) {
+			if (!this->inactive.load(std::memory_order_acquire)) {
 				details::ThreadExitNotifier::unsubscribe(&threadExitListener);
 			}
 #endif
-- 
2.43.0

