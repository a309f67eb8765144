From c36a82b5f81aa0254e4b87cd8dbd1dade4fbb8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 01/39] fix: dynamic engine run() waits for every submitted
 task, also when an element fails

---
 .../GDynamicEngine/GDynamicEngine.cpp         | 81 ++++++++-----------
 .../_GEngine/GDynamicEngine/GDynamicEngine.h  | 10 ++-
 2 files changed, 40 insertions(+), 51 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
index 5bf8a5b..aa0fed1 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
+++ b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
@@ -54,7 +54,6 @@ CVoid GDynamicEngine::commonRunAll() {
      * 2. 在element执行完成之后，进行裂变，直到所有的element执行完成
      * 3. 等待异步执行结束
      */
-    finished_end_size_.store(0, std::memory_order_release);
     for (auto* element : front_element_arr_) {
         process(element, element == front_element_arr_.back());
     }
@@ -130,8 +129,26 @@ CVoid GDynamicEngine::process(GElementPtr element, const CBool affinity) {
         // 如果 affinity=true，表示用当前的线程，执行这个逻辑。以便增加亲和性
         innerExec(element);
     } else {
+        running_task_size_.fetch_add(1, std::memory_order_acq_rel);
         thread_pool_->execute([this, element] {
-            this->innerExec(element); }, element->binding_index_);
+            this->innerExec(element);
+            this->finishTask(); }, element->binding_index_);
+    }
+}
+
+
+CVoid GDynamicEngine::finishTask() {
+    CSize cur = running_task_size_.load(std::memory_order_acquire);
+    while (cur > 1) {
+        if (running_task_size_.compare_exchange_weak(cur, cur - 1, std::memory_order_acq_rel)) {
+            return;
+        }
+    }
+
+    // 最后一个任务，在锁内完成递减，确保等待的线程不会错过通知，也不会在当前逻辑结束之前返回
+    CGRAPH_LOCK_GUARD lock(locker_.mtx_);
+    if (1 == running_task_size_.fetch_sub(1, std::memory_order_acq_rel)) {
+        locker_.cv_.notify_one();
     }
 }
 
@@ -143,11 +160,8 @@ CVoid GDynamicEngine::innerExec(GElementPtr element) {
         afterElementRun(element);
     } else {
         // 遇到异常情况，结束整体逻辑
-        {
-            CGRAPH_LOCK_GUARD lk(status_lock_);
-            cur_status_ += curStatus;
-        }
-        locker_.cv_.notify_one();
+        CGRAPH_LOCK_GUARD lk(status_lock_);
+        cur_status_ += curStatus;
     }
 }
 
@@ -184,20 +198,12 @@ CVoid GDynamicEngine::afterElementRun(GElementPtr element) {
             }
             break;
         case internal::GElementShape::TAIL:
-            {
-                const auto curEndSize = finished_end_size_.fetch_add(1, std::memory_order_acq_rel) + 1;
-                if (curEndSize == total_end_size_) {
-                    CGRAPH_LOCK_GUARD lock(locker_.mtx_);
-                    locker_.cv_.notify_one();
-                }
-            }
             break;
         default:
             {
                 CGRAPH_LOCK_GUARD lk(status_lock_);
                 cur_status_.setErrorInfo("element shape type error");
             }
-            locker_.cv_.notify_one();
             break;
     }
 }
@@ -207,9 +213,8 @@ CVoid GDynamicEngine::fatWait() {
     const auto epoch = thread_pool_->getConfig().pipeline_wait_busy_epoch_;
     for (CInt i = 0; i < epoch; i++) {
         // 对于 pipeline 运行耗时很短的情况，在 进入 cv.wait() 之前，轮询等到一会
-        // 如果遇到 isErr() 的情况，还是走进入 mutex 的逻辑
-        if (finished_end_size_.load(std::memory_order_acquire) >= total_end_size_) {
-            return;
+        if (0 == running_task_size_.load(std::memory_order_acquire)) {
+            break;
         }
         CGRAPH_YIELD();
     }
@@ -217,17 +222,16 @@ CVoid GDynamicEngine::fatWait() {
     CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
     locker_.cv_.wait(lock, [this] {
         /**
-         * 遇到以下条件之一，结束执行：
-         * 1，执行结束
-         * 2，状态异常
+         * 无论执行结束，还是状态异常，都需要等到所有已经提交的任务结束，
+         * 避免仍在执行的 element 影响下一次 run() 或者 destroy() 的逻辑
          */
-        return (finished_end_size_.load(std::memory_order_acquire) >= total_end_size_) || cur_status_.isErr();
+        return 0 == running_task_size_.load(std::memory_order_acquire);
     });
 }
 
 
 CVoid GDynamicEngine::parallelRunAll() {
-    parallel_run_num_ = 0;
+    running_task_size_ = total_end_size_;
     const CIndex& totalSize = static_cast<CIndex>(parallel_element_matrix_.size());
     for (CIndex i = 0; i < totalSize; i++) {
         auto& curArr = parallel_element_matrix_[i];
@@ -250,41 +254,20 @@ CVoid GDynamicEngine::parallelRunAll() {
         (void)thread_pool_->wakeupAllThread();
     }
 
-    const auto epoch = thread_pool_->getConfig().pipeline_wait_busy_epoch_;
-    for (CInt i = 0; i < epoch; i++) {
-        if (parallel_run_num_ >= total_end_size_) {
-            return;
-        }
-        CGRAPH_YIELD();
-    }
-
-    {
-        CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
-        locker_.cv_.wait(lock, [this] {
-            return (parallel_run_num_ >= total_end_size_ || cur_status_.isErr());
-        });
-    }
+    fatWait();
 }
 
 
 CVoid GDynamicEngine::parallelRunOne(GElementPtr element) {
-    if (unlikely(cur_status_.isErr())) {
-        return;
-    }
-
-    const auto& status = element->fatProcessor(CFunctionType::RUN);
-    if (unlikely(status.isErr())) {
-        {
+    if (likely(!cur_status_.isErr())) {
+        const auto& status = element->fatProcessor(CFunctionType::RUN);
+        if (unlikely(status.isErr())) {
             CGRAPH_LOCK_GUARD lk(status_lock_);
             cur_status_ += status;
         }
     }
 
-    const auto finishedSize = parallel_run_num_.fetch_add(1, std::memory_order_release) + 1;
-    if (finishedSize >= total_end_size_ || cur_status_.isErr()) {
-        CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
-        locker_.cv_.notify_one();
-    }
+    finishTask();
 }
 
 
diff --git a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
index 92dd02d..8077e5c 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
+++ b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
@@ -71,6 +71,13 @@ protected:
      */
     CVoid afterElementRun(GElementPtr element);
 
+    /**
+     * 标记一个提交到线程池中的任务执行结束
+     * @param
+     * @return
+     */
+    CVoid finishTask();
+
     /**
      * 动态图运行等待
      * @param
@@ -107,9 +114,8 @@ private:
     GElementPtrArr total_element_arr_ {};                                                // pipeline中所有的元素信息集合
     GElementPtrArr front_element_arr_ {};                                                // 没有依赖的元素信息
     CSize total_end_size_ = 0;                                                           // 图结束节点数量
-    std::atomic<CSize> finished_end_size_ {0};                                        // 执行结束节点数量
+    std::atomic<CSize> running_task_size_ {0};                                        // 已提交到线程池，尚未执行结束的任务数量
     CStatus cur_status_ {};                                                              // 当前全局的状态信息
-    std::atomic<CSize> parallel_run_num_ {0};                                         // 纯并行时，执行的个数信息
     GElementPtrMat2D parallel_element_matrix_ {};                                        // 纯并行时，记录分解后的数据
     internal::GEngineDagType dag_type_ = { internal::GEngineDagType::COMMON };           // 当前元素的排布形式
 
-- 
2.43.0


From e04590551c711bfcb6e70e17641e35a36dae92a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 02/39] fix: topo and static engine return a crash status from
 run() like the dynamic engine

---
 .../GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp     | 4 +++-
 .../GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp b/src/GraphCtrl/GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp
index 661299a..5877613 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp
+++ b/src/GraphCtrl/GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp
@@ -70,7 +70,9 @@ CStatus GStaticEngine::run() {
         for (auto& future : futures) {
             status += future.get();
         }
-        CGRAPH_FUNCTION_CHECK_STATUS
+        if (unlikely(status.isErr())) {
+            break;    // 异常信息通过返回值透传，确保 pipeline 可以执行 run 之后的恢复逻辑
+        }
     }
 
     CGRAPH_FUNCTION_END
diff --git a/src/GraphCtrl/GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp b/src/GraphCtrl/GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp
index 35ad44c..fae2862 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp
+++ b/src/GraphCtrl/GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp
@@ -25,7 +25,9 @@ CStatus GTopoEngine::run() {
     CGRAPH_FUNCTION_BEGIN
     for (auto* element : topo_elements_) {
         status += element->fatProcessor(CFunctionType::RUN);
-        CGRAPH_FUNCTION_CHECK_STATUS
+        if (unlikely(status.isErr())) {
+            break;    // 异常信息通过返回值透传，确保 pipeline 可以执行 run 之后的恢复逻辑
+        }
     }
     CGRAPH_FUNCTION_END
 }
-- 
2.43.0


From e530513b71600160a4cb29817184af9d6dd78a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 03/39] fix: a stage releases every waiter of a round even if
 the next round has begun

---
 src/GraphCtrl/GraphStage/GStage.cpp | 7 +++++--
 src/GraphCtrl/GraphStage/GStage.h   | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphStage/GStage.cpp b/src/GraphCtrl/GraphStage/GStage.cpp
index d0d2197..26164b8 100644
--- a/src/GraphCtrl/GraphStage/GStage.cpp
+++ b/src/GraphCtrl/GraphStage/GStage.cpp
@@ -37,12 +37,15 @@ CVoid GStage::waiting() {
         // 如果超过了 threshold，则打开全部
         launch(param_);
         cur_value_ = 0;
+        cur_round_++;
         locker_.cv_.notify_all();
         return;
     }
 
-    locker_.cv_.wait(lk, [this] {
-        return 0 == cur_value_ || cur_value_ >= threshold_;
+    // 通过轮次来判断是否放行，避免刚被唤醒的时候，下一轮已经有新的进入，导致无法退出
+    const CSize round = cur_round_;
+    locker_.cv_.wait(lk, [this, round] {
+        return round != cur_round_;
     });
 }
 
diff --git a/src/GraphCtrl/GraphStage/GStage.h b/src/GraphCtrl/GraphStage/GStage.h
index fdc26db..4cdda7f 100644
--- a/src/GraphCtrl/GraphStage/GStage.h
+++ b/src/GraphCtrl/GraphStage/GStage.h
@@ -61,6 +61,7 @@ private:
 private:
     CInt threshold_ { 0 };                // 阈值信息
     CInt cur_value_ { 0 };                // 当前值
+    CSize cur_round_ { 0 };               // 当前轮次，每次放行之后加一
     GStageParamPtr param_ { nullptr };    // 参数信息
     UCvMutex locker_;
 
-- 
2.43.0


From a8212840627d02f49871f0615342442284260963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 04/39] fix: changing the state of a pipeline cannot lose the
 wakeup of a suspended element

---
 src/GraphCtrl/GraphElement/GElementRepository.cpp | 13 +++++++------
 src/GraphCtrl/GraphElement/GElementRepository.h   |  6 +++++-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 40fc749..86be587 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -61,12 +61,17 @@ CStatus GElementRepository::reset() {
 
 CStatus GElementRepository::pushAllState(const GElementState& state) {
     CGRAPH_FUNCTION_BEGIN
+    CGRAPH_LOCK_GUARD lock(state_lock_);    // cancel、suspend、resume 可能来自不同的线程
     if (cur_state_ == state) {
         return status;    // 避免重复赋值
     }
 
     for (auto& cur : elements_) {
-        cur->cur_state_.store(state, std::memory_order_release);
+        {
+            // 在锁内修改，避免 checkSuspend() 判断之后、等待之前的通知丢失
+            CGRAPH_LOCK_GUARD lk(cur->suspend_locker_.mtx_);
+            cur->cur_state_.store(state, std::memory_order_release);
+        }
         if (GElementState::SUSPEND != state) {
             // 目前仅非 suspend 状态，需要切换的。如果一直处于 suspend 状态，是不需要被通知的
             cur->suspend_locker_.cv_.notify_one();
@@ -103,11 +108,7 @@ CVoid GElementRepository::fetch(GElementPtr element) {
 
 
 CBool GElementRepository::isCancelState() const {
-    /**
-     * 因为每次执行的时候，都需要判断一下这个状态是否为 cancel
-     * 且理论上不会出现多线程问题
-     * 故这一层的 cur_state_ 就不设置为atomic类型的了
-     */
+    // 每次执行的时候，都需要判断一下这个状态是否为 cancel
     return GElementState::CANCEL == cur_state_;
 }
 
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.h b/src/GraphCtrl/GraphElement/GElementRepository.h
index 1b6cf17..f430264 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.h
+++ b/src/GraphCtrl/GraphElement/GElementRepository.h
@@ -9,6 +9,9 @@
 #ifndef CGRAPH_GELEMENTREPOSITORY_H
 #define CGRAPH_GELEMENTREPOSITORY_H
 
+#include <atomic>
+#include <mutex>
+
 #include "GElementObject.h"
 #include "GElement.h"
 #include "GElementManager.h"
@@ -89,7 +92,8 @@ private:
 
 private:
     GElementPtrSet elements_ {};                                    // 用于记录所有的element信息
-    GElementState cur_state_ { GElementState::NORMAL };             // 当前状态信息
+    std::atomic<GElementState> cur_state_ { GElementState::NORMAL };    // 当前状态信息
+    std::mutex state_lock_ {};                                      // 控制状态切换的锁
     GElementPtrSet async_elements_ {};                              // 所有异步执行的逻辑，到后来一次性统一获取执行结果信息
 
     friend class GPipeline;
-- 
2.43.0


From aa95b4b5a6fb355d9ab99cc4f58eec6eaaaf8067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 05/39] fix: detachConnId and dropTopic forget the messages
 they delete

---
 src/GraphCtrl/GraphMessage/GMessageManager.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphMessage/GMessageManager.h b/src/GraphCtrl/GraphMessage/GMessageManager.h
index 733a1dc..aec7dc4 100644
--- a/src/GraphCtrl/GraphMessage/GMessageManager.h
+++ b/src/GraphCtrl/GraphMessage/GMessageManager.h
@@ -177,8 +177,9 @@ public:
         auto& messageSet = result->second;
         for (auto* msg : messageSet) {
             if (connId == msg->getConnId()) {
-                CGRAPH_DELETE_PTR(msg);
+                messageSet.erase(msg);    // 先从集合中移除，避免后续的 pub 继续使用已经释放的信息
                 conn_message_map_.erase(connId);
+                CGRAPH_DELETE_PTR(msg);
                 break;
             }
         }
@@ -250,6 +251,7 @@ public:
 
         auto& messageSet = result->second;
         for (auto* msg : messageSet) {
+            conn_message_map_.erase(msg->getConnId());
             CGRAPH_DELETE_PTR(msg)
         }
         pub_sub_message_map_.erase(innerTopic);
-- 
2.43.0


From cc84ac84d98dcbe54404fbd2363e2896fbe0bb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 06/39] fix: GSome elements that outlive a round do not disturb
 the next one

---
 .../GraphElement/GElementRepository.cpp       |  6 +++
 .../GraphElement/GGroup/GSome/GSome.cpp       | 46 +++++++++++++------
 .../GraphElement/GGroup/GSome/GSome.h         | 11 +++++
 3 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 86be587..35dee7a 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -44,6 +44,12 @@ CStatus GElementRepository::setup() {
 CStatus GElementRepository::reset() {
     CGRAPH_FUNCTION_BEGIN
     for (auto& cur : async_elements_) {
+        // 如果是 some 中的 element，需要先等待其完全结束，避免和执行的线程同时获取 async_result_
+        auto* some = dynamic_cast<GSome *>(cur->belong_);
+        if (nullptr != some) {
+            status += some->waitRest();
+        }
+
         if (GElementTimeoutStrategy::HOLD_BY_PIPELINE == cur->timeout_strategy_) {
             // 强烈建议，在这里等待执行完成
             status += cur->getAsyncResult();
diff --git a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
index a39d284..861d926 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
@@ -40,27 +40,35 @@ CStatus GSome::addElementEx(GElementPtr element) {
 CStatus GSome::run()  {
     CGRAPH_FUNCTION_BEGIN
 
-    wait_num_ = static_cast<CInt>(getWaitNum());
-    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(wait_num_ > children_.size(),
-        "num is bigger than elements size.");
-    cur_status_.reset();
-
     /**
+     * 0. 等待上一轮中未执行完的element（比如，在循环执行的 region 中），确保不会影响本轮
      * 1. 并发的执行，其中的所有逻辑信息
      * 2. 等待 Trigger Num 个element执行完成
      * 3. 将所有未执行完的element 设置为timeout
      * 4. 赋返回值
      */
+    (void)waitRest();
+    wait_num_ = static_cast<CInt>(getWaitNum());
+    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(wait_num_ > static_cast<CInt>(children_.size()),
+        "num is bigger than elements size.");
+    cur_status_.reset();
+    rest_num_ = children_.size();
+
+    for (auto* element : children_) {
+        element->done_ = false;
+        auto state = GElementState::TIMEOUT;
+        (void)element->cur_state_.compare_exchange_strong(state, GElementState::NORMAL);
+    }
+
     for (auto* element : children_) {
         thread_pool_->execute([this, element] {
-            {
-                const auto& curStatus = element->fatProcessor(CFunctionType::RUN);
-                CGRAPH_UNIQUE_LOCK lock(lock_);
-                cur_status_ += curStatus;
-                if (--wait_num_ <= 0 || cur_status_.isErr()) {
-                    cv_.notify_one();
-                }
-            }
+            const auto& curStatus = element->fatProcessor(CFunctionType::RUN);
+            CGRAPH_UNIQUE_LOCK lock(lock_);
+            element->done_ = true;
+            cur_status_ += curStatus;
+            wait_num_--;
+            rest_num_--;
+            cv_.notify_all();
         }, binding_index_);
     }
 
@@ -79,6 +87,18 @@ CStatus GSome::run()  {
 }
 
 
+CStatus GSome::waitRest() {
+    CGRAPH_UNIQUE_LOCK lock(lock_);
+    cv_.wait(lock, [this] {
+        return 0 == rest_num_;
+    });
+
+    const CStatus result = cur_status_;
+    cur_status_.reset();    // 避免当前的异常信息，被带到下一轮中
+    return result;
+}
+
+
 CBool GSome::isSerializable() const {
     return false;    // 情况较为复杂，默认不可以
 }
diff --git a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h
index f8c8b0b..e385d56 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h
+++ b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h
@@ -42,8 +42,16 @@ protected:
 
     CStatus addElementEx(GElementPtr element) override;
 
+private:
+    /**
+     * 等待其中所有（包含 timeout 的）element执行结束
+     * @return
+     */
+    CStatus waitRest();
+
 private:
     CInt wait_num_ {0};                        // 还剩的触发结束的个数
+    CSize rest_num_ {0};                       // 还在执行中的个数
     CStatus cur_status_ ;                      // 记录异步时刻的当前状态信息
 
     std::mutex lock_;
@@ -53,8 +61,11 @@ private:
     friend class GDynamicEngine;
     friend class CAllocator;
     friend class GStorageFactory;
+    friend class GElementRepository;
 };
 
+using GSomePtr = GSome *;
+
 CGRAPH_NAMESPACE_END
 
 #endif //CGRAPH_GSOME_H
-- 
2.43.0


From 0775ec143ad3351974f02c4d4d8b6000bfec2e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 07/39] fix: assigning a status replaces the error info even if
 the codes are equal

---
 src/CBasic/CStatus.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/CBasic/CStatus.h b/src/CBasic/CStatus.h
index d43e406..140a2bf 100644
--- a/src/CBasic/CStatus.h
+++ b/src/CBasic/CStatus.h
@@ -60,8 +60,7 @@ public:
     }
 
     CSTATUS& operator=(const CSTATUS& status) {
-        if (this->error_code_ != status.error_code_) {
-            // 如果status是正常的话，则所有数据保持不变
+        if (this != &status) {
             this->error_code_ = status.error_code_;
             this->error_info_ = status.error_info_;
         }
-- 
2.43.0


From 5c9ba5419ad9452ea5688f9d8e62a7684de1ee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 08/39] fix: no daemon is started by an init() that fails

---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 39f97ed..229faf9 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -45,6 +45,8 @@ CStatus GPipeline::init() {
     status += event_manager_->init();
     status += element_manager_->init();
     status += stage_manager_->init();
+    CGRAPH_FUNCTION_CHECK_STATUS    // 如果之前的初始化失败，则不可以启动 daemon
+
     status += daemon_manager_->init();    // daemon的初始化，需要晚于所有element的初始化
     CGRAPH_FUNCTION_CHECK_STATUS
 
-- 
2.43.0


From 643eb12a3b1e1f8a8c1329cedf75340c2561127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 09/39] fix: stopping a timer cannot be delayed by a lost
 notification

---
 src/UtilsCtrl/Timer/UTimer.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/UtilsCtrl/Timer/UTimer.h b/src/UtilsCtrl/Timer/UTimer.h
index f85c715..a2a1f9b 100644
--- a/src/UtilsCtrl/Timer/UTimer.h
+++ b/src/UtilsCtrl/Timer/UTimer.h
@@ -45,8 +45,10 @@ public:
         future_ = std::async(std::launch::async, [this, task, modify]() {
              while (!is_stop_) {
                  CGRAPH_UNIQUE_LOCK lk(mutex_);
-                 auto result = cv_.wait_for(lk, std::chrono::milliseconds(left_interval_));
-                 if (std::cv_status::timeout == result && !is_stop_) {
+                 const CBool isStop = cv_.wait_for(lk, std::chrono::milliseconds(left_interval_), [this] {
+                     return is_stop_.load();
+                 });
+                 if (!isStop) {
                      CMSec start = CGRAPH_GET_CURRENT_MS();
                      task();
                      CMSec ms = modify();
@@ -79,6 +81,10 @@ public:
             return;
         }
 
+        {
+            // 确保等待的线程，要么可以看到 is_stop_ 的变化，要么可以收到通知
+            CGRAPH_LOCK_GUARD lk(mutex_);
+        }
         cv_.notify_one();
         future_.wait();
     }
-- 
2.43.0


From de8928866500903e4bd3cf4730f3f20b368cbd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 10/39] fix: destroy() stops daemons and waits for asynchronous
 events before the thread pool goes

---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 229faf9..fabe8a8 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -88,13 +88,15 @@ CStatus GPipeline::destroy() {
     /**
      * 需要先将线程池相关内容析构，然后再做destroy。
      * 否则的话，在错误status累积的情况下，在windows平台上，会产生崩溃
+     * daemon 和 event 会使用到线程池，需要在此之前结束：
+     * 先停止daemon（其中可能触发event），再等待异步的event执行结束
      */
     status += repository_.destroy();
+    status += daemon_manager_->destroy();
+    status += event_manager_->destroy();
     status += schedule_.destroy();
     CGRAPH_FUNCTION_CHECK_STATUS
 
-    status += event_manager_->destroy();
-    status += daemon_manager_->destroy();
     status += element_manager_->destroy();
     status += stage_manager_->destroy();
     status += param_manager_->destroy();
-- 
2.43.0


From 1fd8e44eea96b735a79afe8a9b18d3edfdc9841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 11/39] fix: tasks committed with a priority run in priority
 order

---
 src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h | 11 ++++++++++-
 src/UtilsCtrl/ThreadPool/Task/UTask.h                 |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
index 552f4f5..395c65b 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
@@ -9,7 +9,9 @@
 #ifndef CGRAPH_UATOMICPRIORITYQUEUE_H
 #define CGRAPH_UATOMICPRIORITYQUEUE_H
 
+#include <memory>
 #include <queue>
+#include <vector>
 
 #include "UQueueObject.h"
 
@@ -86,7 +88,14 @@ public:
     CGRAPH_NO_ALLOWED_COPY(UAtomicPriorityQueue)
 
 private:
-    std::priority_queue<std::unique_ptr<T> > priority_queue_;    // 优先队列信息，根据重要级别决定先后执行顺序
+    // 根据内容（而不是指针地址）判断先后顺序
+    struct Less {
+        CBool operator()(const std::unique_ptr<T>& fst, const std::unique_ptr<T>& snd) const {
+            return *fst < *snd;
+        }
+    };
+
+    std::priority_queue<std::unique_ptr<T>, std::vector<std::unique_ptr<T> >, Less> priority_queue_;    // 优先队列信息，根据重要级别决定先后执行顺序
 };
 
 CGRAPH_NAMESPACE_END
diff --git a/src/UtilsCtrl/ThreadPool/Task/UTask.h b/src/UtilsCtrl/ThreadPool/Task/UTask.h
index e0e9d6c..e703cc2 100644
--- a/src/UtilsCtrl/ThreadPool/Task/UTask.h
+++ b/src/UtilsCtrl/ThreadPool/Task/UTask.h
@@ -56,11 +56,11 @@ public:
     }
 
     CBool operator>(const UTask& task) const {
-        return priority_ < task.priority_;    // 新加入的，放到后面
+        return priority_ > task.priority_;
     }
 
     CBool operator<(const UTask& task) const {
-        return priority_ >= task.priority_;
+        return priority_ < task.priority_;    // 优先级高的，先执行
     }
 
     CGRAPH_NO_ALLOWED_COPY(UTask)
-- 
2.43.0


From 49195e4f9538daa3e616182cf4af54aead4e2d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 12/39] fix: a semaphore blocks until it is signalled

---
 src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h b/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h
index 5247a9a..ff0a607 100644
--- a/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h
+++ b/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h
@@ -24,9 +24,7 @@ public:
     CVoid signal() {
         CGRAPH_UNIQUE_LOCK lk(mutex_);
         cnt_++;
-        if (cnt_ <= 0) {
-            cv_.notify_one();
-        }
+        cv_.notify_one();
     }
 
     /**
@@ -34,10 +32,10 @@ public:
      */
     CVoid wait() {
         CGRAPH_UNIQUE_LOCK lk(mutex_);
-        cnt_--;
         cv_.wait(lk, [this] {
-            return cnt_ < 0;
+            return cnt_ > 0;
         });
+        cnt_--;
     }
 
 private:
-- 
2.43.0


From 2023e92c2aab71e7d5690971a69536c19fda8579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 13/39] fix: makeSerial refuses a pipeline with an asynchronous
 element inside a group

---
 src/GraphCtrl/GraphElement/GElement.cpp               | 2 +-
 src/GraphCtrl/GraphElement/GGroup/GGroup.cpp          | 2 +-
 src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index cb35007..566ab98 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -512,7 +512,7 @@ GElementRelation GElement::getRelation() const {
 
 
 CBool GElement::isSerializable() const {
-    return true;
+    return !isAsync();    // 异步执行的 element，需要依赖线程池
 }
 
 
diff --git a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
index a4deac3..34eb4ea 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
@@ -92,7 +92,7 @@ CBool GGroup::isSerializable() const {
      * 针对group的情况，应该是所有在其中的element 都是可以串行的，才认定为可串行
      * 但是在 region和 multiCondition中，有针对性的判断
      */
-    return std::all_of(children_.begin(), children_.end(),
+    return !isAsync() && std::all_of(children_.begin(), children_.end(),
                        [](GElementPtr element) {
         return element->isSerializable();
     });
diff --git a/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp b/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp
index 32a4a30..c20b1f9 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp
@@ -101,7 +101,7 @@ CVoid GRegion::dump(std::ostream& oss) {
 
 
 CBool GRegion::isSerializable() const {
-    if (nullptr == manager_) {
+    if (nullptr == manager_ || isAsync()) {
         return false;
     }
 
-- 
2.43.0


From 507c0737380214eb2b57714ee591c12eb035c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 14/39] fix: a node inside a group is marked as initialised, so
 that it can spawn tasks

---
 src/GraphCtrl/GraphElement/GGroup/GGroup.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
index 34eb4ea..7cc50c3 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
@@ -19,7 +19,9 @@ CStatus GGroup::init() {
 
     for (GElementPtr element : children_) {
         CGRAPH_ASSERT_NOT_NULL(element)
-        status += element->fatProcessor(CFunctionType::INIT);
+        const auto& curStatus = element->fatProcessor(CFunctionType::INIT);
+        element->is_init_ = curStatus.isNotErr();
+        status += curStatus;
     }
     CGRAPH_FUNCTION_CHECK_STATUS
 
@@ -33,7 +35,9 @@ CStatus GGroup::destroy() {
 
     for (GElementPtr element : children_) {
         CGRAPH_ASSERT_NOT_NULL(element)
-        status += element->fatProcessor(CFunctionType::DESTROY);
+        const auto& curStatus = element->fatProcessor(CFunctionType::DESTROY);
+        element->is_init_ = curStatus.isErr();
+        status += curStatus;
     }
     CGRAPH_FUNCTION_CHECK_STATUS
 
-- 
2.43.0


From f7154bd0cb06dc2f51e7929e759555f55d33eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 15/39] fix: a suspended element waits for resume() instead of
 being skipped

---
 src/GraphCtrl/GraphElement/GElement.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index 566ab98..b4d8737 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -239,7 +239,9 @@ CStatus GElement::fatProcessor(const CFunctionType& type) {
                     is_prepared_ = true;
                 }
 
-                for (CSize i = 0; i < this->loop_ && status.isOK() && GElementState::NORMAL == this->getCurState(); i++) {
+                // 如果已经被 suspend，则需要在这里等待恢复，而不是跳过执行
+                for (CSize i = 0; i < this->loop_ && status.isOK()
+                                  && (checkSuspend(), GElementState::NORMAL == this->getCurState()); i++) {
                     /** 执行带切面的run方法 */
                     status += doAspect(internal::GAspectType::BEGIN_RUN);
                     CGRAPH_FUNCTION_CHECK_STATUS
-- 
2.43.0


From 5f8db7ca639592a2e9fcebe6bce7e4cd131e6e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 16/39] fix: no run() is accepted once destroy() has released
 the thread pool

---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index fabe8a8..58cde23 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -97,12 +97,12 @@ CStatus GPipeline::destroy() {
     status += schedule_.destroy();
     CGRAPH_FUNCTION_CHECK_STATUS
 
+    is_init_ = false;    // 线程池已经结束，无论后续的 destroy 是否成功，都不可以再次执行 run
     status += element_manager_->destroy();
     status += stage_manager_->destroy();
     status += param_manager_->destroy();
     CGRAPH_FUNCTION_CHECK_STATUS
 
-    is_init_ = false;
     CGRAPH_FUNCTION_END
 }
 
-- 
2.43.0


From df7243ef3d1e71b9e07a49fac9f12aa1a2bb0b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 17/39] fix: releasing secondary threads neither waits for the
 calling thread itself nor races with wakeups

---
 .../ThreadPool/Thread/UThreadSecondary.h      |  2 +
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp      | 62 ++++++++++++++-----
 src/UtilsCtrl/ThreadPool/UThreadPool.h        | 13 ++++
 src/UtilsCtrl/ThreadPool/UThreadPool.inl      |  7 ++-
 4 files changed, 66 insertions(+), 18 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h b/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
index 4648234..68ccf49 100644
--- a/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
+++ b/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
@@ -61,6 +61,7 @@ protected:
         CGRAPH_ASSERT_INIT(true)
 
         loopProcess();
+        is_exited_.store(true, std::memory_order_release);
         CGRAPH_FUNCTION_END
     }
 
@@ -118,6 +119,7 @@ protected:
     }
 
 private:
+    std::atomic<bool> is_exited_ { false };                                   // 是否已经退出循环
     CSec cur_ttl_ { 0 };                                                      // 当前最大生存周期
 
     friend class UThreadPool;
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 3233d75..1cafda3 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -186,21 +186,22 @@ CBool UThreadPool::isInit() const {
 CStatus UThreadPool::releaseSecondaryThread(CInt size) {
     CGRAPH_FUNCTION_BEGIN
 
-    // 先将所有已经结束的，给删掉
     CGRAPH_LOCK_GUARD lock(st_mutex_);
-    for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
-        !(*iter)->done_ ? secondary_threads_.erase(iter++) : iter++;
-    }
+    clearExitedThread();    // 先将所有已经结束的，给删掉
 
-    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((size > static_cast<CInt>(secondary_threads_.size())),    \
+    // 已经被标记过、但是还没有结束的线程，不可以再次被释放
+    const CInt leftSize = static_cast<CInt>(calcSecondarySize());
+    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((size > leftSize),    \
                                             "cannot release [" + std::to_string(size) + "] secondary thread,"    \
-                                            + "only [" + std::to_string(secondary_threads_.size()) + "] left.")
+                                            + "only [" + std::to_string(leftSize) + "] left.")
 
     // 再标记几个需要删除的信息
     for (auto iter = secondary_threads_.begin();
-         iter != secondary_threads_.end() && size-- > 0; ) {
-        (*iter)->done_ = false;
-        ++iter;
+         iter != secondary_threads_.end() && size > 0; ++iter) {
+        if ((*iter)->done_) {
+            (*iter)->done_ = false;
+            --size;
+        }
     }
     CGRAPH_FUNCTION_END
 }
@@ -227,10 +228,11 @@ CIndex UThreadPool::dispatch(const CIndex origIndex) {
 CStatus UThreadPool::createSecondaryThread(const CInt size) {
     CGRAPH_FUNCTION_BEGIN
 
+    CGRAPH_LOCK_GUARD lock(st_mutex_);
+    clearExitedThread();
     const int leftSize = static_cast<int>(config_.max_thread_size_ - config_.default_thread_size_ - secondary_threads_.size());
     const int realSize = std::min(size, leftSize);    // 使用 realSize 来确保所有的线程数量之和，不会超过设定max值
 
-    CGRAPH_LOCK_GUARD lock(st_mutex_);
     for (int i = 0; i < realSize; i++) {
         auto ptr = CGRAPH_MAKE_UNIQUE_COBJECT(UThreadSecondary)
         ptr->setThreadPoolInfo(&task_queue_, &priority_task_queue_, &config_);
@@ -263,15 +265,38 @@ CVoid UThreadPool::monitor() {
             createSecondaryThread(1);
         }
 
-        CGRAPH_LOCK_GUARD lock(st_mutex_);
-        // 判断 secondary 线程是否需要退出
-        for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
-            (*iter)->freeze() ? secondary_threads_.erase(iter++) : iter++;
+        // 判断 secondary 线程是否需要退出。在锁外等待其结束，因为其正在执行的任务，也可能会用到 st_mutex_
+        std::list<std::unique_ptr<UThreadSecondary>> frozen;
+        {
+            CGRAPH_LOCK_GUARD lock(st_mutex_);
+            for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
+                auto cur = iter++;
+                if ((*cur)->freeze()) {
+                    frozen.splice(frozen.end(), secondary_threads_, cur);
+                }
+            }
         }
     }
 }
 
 
+CSize UThreadPool::calcSecondarySize() const {
+    CSize size = 0;
+    for (const auto& st : secondary_threads_) {
+        size += st->done_ ? 1 : 0;
+    }
+    return size;
+}
+
+
+CVoid UThreadPool::clearExitedThread() {
+    for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
+        // 仅释放已经退出循环的线程：释放操作可能就执行在被标记的线程上，等待自己结束会造成卡死
+        (*iter)->is_exited_.load(std::memory_order_acquire) ? secondary_threads_.erase(iter++) : iter++;
+    }
+}
+
+
 CSize UThreadPool::wakeupAllThread() {
     CSize size = 0;
     if (wakeup_mutex_.try_lock()) {
@@ -281,9 +306,12 @@ CSize UThreadPool::wakeupAllThread() {
             }
         }
 
-        for (const auto& st : secondary_threads_) {
-            if (st->wakeup()) {
-                ++size;
+        {
+            CGRAPH_LOCK_GUARD lock(st_mutex_);    // 辅助线程可能正在被释放
+            for (const auto& st : secondary_threads_) {
+                if (st->wakeup()) {
+                    ++size;
+                }
             }
         }
         wakeup_mutex_.unlock();
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.h b/src/UtilsCtrl/ThreadPool/UThreadPool.h
index 801f49a..2bdfc95 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.h
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.h
@@ -197,6 +197,19 @@ protected:
      */
     CVoid monitor();
 
+    /**
+     * 清理已经退出的辅助线程
+     * @notice 需要在 st_mutex_ 锁内调用
+     */
+    CVoid clearExitedThread();
+
+    /**
+     * 计算可用的（没有被标记释放的）辅助线程个数
+     * @return
+     * @notice 需要在 st_mutex_ 锁内调用
+     */
+    CSize calcSecondarySize() const;
+
     CGRAPH_NO_ALLOWED_COPY(UThreadPool)
 
 private:
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.inl b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
index 850b6f8..cde4863 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.inl
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
@@ -45,7 +45,12 @@ auto UThreadPool::commitWithPriority(const FunctionType& func, int priority)
     std::packaged_task<ResultType()> task(func);
     std::future<ResultType> result(task.get_future());
 
-    if (secondary_threads_.empty()) {
+    CBool isEmpty = false;
+    {
+        CGRAPH_LOCK_GUARD lock(st_mutex_);
+        isEmpty = (0 == calcSecondarySize());
+    }
+    if (isEmpty) {
         createSecondaryThread(1);    // 如果没有开启辅助线程，则直接开启一个
     }
 
-- 
2.43.0


From daf0c350fa9c17b5ea2250e87029452d90a4d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 18/39] fix: several fences may wait for the same asynchronous
 element

---
 src/GraphCtrl/GraphElement/GElement.cpp | 4 +++-
 src/GraphCtrl/GraphElement/GElement.h   | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index b4d8737..9b06e89 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -558,8 +558,10 @@ CStatus GElement::asyncRun() {
 
 CStatus GElement::getAsyncResult() {
     CGRAPH_FUNCTION_BEGIN
+    // 可能有多个 fence 同时等待当前 element，而 future 的 get 和 valid 方法，不可以并发调用
+    CGRAPH_LOCK_GUARD lock(async_lock_);
     if (async_result_.valid()) {
-        status = async_result_.get();    // 这里的get和valid方法，都是线程安全的
+        status = async_result_.get();
     }
 
     CGRAPH_FUNCTION_END
diff --git a/src/GraphCtrl/GraphElement/GElement.h b/src/GraphCtrl/GraphElement/GElement.h
index 1741d1a..bfeb7b9 100644
--- a/src/GraphCtrl/GraphElement/GElement.h
+++ b/src/GraphCtrl/GraphElement/GElement.h
@@ -470,6 +470,7 @@ private:
 
     /** 异步执行相关信息 */
     std::future<CStatus> async_result_;                                       // 用于记录当前节点的异步执行情况
+    std::mutex async_lock_;                                                   // 防止多个线程，同时获取异步执行的结果
     UCvMutex suspend_locker_;                                                 // 控制停止执行锁信息
 
     friend class GNode;
-- 
2.43.0


From 611a2ec33f745161d900dcca15e15a4ad8704cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 19/39] fix: run() waits for held elements inside timed groups,
 outermost first

---
 src/GraphCtrl/GraphElement/GElement.cpp       | 12 ++++++++---
 src/GraphCtrl/GraphElement/GElement.h         |  2 +-
 .../GraphElement/GElementRepository.cpp       | 21 +++++++++++--------
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index 9b06e89..159a34d 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -538,11 +538,16 @@ CStatus GElement::asyncRun() {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(!isAsync(), "[" + name_ + "] cannot async run.")
 
-    async_result_ = thread_pool_->commit([this] {
+    // 等待期间，async_result_ 可能被 pipeline（或 fence）获取，故这里使用独立的副本
+    const std::shared_future<CStatus> result = thread_pool_->commit([this] {
         return run();
-    }, CGRAPH_POOL_TASK_STRATEGY);
+    }, CGRAPH_POOL_TASK_STRATEGY).share();
+    {
+        CGRAPH_LOCK_GUARD lock(async_lock_);
+        async_result_ = result;
+    }
 
-    const auto& futStatus = async_result_.wait_for(std::chrono::milliseconds(timeout_));
+    const auto& futStatus = result.wait_for(std::chrono::milliseconds(timeout_));
     if (std::future_status::ready == futStatus) {
         status = getAsyncResult();
     } else {
@@ -562,6 +567,7 @@ CStatus GElement::getAsyncResult() {
     CGRAPH_LOCK_GUARD lock(async_lock_);
     if (async_result_.valid()) {
         status = async_result_.get();
+        async_result_ = std::shared_future<CStatus>();    // 仅返回一次
     }
 
     CGRAPH_FUNCTION_END
diff --git a/src/GraphCtrl/GraphElement/GElement.h b/src/GraphCtrl/GraphElement/GElement.h
index bfeb7b9..b00fe44 100644
--- a/src/GraphCtrl/GraphElement/GElement.h
+++ b/src/GraphCtrl/GraphElement/GElement.h
@@ -469,7 +469,7 @@ private:
     std::vector<GElement *> children_ {};                                     // 子节点，适用于group类型
 
     /** 异步执行相关信息 */
-    std::future<CStatus> async_result_;                                       // 用于记录当前节点的异步执行情况
+    std::shared_future<CStatus> async_result_;                                // 用于记录当前节点的异步执行情况
     std::mutex async_lock_;                                                   // 防止多个线程，同时获取异步执行的结果
     UCvMutex suspend_locker_;                                                 // 控制停止执行锁信息
 
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 35dee7a..7f00f7b 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -44,15 +44,18 @@ CStatus GElementRepository::setup() {
 CStatus GElementRepository::reset() {
     CGRAPH_FUNCTION_BEGIN
     for (auto& cur : async_elements_) {
-        // 如果是 some 中的 element，需要先等待其完全结束，避免和执行的线程同时获取 async_result_
-        auto* some = dynamic_cast<GSome *>(cur->belong_);
-        if (nullptr != some) {
-            status += some->waitRest();
-        }
-
-        if (GElementTimeoutStrategy::HOLD_BY_PIPELINE == cur->timeout_strategy_) {
-            // 强烈建议，在这里等待执行完成
-            status += cur->getAsyncResult();
+        // 由外到内依次等待。外层的 group 结束之前，内部的 element 可能还没有开始执行
+        for (auto* element : cur->getDeepPath(false)) {
+            // 如果是 some 中的 element，需要先等待其完全结束，避免和执行的线程同时获取 async_result_
+            auto* some = dynamic_cast<GSome *>(element->belong_);
+            if (nullptr != some) {
+                status += some->waitRest();
+            }
+
+            if (element->isAsync() && GElementTimeoutStrategy::HOLD_BY_PIPELINE == element->timeout_strategy_) {
+                // 强烈建议，在这里等待执行完成
+                status += element->getAsyncResult();
+            }
         }
 
         // 无论如何，写回非 timeout状态，确保不会迭代到下一轮
-- 
2.43.0


From 23aba176eb172a853be8960615c68bea5af239c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 20/39] fix: a timeout that strikes after a run does not affect
 the next run

---
 src/GraphCtrl/GraphElement/GElementRepository.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 7f00f7b..17915c5 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -37,6 +37,11 @@ CStatus GElementRepository::setup() {
     CGRAPH_FUNCTION_BEGIN
     // 一旦执行，全部设置为 normal状态
     status = pushAllState(GElementState::NORMAL);
+    for (auto& cur : async_elements_) {
+        // 上一轮结束之后才超时的 element（在没有被等待的 group 中），也不可以影响到这一轮
+        auto state = GElementState::TIMEOUT;
+        (void)cur->cur_state_.compare_exchange_strong(state, GElementState::NORMAL);
+    }
     CGRAPH_FUNCTION_END
 }
 
-- 
2.43.0


From 991567a79651607480e643c78c455b6158d04aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 21/39] fix: an element suspended between two checks of its
 state is not skipped

---
 src/GraphCtrl/GraphElement/GElement.cpp | 18 ++++++++++--------
 src/GraphCtrl/GraphElement/GElement.h   |  4 ++--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index 159a34d..f8f4ba9 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -241,7 +241,7 @@ CStatus GElement::fatProcessor(const CFunctionType& type) {
 
                 // 如果已经被 suspend，则需要在这里等待恢复，而不是跳过执行
                 for (CSize i = 0; i < this->loop_ && status.isOK()
-                                  && (checkSuspend(), GElementState::NORMAL == this->getCurState()); i++) {
+                                  && GElementState::NORMAL == checkSuspend(); i++) {
                     /** 执行带切面的run方法 */
                     status += doAspect(internal::GAspectType::BEGIN_RUN);
                     CGRAPH_FUNCTION_CHECK_STATUS
@@ -440,15 +440,17 @@ CVoid GElement::dumpPerfInfo(std::ostream& oss) const {
 }
 
 
-CVoid GElement::checkSuspend() {
-    if (GElementState::SUSPEND != cur_state_.load(std::memory_order_acquire)) {
-        return;
+GElementState GElement::checkSuspend() {
+    auto state = cur_state_.load(std::memory_order_acquire);
+    if (GElementState::SUSPEND == state) {
+        std::unique_lock<std::mutex> lk(suspend_locker_.mtx_);
+        this->suspend_locker_.cv_.wait(lk, [this, &state] {
+            state = cur_state_.load(std::memory_order_acquire);
+            return GElementState::SUSPEND != state;
+        });
     }
 
-    std::unique_lock<std::mutex> lk(suspend_locker_.mtx_);
-    this->suspend_locker_.cv_.wait(lk, [this] {
-        return GElementState::SUSPEND != cur_state_.load(std::memory_order_acquire);
-    });
+    return this->isTimeout() ? GElementState::TIMEOUT : state;
 }
 
 
diff --git a/src/GraphCtrl/GraphElement/GElement.h b/src/GraphCtrl/GraphElement/GElement.h
index b00fe44..7f1e8be 100644
--- a/src/GraphCtrl/GraphElement/GElement.h
+++ b/src/GraphCtrl/GraphElement/GElement.h
@@ -383,9 +383,9 @@ private:
 
     /**
      * 判断是否进入 suspend 状态。如果是的话，则等待恢复。未进入 suspend 状态，则继续运行
-     * @return
+     * @return 恢复之后的状态，不会是 SUSPEND
      */
-    CVoid checkSuspend();
+    GElementState checkSuspend();
 
     /**
      * 判断当前元素，是否可以线性执行。默认返回true
-- 
2.43.0


From e1bb42f4f15640a4ec9b6638f13f52f8168230d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:25 +0000
Subject: [PATCH 22/39] fix: an asynchronous result that is an exception is
 delivered only once

---
 src/GraphCtrl/GraphElement/GElement.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index f8f4ba9..0299a13 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -568,8 +568,9 @@ CStatus GElement::getAsyncResult() {
     // 可能有多个 fence 同时等待当前 element，而 future 的 get 和 valid 方法，不可以并发调用
     CGRAPH_LOCK_GUARD lock(async_lock_);
     if (async_result_.valid()) {
-        status = async_result_.get();
-        async_result_ = std::shared_future<CStatus>();    // 仅返回一次
+        const std::shared_future<CStatus> result = std::move(async_result_);
+        async_result_ = std::shared_future<CStatus>();    // 仅返回一次，即使结果是异常
+        status = result.get();
     }
 
     CGRAPH_FUNCTION_END
-- 
2.43.0


From aa77c04a7a0dcd25c04914860cfc539e5b604f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 23/39] fix: commitWithTid() can be instantiated and goes to
 the thread it names

---
 src/UtilsCtrl/ThreadPool/UThreadPool.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.inl b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
index cde4863..d834755 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.inl
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
@@ -29,10 +29,10 @@ template<typename FunctionType>
 auto UThreadPool::commitWithTid(const FunctionType& func, CIndex tid, CBool enable, CBool lockable)
 -> std::future<decltype(std::declval<FunctionType>()())> {
     using ResultType = decltype(std::declval<FunctionType>()());
-    std::packaged_task<ResultType()> task(std::move(func));
+    std::packaged_task<ResultType()> task(func);
     std::future<ResultType> result(task.get_future());
 
-    execute(std::move(task), tid, enable, lockable);
+    executeWithTid(std::move(task), tid, enable, lockable);
     return result;
 }
 
-- 
2.43.0


From d02a44de41a7114947aef7f14a2ae4920265a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:01 +0000
Subject: [PATCH 24/39] fix: a secondary thread ends before the object it runs
 on is torn down

---
 src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h b/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
index 68ccf49..f03d41f 100644
--- a/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
+++ b/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
@@ -21,6 +21,11 @@ public:
     }
 
 
+    ~UThreadSecondary() override {
+        reset();    // 在父类析构之前结束线程，因为其正在使用当前类的虚函数和成员
+    }
+
+
 protected:
     CStatus init() override {
         CGRAPH_FUNCTION_BEGIN
-- 
2.43.0


From 910f7f668ef1fe1ba678c5a9776630791d47f878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 25/39] fix: a released secondary thread that still runs its
 last task leaves its place to a new one

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 1cafda3..d85bd03 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -230,7 +230,8 @@ CStatus UThreadPool::createSecondaryThread(const CInt size) {
 
     CGRAPH_LOCK_GUARD lock(st_mutex_);
     clearExitedThread();
-    const int leftSize = static_cast<int>(config_.max_thread_size_ - config_.default_thread_size_ - secondary_threads_.size());
+    // 已经被标记释放的线程，不会再获取新的任务，不占用名额
+    const int leftSize = static_cast<int>(config_.max_thread_size_ - config_.default_thread_size_ - calcSecondarySize());
     const int realSize = std::min(size, leftSize);    // 使用 realSize 来确保所有的线程数量之和，不会超过设定max值
 
     for (int i = 0; i < realSize; i++) {
-- 
2.43.0


From d0def809f948e79b09677f3c4e5f15416998b59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 26/39] fix: the monitor does not discard the secondary thread
 it has just added before it could run

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index d85bd03..a12d265 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -257,15 +257,6 @@ CVoid UThreadPool::monitor() {
             CGRAPH_SLEEP_SECOND(1)    // 保证可以快速退出
         }
 
-        // 如果 primary线程都在执行，则表示忙碌
-        const bool busy = !primary_threads_.empty() && std::all_of(primary_threads_.begin(), primary_threads_.end(),
-                                [](UThreadPrimaryPtr ptr) { return ptr && ptr->is_running_.load(std::memory_order_relaxed); });
-
-        // 如果忙碌或者priority_task_queue_中有任务，则需要添加 secondary线程
-        if (busy || !priority_task_queue_.empty()) {
-            createSecondaryThread(1);
-        }
-
         // 判断 secondary 线程是否需要退出。在锁外等待其结束，因为其正在执行的任务，也可能会用到 st_mutex_
         std::list<std::unique_ptr<UThreadSecondary>> frozen;
         {
@@ -277,6 +268,16 @@ CVoid UThreadPool::monitor() {
                 }
             }
         }
+
+        // 如果 primary线程都在执行，则表示忙碌
+        const bool busy = !primary_threads_.empty() && std::all_of(primary_threads_.begin(), primary_threads_.end(),
+                                [](UThreadPrimaryPtr ptr) { return ptr && ptr->is_running_.load(std::memory_order_relaxed); });
+
+        // 如果忙碌或者priority_task_queue_中有任务，则需要添加 secondary线程。
+        // 放在回收之后，避免新添加的线程，在还没有开始执行的时候，就被立即回收
+        if (busy || !priority_task_queue_.empty()) {
+            createSecondaryThread(1);
+        }
     }
 }
 
-- 
2.43.0


From fab946a335c4daeb4b4ac1f7686eb62e306130cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:12 +0000
Subject: [PATCH 27/39] fix: a pool with a monitor can be initialised again
 after destroy()

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index a12d265..5faf192 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -50,8 +50,8 @@ CStatus UThreadPool::init() {
         CGRAPH_FUNCTION_END
     }
 
-    if (config_.monitor_enable_) {
-        // 默认不开启监控线程
+    if (config_.monitor_enable_ && !monitor_thread_.joinable()) {
+        // 默认不开启监控线程。监控线程在析构的时候才释放，再次 init 的时候，不需要重复创建
         monitor_thread_ = std::thread(&UThreadPool::monitor, this);
     }
     thread_record_map_.clear();
-- 
2.43.0


From 007df454b0424d3283f805604d21ea3c54eaa739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 28/39] fix: the monitor leaves a destroyed pool alone and does
 not race with destroy()

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 6 ++++++
 src/UtilsCtrl/ThreadPool/UThreadPool.h   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 5faf192..273b26b 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -144,6 +144,7 @@ CStatus UThreadPool::destroy() {
         CGRAPH_FUNCTION_END
     }
 
+    CGRAPH_LOCK_GUARD monitorLock(monitor_mutex_);    // 监控线程会用到以下的线程，避免同时操作
     // primary 线程是普通指针，需要delete
     for (const auto& pt : primary_threads_) {
         CGRAPH_ASSERT_NOT_NULL(pt);
@@ -257,6 +258,11 @@ CVoid UThreadPool::monitor() {
             CGRAPH_SLEEP_SECOND(1)    // 保证可以快速退出
         }
 
+        CGRAPH_LOCK_GUARD monitorLock(monitor_mutex_);
+        if (!is_init_) {
+            continue;    // 等待期间，线程池已经被 destroy 了
+        }
+
         // 判断 secondary 线程是否需要退出。在锁外等待其结束，因为其正在执行的任务，也可能会用到 st_mutex_
         std::list<std::unique_ptr<UThreadSecondary>> frozen;
         {
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.h b/src/UtilsCtrl/ThreadPool/UThreadPool.h
index 2bdfc95..5792834 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.h
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.h
@@ -224,6 +224,7 @@ private:
     std::map<CSize, int> thread_record_map_;                                        // 线程记录的信息
     std::mutex st_mutex_;                                                           // 辅助线程发生变动的时候，加的mutex信息
     std::mutex wakeup_mutex_;                                                       // 防止wakeupAllThread并发重入
+    std::mutex monitor_mutex_;                                                      // 防止监控线程和 destroy 同时操作线程信息
 };
 
 using UThreadPoolPtr = UThreadPool *;
-- 
2.43.0


From 9a68cb5aeae8390b9493d1b21e9c2a642c246732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 29/39] fix: message lookups hold the lock that protects the
 topic and connection tables

send, recv, pub and sub looked topics and connections up without the mutex
under which create, remove, bind, detach and drop change the tables: while a
table grew, an existing topic was not found, or the process crashed.
---
 src/GraphCtrl/GraphMessage/GMessageManager.h | 51 +++++++++++++-------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/GraphCtrl/GraphMessage/GMessageManager.h b/src/GraphCtrl/GraphMessage/GMessageManager.h
index aec7dc4..aa04017 100644
--- a/src/GraphCtrl/GraphMessage/GMessageManager.h
+++ b/src/GraphCtrl/GraphMessage/GMessageManager.h
@@ -88,12 +88,16 @@ public:
                            CMSec timeout = CGRAPH_MAX_BLOCK_TTL) {
         CGRAPH_FUNCTION_BEGIN
         const std::string& innerTopic = internal::SEND_RECV_PREFIX + topic;
-        auto result = send_recv_message_map_.find(innerTopic);
-        if (result == send_recv_message_map_.end()) {
-            CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
+        GMessagePtr<TImpl> message = nullptr;
+        {
+            // 仅在查询的时候加锁，避免与 createTopic/removeTopic 冲突。等待消息的时候，不持有锁
+            CGRAPH_LOCK_GUARD lk(send_recv_mutex_);
+            auto result = send_recv_message_map_.find(innerTopic);
+            if (result == send_recv_message_map_.end()) {
+                CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
+            }
+            message = (GMessagePtr<TImpl>)(result->second);
         }
-
-        auto message = (GMessagePtr<TImpl>)(result->second);
         CGRAPH_ASSERT_NOT_NULL(message);
 
         status = message->recv(value, timeout);
@@ -115,12 +119,15 @@ public:
                            GMessagePushStrategy strategy) {
         CGRAPH_FUNCTION_BEGIN
         const std::string& innerTopic = internal::SEND_RECV_PREFIX + topic;
-        auto result = send_recv_message_map_.find(innerTopic);
-        if (result == send_recv_message_map_.end()) {
-            CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
+        GMessagePtr<T> message = nullptr;
+        {
+            CGRAPH_LOCK_GUARD lk(send_recv_mutex_);
+            auto result = send_recv_message_map_.find(innerTopic);
+            if (result == send_recv_message_map_.end()) {
+                CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
+            }
+            message = static_cast<GMessagePtr<T> >(result->second);
         }
-
-        auto message = static_cast<GMessagePtr<T> >(result->second);
         CGRAPH_ASSERT_NOT_NULL(message);
 
         message->send(value, strategy);
@@ -202,12 +209,17 @@ public:
                           GMessagePushStrategy strategy) {
         CGRAPH_FUNCTION_BEGIN
         auto innerTopic = internal::PUB_SUB_PREFIX + topic;
-        auto result = pub_sub_message_map_.find(innerTopic);
-        if (result == pub_sub_message_map_.end()) {
-            CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
+        std::set<GMessagePtr<T>> messageSet {};
+        {
+            // 仅在查询的时候加锁，避免与 bindTopic 等冲突。等待写入的时候，不持有锁
+            CGRAPH_LOCK_GUARD lk(pub_sub_mutex_);
+            auto result = pub_sub_message_map_.find(innerTopic);
+            if (result == pub_sub_message_map_.end()) {
+                CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
+            }
+            messageSet = result->second;
         }
 
-        auto& messageSet = result->second;
         for (auto msg : messageSet) {
             msg->send(value, strategy);    // 给所有订阅的信息，一次发送消息
         }
@@ -226,11 +238,16 @@ public:
             c_enable_if_t<std::is_base_of<T, TImpl>::value, int> = 0>
     CStatus subTopicValue(CIndex connId, std::shared_ptr<TImpl>& value, CMSec timeout = CGRAPH_MAX_BLOCK_TTL) {
         CGRAPH_FUNCTION_BEGIN
-        if (conn_message_map_.end() == conn_message_map_.find(connId)) {
-            CGRAPH_RETURN_ERROR_STATUS("no find [" + std::to_string(connId) + "] connect");
+        GMessagePtr<TImpl> message = nullptr;
+        {
+            CGRAPH_LOCK_GUARD lk(pub_sub_mutex_);
+            auto result = conn_message_map_.find(connId);
+            if (result == conn_message_map_.end()) {
+                CGRAPH_RETURN_ERROR_STATUS("no find [" + std::to_string(connId) + "] connect");
+            }
+            message = (GMessagePtr<TImpl>)(result->second);
         }
 
-        auto message = (GMessagePtr<TImpl>)(conn_message_map_[connId]);
         status = message->recv(value, timeout);
         CGRAPH_FUNCTION_END
     }
-- 
2.43.0


From 03d1e9b2d2b31d4d70ac3680983aa19cce46316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 30/39] fix: getGParam() looks the parameter up under the lock
 that creating and removing parameters take

---
 src/GraphCtrl/GraphParam/GParamManager.cpp |  1 +
 src/GraphCtrl/GraphParam/GParamManager.inl | 12 ++++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/GraphCtrl/GraphParam/GParamManager.cpp b/src/GraphCtrl/GraphParam/GParamManager.cpp
index 51442d8..4cc087f 100644
--- a/src/GraphCtrl/GraphParam/GParamManager.cpp
+++ b/src/GraphCtrl/GraphParam/GParamManager.cpp
@@ -114,6 +114,7 @@ CStatus GParamManager::__create_4py(GParamPtr param, const std::string& key) {
 
 
 GParamPtr GParamManager::__get_4py(const std::string& key) {
+    CGRAPH_LOCK_GUARD lock(this->mutex_);
     const auto& iter = params_map_.find(key);
     if (iter == params_map_.end()) {
         return nullptr;
diff --git a/src/GraphCtrl/GraphParam/GParamManager.inl b/src/GraphCtrl/GraphParam/GParamManager.inl
index 09b2026..376b3f4 100644
--- a/src/GraphCtrl/GraphParam/GParamManager.inl
+++ b/src/GraphCtrl/GraphParam/GParamManager.inl
@@ -39,16 +39,20 @@ CStatus GParamManager::create(const std::string& key, CBool backtrace) {
 template<typename T,
         c_enable_if_t<std::is_base_of<GParam, T>::value, int>>
 T* GParamManager::get(const std::string& key) {
-    const auto& iter = params_map_.find(key);
-    if (iter == params_map_.end()) {
-        return nullptr;
+    GParamPtr param = nullptr;
+    {
+        CGRAPH_LOCK_GUARD lock(this->mutex_);    // 其他的 element 可能同时在创建 param，会改变 params_map_
+        const auto& iter = params_map_.find(key);
+        if (iter == params_map_.end()) {
+            return nullptr;
+        }
+        param = iter->second;
     }
 
     /**
      * 实测比 return dynamic_cast<T *>(iter->second); 快很多
      * dynamic_cast<T *> : 当前方案，耗时比约为 10:3
      */
-    auto param = iter->second;
     return likely(typeid(T) == typeid(*param)) ? static_cast<T *>(param) : nullptr;
 }
 
-- 
2.43.0


From 4371e50f230670ec31e02600fba0e0960367657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 31/39] fix: an event triggered in several threads at once
 changed its set of used parameters without a lock

---
 src/GraphCtrl/GraphParam/GParamManagerWrapper.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphParam/GParamManagerWrapper.h b/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
index 6e1a69f..fde3d41 100644
--- a/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
+++ b/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
@@ -44,7 +44,11 @@ CGRAPH_NAMESPACE_BEGIN
         CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(param_manager_)                              \
         auto param = param_manager_->get<TGParam>(key);                                 \
         if (nullptr != param) {                                                         \
-            concerned_params_.insert(param);                                            \
+            {                                                                           \
+                /* 同一个对象（比如：异步触发的event），可能在多个线程中同时获取参数 */                  \
+                CGRAPH_LOCK_GUARD lock(concerned_params_lock_);                         \
+                concerned_params_.insert(param);                                        \
+            }                                                                           \
             param->addBacktrace(name_.empty() ? session_ : name_);                      \
         }                                                                               \
         return param;                                                                   \
@@ -91,6 +95,7 @@ CGRAPH_NAMESPACE_BEGIN
      */                                                                                 \
     std::vector<std::string> getConcernedGParamKeys() const {                           \
         std::vector<std::string> keys;                                                  \
+        CGRAPH_LOCK_GUARD lock(concerned_params_lock_);                                 \
         for (auto param : concerned_params_) {                                          \
             keys.emplace_back(param->getKey());                                         \
         }                                                                               \
@@ -135,6 +140,7 @@ private:
     }                                                                                   \
                                                                                         \
     GParamPtrSet concerned_params_;    /* 记录链路上使用过GParam信息 */                    \
+    mutable std::mutex concerned_params_lock_;    /* 针对 concerned_params_ 的锁 */      \
                                                                                         \
 protected:                                                                              \
                                                                                         \
-- 
2.43.0


From 126d1f489a5e0d16e9903d70fecf9bfb679e0cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:14 +0000
Subject: [PATCH 32/39] fix: getConcernedGParamKeys() read parameters that had
 been removed

---
 src/GraphCtrl/GraphParam/GParamManagerWrapper.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/GraphCtrl/GraphParam/GParamManagerWrapper.h b/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
index fde3d41..feebb66 100644
--- a/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
+++ b/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
@@ -47,7 +47,7 @@ CGRAPH_NAMESPACE_BEGIN
             {                                                                           \
                 /* 同一个对象（比如：异步触发的event），可能在多个线程中同时获取参数 */                  \
                 CGRAPH_LOCK_GUARD lock(concerned_params_lock_);                         \
-                concerned_params_.insert(param);                                        \
+                concerned_params_.insert(key);                                          \
             }                                                                           \
             param->addBacktrace(name_.empty() ? session_ : name_);                      \
         }                                                                               \
@@ -94,12 +94,8 @@ CGRAPH_NAMESPACE_BEGIN
      * @return
      */                                                                                 \
     std::vector<std::string> getConcernedGParamKeys() const {                           \
-        std::vector<std::string> keys;                                                  \
         CGRAPH_LOCK_GUARD lock(concerned_params_lock_);                                 \
-        for (auto param : concerned_params_) {                                          \
-            keys.emplace_back(param->getKey());                                         \
-        }                                                                               \
-        return keys;                                                                    \
+        return {concerned_params_.begin(), concerned_params_.end()};                    \
     }                                                                                   \
                                                                                         \
 public:                                                                                 \
@@ -139,7 +135,7 @@ private:
         return this;                                                                    \
     }                                                                                   \
                                                                                         \
-    GParamPtrSet concerned_params_;    /* 记录链路上使用过GParam信息 */                    \
+    std::set<std::string> concerned_params_;    /* 记录链路上使用过GParam信息，param可能已经被删除，故仅记录key */    \
     mutable std::mutex concerned_params_lock_;    /* 针对 concerned_params_ 的锁 */      \
                                                                                         \
 protected:                                                                              \
-- 
2.43.0


From b137d886b743c3600a8bc6079383bd3c3be84f24 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 33/39] fix: a loaded pipeline knows the elements inside its
 groups, and elements without loops can have a timeout

---
 src/GraphCtrl/GraphElement/GElementManager.h       | 1 +
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.h b/src/GraphCtrl/GraphElement/GElementManager.h
index 1ded97a..741946e 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.h
+++ b/src/GraphCtrl/GraphElement/GElementManager.h
@@ -105,6 +105,7 @@ private:
     UThreadPoolPtr thread_pool_ { nullptr };                    // 线程池
 
     friend class GPipeline;
+    friend class GStorage;
     friend class GRegion;
     friend class GMutable;
     friend class GPerf;
diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index edc8813..53ebede 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -265,8 +265,10 @@ CStatus GStorage::loadElement(GPipelinePtr pipeline, const _GPipelineStorage& st
     // 设定从属关系
     for (const auto& cur : storage.element_storages_) {
         auto element = eleCache[cur.session_];
+        pipeline->repository_.insert(element);    // group 中的 element，也需要记录下来
         if (cur.belong_session_.empty()) {
-            pipeline->innerRegister(element, {}, cur.name_, cur.loop_);
+            status += element->addManagers(pipeline->param_manager_, pipeline->event_manager_, pipeline->stage_manager_);
+            status += pipeline->element_manager_->add(element);
         } else {
             element->belong_ = eleCache[cur.belong_session_];
         }
-- 
2.43.0


From c15cbee3a13d07a9c5603dea22c1e4a4b9e38bdf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 34/39] fix: the type and the backtrace flag of a saved
 parameter are stored

---
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp     | 3 ++-
 src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index 53ebede..161a41f 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -39,7 +39,8 @@ UREFL_CREATE_STRUCT_TRAIT_INFO(_GStageStorage,
 
 UREFL_CREATE_STRUCT_TRAIT_INFO(_GParamStorage,
     UREFL_DECLARE_FIELD(_GParamStorage, key_, 1),
-    UREFL_DECLARE_FIELD(_GParamStorage, clz_name_, 2)
+    UREFL_DECLARE_FIELD(_GParamStorage, clz_name_, 2),
+    UREFL_DECLARE_FIELD(_GParamStorage, backtrace_, 3)
 )
 
 UREFL_CREATE_STRUCT_TRAIT_INFO(_GPassedParamStorage,
diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h b/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
index 75d6e02..74a92c8 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
@@ -67,6 +67,7 @@ struct _GParamStorage : public _GStorageBasic {
     explicit _GParamStorage(const std::string& key, CBool backtrace, const std::string& clz) {
         key_ = key;
         backtrace_ = backtrace;
+        clz_name_ = clz;
     }
 
     std::string key_ {};
-- 
2.43.0


From d43a749b42f38ae09d2a87836a9a4179a8c4c495 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 35/39] fix: all of the thread pool config is saved

---
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index 161a41f..f8514aa 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -86,7 +86,9 @@ UREFL_CREATE_STRUCT_TRAIT_INFO(UThreadPoolConfig,
     UREFL_DECLARE_FIELD(UThreadPoolConfig, secondary_thread_priority_, 16),
     UREFL_DECLARE_FIELD(UThreadPoolConfig, bind_cpu_enable_, 17),
     UREFL_DECLARE_FIELD(UThreadPoolConfig, batch_task_enable_, 18),
-    UREFL_DECLARE_FIELD(UThreadPoolConfig, monitor_enable_, 19)
+    UREFL_DECLARE_FIELD(UThreadPoolConfig, monitor_enable_, 19),
+    UREFL_DECLARE_FIELD(UThreadPoolConfig, pipeline_wait_busy_epoch_, 20),
+    UREFL_DECLARE_FIELD(UThreadPoolConfig, deliver_running_primary_thread_enable_, 21)
 )
 
 UREFL_CREATE_STRUCT_TRAIT_INFO(_GPipelineStorage,
-- 
2.43.0


From e1040b2d977de13803a76e0563b9c84dd7990859 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:45:14 +0000
Subject: [PATCH 36/39] fix: loading an incomplete file fails instead of
 reading beyond its end

---
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp |  6 +++++-
 src/UtilsCtrl/Reflection/UReflectionSession.h      | 10 ++++++++++
 src/UtilsCtrl/Reflection/UReflectionType.h         |  1 +
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index f8514aa..b33aed2 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -230,7 +230,11 @@ CStatus GStorage::loadBuffer(GPipelinePtr pipeline, char* buffer, CSize size) {
 
     _GPipelineStorage storage {};
     auto refl = internal::UReflection<_GPipelineStorage>();
-    refl.read(storage, (CUCharPtr)buffer, size);
+    try {
+        refl.read(storage, (CUCharPtr)buffer, size);
+    } catch (const CException& ex) {
+        CGRAPH_RETURN_ERROR_STATUS(std::string("load failed, ") + ex.what())
+    }
 
     status += loadElement(pipeline, storage);    // element 中间包含校验。如果校验失败，立刻退出即可
     CGRAPH_FUNCTION_CHECK_STATUS
diff --git a/src/UtilsCtrl/Reflection/UReflectionSession.h b/src/UtilsCtrl/Reflection/UReflectionSession.h
index d92f7d2..6d4aab3 100644
--- a/src/UtilsCtrl/Reflection/UReflectionSession.h
+++ b/src/UtilsCtrl/Reflection/UReflectionSession.h
@@ -24,6 +24,7 @@ public:
     template<class T>
     void getValueAndOffset(T &value) {
         constexpr size_t len = sizeof(T);
+        checkLeft(len);
         memcpy(&value, data_ + offset_, len);
         offset_ += len;
     }
@@ -34,6 +35,7 @@ public:
     }
 
     void getStringAndOffset(std::string &value, const size_t len) {
+        checkLeft(len);
         value.assign((CCharPtr)(data_ + offset_), len);
         offset_ += len;
     }
@@ -45,6 +47,14 @@ public:
         offset_ += len;
     }
 
+    /**
+     * 读取之前，确认剩余的数据是足够的。避免数据不完整的时候，读取越界
+     * @param len
+     */
+    void checkLeft(const size_t len) const {
+        CGRAPH_THROW_EXCEPTION_BY_CONDITION(offset_ > len_ || len > len_ - offset_, "reflection data is not complete")
+    }
+
     void addLen(const size_t len) {
         len_ += len;
     }
diff --git a/src/UtilsCtrl/Reflection/UReflectionType.h b/src/UtilsCtrl/Reflection/UReflectionType.h
index 7d80763..5edcf4b 100644
--- a/src/UtilsCtrl/Reflection/UReflectionType.h
+++ b/src/UtilsCtrl/Reflection/UReflectionType.h
@@ -185,6 +185,7 @@ void reflRead(UReflSession &session, T &value) {
 
         size_t size = 0;
         session.getValueAndOffset(size);
+        session.checkLeft(size);
         UReflSession subSess(session.getCurrentPos(), size);
         while (!subSess.isEmpty()) {
             auto elem = container_element_t<T>{};
-- 
2.43.0


From b9e6147bec4f7b350df1c0d01a89492a6cfd6f3b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:45:14 +0000
Subject: [PATCH 37/39] fix: a level that is set after registration decides the
 order of init() and destroy() too

---
 src/GraphCtrl/GraphElement/GElementManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index 34a49bb..13cacad 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -27,6 +27,9 @@ CStatus GElementManager::init() {
         CGRAPH_ASSERT_NOT_NULL(element)
     }
 
+    // 注册之后，level 信息可能有变化，故在这里重新排序
+    manager_elements_ = GSortedGElementPtrSet(manager_elements_.begin(), manager_elements_.end());
+
     status = initEngine();
     CGRAPH_FUNCTION_CHECK_STATUS
 
-- 
2.43.0


From 14579ee914f1bce98aeb4997af299aa770137664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:49 +0000
Subject: [PATCH 38/39] fix: trim() and getMaxPara() read beyond the graph
 after a level had been set after registration

---
 src/GraphCtrl/GraphElement/GElementManager.cpp          | 1 +
 src/GraphCtrl/GraphElement/_GOptimizer/GTrimOptimizer.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index 13cacad..c5e1436 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -135,6 +135,7 @@ GElementManagerPtr GElementManager::setThreadPool(UThreadPoolPtr ptr) {
 CSize GElementManager::calcMaxParaSize() {
     CGRAPH_THROW_EXCEPTION_BY_CONDITION(!GMaxParaOptimizer::match(manager_elements_),
                                         "cannot calculate max parallel size within groups")
+    manager_elements_ = GSortedGElementPtrSet(manager_elements_.begin(), manager_elements_.end());    // level 信息可能有变化
     return GMaxParaOptimizer::getMaxParaSize(manager_elements_);
 }
 
diff --git a/src/GraphCtrl/GraphElement/_GOptimizer/GTrimOptimizer.h b/src/GraphCtrl/GraphElement/_GOptimizer/GTrimOptimizer.h
index ae5c509..f174f80 100644
--- a/src/GraphCtrl/GraphElement/_GOptimizer/GTrimOptimizer.h
+++ b/src/GraphCtrl/GraphElement/_GOptimizer/GTrimOptimizer.h
@@ -25,6 +25,7 @@ class GTrimOptimizer : public GOptimizer {
      */
     static CSize trim(GSortedGElementPtrSet& elements) {
         CSize trimNum = 0;
+        elements = GSortedGElementPtrSet(elements.begin(), elements.end());    // 注册之后，level 信息可能有变化，故在这里重新排序
         const auto& paths = collectPaths(elements);
         auto graph = buildGraph(elements, paths, 1, 0, 0);
 
-- 
2.43.0


From e5507aec57bc4f54ce93d42549c1df3b47da3d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:26 +0000
Subject: [PATCH 39/39] fix: an element with a timeout lost its own error when
 run() fetched the asynchronous result first

---
 src/GraphCtrl/GraphElement/GElement.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index 0299a13..9634da5 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -551,7 +551,11 @@ CStatus GElement::asyncRun() {
 
     const auto& futStatus = result.wait_for(std::chrono::milliseconds(timeout_));
     if (std::future_status::ready == futStatus) {
-        status = getAsyncResult();
+        {
+            CGRAPH_LOCK_GUARD lock(async_lock_);
+            async_result_ = std::shared_future<CStatus>();    // 已经被 pipeline（或 fence）获取的话，也不影响当前的结果
+        }
+        status = result.get();
     } else {
         doAspect(internal::GAspectType::ENTER_TIMEOUT);
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION( GElementTimeoutStrategy::AS_ERROR == timeout_strategy_,    \
-- 
2.43.0

