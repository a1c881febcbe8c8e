From 9ae7194b174fdbaa6bebbdd570e392d26815d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 01/52] fix: close and push of ThreadSafeQueue decide under the
 queue's lock

close() could set the flag between a consumer's check and its sleep, which
then never woke up; push() could leave an element in a closed queue although
it was reported as accepted.
---
 include/maf/threading/ThreadSafeQueue.h | 20 ++++++++++++++------
 src/common/maf/messaging/Processor.cpp  |  3 +--
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index 7e1d6ad..64684a9 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -21,19 +21,23 @@ class ThreadSafeQueue {
   ThreadSafeQueue() : closed_(false) {}
   ~ThreadSafeQueue() { close(); }
   bool empty() { return queue_.atomic()->empty(); }
-  void push(const value_type &data) {
+  bool push(const value_type &data) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       queue_->push(data);
       queueNotEmpty_.notify_one();
+      return true;
     }
+    return false;
   }
-  void push(value_type &&data) {
+  bool push(value_type &&data) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       queue_->emplace(std::move(data));
       queueNotEmpty_.notify_one();
+      return true;
     }
+    return false;
   }
 
   template <
@@ -42,14 +46,16 @@ class ThreadSafeQueue {
           std::is_same_v<
               std::void_t<decltype(std::declval<_Sequence>().begin())>, void>,
           bool> = true>
-  void push(const _Sequence &seq) {
+  bool push(const _Sequence &seq) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       for (auto &item : seq) {
         queue_->push(item);
       }
       queueNotEmpty_.notify_all();
+      return true;
     }
+    return false;
   }
   template <class TimePoint>
   bool waitUntil(value_type &value, const TimePoint &absTime) {
@@ -109,6 +115,8 @@ class ThreadSafeQueue {
   void reOpen() { closed_.store(false, std::memory_order_release); }
 
   void close() {
+    // the flag must not change between the check and the sleep of a consumer
+    std::lock_guard lock(queue_);
     bool alreadyClosed = false;
     closed_.compare_exchange_strong(alreadyClosed, true);
     if (!alreadyClosed) {
diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 1f9517c..0a83a60 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -88,8 +88,7 @@ struct ProcessorDataPrv {
 
   bool addExecution(Execution e) {
     try {
-      pendingExecutions.push(std::make_unique<Execution>(move(e)));
-      return true;
+      return pendingExecutions.push(std::make_unique<Execution>(move(e)));
     } catch (const std::bad_alloc &ba) {
       MAF_LOGGER_ERROR("Queue overflow: ", ba.what());
     }
-- 
2.43.0


From 6e93f2f7d19f90993691c58deb2a757155dbc8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 02/52] fix: pending work is not destroyed while the queue is
 locked

Objects owned by an execution that use the processor in their destructor
blocked it for ever.
---
 include/maf/threading/ThreadSafeQueue.h | 19 ++++++++++---------
 src/common/maf/messaging/Processor.cpp  | 10 ++++++----
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index 64684a9..a8b1e67 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -128,15 +128,16 @@ class ThreadSafeQueue {
 
   void clear(ApplyAction onClearCallback = nullptr) {
     using namespace std;
-    lock_guard lock(queue_);
-    if (onClearCallback) {
-      while (!queue_->empty()) {
-        auto v = std::move(queue_->front());
-        onClearCallback(v);
-        queue_->pop();
-      }
-    } else {
-      *queue_ = {};
+    // elements are released without the lock: their destructors may come back
+    QueueClass cleared;
+    {
+      lock_guard lock(queue_);
+      swap(cleared, *queue_);
+    }
+    while (onClearCallback && !cleared.empty()) {
+      auto v = std::move(cleared.front());
+      onClearCallback(v);
+      cleared.pop();
     }
   }
 
diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 0a83a60..c4fa97d 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -132,7 +132,9 @@ struct ProcessorDataPrv {
   }
 };
 
-static decltype(auto) invoke(const ExecutionUPtr &exc) { return (*exc)(); }
+// The execution is released at once, not while waiting for the next one with
+// the queue locked: what it owns may come back to this processor when destroyed
+static void invoke(ExecutionUPtr exc) { (*exc)(); }
 
 static const ProcessorID &emptyProcessorID() {
   static ProcessorID emptyID;
@@ -205,7 +207,7 @@ void Processor::run(ThreadFunction threadInit, ThreadFunction threadDeinit) {
 
   ExecutionUPtr exc;
   while (d_->pendingExecutions.wait(exc)) {
-    invoke(exc);
+    invoke(move(exc));
   }
 }
 
@@ -221,7 +223,7 @@ void Processor::runUntil(ExecutionDeadline deadline) {
   };
 
   while (d_->pendingExecutions.waitUntil(exc, deadline)) {
-    invoke(exc);
+    invoke(move(exc));
   }
 }
 
@@ -238,7 +240,7 @@ bool Processor::runOnceUntil(ExecutionDeadline deadline) {
   };
 
   if (d_->pendingExecutions.waitUntil(exc, deadline)) {
-    invoke(exc);
+    invoke(move(exc));
     return true;
   }
 
-- 
2.43.0


From 13a7ce84d864183969c38c563b05a090f74d9dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 03/52] fix: connecting, disconnecting and posting while a
 handler runs cannot deadlock

The handlers map was locked while waiting for a message's handlers, which are
locked as long as one of them runs; a handler that posted or connected then
waited for the map.
---
 src/common/maf/messaging/Processor.cpp | 47 +++++++++++++++++++-------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index c4fa97d..62acd45 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -111,14 +111,23 @@ struct ProcessorDataPrv {
   }
 
   bool msgConnected(const MessageID &msgID) {
-    std::lock_guard lock(msgHandlersMap);
-    auto it = msgHandlersMap->find(msgID);
-    return it != msgHandlersMap->end() && it->second->connected();
+    // a running handler keeps its Handlers locked and may need the map, so the
+    // map must not be locked while asking the Handlers
+    HandlersPtr handlers;
+    {
+      std::lock_guard lock(msgHandlersMap);
+      auto it = msgHandlersMap->find(msgID);
+      if (it != msgHandlersMap->end()) {
+        handlers = it->second;
+      }
+    }
+    return handlers && handlers->connected();
   }
 
   void cleanupUnconnectedMsgHandlers() {
     for (auto it = msgHandlersMap->begin(); it != msgHandlersMap->end();) {
-      if (!it->second->connected()) {
+      // Handlers in use by anyone else may be locked by a running handler
+      if (it->second.use_count() == 1 && !it->second->connected()) {
         it = msgHandlersMap->erase(it);
       } else {
         ++it;
@@ -294,7 +303,7 @@ Processor::CompleteSignal Processor::waitablePost(Message msg) {
 }
 
 bool Processor::connected(const MessageID &mid) const {
-  return d_->msgHandlersMap.atomic()->count(mid) > 0;
+  return d_->msgConnected(mid);
 }
 
 bool Processor::executeAsync(Execution exec) {
@@ -368,18 +377,32 @@ Execution Processor::willBlockingExecuteOnThis(Execution exec) {
 MsgConnection Processor::connect(const MessageID &msgid,
                                  MessageProcessingCallback processMsgCallback) {
   using namespace std;
-  lock_guard lock(d_->msgHandlersMap);
-  auto &handlers = (*d_->msgHandlersMap)[msgid];
-  if (!handlers) {
-    handlers = std::make_shared<Handlers>();
+  HandlersPtr handlers;
+  {
+    lock_guard lock(d_->msgHandlersMap);
+    auto &entry = (*d_->msgHandlersMap)[msgid];
+    if (!entry) {
+      entry = std::make_shared<Handlers>();
+    }
+    handlers = entry;
   }
   return new SSConnection(handlers->connect(move(processMsgCallback)));
 }
 
 void Processor::disconnect(const MessageID &msgid) {
-  std::lock_guard lock(d_->msgHandlersMap);
-  d_->msgHandlersMap->erase(msgid);
-  d_->cleanupUnconnectedMsgHandlers();
+  HandlersPtr handlers;
+  {
+    std::lock_guard lock(d_->msgHandlersMap);
+    auto it = d_->msgHandlersMap->find(msgid);
+    if (it != d_->msgHandlersMap->end()) {
+      handlers = std::move(it->second);
+      d_->msgHandlersMap->erase(it);
+    }
+    d_->cleanupUnconnectedMsgHandlers();
+  }
+  if (handlers) {
+    handlers->disconnect();
+  }
 }
 
 size_t Processor::pendingCout() const { return d_->pendingExecutions.size(); }
-- 
2.43.0


From f46658c7e42eb70dc3ab85fcdacde61d76d9c07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 04/52] fix: assigning a MsgConnection releases the old one and
 survives self-assignment

---
 src/common/maf/messaging/Processor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 62acd45..af67334 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -546,8 +546,8 @@ MsgConnection::MsgConnection(MsgConnection &&con) noexcept {
 }
 
 MsgConnection &MsgConnection::operator=(MsgConnection &&con) noexcept {
-  _ = con._;
-  con._ = nullptr;
+  MsgConnection other{std::move(con)};
+  std::swap(_, other._);
   return *this;
 }
 
-- 
2.43.0


From 8f7c4deead31358b6864c6b5dab919ec3e85f31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 05/52] fix: router registers an id once, and posts with its
 list unlocked

Two concurrent creators of an id both got a processor; stopping a reused
processor unregistered another one of the same id; a handler that used the
router during sendToAll deadlocked.
---
 src/common/maf/messaging/Processor.cpp |  4 +--
 src/common/maf/messaging/Router.cpp    | 39 +++++++++++++++++++-------
 src/common/maf/messaging/Router.h      |  4 +++
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index af67334..3ee2867 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -186,10 +186,8 @@ ProcessorInstance Processor::create(ProcessorID id) {
   auto comp = ProcessorInstance{new Processor{std::move(id)}};
 
   if (willJoinRouting) {
-    if (Router::instance().findProcessor(comp->id())) {
+    if (!Router::instance().addProcessor(comp)) {
       comp.reset();
-    } else {
-      Router::instance().addProcessor(comp);
     }
   }
   return comp;
diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index 4602149..e3f2581 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -32,8 +32,8 @@ Processor::CompleteSignal Router::send(const ProcessorID &messageprocessorID,
 
 bool Router::postToAll(const Message &msg) {
   bool delivered = false;
-  auto atProcessors = messageprocessors_.atomic();
-  for (const auto &comp : *atProcessors) {
+  auto processors = joinedProcessors();
+  for (const auto &comp : processors) {
     delivered |= askThenPost(comp, std::move(msg));
   }
   return delivered;
@@ -41,8 +41,8 @@ bool Router::postToAll(const Message &msg) {
 
 Processor::CompleteSignal Router::sendToAll(const Message &msg) {
   auto msgMessageHandledSignals = vector<Processor::CompleteSignal>{};
-  auto atProcessors = messageprocessors_.atomic();
-  for (const auto &comp : *atProcessors) {
+  auto processors = joinedProcessors();
+  for (const auto &comp : processors) {
     if (auto sig = askThenSend(comp, std::move(msg)); sig.valid()) {
       msgMessageHandledSignals.emplace_back(move(sig));
     }
@@ -71,18 +71,37 @@ ProcessorInstance Router::findProcessor(const ProcessorID &id) const {
 
 bool Router::addProcessor(ProcessorInstance comp) {
   if (comp) {
-    auto joinedProcessors = messageprocessors_.atomic();
-    if (joinedProcessors->count(comp) == 0) {
-      informNewProcessorAboutJoinedOnes(comp, *joinedProcessors);
-      notifyAllAboutNewProcessor(*joinedProcessors, comp);
-      joinedProcessors->insert(move(comp));
+    auto others = Processors{};
+    {
+      auto atProcessors = messageprocessors_.atomic();
+      others = *atProcessors;
+      if (!atProcessors->insert(comp).second) {
+        return false;
+      }
     }
+    informNewProcessorAboutJoinedOnes(comp, others);
+    notifyAllAboutNewProcessor(others, comp);
+    return true;
   }
   return false;
 }
 
+Processors Router::joinedProcessors() const {
+  return *messageprocessors_.atomic();
+}
+
 bool Router::removeProcessor(const ProcessorInstance &comp) {
-  if (messageprocessors_.atomic()->erase(comp) != 0) {
+  auto removed = false;
+  {
+    // the id may be in use by another processor by now
+    auto atProcessors = messageprocessors_.atomic();
+    auto itProcessor = atProcessors->find(comp);
+    if (itProcessor != atProcessors->end() && *itProcessor == comp) {
+      atProcessors->erase(itProcessor);
+      removed = true;
+    }
+  }
+  if (removed) {
     postToAll(ProcessorStatusUpdateMsg{
         comp, ProcessorStatusUpdateMsg::Status::UnReachable});
     return true;
diff --git a/src/common/maf/messaging/Router.h b/src/common/maf/messaging/Router.h
index d278f59..4ed2209 100644
--- a/src/common/maf/messaging/Router.h
+++ b/src/common/maf/messaging/Router.h
@@ -44,6 +44,10 @@ class Router : public pattern::SingletonObject<Router> {
   bool removeProcessor(const ProcessorInstance &comp);
 
  private:
+  // Posting must not happen with the list locked: a message may be handled at
+  // once, by a handler that uses the router
+  Processors joinedProcessors() const;
+
   using AtomicProcessors = threading::Lockable<Processors, std::mutex>;
 
   AtomicProcessors messageprocessors_;
-- 
2.43.0


From 5a957843eb976e13bbf4612077dee60dc32c6b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 06/52] fix: executors report whether they accept work, and
 wrapped executions can be called again

execute() reported success after the processor had stopped, a wrapped
execution gave its callable away on the first call and waited on nothing on a
stopped processor, and a waitable call from another processor of the same id
ran on the wrong thread.
---
 src/common/maf/messaging/Processor.cpp | 28 ++++++++++++++------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 3ee2867..f10713f 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -41,8 +41,7 @@ class AsyncExecutor : public util::ExecutorIF {
   AsyncExecutor(ProcessorRef &&cr) : compref{std::move(cr)} {}
   bool execute(CallbackType callback) noexcept override {
     if (auto comp = compref.lock()) {
-      comp->executeAsync(std::move(callback));
-      return true;
+      return comp->executeAsync(std::move(callback));
     }
     return false;
   }
@@ -55,8 +54,7 @@ class DefaultExecutor : public util::ExecutorIF {
   DefaultExecutor(ProcessorRef &&cr) : compref{std::move(cr)} {}
   bool execute(CallbackType callback) noexcept override {
     if (auto comp = compref.lock()) {
-      comp->execute(std::move(callback));
-      return true;
+      return comp->execute(std::move(callback));
     }
     return false;
   }
@@ -69,11 +67,13 @@ class WaitableExecutor : public util::ExecutorIF {
   bool execute(CallbackType callback) noexcept override {
     if (auto comp = compref.lock()) {
       try {
-        comp->waitableExecute(callback).wait();
+        comp->waitableExecute(callback).get();
         return true;
       } catch (const std::future_error &e) {
         MAF_LOGGER_ERROR("Cauth exception when execute callback: ", e.what());
         return false;
+      } catch (...) {
+        return true;  // executed, the callback itself failed
       }
     }
     return false;
@@ -288,7 +288,7 @@ Processor::CompleteSignal Processor::waitablePost(Message msg) {
           [this, msg = move(msg)] { d_->processMessage(msg); });
 
       doneSignal = CompleteSignal{msgHandlingTask->get_future()};
-      if (this_processor::id() != id()) {
+      if (this_processor::instance().get() != this) {
         executeAsync([task{move(msgHandlingTask)}] { (*task)(); });
       } else {
         (*msgHandlingTask)();
@@ -327,7 +327,7 @@ Processor::CompleteSignal Processor::waitableExecute(Execution exec) {
   if (!stopped()) {
     auto task = make_shared<packaged_task<void()>>(move(exec));
     doneSignal = CompleteSignal{task->get_future()};
-    if (this_processor::id() != id()) {
+    if (this_processor::instance().get() != this) {
       executeAsync([task{move(task)}] { (*task)(); });
     } else {
       (*task)();
@@ -349,25 +349,27 @@ Processor::Executor Processor::getBlockingExecutor() {
 }
 
 Execution Processor::willExecuteOnThis(Execution exec) {
-  return [wprocessor = this->weak_from_this(), exec = move(exec)]() mutable {
+  return [wprocessor = this->weak_from_this(), exec = move(exec)] {
     if (auto processor = wprocessor.lock()) {
-      processor->execute(move(exec));
+      processor->execute(exec);
     }
   };
 }
 
 Execution Processor::willAsyncExecuteOnThis(Execution exec) {
-  return [wprocessor = this->weak_from_this(), exec = move(exec)]() mutable {
+  return [wprocessor = this->weak_from_this(), exec = move(exec)] {
     if (auto processor = wprocessor.lock()) {
-      processor->executeAsync(move(exec));
+      processor->executeAsync(exec);
     }
   };
 }
 
 Execution Processor::willBlockingExecuteOnThis(Execution exec) {
-  return [wprocessor = this->weak_from_this(), exec = move(exec)]() mutable {
+  return [wprocessor = this->weak_from_this(), exec = move(exec)] {
     if (auto processor = wprocessor.lock()) {
-      processor->waitableExecute(move(exec)).wait();
+      if (auto done = processor->waitableExecute(exec); done.valid()) {
+        done.wait();
+      }
     }
   };
 }
-- 
2.43.0


From dae4c41374250a592960785e8f621b8af7938971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 07/52] fix: slots may disconnect, clear or destroy their
 signal while it is emitting

A slot that disconnected itself destroyed itself while running; clear()
during an emission left a dangling iterator; a throwing slot made the signal
refuse later emissions; slots disconnected during an emission still counted;
connections handed to slots were shared between threads; a moved-from signal
crashed in its destructor; the shared-mutex single-slot signal took several.
---
 include/maf/utils/Observable.h  |  2 +-
 include/maf/utils/SignalSlots.h | 73 ++++++++++++++++++++++-----------
 2 files changed, 50 insertions(+), 25 deletions(-)

diff --git a/include/maf/utils/Observable.h b/include/maf/utils/Observable.h
index 1d362a6..c4cbf28 100644
--- a/include/maf/utils/Observable.h
+++ b/include/maf/utils/Observable.h
@@ -628,7 +628,7 @@ using SharedMutexObservable =
     BasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 template <class... Args>
 using SharedMutexSCObservable =
-    BasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
+    SCBasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 
 template <class... _Args, class _Callback>
 auto waitableConnect(BasicObservable_<_Args...>& o, _Callback callback) {
diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 5760d34..31037b2 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -33,6 +33,13 @@ using Slot_ = function<void(ConstRef_<Args_>...)>;
 template <class... Args_>
 using SlotPtr_ = shared_ptr<Slot_<Args_...>>;
 
+// Marks an emission as running, also when a slot throws
+struct NotifyingScope {
+  NotifyingScope(bool& notifying) : notifying_{notifying} { notifying_ = true; }
+  ~NotifyingScope() { notifying_ = false; }
+  bool& notifying_;
+};
+
 template <class... Args_>
 class SingleSlotKeeper {
  public:
@@ -60,9 +67,9 @@ class SingleSlotKeeper {
   void notify(ConstRef_<Args_>... args) const {
     if (valid()) {
       assert(!notifying_ && "Cyclic connection detected!");
-      notifying_ = true;
-      mySlot()->operator()(args...);
-      notifying_ = false;
+      NotifyingScope scope{notifying_};
+      auto slot = mySlot();  // must outlive the call, it may disconnect itself
+      (*slot)(args...);
     }
   }
 
@@ -107,17 +114,19 @@ class MultiSlotKeeper {
   void notify(ConstRef_<Args_>... args) const {
     if (valid()) {
       assert(!notifying_ && "Cyclic connection detected");
-      notifying_ = true;
+      NotifyingScope scope{notifying_};
 
-      for (auto it = begin(slots_); it != end(slots_);) {
+      // slots connected by a slot are not part of this emission
+      auto remaining = slots_.size();
+      for (auto it = begin(slots_); remaining > 0; --remaining) {
         if (!*it) {  // this this slot is disconnected;
           it = slots_.erase(it);
         } else {
-          std::invoke(*(*it), args...);
+          auto slot = *it;  // must outlive the call, it may disconnect itself
+          std::invoke(*slot, args...);
           ++it;
         }
       }
-      notifying_ = false;
     }
   }
 
@@ -136,15 +145,30 @@ class MultiSlotKeeper {
     return false;
   }
 
-  bool valid() const { return !slots_.empty(); }
+  bool valid() const { return size() > 0; }
 
-  void clear() { slots_.clear(); }
+  void clear() {
+    if (!notifying_) {
+      slots_.clear();
+    } else {
+      for (auto& slot : slots_) {
+        slot.reset();
+      }
+    }
+  }
 
   bool has(const SlotPtrType& s) const {
     return find(begin(slots_), end(slots_), s) != end(slots_);
   }
 
-  size_t size() const { return slots_.size(); }
+  size_t size() const {
+    // slots disconnected during an emission are still there, but empty
+    size_t connected = 0;
+    for (auto& slot : slots_) {
+      connected += slot ? 1 : 0;
+    }
+    return connected;
+  }
 
   SlotPtrType lastSlot() const { return slots_.back(); }
 
@@ -315,11 +339,18 @@ class BasicSignal_ {
   BasicSignal_& operator=(const BasicSignal_&) = delete;
   BasicSignal_(BasicSignal_&&) = default;
   BasicSignal_& operator=(BasicSignal_&&) = default;
-  ~BasicSignal_() { disconnect(); }
+  ~BasicSignal_() {
+    if (slotKeeper_) {  // not moved from
+      disconnect();
+    }
+  }
 
   void operator()(ConstRef_<Args_>... args) const { notify(args...); }
 
-  void notify(ConstRef_<Args_>... args) const { keeper()->notify(args...); }
+  void notify(ConstRef_<Args_>... args) const {
+    auto keeper = sharedKeeper();  // a slot may destroy the signal
+    (*keeper)->notify(args...);
+  }
 
   ConnectionType connect(SlotType s) {
     assert(s);
@@ -333,17 +364,11 @@ class BasicSignal_ {
 
   ConnectionType connect(ConnectionAwareSlotType cas) {
     auto ps = makeSlotPtr({});
-    auto conPtr = ConnectionPtrType{new ConnectionType{sharedKeeper(), ps}};
-    *ps = [cas{move(cas)},
-           conPtr = move(conPtr)](ConstRef_<Args_>... args) mutable {
-      cas(conPtr, args...);
-      // Fix issue memory leadk due to cyclick reference
-      // Slot holds a connection shared_ptr
-      // this conPtr holds a slot shared_ptr after conPtr->disconnect() is
-      // called
-      if (conPtr->holdingConnector()) {
-        conPtr->clear();
-      }
+    // Every call gets a connection of its own: one kept in the slot would hold
+    // the slot after a disconnect, and be shared with other threads
+    *ps = [cas{move(cas)}, keeperRef = weak_ptr<MyKeeper_>{sharedKeeper()},
+           slotRef = weak_ptr<SlotType>{ps}](ConstRef_<Args_>... args) {
+      cas(ConnectionPtrType{new ConnectionType{keeperRef, slotRef}}, args...);
     };
     return saveSlot(move(ps));
   }
@@ -599,7 +624,7 @@ using SharedMutexSignal =
     BasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 template <class... Args>
 using SharedMutexSCSignal =
-    BasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
+    SCBasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 
 template <template <class, class...> class Signal_, class SlotKeeper_,
           typename... Args_>
-- 
2.43.0


From a72d59cfa922e7654b09d0e78f2c64fd9dd04c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 08/52] fix: Timer.cpp compiles with assertions enabled

---
 src/common/maf/messaging/Timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index fbef7a8..fe36ba5 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -222,8 +222,8 @@ void TimerMgr::stop(TimerDataPtr record) {
 void TimerMgr::onTimerModified() {
   auto thisProcessorInstance = this_processor::instance();
   assert(thisProcessorInstance &&
-         "Timer must be triggered in thread of a mesasging::Processor")
-      thisProcessorInstance->executeAsync([this] { this->checkAllTimers(); });
+         "Timer must be triggered in thread of a mesasging::Processor");
+  thisProcessorInstance->executeAsync([this] { this->checkAllTimers(); });
 }
 
 void TimerMgr::onShortestTimerExpired(const TimerDataPtr& record) {
-- 
2.43.0


From 7e575b969a12e31de55c2b1e649b5f204ca66eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 09/52] fix: timers do not lose, repeat or block each other

An expiry removed whatever timer was the earliest by then instead of the
expired one, which left the thread looping for ever; restart() of a stopped or
expired timer never fired or read an empty list; starting a timer in its own
callback destroyed the running callback; a timer destroyed before its processor
started it fired nevertheless; a timer stopped by another thread made its own
thread loop for ever.
---
 src/common/maf/messaging/Timer.cpp | 45 ++++++++++++++++--------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index fe36ba5..a7c4d48 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -3,6 +3,7 @@
 #include <maf/messaging/Timer.h>
 
 #include <algorithm>
+#include <atomic>
 #include <cassert>
 #include <memory>
 #include <thread>
@@ -30,9 +31,9 @@ using util::ExecutorIFPtr;
 struct TimerData {
   TimeOutCallback callback;
   DeadLine deadline = Clock::now();
-  ExecutionTimeout duration;
+  ExecutionTimeout duration{0};
   bool cyclic = false;
-  bool running = false;
+  std::atomic_bool running = false;  // a timer may be stopped by other threads
 
   TimerData() = default;
   TimerData(TimeOutCallback cb, ExecutionTimeout interval, bool cc = false)
@@ -41,12 +42,12 @@ struct TimerData {
         duration(interval),
         cyclic(cc) {}
   void updateNextDeadline() { deadline += duration; }
-  void restart() {
-    running = true;
-    deadline = Clock::now() + duration;
-  }
+  void restart() { deadline = Clock::now() + duration; }
   bool expired() const { return deadline <= Clock::now(); }
-  void onExpired() { callback(); }
+  void onExpired() {
+    auto cb = callback;  // it may start this timer with another callback
+    cb();
+  }
   void reset(TimeOutCallback&& cb, ExecutionTimeout d, bool cc = false) {
     callback = move(cb);
     deadline = Clock::now() + d;
@@ -118,8 +119,11 @@ void Timer::start(long long milliseconds, Timer::TimeOutCallback callback,
 void Timer::start(milliseconds milliseconds, Timer::TimeOutCallback callback,
                   const ProcessorInstance& comp) {
   comp->executeAsync(
-      [timerData = d_, callback{move(callback)}, milliseconds]() mutable {
-        runTimer(timerData, milliseconds, move(callback));
+      [timerRef = std::weak_ptr<TimerData>{d_}, callback{move(callback)},
+       milliseconds]() mutable {
+        if (auto timerData = timerRef.lock()) {  // not destroyed meanwhile
+          runTimer(timerData, milliseconds, move(callback));
+        }
       });
 }
 
@@ -181,26 +185,29 @@ void TimerMgr::checkAllTimers() {
       state_ = State::Waiting;
       comp->runOnceUntil(timer->deadline);
       state_ = State::HaveTimer;
+      if (comp->stopped()) {
+        break;
+      }
+      continue;  // another timer might be the shortest one now
     }
 
     if (comp->stopped()) {
       break;
     }
 
-    if (!timer->expired()) {
-      continue;
-    }
-
     state_ = State::HaveTimer;
-    // shortest timer might be stopped while waiting
+    // shortest timer might be stopped by another thread
     if (timer->running) {
       onShortestTimerExpired(timer);
+    } else {
+      remove(timer);
     }
   }
 }
 
 void TimerMgr::start(TimerDataPtr record) {
   if (!record->running) {
+    remove(record);  // if it was stopped by another thread
     record->running = true;
     add(record);
   } else {
@@ -237,14 +244,10 @@ void TimerMgr::onShortestTimerExpired(const TimerDataPtr& record) {
 }
 
 void TimerMgr::restart(const TimerDataPtr& r) {
-  r->restart();
-  if (r == records_.front()) {
-    pop_heap(begin(), end(), timerGreater);
-    push_heap(begin(), end(), timerGreater);
-  } else {
-    refresh();
+  if (r->callback) {
+    r->restart();
+    start(r);
   }
-  onTimerModified();
 }
 
 void TimerMgr::add(TimerDataPtr newRecord) {
-- 
2.43.0


From c0d53bf4bc29be29eeef61f0bcda34ea55e2ea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 10/52] fix: SyncTimer::restart begins a new period, a second
 start ends the first

restart() only woke the waiter, which went on with its old period; a start by
another thread revived the waiter it had just stopped; running() raced.
---
 src/common/maf/messaging/SyncTimer.cpp | 46 ++++++++++++++++----------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/common/maf/messaging/SyncTimer.cpp b/src/common/maf/messaging/SyncTimer.cpp
index 0d492b8..c45b20c 100644
--- a/src/common/maf/messaging/SyncTimer.cpp
+++ b/src/common/maf/messaging/SyncTimer.cpp
@@ -14,12 +14,14 @@ namespace messaging {
 struct SyncTimerDataPrv {
   std::condition_variable_any timeoutCondition;
   std::recursive_mutex mutex;
-  bool running = false;
+  std::atomic_bool running = false;
   bool cyclic = false;
+  unsigned starts = 0;    // each start ends the one before
+  unsigned restarts = 0;  // each restart begins a new period
 };
 
 SyncTimer::SyncTimer(bool cyclic)
-    : d_{new SyncTimerDataPrv{{}, {}, false, cyclic}} {}
+    : d_{new SyncTimerDataPrv{{}, {}, {}, cyclic}} {}
 
 SyncTimer::~SyncTimer() {
   stop();
@@ -43,35 +45,45 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
 
     std::unique_lock lock(d_->mutex);
     d_->running = true;
+    const auto thisStart = ++d_->starts;
+    auto stopped = [&] { return !d_->running || thisStart != d_->starts; };
+
+    while (!stopped()) {
+      const auto thisPeriod = d_->restarts;
+      if (d_->timeoutCondition.wait_for(lock, milliseconds, [&] {
+            return stopped() || thisPeriod != d_->restarts;
+          })) {
+        continue;
+      }
 
-    do {
-      if (!d_->timeoutCondition.wait_for(lock, milliseconds,
-                                         [this] { return !d_->running; })) {
-        if (executor) {
-          executor->execute(d_->cyclic ? callback : std::move(callback));
-        } else {
-          callback();
-        }
+      if (executor) {
+        executor->execute(d_->cyclic ? callback : std::move(callback));
+      } else {
+        callback();
       }
 
-      if (!d_->running)  // restarted
-      {
+      if (!d_->cyclic) {
         break;
       }
+    }
 
-    } while (d_->cyclic);
-
-    d_->running = false;
+    if (thisStart == d_->starts) {
+      d_->running = false;
+    }
   }
 }
 
-void SyncTimer::restart() { d_->timeoutCondition.notify_one(); }
+void SyncTimer::restart() {
+  std::lock_guard lock(d_->mutex);
+  ++d_->restarts;
+  d_->timeoutCondition.notify_all();
+}
 
 void SyncTimer::stop() {
   std::lock_guard lock(d_->mutex);
   if (d_->running) {
     d_->running = false;
-    d_->timeoutCondition.notify_one();
+    d_->timeoutCondition.notify_all();
   }
 }
 
-- 
2.43.0


From f0578de89c703a2d54b73edc4cfd8c70a00a1032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 11/52] fix: assigning to a running AsyncProcessor stops it
 instead of waiting forever

---
 include/maf/messaging/ProcessorEx.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/maf/messaging/ProcessorEx.h b/include/maf/messaging/ProcessorEx.h
index 40cf5c5..b06c812 100644
--- a/include/maf/messaging/ProcessorEx.h
+++ b/include/maf/messaging/ProcessorEx.h
@@ -44,7 +44,14 @@ class AsyncProcessor : public ProcessorExBase {
   using Timeout = std::chrono::milliseconds;
   using ProcessorExBase::ProcessorExBase;
   AsyncProcessor(AsyncProcessor &&) = default;
-  AsyncProcessor &operator=(AsyncProcessor &&) = default;
+  AsyncProcessor &operator=(AsyncProcessor &&other) {
+    if (this != &other) {
+      stopAndWait();  // otherwise the old thread would be awaited forever
+      ProcessorExBase::operator=(std::move(other));
+      stopSignal_ = std::move(other.stopSignal_);
+    }
+    return *this;
+  }
   ~AsyncProcessor() { stopAndWait(); }
 
   static StoppedSignal launchProcessor(const ProcessorInstance &comp,
-- 
2.43.0


From 458e8686fcc2740638f3973b79da0d040e3c9c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 12/52] fix: waitableExecute does not return a value that was
 never computed

---
 include/maf/messaging/Processor.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/maf/messaging/Processor.h b/include/maf/messaging/Processor.h
index 96966ed..6f95e58 100644
--- a/include/maf/messaging/Processor.h
+++ b/include/maf/messaging/Processor.h
@@ -89,7 +89,8 @@ class Processor final : pattern::Unasignable,
                        bool> = true>
   auto waitableExecute(Callable &&cb) -> std::invoke_result_t<Callable> {
     std::invoke_result_t<Callable> ret;
-    this->waitableExecute([&] { ret = cb(); }).wait();
+    // fails instead of returning garbage if the callback failed or never ran
+    this->waitableExecute([&] { ret = cb(); }).get();
     return ret;
   }
 
-- 
2.43.0


From 68020765af7ce1be41da709c5392283bef37225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 13/52] fix: two concurrent Processor::disconnect both return
 with the handlers disconnected

---
 src/common/maf/messaging/Processor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index f10713f..5967c4b 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -395,14 +395,15 @@ void Processor::disconnect(const MessageID &msgid) {
     std::lock_guard lock(d_->msgHandlersMap);
     auto it = d_->msgHandlersMap->find(msgid);
     if (it != d_->msgHandlersMap->end()) {
-      handlers = std::move(it->second);
-      d_->msgHandlersMap->erase(it);
+      handlers = it->second;
     }
-    d_->cleanupUnconnectedMsgHandlers();
   }
   if (handlers) {
     handlers->disconnect();
+    handlers.reset();
   }
+  std::lock_guard lock(d_->msgHandlersMap);
+  d_->cleanupUnconnectedMsgHandlers();
 }
 
 size_t Processor::pendingCout() const { return d_->pendingExecutions.size(); }
-- 
2.43.0


From 1130e4dcf88b9aec94af78d27942e52fb076c505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 14/52] fix: a timer destroyed while its processor starts it
 does not fire

---
 src/common/maf/messaging/Timer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index a7c4d48..4556023 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -34,6 +34,7 @@ struct TimerData {
   ExecutionTimeout duration{0};
   bool cyclic = false;
   std::atomic_bool running = false;  // a timer may be stopped by other threads
+  std::atomic_bool destroyed = false;
 
   TimerData() = default;
   TimerData(TimeOutCallback cb, ExecutionTimeout interval, bool cc = false)
@@ -101,7 +102,10 @@ static void runTimer(const TimerDataPtr& tm, milliseconds interval,
 
 Timer::Timer(bool cyclic) : d_{new TimerData} { d_->cyclic = cyclic; }
 
-Timer::~Timer() { stop(); }
+Timer::~Timer() {
+  d_->destroyed = true;  // might be just about to be started by its processor
+  stop();
+}
 void Timer::start(long long milliseconds, TimeOutCallback callback) {
   start(std::chrono::milliseconds{milliseconds}, std::move(callback));
 }
@@ -197,7 +201,7 @@ void TimerMgr::checkAllTimers() {
 
     state_ = State::HaveTimer;
     // shortest timer might be stopped by another thread
-    if (timer->running) {
+    if (timer->running && !timer->destroyed) {
       onShortestTimerExpired(timer);
     } else {
       remove(timer);
-- 
2.43.0


From f77d83577ff2ff0f7ea5558ab0dbd7b1906474a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 15/52] fix: thread pools launch, shut down and release tasks
 consistently under concurrency

---
 include/maf/threading/Runnable.h           |  2 +-
 include/maf/threading/ThreadPoolImplBase.h | 38 ++++++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/include/maf/threading/Runnable.h b/include/maf/threading/Runnable.h
index 1726576..26ad003 100644
--- a/include/maf/threading/Runnable.h
+++ b/include/maf/threading/Runnable.h
@@ -12,7 +12,7 @@ public:
   virtual ~Runnable() {}
 
 private:
-  bool _autoDeleted;
+  bool _autoDeleted = false;
 };
 
 inline void run(Runnable *runner) {
diff --git a/include/maf/threading/ThreadPoolImplBase.h b/include/maf/threading/ThreadPoolImplBase.h
index 6392ea2..bb0b2d5 100644
--- a/include/maf/threading/ThreadPoolImplBase.h
+++ b/include/maf/threading/ThreadPoolImplBase.h
@@ -36,7 +36,8 @@ public:
   ~ThreadPoolImplBase() { shutdown(); }
 
   void tryLaunchNewThread() {
-    if (_pool.size() < _maxThreadCount) {
+    std::lock_guard<std::mutex> lock(_poolMutex);
+    if (!_poolClosed && _pool.size() < _maxThreadCount) {
       try {
         _pool.emplace_back(
             std::thread{&ThreadPoolImplBase::coptRunPendingTask, this});
@@ -46,11 +47,16 @@ public:
     }
   }
 
-  void run(Task task) { _taskQueue.push(std::move(task)); }
+  void run(Task task) {
+    if (!_taskQueue.push(task)) { // already shut down, nobody will run it
+      _fDone(task);
+    }
+  }
 
   unsigned int maxThreadCount() const { return _maxThreadCount; }
 
   unsigned int activeThreadCount() {
+    std::lock_guard<std::mutex> lock(_poolMutex);
     return static_cast<unsigned int>(_pool.size());
   }
 
@@ -67,6 +73,7 @@ public:
   }
 
   void stopThePool() {
+    closePool();
     _taskQueue.close();
     stopRunningTasks();
     _taskQueue.clear(_fDone);
@@ -76,9 +83,10 @@ public:
 private:
   // copt = Called On Pool Threads
   void coptRun(Task task) {
-    addToRunningTasks(task);
-    _fRun(task);
-    removeFromRunningTasks(task);
+    if (addToRunningTasks(task)) {
+      _fRun(task);
+      removeFromRunningTasks(task);
+    }
     _fDone(task);
   }
   void coptRunPendingTask() {
@@ -89,18 +97,27 @@ private:
   }
 
   std::vector<std::thread> _pool;
+  std::mutex _poolMutex;
+  bool _poolClosed = false; // no thread is launched any more
   std::once_flag _shutdowned;
   TaskQueue _taskQueue;
   std::list<Task> _runningTasks;
   std::mutex _runningTaskMutex;
-  unsigned int _maxThreadCount;
+  bool _stopping = false; // no task is started any more
+  std::atomic<unsigned int> _maxThreadCount;
   TaskExc _fRun;
   TaskExc _fStop;
   TaskExc _fDone;
 
-  void addToRunningTasks(Task task) {
+  // a task which is not registered here when the running ones are stopped
+  // would never be told to stop, then it must not be started
+  bool addToRunningTasks(Task task) {
     std::lock_guard<std::mutex> lock(_runningTaskMutex);
+    if (_stopping) {
+      return false;
+    }
     _runningTasks.push_back(std::move(task));
+    return true;
   }
   void removeFromRunningTasks(const Task &task) {
     std::lock_guard<std::mutex> lock(_runningTaskMutex);
@@ -114,11 +131,18 @@ private:
   }
   void stopRunningTasks() {
     std::lock_guard<std::mutex> lock(_runningTaskMutex);
+    _stopping = true;
     for (auto &task : _runningTasks) {
       _fStop(task);
     }
   }
 
+  void closePool() {
+    std::lock_guard<std::mutex> lock(_poolMutex);
+    _poolClosed = true;
+  }
+
+  // _pool does not change any more once it's closed
   void waitForThreadsExited() {
     for (auto &th : _pool) {
       if (th.joinable()) {
-- 
2.43.0


From cacfb8fe7461b8d8bf3cbad3a8e5580ccc58b865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 16/52] fix: every observer gets the current value when it
 connects

---
 include/maf/utils/Observable.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/maf/utils/Observable.h b/include/maf/utils/Observable.h
index c4cbf28..b3ac5d9 100644
--- a/include/maf/utils/Observable.h
+++ b/include/maf/utils/Observable.h
@@ -111,7 +111,6 @@ class ObservableBasic_ : public BasicSignal<SlotsKeeper_, SubStates_...> {
 
  public:
   using SlotsKeeperType = SlotsKeeper_;
-  using Base_::connect;
   using State = tuple<PurgeType_<SubStates_>...>;
   ObservableBasic_() = default;
   ObservableBasic_(ObservableBasic_&&) = default;
-- 
2.43.0


From 14e8061675bb0d71213b4da4b9dcbee3bf0ccf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 17/52] fix: AtomicObject references release what they held
 when assigned, pointers can be read const

---
 include/maf/threading/AtomicObject.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/maf/threading/AtomicObject.h b/include/maf/threading/AtomicObject.h
index 612e28b..d2ceb3b 100644
--- a/include/maf/threading/AtomicObject.h
+++ b/include/maf/threading/AtomicObject.h
@@ -19,8 +19,14 @@ class AtomicObject : public pattern::UnCopyable {
     }
 
     AtomicRefBase_ &operator=(AtomicRefBase_ &&other) {
-      pointed_ = other.pointed_;
-      other.pointed_ = nullptr;
+      if (this != &other) {
+        if (pointed_) {
+          pointed_->mutex_.unlock();
+        }
+        pointed_ = other.pointed_;
+        other.pointed_ = nullptr;
+      }
+      return *this;
     }
 
     ~AtomicRefBase_() {
@@ -78,8 +84,8 @@ class AtomicObject : public pattern::UnCopyable {
   class CAtomicRef_<
       _D, _M,
       std::enable_if_t<std::is_pointer_v<decltype(std::declval<_D>().get())>,
-                       void>> : public AtomicRefBase_<AtomicObject<_D, _M>> {
-    using Base_ = AtomicRefBase_<AtomicObject<_D, _M>>;
+                       void>> : public AtomicRefBase_<const AtomicObject<_D, _M>> {
+    using Base_ = AtomicRefBase_<const AtomicObject<_D, _M>>;
 
    public:
     using Base_::Base_;
-- 
2.43.0


From 2965e6d278ae87ed6246a2f961ed33fe689dd2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:34 +0000
Subject: [PATCH 18/52] fix: dereferencing an AtomicObject reference gives the
 object, not a copy

---
 include/maf/threading/AtomicObject.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maf/threading/AtomicObject.h b/include/maf/threading/AtomicObject.h
index d2ceb3b..28e64b6 100644
--- a/include/maf/threading/AtomicObject.h
+++ b/include/maf/threading/AtomicObject.h
@@ -48,7 +48,7 @@ class AtomicObject : public pattern::UnCopyable {
     decltype(auto) operator->() {
       return std::addressof(this->pointed_->data_);
     }
-    decltype(auto) operator*() { return this->pointed_->data_; }
+    decltype(auto) operator*() { return (this->pointed_->data_); }
   };
 
   template <class _D>
@@ -77,7 +77,7 @@ class AtomicObject : public pattern::UnCopyable {
     decltype(auto) operator->() const {
       return std::addressof(Base_::pointed_->data_);
     }
-    decltype(auto) operator*() const { return this->pointed_->data_; }
+    decltype(auto) operator*() const { return (this->pointed_->data_); }
   };
 
   template <class _D, class _M>
-- 
2.43.0


From 337a65f176a48dcef0d99f3ccd93784bc844e741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 19/52] fix: a sync request survives partial updates and losing
 its service while being sent

---
 .../maf/messaging/client-server/ServiceRequester.cpp  | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 7d803fb..1ee1f5a 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -199,7 +199,11 @@ CSPayloadIFPtr ServiceRequester::sendMessageSync(
   auto resultFuture = asyncResponse->get_future();
   auto onSyncMsgCallback =
       [asyncResponse = move(asyncResponse)](const CSPayloadIFPtr &msg) {
-        asyncResponse->set_value(msg);
+        try {
+          asyncResponse->set_value(msg);
+        } catch (const std::future_error &) {
+          // a partial update has already been taken as the answer
+        }
       };
 
   auto regID = sendMessageAsync(operationID, opCode, msgContent,
@@ -507,7 +511,10 @@ RegID ServiceRequester::storeAndSendRequestToServer(
                 regID);
 
   outgoingMsg->setRequestID(regID.requestID);
-  auto status = sendMessageToServer(outgoingMsg);
+  // the service may have gone before the entry was stored, then nobody else
+  // will ever remove it
+  auto status = serviceUnavailable() ? ActionCallStatus::ServiceUnavailable
+                                     : sendMessageToServer(outgoingMsg);
   if (status != ActionCallStatus::Success) {
     removeRegEntry(regEntriesMap, regID);
     regID.clear();
-- 
2.43.0


From d9b46581a782de6af344375352f2be22d3fb568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 20/52] fix: request and registration callbacks are not
 destroyed under the requester's locks

---
 .../client-server/ServiceRequester.cpp        | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 1ee1f5a..0c6aaed 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -86,6 +86,8 @@ void ServiceRequester::abortRequest(const RegID &regID,
   );
 
   bool found = false;
+  // destroyed after the lock is released: the callback may own anything
+  std::list<RegEntry> aborted;
 
   {  // create {block} for releasing lock on _requestEntriesMap
     std::lock_guard lock(requestEntriesMap_);
@@ -96,7 +98,7 @@ void ServiceRequester::abortRequest(const RegID &regID,
       for (auto requestEntryIt = listOfRequests.begin();
            requestEntryIt != listOfRequests.end(); ++requestEntryIt) {
         if (requestEntryIt->requestID == regID.requestID) {
-          listOfRequests.erase(requestEntryIt);
+          aborted.splice(aborted.end(), listOfRequests, requestEntryIt);
           found = true;
           break;
         }
@@ -166,7 +168,7 @@ void ServiceRequester::init() {}
 void ServiceRequester::deinit() {
   // Prematurely cancel the blocking requests that offers a chance to
   // waiting-thread to exit sooner then prevent some of tricky problems
-  requestEntriesMap_.atomic()->clear();
+  clearAllRequests();
 }
 
 bool ServiceRequester::serviceUnavailable() const noexcept {
@@ -374,7 +376,8 @@ ActionCallStatus ServiceRequester::unregisterAll(const OpID &propertyID) {
   if (serviceUnavailable()) {
     callstatus = ActionCallStatus::ServiceUnavailable;
   } else {
-    registerEntriesMap_.atomic()->erase(propertyID);
+    RegEntriesMap::DataType::node_type removed;
+    removed = registerEntriesMap_.atomic()->extract(propertyID);
     sendMessageToServer(createCSMessage(propertyID, OpCode::Unregister));
     removeCachedProperty(propertyID);
   }
@@ -486,11 +489,14 @@ void ServiceRequester::onRequestResult(const CSMessagePtr &msg) {
 }
 
 void ServiceRequester::clearAllRequests() {
-  requestEntriesMap_.atomic()->clear();
+  // callbacks are destroyed with the map unlocked
+  RegEntriesMap::DataType entries;
+  requestEntriesMap_.atomic()->swap(entries);
 }
 
 void ServiceRequester::clearAllRegisterEntries() {
-  registerEntriesMap_.atomic()->clear();
+  RegEntriesMap::DataType entries;
+  registerEntriesMap_.atomic()->swap(entries);
 }
 
 ActionCallStatus ServiceRequester::sendMessageToServer(
@@ -541,13 +547,15 @@ size_t ServiceRequester::storeRegEntry(RegEntriesMap &regInfoEntries,
 
 size_t ServiceRequester::removeRegEntry(RegEntriesMap &regInfoEntriesMap,
                                         const RegID &regID) {
+  // destroyed after the lock is released: the callback may own anything
+  std::list<RegEntry> removed;
   std::lock_guard lock(regInfoEntriesMap);
   auto itEntries = regInfoEntriesMap->find(regID.opID);
   if (itEntries != regInfoEntriesMap->end()) {
     auto &entries = itEntries->second;
     for (auto itEntry = std::begin(entries); itEntry != std::end(entries);) {
       if (itEntry->requestID == regID.requestID) {
-        entries.erase(itEntry);
+        removed.splice(removed.end(), entries, itEntry);
         break;
       }
       ++itEntry;
-- 
2.43.0


From 79d259bcafc873d14189634ac061324575bb94a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 21/52] fix: the service is told of registrations in the order
 they change

---
 .../client-server/ServiceRequester.cpp        | 26 +++++++++++++++----
 .../client-server/ServiceRequester.h          |  4 +++
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 0c6aaed..4eb25be 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -297,9 +297,15 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
                           {});
 
   RegID regID;
+  std::unique_lock registration(registrationMutex_);
   auto sameRegisterCount =
       storeRegEntry(registerEntriesMap_, opID, callback, regID);
-  if (sameRegisterCount == 1) {
+  if (serviceUnavailable()) {
+    // gone before the entry was stored, nobody else will ever remove it
+    removeRegEntry(registerEntriesMap_, regID);
+    regID.clear();
+    assign_ptr(callStatus, ActionCallStatus::ServiceUnavailable);
+  } else if (sameRegisterCount == 1) {
     auto registerMessage = createCSMessage(opID, opCode);
 
     registerMessage->setRequestID(regID.requestID);
@@ -311,7 +317,7 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
     }
 
     assign_ptr(callStatus, status);
-  } else if (opCode == OpCode::StatusRegister) {
+  } else if (registration.unlock(); opCode == OpCode::StatusRegister) {
     if (auto cachedProperty = getCachedProperty(opID)) {
       callback(cachedProperty);
     }
@@ -352,8 +358,15 @@ ActionCallStatus ServiceRequester::unregister(const RegID &regID) {
   auto callstatus = ActionCallStatus::Success;
   if (regID.valid()) {
     auto propertyID = regID.opID;
+    std::lock_guard registration(registrationMutex_);
+    auto wasRegistered = subscribingProperty(propertyID);
     auto totalRemainer = removeRegEntry(registerEntriesMap_, regID);
-    if (totalRemainer == 0) {
+    if (!wasRegistered) {
+      // already ended, nothing to tell the service
+      if (serviceUnavailable()) {
+        callstatus = ActionCallStatus::ServiceUnavailable;
+      }
+    } else if (totalRemainer == 0) {
       // send unregister if no one from client side interested
       // in this propertyID anymore
       removeCachedProperty(propertyID);
@@ -377,9 +390,12 @@ ActionCallStatus ServiceRequester::unregisterAll(const OpID &propertyID) {
     callstatus = ActionCallStatus::ServiceUnavailable;
   } else {
     RegEntriesMap::DataType::node_type removed;
+    std::lock_guard registration(registrationMutex_);
     removed = registerEntriesMap_.atomic()->extract(propertyID);
-    sendMessageToServer(createCSMessage(propertyID, OpCode::Unregister));
-    removeCachedProperty(propertyID);
+    if (removed) {
+      removeCachedProperty(propertyID);
+      sendMessageToServer(createCSMessage(propertyID, OpCode::Unregister));
+    }
   }
 
   return callstatus;
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index 90a15f4..5dcd126 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -10,6 +10,7 @@
 #include <future>
 #include <list>
 #include <map>
+#include <mutex>
 #include <set>
 #include <variant>
 
@@ -136,6 +137,9 @@ struct ServiceRequester : public ServiceRequesterIF {
   bool cachedPropertyUpToDate(const OpID &propertyID) const;
   bool subscribingProperty(const OpID &propertyID) const;
 
+  // what the service is told follows the changes of registerEntriesMap_;
+  // recursive: callbacks that run while sending may register as well
+  std::recursive_mutex registrationMutex_;
   RegEntriesMap registerEntriesMap_;
   RegEntriesMap requestEntriesMap_;
   ServiceStatusObservers serviceStatusObservers_;
-- 
2.43.0


From d96cba3e81ff78b5a1e41945403d53b5a6afc49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 22/52] fix: property reads and late registrants get the
 service's latest value

---
 .../client-server/ServiceRequester.cpp        | 59 ++++++++++++-------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 4eb25be..79cf8ab 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -35,11 +35,9 @@ bool ServiceRequester::onIncomingMessage(const CSMessagePtr &csMsg) {
       case OpCode::SignalRegister:
         onRegistersUpdated(csMsg);
         break;
-      case OpCode::StatusRegister: {
-        if (onRegistersUpdated(csMsg)) {
-          cachePropertyStatus(csMsg->operationID(), csMsg->payload());
-        }
-      } break;
+      case OpCode::StatusRegister:
+        onRegistersUpdated(csMsg);
+        break;
       case OpCode::PartialRequestUpdate:
       case OpCode::Request:
       case OpCode::StatusGet:
@@ -252,6 +250,10 @@ void ServiceRequester::onServiceStatusChanged(const ServiceID &sid,
                                               Availability newStatus) {
   MAF_LOGGER_INFO("Server status change from ", oldStatus, " to ", newStatus);
   if ((sid == serviceID()) && (newStatus != serviceStatus_)) {
+    if (newStatus == Availability::Available) {
+      // what was known before the service went away may be outdated
+      propertiesCache_.atomic()->clear();
+    }
     serviceStatus_ = newStatus;
     if (newStatus == Availability::Unavailable) {
       serviceStatus_ = Availability::Unavailable;
@@ -407,16 +409,24 @@ CSPayloadIFPtr ServiceRequester::getStatus(const OpID &propertyID,
   if (serviceUnavailable()) {
     assign_ptr(callStatus, ActionCallStatus::ServiceUnavailable);
     return getCachedProperty(propertyID);
-  } else if (subscribingProperty(propertyID)) {
-    assign_ptr(callStatus, ActionCallStatus::Success);
-    return getCachedProperty(propertyID);
-  } else {
-    SET_ERROR_AND_RETURN_IF(serviceUnavailable(), callStatus,
-                            ActionCallStatus::ServiceUnavailable, {});
+  }
+
+  if (subscribingProperty(propertyID)) {
+    if (auto property = getCachedProperty(propertyID)) {
+      assign_ptr(callStatus, ActionCallStatus::Success);
+      return property;
+    }
+  }
 
-    return sendMessageSync(propertyID, OpCode::StatusGet, {}, callStatus,
-                           timeout);
+  auto status = ActionCallStatus::FailedUnknown;
+  auto property =
+      sendMessageSync(propertyID, OpCode::StatusGet, {}, &status, timeout);
+  if (!property && status == ActionCallStatus::Success) {
+    // the service has no value for this property
+    status = ActionCallStatus::FailedUnknown;
   }
+  assign_ptr(callStatus, status);
+  return property;
 }
 
 ActionCallStatus ServiceRequester::getStatus(
@@ -425,13 +435,18 @@ ActionCallStatus ServiceRequester::getStatus(
   ActionCallStatus callstatus = ActionCallStatus::Success;
   if (serviceUnavailable()) {
     callback(getCachedProperty(propertyID));
-    callstatus = ActionCallStatus::ServiceUnavailable;
-  } else if (subscribingProperty(propertyID)) {
-    callback(getCachedProperty(propertyID));
-  } else {
-    sendMessageAsync(propertyID, OpCode::StatusGet, {}, std::move(callback),
-                     nullptr);
+    return ActionCallStatus::ServiceUnavailable;
   }
+
+  if (subscribingProperty(propertyID)) {
+    if (auto property = getCachedProperty(propertyID)) {
+      callback(property);
+      return callstatus;
+    }
+  }
+
+  sendMessageAsync(propertyID, OpCode::StatusGet, {}, std::move(callback),
+                   &callstatus);
   return callstatus;
 }
 
@@ -445,6 +460,10 @@ bool ServiceRequester::onRegistersUpdated(const CSMessagePtr &msg) {
       for (auto &regEntry : it->second) {
         callbacks.push_back(regEntry.callback);
       }
+      if (msg->operationCode() == OpCode::StatusRegister) {
+        // who registers from now on gets this value from the cache
+        cachePropertyStatus(msg->operationID(), msg->payload());
+      }
     }
   }
 
@@ -593,7 +612,7 @@ CSPayloadIFPtr ServiceRequester::getCachedProperty(
     const OpID &propertyID) const {
   std::lock_guard lock(propertiesCache_);
   if (auto itProp = propertiesCache_->find(propertyID);
-      itProp != propertiesCache_->end()) {
+      itProp != propertiesCache_->end() && itProp->second) {
     return CSPayloadIFPtr{itProp->second->clone()};
   }
   return {};
-- 
2.43.0


From bdcb604bc1e6ce65b04159a11fa7986ef989be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 23/52] fix: service status observers are told of each change
 in order, with nothing locked

---
 .../messaging/client-server/ClientBase.cpp    |  52 +++----
 .../client-server/ServiceRequester.cpp        | 128 ++++++++++--------
 .../client-server/ServiceRequester.h          |  14 +-
 3 files changed, 113 insertions(+), 81 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ClientBase.cpp b/src/common/maf/messaging/client-server/ClientBase.cpp
index ce63a62..758d90a 100644
--- a/src/common/maf/messaging/client-server/ClientBase.cpp
+++ b/src/common/maf/messaging/client-server/ClientBase.cpp
@@ -13,9 +13,15 @@ namespace messaging {
 void ClientBase::onServerStatusChanged(Availability oldStatus,
                                        Availability newStatus) noexcept {
   if (newStatus != Availability::Available) {
-    _serviceStatusMap.atomic()->clear();
-    std::lock_guard lock(_requestersMap);
-    for (auto &[sid, requester] : *_requestersMap) {
+    // requesters are notified with the map unlocked, their observers may come
+    // back to this client
+    ProxyMap::DataType requesters;
+    {
+      std::lock_guard lock(_requestersMap);
+      _serviceStatusMap.atomic()->clear();
+      requesters = *_requestersMap;
+    }
+    for (auto &[sid, requester] : requesters) {
       requester->onServiceStatusChanged(sid, oldStatus, newStatus);
     }
   }
@@ -27,11 +33,17 @@ void ClientBase::onServiceStatusChanged(const ServiceID &sid,
   MAF_LOGGER_INFO("Client receives service status update from server: [", sid,
                   "]: ", oldStatus, "-->", newStatus);
 
-  (*_serviceStatusMap.atomic())[sid] = newStatus;
-  std::lock_guard lock(_requestersMap);
-  auto itProxy = _requestersMap->find(sid);
-  if (itProxy != _requestersMap->end()) {
-    itProxy->second->onServiceStatusChanged(sid, oldStatus, newStatus);
+  ServiceRequesterIFPtr requester;
+  {
+    std::lock_guard lock(_requestersMap);
+    (*_serviceStatusMap.atomic())[sid] = newStatus;
+    auto itProxy = _requestersMap->find(sid);
+    if (itProxy != _requestersMap->end()) {
+      requester = itProxy->second;
+    }
+  }
+  if (requester) {
+    requester->onServiceStatusChanged(sid, oldStatus, newStatus);
   } else {
     MAF_LOGGER_WARN("There's no proxy for this service id: ", sid);
   }
@@ -114,23 +126,17 @@ Availability ClientBase::getServiceStatus(const ServiceID &sid) {
 bool ClientBase::init(const Address &) { return true; }
 
 void ClientBase::deinit() {
-  {
-    std::lock_guard lock(_requestersMap);
-    for (auto &[_, requester] : *_requestersMap) {
-      requester->deinit();
-    }
-
-    _requestersMap->clear();
+  ProxyMap::DataType requesters;
+  _requestersMap.atomic()->swap(requesters);
+  for (auto &[_, requester] : requesters) {
+    requester->deinit();
   }
 
-  {
-    std::lock_guard lock(_serviceStatusMap);
-    for (auto &[serviceID, status] : *_serviceStatusMap) {
-      sendMessageToServer(createCSMessage(serviceID, OpIDInvalid,
-                                          OpCode::UnregisterServiceStatus));
-    }
-
-    _serviceStatusMap->clear();
+  ServiceStatusMap::DataType serviceStatuses;
+  _serviceStatusMap.atomic()->swap(serviceStatuses);
+  for (auto &[serviceID, status] : serviceStatuses) {
+    sendMessageToServer(createCSMessage(serviceID, OpIDInvalid,
+                                        OpCode::UnregisterServiceStatus));
   }
 }
 
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 79cf8ab..59b9783 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -6,6 +6,7 @@
 #include <maf/messaging/client-server/Exceptions.h>
 #include <maf/utils/Pointers.h>
 
+#include <algorithm>
 #include <variant>
 
 #define SET_ERROR_AND_RETURN_IF(condition, pErrorStore, errorValue, \
@@ -120,30 +121,22 @@ void ServiceRequester::abortRequest(const RegID &regID,
 void ServiceRequester::registerServiceStatusObserver(
     ServiceStatusObserverPtr observer) {
   if (observer) {
-    Availability currentServiceStatus;
-    {
-      // both getting serviceStatus and pushing observer
-      // to list must be in critical section to make sure
-      // observer will never be missed the latest status event
-      std::lock_guard lock(serviceStatusObservers_);
-      currentServiceStatus = serviceStatus();
-      serviceStatusObservers_->push_back(observer);
-    }
-
-    if (currentServiceStatus == Availability::Available) {
-      // dont execute notification in critical section,
-      // that might block other thread to update service status
-      // when status has changed
-      observer->onServiceStatusChanged(serviceID(), Availability::Unknown,
-                                       Availability::Available);
+    std::unique_lock lock(serviceStatusObservers_);
+    serviceStatusObservers_->push_back(observer);
+    if (serviceStatus() == Availability::Available) {
+      pendingNotifications_.push_back(
+          {{observer}, Availability::Unknown, Availability::Available});
+      lock.unlock();
+      notifyServiceStatusObservers();
     }
   }
 }
 
 void ServiceRequester::unregisterServiceStatusObserver(
     const ServiceStatusObserverPtr &observer) {
-  serviceStatusObservers_.atomic()->remove_if(
-      [&observer](const auto &obsv) { return obsv == observer; });
+  // released after the lock: an observer may own anything
+  auto removed = observer;
+  serviceStatusObservers_.atomic()->remove(removed);
 }
 
 CSPayloadIFPtr ServiceRequester::sendRequest(const OpID &opID,
@@ -249,47 +242,79 @@ void ServiceRequester::onServiceStatusChanged(const ServiceID &sid,
                                               Availability oldStatus,
                                               Availability newStatus) {
   MAF_LOGGER_INFO("Server status change from ", oldStatus, " to ", newStatus);
-  if ((sid == serviceID()) && (newStatus != serviceStatus_)) {
+  // callbacks are destroyed with nothing locked
+  RegEntriesMap::DataType endedRequests, endedRegistrations;
+  {
+    std::lock_guard lock(serviceStatusObservers_);
+    if ((sid != serviceID()) || (newStatus == serviceStatus_)) {
+      return;
+    }
     if (newStatus == Availability::Available) {
       // what was known before the service went away may be outdated
       propertiesCache_.atomic()->clear();
     }
     serviceStatus_ = newStatus;
     if (newStatus == Availability::Unavailable) {
-      serviceStatus_ = Availability::Unavailable;
-      clearAllRequests();
-      clearAllRegisterEntries();
+      requestEntriesMap_.atomic()->swap(endedRequests);
+      registerEntriesMap_.atomic()->swap(endedRegistrations);
     }
-    forwardServiceStatusToObservers(sid, oldStatus, newStatus);
+    pendingNotifications_.push_back(
+        {*serviceStatusObservers_, oldStatus, newStatus});
   }
-}
-
-void ServiceRequester::forwardServiceStatusToObservers(const ServiceID &sid,
-                                                       Availability oldStatus,
-                                                       Availability newStatus) {
-  std::lock_guard lock(serviceStatusObservers_);
-  for (auto itO = std::begin(*serviceStatusObservers_);
-       itO != std::end(*serviceStatusObservers_);) {
-    try {
-      (*itO)->onServiceStatusChanged(sid, oldStatus, newStatus);
-    } catch (const UnavailableException &) {
-      MAF_LOGGER_WARN(
-          "An observer of ", sid,
-          " is no longer available, then remove it from list observers");
-      itO = serviceStatusObservers_->erase(itO);
-      continue;
-    } catch (const std::exception &e) {
-      MAF_LOGGER_WARN("EXCEPTION: ", e.what(),
-                      " when notify service status change of ", sid);
-      throw;
-    } catch (...) {
-      MAF_LOGGER_WARN(
-          "UNKNOWN EXCEPTION occurred when notify service status change of ",
-          sid);
-      throw;
+  endedRequests.clear();
+  endedRegistrations.clear();
+  notifyServiceStatusObservers();
+}
+
+void ServiceRequester::notifyServiceStatusObservers() {
+  // Observers are called with nothing locked, they may call back. One thread
+  // at a time delivers whatever is pending, so each observer sees the changes
+  // in the order they happened.
+  std::unique_lock lock(serviceStatusObservers_);
+  if (notifyingObservers_) {
+    return;
+  }
+  notifyingObservers_ = true;
+  while (!pendingNotifications_.empty()) {
+    auto notification = std::move(pendingNotifications_.front());
+    pendingNotifications_.pop_front();
+    for (auto &observer : notification.observers) {
+      auto stillRegistered =
+          std::find(serviceStatusObservers_->begin(),
+                    serviceStatusObservers_->end(),
+                    observer) != serviceStatusObservers_->end();
+      if (!stillRegistered) {
+        continue;
+      }
+      lock.unlock();
+      auto gone = false;
+      try {
+        observer->onServiceStatusChanged(serviceID(), notification.oldStatus,
+                                         notification.newStatus);
+      } catch (const UnavailableException &) {
+        MAF_LOGGER_WARN(
+            "An observer of ", serviceID(),
+            " is no longer available, then remove it from list observers");
+        gone = true;
+      } catch (...) {
+        MAF_LOGGER_WARN(
+            "EXCEPTION occurred when notify service status change of ",
+            serviceID());
+        lock.lock();
+        notifyingObservers_ = false;
+        throw;
+      }
+      lock.lock();
+      if (gone) {
+        serviceStatusObservers_->remove(observer);
+      }
     }
-    ++itO;
+    // the observers are released with nothing locked
+    lock.unlock();
+    notification.observers.clear();
+    lock.lock();
   }
+  notifyingObservers_ = false;
 }
 
 RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
@@ -529,11 +554,6 @@ void ServiceRequester::clearAllRequests() {
   requestEntriesMap_.atomic()->swap(entries);
 }
 
-void ServiceRequester::clearAllRegisterEntries() {
-  RegEntriesMap::DataType entries;
-  registerEntriesMap_.atomic()->swap(entries);
-}
-
 ActionCallStatus ServiceRequester::sendMessageToServer(
     const CSMessagePtr &outgoingMsg) {
   if (auto client = client_.lock()) {
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index 5dcd126..539d86f 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -93,9 +93,7 @@ struct ServiceRequester : public ServiceRequesterIF {
                               Availability newStatus) override;
 
  private:
-  void forwardServiceStatusToObservers(const ServiceID &sid,
-                                       Availability oldStatus,
-                                       Availability newStatus);
+  void notifyServiceStatusObservers();
 
   RegID registerNotification(const OpID &opID, OpCode opCode,
                              CSPayloadProcessCallback callback,
@@ -118,7 +116,6 @@ struct ServiceRequester : public ServiceRequesterIF {
   bool onRegistersUpdated(const CSMessagePtr &msg);
   void onRequestResult(const CSMessagePtr &msg);
   void clearAllRequests();
-  void clearAllRegisterEntries();
   ActionCallStatus sendMessageToServer(const CSMessagePtr &outgoingMsg);
 
   RegID storeAndSendRequestToServer(RegEntriesMap &regEntriesMap,
@@ -142,7 +139,16 @@ struct ServiceRequester : public ServiceRequesterIF {
   std::recursive_mutex registrationMutex_;
   RegEntriesMap registerEntriesMap_;
   RegEntriesMap requestEntriesMap_;
+  struct StatusNotification {
+    std::list<ServiceStatusObserverPtr> observers;
+    Availability oldStatus;
+    Availability newStatus;
+  };
+
   ServiceStatusObservers serviceStatusObservers_;
+  // both guarded by the lock of serviceStatusObservers_
+  std::list<StatusNotification> pendingNotifications_;
+  bool notifyingObservers_ = false;
   CSMsgContentMap propertiesCache_;
   std::weak_ptr<ClientIF> client_;
   CSIDManager idMgr_;
-- 
2.43.0


From 4928abd88a52faf29ad2229d1afbec535db10de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 24/52] fix: a service answers each request once, to the client
 it came from

---
 .../maf/messaging/client-server/Request.cpp   |  8 ++-
 .../maf/messaging/client-server/Request.h     |  1 +
 .../client-server/ServiceProvider.cpp         | 52 ++++++++++++++-----
 .../messaging/client-server/ServiceProvider.h |  2 +
 4 files changed, 49 insertions(+), 14 deletions(-)

diff --git a/src/common/maf/messaging/client-server/Request.cpp b/src/common/maf/messaging/client-server/Request.cpp
index e71fb72..7b8e716 100644
--- a/src/common/maf/messaging/client-server/Request.cpp
+++ b/src/common/maf/messaging/client-server/Request.cpp
@@ -71,8 +71,10 @@ CSPayloadIFPtr Request::getInput() {
 }
 
 void Request::onAborted(AbortRequestCallback abortCallback) {
-  std::lock_guard lock(_mutex);
+  std::unique_lock lock(_mutex);
   if (!_valid) {
+    // the callback may come back to this request
+    lock.unlock();
     abortCallback();
   } else {
     _abortCallback = std::move(abortCallback);
@@ -103,6 +105,10 @@ ActionCallStatus Request::sendMsgBackToClient() {
   }
 }
 
+const Address &Request::getSourceAddress() const {
+  return _csMsg->sourceAddress();
+}
+
 void Request::setOperationCode(OpCode opCode) {
   std::lock_guard lock(_mutex);
   _csMsg->setOperationCode(opCode);
diff --git a/src/common/maf/messaging/client-server/Request.h b/src/common/maf/messaging/client-server/Request.h
index 97f77f6..aa859ad 100644
--- a/src/common/maf/messaging/client-server/Request.h
+++ b/src/common/maf/messaging/client-server/Request.h
@@ -25,6 +25,7 @@ class Request : public RequestIF {
   AbortRequestCallback getAbortCallback();
   ActionCallStatus sendMsgBackToClient();
   void setOperationCode(OpCode opCode);
+  const Address &getSourceAddress() const;
 
  public:
   OpCode getOperationCode() const override;
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index b1c8169..347b4b5 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -71,7 +71,10 @@ ActionCallStatus ServiceProvider::respondToRequest(const CSMessagePtr &csMsg) {
     request = getRequestInfo(csMsg, false);
   } else {
     request = getRequestInfo(csMsg, true);
-    request->invalidate();
+    // only the one who gets it out of the map answers it
+    if (request) {
+      request->invalidate();
+    }
   }
   if (request) {
     return sendBackMessageToClient(csMsg);
@@ -270,7 +273,9 @@ ServiceProvider::RequestPtr ServiceProvider::getRequestInfo(
     for (auto itRequest = requestList.begin(); itRequest != requestList.end();
          ++itRequest) {
       RequestPtr &requestTmp = *itRequest;
-      if (requestTmp->getRequestID() == msg->requestID()) {
+      // clients count their requests independently of each other
+      if (requestTmp->getRequestID() == msg->requestID() &&
+          requestTmp->getSourceAddress() == msg->sourceAddress()) {
         request = requestTmp;
         if (remove) {
           requestList.erase(itRequest);
@@ -283,16 +288,39 @@ ServiceProvider::RequestPtr ServiceProvider::getRequestInfo(
 }
 
 void ServiceProvider::invalidateAndRemoveAllRequests() {
-  std::lock_guard lock(requestsMap_);
-  for (auto &[opID, requests] : *requestsMap_) {
+  // abort callbacks are called with the map unlocked
+  RequestMap::DataType requestsMap;
+  requestsMap_.atomic()->swap(requestsMap);
+  for (auto &[opID, requests] : requestsMap) {
     for (auto &request : requests) {
-      request->invalidate();
-      if (auto abortCallback = request->getAbortCallback()) {
-        abortCallback();
+      abortRequest(request);
+    }
+  }
+}
+
+void ServiceProvider::removeRequestsOfAddress(const Address &addr) {
+  std::list<RequestPtr> removed;
+  {
+    std::lock_guard lock(requestsMap_);
+    for (auto &[opID, requests] : *requestsMap_) {
+      for (auto it = requests.begin(); it != requests.end();) {
+        auto current = it++;
+        if ((*current)->getSourceAddress() == addr) {
+          removed.splice(removed.end(), requests, current);
+        }
       }
     }
   }
-  regEntriesMap_->clear();
+  for (auto &request : removed) {
+    abortRequest(request);
+  }
+}
+
+void ServiceProvider::abortRequest(const RequestPtr &request) {
+  request->invalidate();
+  if (auto abortCallback = request->getAbortCallback()) {
+    abortCallback();
+  }
 }
 
 void ServiceProvider::saveRegisterInfo(const CSMessagePtr &msg) {
@@ -318,10 +346,7 @@ void ServiceProvider::onRequestAborted(const CSMessagePtr &msg) {
     // Invalidate request then later respond from request itself
     // will not cause any race condition.
     // Must be considered carefully for bug fixing later
-    request->invalidate();
-    if (auto abortCallback = request->getAbortCallback()) {
-      abortCallback();
-    }
+    abortRequest(request);
   }
 }
 
@@ -338,7 +363,8 @@ void ServiceProvider::onActionRequest(const CSMessagePtr &msg) {
 }
 
 void ServiceProvider::onClientGoesOff(const CSMessagePtr &msg) {
-  regEntriesMap_.atomic()->erase(msg->sourceAddress());
+  removeRegistersOfAddress(msg->sourceAddress());
+  removeRequestsOfAddress(msg->sourceAddress());
 }
 
 bool ServiceProvider::registerRequestHandler(
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.h b/src/common/maf/messaging/client-server/ServiceProvider.h
index 8238614..314765d 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.h
+++ b/src/common/maf/messaging/client-server/ServiceProvider.h
@@ -76,6 +76,8 @@ class ServiceProvider : public ServiceProviderIF,
   RequestPtr getRequestInfo(const CSMessagePtr &msgContent, bool remove);
 
   void invalidateAndRemoveAllRequests();
+  void removeRequestsOfAddress(const Address &addr);
+  void abortRequest(const RequestPtr &request);
 
   void saveRegisterInfo(const CSMessagePtr &msg);
   void removeRegisterInfo(const CSMessagePtr &msg);
-- 
2.43.0


From 03ea01e0916385a1ba029cb309cbe27a5c789d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:51 +0000
Subject: [PATCH 25/52] fix: server side listeners are notified with the
 provider unlocked

---
 .../client-server/ServiceProvider.cpp         | 27 ++++++++++++++-----
 .../messaging/client-server/ServiceProvider.h |  4 +--
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 347b4b5..46c410f 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -128,10 +128,17 @@ ActionCallStatus ServiceProvider::broadcast(const OpID &propertyID,
 
 void ServiceProvider::broadcastServerSide(const OpID &opID,
                                           const CSPayloadIFPtr &payload) {
-  LOCK(serverSideListenersMap_);
-  auto it = serverSideListenersMap_->find(opID);
-  if (it != serverSideListenersMap_->end()) {
-    it->second.notify(payload);
+  // listeners are called with the map unlocked, they may come back here
+  std::shared_ptr<PropertyStatusChangedSignal> listeners;
+  {
+    LOCK(serverSideListenersMap_);
+    auto it = serverSideListenersMap_->find(opID);
+    if (it != serverSideListenersMap_->end()) {
+      listeners = it->second;
+    }
+  }
+  if (listeners) {
+    listeners->notify(payload);
   }
 }
 
@@ -386,8 +393,16 @@ bool ServiceProvider::unregisterRequestHandler(const OpID &opID) {
 
 signal_slots::Connection ServiceProvider::registerNotification(
     const OpID &opID, CSPayloadProcessCallback callback) {
-  LOCK(serverSideListenersMap_);
-  return (*serverSideListenersMap_)[opID].connect(move(callback));
+  std::shared_ptr<PropertyStatusChangedSignal> listeners;
+  {
+    LOCK(serverSideListenersMap_);
+    auto &signal = (*serverSideListenersMap_)[opID];
+    if (!signal) {
+      signal = std::make_shared<PropertyStatusChangedSignal>();
+    }
+    listeners = signal;
+  }
+  return listeners->connect(move(callback));
 }
 
 void ServiceProvider::updateLatestStatus(const CSMessagePtr &registerMsg) {
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.h b/src/common/maf/messaging/client-server/ServiceProvider.h
index 314765d..b150ba8 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.h
+++ b/src/common/maf/messaging/client-server/ServiceProvider.h
@@ -21,10 +21,10 @@ class ServiceProvider : public ServiceProviderIF,
 
   using RequestPtr                                = std::shared_ptr<Request>;
   using PropertyPtr                               = CSPayloadIFPtr;
-  using PropertyStatusChangedSignal               = signal_slots::SignalST<PropertyPtr>;
+  using PropertyStatusChangedSignal               = signal_slots::Signal<PropertyPtr>;
   using RequestMap                                = OpIDMap<std::list<RequestPtr>>;
   using PropertyMap                               = OpIDMap<PropertyPtr>;
-  using ServerSideListenersMap                    = OpIDMap<PropertyStatusChangedSignal>;
+  using ServerSideListenersMap                    = OpIDMap<std::shared_ptr<PropertyStatusChangedSignal>>;
   using RequestHandlerMap                         = OpIDMap<RequestHandlerFunction>;
   using Address2OpIDsMap                          = threading::Lockable<std::map<Address, std::set<OpID>>>;
   // clang-format on
-- 
2.43.0


From 4edfbf25ad5400b32abf6ba23b7e49b40cbd1caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 26/52] fix: broadcasting reports success when a client was
 told, not when none was

---
 .../maf/messaging/client-server/ServiceProvider.cpp   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 46c410f..aa3e31d 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -165,11 +165,12 @@ ActionCallStatus ServiceProvider::broadcastToClients(
                                  RequestIDInvalid, payload);
 
     auto trySendToDestinations =
-        [this, &csMsg](AddressList &addresses) -> AddressList {
+        [this, &csMsg, &success](AddressList &addresses) -> AddressList {
       AddressList busyReceivers;
       for (const auto &addr : addresses) {
         auto errCode = sendMessage(csMsg, addr);
         if (errCode == ActionCallStatus::Success) {
+          success = true;
           MAF_LOGGER_INFO("Sent message id: ", csMsg->operationID(),
                           " from server side!");
         } else if (errCode == ActionCallStatus::ReceiverBusy) {
@@ -194,12 +195,10 @@ ActionCallStatus ServiceProvider::broadcastToClients(
       MAF_LOGGER_WARN("Trying to send message to busy addresses once again!");
       busyReceivers = trySendToDestinations(busyReceivers);
     }
-
-    // success when succeeded to send msg to at least one receiver
-    success = (busyReceivers.size() != addresses.size());
   }
-  return success ? ActionCallStatus::ReceiverUnavailable
-                 : ActionCallStatus::Success;
+  // success when there is nobody to tell or at least one receiver was told
+  return success || addresses.empty() ? ActionCallStatus::Success
+                                      : ActionCallStatus::ReceiverUnavailable;
 }
 
 CSPayloadIFPtr ServiceProvider::getStatus(const OpID &propertyID) {
-- 
2.43.0


From bad485e6830da205e8524fe0e05bd05227da1587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 27/52] fix: a server tells its clients when it shuts down, a
 closed client is not reused

---
 src/common/maf/messaging/client-server/ClientFactory.cpp | 1 +
 src/common/maf/messaging/client-server/ServerBase.cpp    | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ClientFactory.cpp b/src/common/maf/messaging/client-server/ClientFactory.cpp
index 8d76b25..f3ba918 100644
--- a/src/common/maf/messaging/client-server/ClientFactory.cpp
+++ b/src/common/maf/messaging/client-server/ClientFactory.cpp
@@ -58,6 +58,7 @@ class ClientFactoryImpl {
         client->deinit();
       }
     }
+    _clientMap->clear();
   }
 };
 
diff --git a/src/common/maf/messaging/client-server/ServerBase.cpp b/src/common/maf/messaging/client-server/ServerBase.cpp
index 16fb8a8..4afb82b 100644
--- a/src/common/maf/messaging/client-server/ServerBase.cpp
+++ b/src/common/maf/messaging/client-server/ServerBase.cpp
@@ -34,11 +34,13 @@ bool ServerBase::onIncomingMessage(const CSMessagePtr &csMsg) {
 bool ServerBase::init(const Address &) { return true; }
 
 void ServerBase::deinit() {
-  auto providers = std::move(*providers_.atomic());
+  ProviderMap::DataType providers = *providers_.atomic();
 
+  // clients are told only about the providers of this server
   for (auto &[_, provider] : providers) {
     provider->stopServing();
   }
+  providers_.atomic()->clear();
   for (auto &[_, provider] : providers) {
     provider->deinit();
   }
-- 
2.43.0


From 6f6d99ef86a333b0a904c9f309b5b5c84aafe19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 28/52] fix: registering for a signal already registered for
 reports its status

---
 .../maf/messaging/client-server/ServiceRequester.cpp     | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 59b9783..44adc79 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -344,9 +344,12 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
     }
 
     assign_ptr(callStatus, status);
-  } else if (registration.unlock(); opCode == OpCode::StatusRegister) {
-    if (auto cachedProperty = getCachedProperty(opID)) {
-      callback(cachedProperty);
+  } else {
+    registration.unlock();
+    if (opCode == OpCode::StatusRegister) {
+      if (auto cachedProperty = getCachedProperty(opID)) {
+        callback(cachedProperty);
+      }
     }
     assign_ptr(callStatus, ActionCallStatus::Success);
   }
-- 
2.43.0


From 0d88df163003b2948e360168f6fba6cf79ddcb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 29/52] fix: deserialising a bool from a byte other than 0 and
 1

The byte was copied into the bool, which is undefined behaviour.
---
 include/maf/utils/serialization/Serializer.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 340a876..9678e13 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -173,7 +173,17 @@ struct Serializer {
 
     mc_enable_if_is_number_or_enum_(NumberOrEnum) static bool deserialize(
         IStream &is, NumberOrEnum &value) {
-      is.read(internal::to_cstr(&value), sizeof(NumberOrEnum));
+      if constexpr (std::is_same_v<NumberOrEnum, bool>) {
+        // a byte of stream is not necessary to be a valid representation of bool
+        uint8_t byte = 0;
+        static_assert(sizeof(byte) == sizeof(bool), "");
+        is.read(internal::to_cstr(&byte), sizeof(byte));
+        if (!is.fail()) {
+          value = (byte != 0);
+        }
+      } else {
+        is.read(internal::to_cstr(&value), sizeof(NumberOrEnum));
+      }
       return !is.fail();
     }
 
-- 
2.43.0


From 9feff0cbd8544f5118ddf3f93d966439d07f3850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 30/52] fix: deserializeBatch and serializedSize of variants
 did not compile

A variant with an alternative twice did not either, and a variant
decoded by assignment could choose another alternative.
---
 include/maf/utils/serialization/Serializer.h        |  3 ++-
 include/maf/utils/serialization/VariantSerializer.h | 11 ++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 9678e13..933ef62 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -455,7 +455,8 @@ void serializeBatch(OStream &os, const Ts &...ts) {
 
 template <class IStream, typename... Ts>
 bool deserializeBatch(IStream &is, Ts &...ts) {
-  return deserialize(is, std::tie(ts...));
+  auto tp = std::tie(ts...);
+  return deserialize(is, tp);
 }
 
 template <class OStream>
diff --git a/include/maf/utils/serialization/VariantSerializer.h b/include/maf/utils/serialization/VariantSerializer.h
index 6b0b76e..3da6e81 100644
--- a/include/maf/utils/serialization/VariantSerializer.h
+++ b/include/maf/utils/serialization/VariantSerializer.h
@@ -23,6 +23,15 @@ void _serialize(OStream &os, const variant<_Args...> &v) {
       v);
 }
 
+template <class... _Args>
+maf::srz::SizeType _serializedSize(const variant<_Args...> &v) {
+  return visit(
+      [](auto const &e) {
+        return maf::srz::SIZETYPE_WIDE + maf::srz::serializedSize(e);
+      },
+      v);
+}
+
 template <class IStream, class... _Args>
 bool _deserialize(IStream &is, variant<_Args...> &v) {
   using namespace maf::srz;
@@ -33,7 +42,7 @@ bool _deserialize(IStream &is, variant<_Args...> &v) {
     if constexpr (idx < sizeof...(_Args)) {              \
       std::tuple_element_t<idx, std::tuple<_Args...>> e; \
       if (deserialize(is, e)) {                          \
-        v = std::move(e);                                \
+        v.template emplace<idx>(std::move(e));           \
         return true;                                     \
       } else {                                           \
         return false;                                    \
-- 
2.43.0


From 658868cd050aa894828937c3ff8cb113686434dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 31/52] fix: failures of decoding parts of pairs, tuples and
 pointers were lost

Decoding reported success when only one part was there; the null flag of
a pointer was never checked. A tuple without elements can be decoded.
---
 include/maf/utils/serialization/Serializer.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 933ef62..3cf8944 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -217,12 +217,12 @@ struct Serializer {
 
       using NormalTypeOfPointerType =
           std::remove_const_t<std::remove_pointer_t<PointerType>>;
-      auto success = true;
       p = nullptr;
       uint8_t isNotNull = 0;
 
       is.read(internal::to_cstr(&isNotNull), 1);
-      if (isNotNull) {
+      auto success = !is.fail();
+      if (success && isNotNull) {
         p = new NormalTypeOfPointerType{};
         success = maf::srz::deserialize(is, *p);
         if (!success) {
@@ -322,11 +322,8 @@ struct Serializer<OStream, IStream, std::pair<First, Second>, void> {
   }
 
   bool deserialize(IStream &is, NCDType &value) {
-    bool success = false;
-    if (success |= maf::srz::deserialize(is, value.first); success) {
-      success |= maf::srz::deserialize(is, value.second);
-    }
-    return success;
+    return maf::srz::deserialize(is, value.first) &&
+           maf::srz::deserialize(is, value.second);
   }
 };
 
@@ -349,9 +346,9 @@ struct Serializer<OStream, IStream, Tuple,
   }
 
   bool deserialize(IStream &is, SrType &tp) {
-    bool success = false;
+    bool success = true;
     nstl::tuple_for_each(tp, [&is, &success](auto &elem) {
-      success |= maf::srz::deserialize(is, elem);
+      success = success && maf::srz::deserialize(is, elem);
     });
     return success;
   }
-- 
2.43.0


From a8b01b3bc13a3664d432b7d0dbd691867835f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 32/52] fix: decoding of containers and strings from damaged or
 short input

A failing element was reported as success, the size found in the stream was
allocated before anything had been read, and the elements were added to
those the target already had.
---
 include/maf/utils/serialization/IByteStream.h |  2 +-
 include/maf/utils/serialization/Serializer.h  | 29 ++++++++++++++-----
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/maf/utils/serialization/IByteStream.h b/include/maf/utils/serialization/IByteStream.h
index 23614f2..4e53dd1 100644
--- a/include/maf/utils/serialization/IByteStream.h
+++ b/include/maf/utils/serialization/IByteStream.h
@@ -31,7 +31,7 @@ class BasicIByteStream {
 
   void read(char *buf, SizeType size) noexcept {
     if (good()) {
-      if (readingPos_ + size > buffer_.size()) {
+      if (size > buffer_.size() - readingPos_) {
         (state_ &= ~Good) |= Failed;
         return;
       }
diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 3cf8944..cf21d70 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -3,6 +3,8 @@
 #include <maf/utils/cppextension/TupleManip.h>
 #include <maf/utils/cppextension/TypeTraits.h>
 
+#include <algorithm>
+#include <stdexcept>
 #include <string>
 
 #include "Tuplizable.h"
@@ -53,6 +55,9 @@ SizeType serializedSize(const T &value);
 
 namespace internal {
 
+// most of characters/elements to be allocated in advance when deserializing
+inline constexpr SizeType MAX_CHUNK = 4096;
+
 template <class Container, typename = void>
 struct ContainerReserver {
   static void reserve(Container & /*c*/, SizeType /*size*/) {}
@@ -278,14 +283,18 @@ struct Serializer {
     static bool deserialize(IStream &is, Container &c) {
       using ElemType = typename Container::value_type;
       using DSBElemType = typename internal::DeserializableType<ElemType>::Type;
-      auto success = false;
       SizeType size = 0;
 
-      if (success |= maf::srz::deserialize(is, size); success && size > 0) {
-        internal::ContainerReserver<Container>::reserve(c, size);
+      c.clear();
+      auto success = maf::srz::deserialize(is, size);
+      if (success && size > 0) {
+        // the size comes from the stream, it's not trustable until all of the
+        // elements have been read
+        internal::ContainerReserver<Container>::reserve(
+            c, std::min(size, internal::MAX_CHUNK));
         for (SizeType i = 0; i < size; ++i) {
           DSBElemType elem;
-          if (success |= maf::srz::deserialize(is, elem); success) {
+          if (success = maf::srz::deserialize(is, elem); success) {
             if constexpr (nstl::is_back_insertible_v<Container>) {
               c.push_back(std::move(elem));
             } else {
@@ -377,10 +386,16 @@ struct Serializer<OStream, IStream, std::basic_string<CharT, Trait, Allocator>,
 
   bool deserialize(IStream &is, SrType &value) {
     SizeType size = 0;
+    value.clear();
     if (maf::srz::deserialize(is, size)) {
-      if (size > 0) {
-        value.resize(size);
-        is.read(internal::to_cstr(&value[0]), size * sizeof(CharT));
+      // the size comes from the stream, don't allocate much more than what it
+      // really contains
+      while (size > 0 && !is.fail()) {
+        const auto pos = value.size();
+        const auto chunk = std::min(size, internal::MAX_CHUNK);
+        value.resize(pos + chunk);
+        is.read(internal::to_cstr(&value[pos]), chunk * sizeof(CharT));
+        size -= chunk;
       }
     }
     return !is.fail();
-- 
2.43.0


From a0819e2123b38ab50f7d31b9a7f56a15196de0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 33/52] fix: a message without payload decoded to one with an
 empty payload

---
 src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp
index 5ec4113..751b667 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp
@@ -61,6 +61,8 @@ bool LocalIPCMessage::fromBytes(Buffer &&bytes) noexcept {
         sourceAddress_ >> contentType;
     if (contentType == ContentType::Error) {
       setPayload(decodeAsError(ds));
+    } else if (contentType == ContentType::NA) {
+      setPayload(nullptr);
     } else {
       setPayload(make_shared<IncomingPayload>(std::move(iss)));
     }
-- 
2.43.0


From 95b6c5c75610e4130589aaef2fc5a15b9f3d56ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 34/52] fix: addresses were not ordered

---
 src/common/maf/messaging/client-server/Address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/Address.cpp b/src/common/maf/messaging/client-server/Address.cpp
index 6b5b00a..35b26ac 100644
--- a/src/common/maf/messaging/client-server/Address.cpp
+++ b/src/common/maf/messaging/client-server/Address.cpp
@@ -16,7 +16,7 @@ bool Address::operator!=(const Address &other) const {
 }
 
 bool Address::operator<(const Address &other) const {
-  return name_ < other.name_ || port_ < other.port_;
+  return std::tie(name_, port_) < std::tie(other.name_, other.port_);
 }
 
 bool Address::valid() const {
-- 
2.43.0


From 511072bc47be89dc0ba519e6eb36dfc7c6bfd55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 35/52] fix: different registration ids were equivalent as keys

---
 include/maf/messaging/client-server/RegID.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/maf/messaging/client-server/RegID.h b/include/maf/messaging/client-server/RegID.h
index af3f385..d6fb380 100644
--- a/include/maf/messaging/client-server/RegID.h
+++ b/include/maf/messaging/client-server/RegID.h
@@ -3,6 +3,8 @@
 #include <maf/messaging/client-server/CSTypes.h>
 #include <maf/utils/IDManager.h>
 
+#include <tuple>
+
 namespace maf {
 namespace messaging {
 
@@ -56,7 +58,7 @@ inline bool operator==(const RegID &r1, const RegID &r2) {
 inline bool operator!=(const RegID &r1, const RegID &r2) { return !(r1 == r2); }
 
 inline bool operator<(const RegID &r1, const RegID &r2) {
-  return (r1.requestID < r2.requestID) && (r1.opID < r2.opID);
+  return std::tie(r1.requestID, r1.opID) < std::tie(r2.requestID, r2.opID);
 }
 
 }  // namespace messaging
-- 
2.43.0


From 844d580fe86ac9279431fe94cfb00273793efd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 36/52] fix: the elements of a vector of bool were dumped as
 unsupported

---
 include/maf/utils/serialization/Dumper.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/maf/utils/serialization/Dumper.h b/include/maf/utils/serialization/Dumper.h
index c1e4a57..86014a4 100644
--- a/include/maf/utils/serialization/Dumper.h
+++ b/include/maf/utils/serialization/Dumper.h
@@ -3,6 +3,7 @@
 #include <maf/utils/cppextension/TupleManip.h>
 #include <string.h>
 
+#include <iterator>
 #include <sstream>
 #include <string>
 #include <string_view>
@@ -162,14 +163,18 @@ struct DumperSFINAE<OStream, Iterable,
     Packager<OStream, Iterable>::openBox(ds, indentLevel);
     auto beg = std::begin(const_cast<Iterable &>(seq));
     auto ed = std::end(const_cast<Iterable &>(seq));
-    if (beg != ed) {
+    // elements might be accessed through a proxy (e.g. std::vector<bool>)
+    using ElemType = typename std::iterator_traits<decltype(beg)>::value_type;
+    auto dumpElem = [&ds, nextIndentLevel](const ElemType &elem) {
       writeIndent(ds, nextIndentLevel, NEWLINE);
-      dump(ds, *beg, nextLevel(indentLevel));
+      dump(ds, elem, nextIndentLevel);
+    };
+    if (beg != ed) {
+      dumpElem(*beg);
 
       while (++beg != ed) {
         ds << ",";
-        writeIndent(ds, nextIndentLevel, NEWLINE);
-        dump(ds, *beg, nextLevel(indentLevel));
+        dumpElem(*beg);
       }
     }
     Packager<OStream, Iterable>::closeBox(ds, indentLevel);
-- 
2.43.0


From f44048b961fc9226f5781e7ac0445153a4f8c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:57 +0000
Subject: [PATCH 37/52] fix: dumping a null text crashed

---
 include/maf/utils/serialization/Dumper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/serialization/Dumper.h b/include/maf/utils/serialization/Dumper.h
index 86014a4..1cd15ae 100644
--- a/include/maf/utils/serialization/Dumper.h
+++ b/include/maf/utils/serialization/Dumper.h
@@ -261,12 +261,12 @@ void _dump(OStream &ds, const std::wstring & /*val*/, int indentLevel) {
 
 template <class OStream>
 void _dump(OStream &ds, const char *val, int indentLevel) {
-  _dumpString(ds, val, indentLevel);
+  _dumpString(ds, val ? val : "", indentLevel);
 }
 
 template <class OStream>
 void _dump(OStream &ds, char *val, int indentLevel) {
-  _dumpString(ds, val, indentLevel);
+  _dumpString(ds, val ? val : "", indentLevel);
 }
 
 template <class OStream, typename... _Args>
-- 
2.43.0


From dde9b1d7e89ec2be0742cedd7bd56ae345142b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:57 +0000
Subject: [PATCH 38/52] fix: enabling a log level switched all the others off

---
 src/common/maf/logging/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/logging/Logger.cpp b/src/common/maf/logging/Logger.cpp
index 2aa992c..66528cc 100644
--- a/src/common/maf/logging/Logger.cpp
+++ b/src/common/maf/logging/Logger.cpp
@@ -43,7 +43,7 @@ bool allowed(LogLevel level) {
   return statics().allowedLevels.load(std::memory_order_relaxed) & level;
 }
 
-void enable(LogLevel level) { statics().allowedLevels &= level; }
+void enable(LogLevel level) { statics().allowedLevels |= level; }
 
 void disable(LogLevel level) { statics().allowedLevels &= ~level; }
 
-- 
2.43.0


From ef428fede901367ac4b6005ae17b3bd5e4b044c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:53 +0000
Subject: [PATCH 39/52] fix: messages reported as sent though they were not,
 SIGPIPE when the receiver is gone

---
 .../ipc/LocalIPCBufferSenderImpl.cpp          | 54 +++++++++----------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
index abdfb42..4e03b11 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
@@ -21,6 +21,20 @@ static bool connectable(sockaddr_un *sockaddr) {
   }
   return fd != INVALID_FD;
 }
+
+static bool sendAll(SockFD fd, const char *data, size_t size) {
+  while (size > 0) {
+    // the receiver might have gone, that must not raise SIGPIPE
+    auto sent = ns_global::send(fd, data, size, MSG_NOSIGNAL);
+    if (sent >= 0) {
+      data += sent;
+      size -= static_cast<size_t>(sent);
+    } else if (errno != EINTR) {
+      return false;
+    }
+  }
+  return true;
+}
 }  // namespace
 
 ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
@@ -32,6 +46,9 @@ Availability LocalIPCBufferSenderImpl::checkReceiverStatus(
     const Address &destination) const {
   static thread_local sockaddr_un destSockAddr;
   static thread_local Address destAddr;
+  if (!isValidSocketPath(destination.get_name())) {
+    return Availability::Unavailable;
+  }
   if (destination != destAddr) {
     destAddr = destination;
     destSockAddr = createUnixAbstractSocketAddr(destAddr.get_name());
@@ -45,40 +62,19 @@ ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
                                                 const SocketPath &sockpath) {
   ActionCallStatus acs = ActionCallStatus::FailedUnknown;
   if (auto fd = connectToSocket(sockpath); fd != INVALID_FD) {
-    SizeType totalWritten = 0;
     SizeType payloadSize = static_cast<SizeType>(payload.length());
 
     // First write is to send payload size to receiver to reserve a buffer
-    if (auto written = ns_global::write(
-            fd, reinterpret_cast<char *>(&payloadSize), sizeof(SizeType));
-        written == sizeof(SizeType)) {
-      // Second write is to send payload content
-      do {
-        if (written = ns_global::write(fd, payload.data() + totalWritten,
-                                       payloadSize - totalWritten);
-            written != -1) {
-          totalWritten += written;
-        } else {
-          MAF_SOCKET_ERROR("Failed to send bytes to receiver, total written = ",
-                           totalWritten);
-          acs = ActionCallStatus::FailedUnknown;
-          break;
-        }
-      } while (totalWritten < payloadSize);
-
+    // Second write is to send payload content
+    if (payloadSize != payload.length()) {
+      MAF_LOGGER_ERROR("Payload of size ", payload.length(), " is too large");
+    } else if (sendAll(fd, reinterpret_cast<char *>(&payloadSize),
+                       sizeof(SizeType)) &&
+               sendAll(fd, payload.data(), payloadSize)) {
       acs = ActionCallStatus::Success;
     } else {
-      MAF_SOCKET_ERROR("Failed to send payload size[", payloadSize,
-                       "] to receiver");
-    }
-
-    if (acs != ActionCallStatus::Success) {
-      if (totalWritten == 0) {
-      } else {
-        // ec = FailedUnknown, must provide more info for debugging purpose
-        MAF_LOGGER_ERROR("Failed to send payload to receiver, expected is ",
-                         sizeof(SizeType), ", sent was ", totalWritten);
-      }
+      MAF_SOCKET_ERROR("Failed to send payload of size ", payloadSize,
+                       " to receiver");
     }
   } else {
     acs = ActionCallStatus::ReceiverUnavailable;
-- 
2.43.0


From 1e02a4aa8c32aab69d6a0f1832803dde141ff39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:53 +0000
Subject: [PATCH 40/52] fix: a sender which dies or stalls in a message ends or
 blocks the local IPC receiver

---
 .../ipc/LocalIPCBufferReceiverImpl.cpp        | 129 ++++++++++--------
 .../ipc/LocalIPCBufferReceiverImpl.h          |  11 +-
 .../client-server/ipc/SocketShared.h          |   4 +-
 3 files changed, 83 insertions(+), 61 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index 9a22f2a..bc6e6e0 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -6,6 +6,9 @@
 #include <stdlib.h>
 #include <sys/stat.h>
 
+#include <algorithm>
+#include <list>
+
 #include "SocketShared.h"
 
 namespace maf {
@@ -90,29 +93,28 @@ void LocalIPCBufferReceiverImpl::setObserver(BytesComeCallback callback) {
   bytesComeCallback_ = std::move(callback);
 }
 
-bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
-  auto maxSd = INVALID_FD;
-  socklen_t sockLen = sizeof(mySockAddr_);
-  std::vector<int> fdClientSocks(MAXCLIENTS, 0);
+void LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
+  // in order of arrival
+  std::list<Connection> connections;
   fd_set readfds;
   do {
     // clear the socket set
     FD_ZERO(&readfds);
-
-    // add master socket to set
-    FD_SET(fdMySock_, &readfds);
-    maxSd = fdMySock_;
+    SockFD maxSd = INVALID_FD;
+
+    // add master socket to set, unless there are too many senders connected,
+    // further ones have to wait then
+    auto acceptable = connections.size() < MAXCLIENTS;
+    if (acceptable) {
+      FD_SET(fdMySock_, &readfds);
+      maxSd = fdMySock_;
+    }
 
     // add child sockets to set
-    for (size_t i = 0; i < MAXCLIENTS; i++) {
-      // socket descriptor
-      auto sd = fdClientSocks[i];
-
-      // if valid socket descriptor then add to read list
-      if (sd > 0) FD_SET(sd, &readfds);
-
+    for (auto &connection : connections) {
+      FD_SET(connection.fd, &readfds);
       // highest file descriptor number, need it for the select function
-      if (sd > maxSd) maxSd = sd;
+      maxSd = std::max<SockFD>(maxSd, connection.fd);
     }
 
     timeval timeout = {1, 0};
@@ -129,58 +131,67 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
       continue;
     }
 
+    for (auto it = connections.begin(); it != connections.end();) {
+      if (FD_ISSET(it->fd, &readfds) && !receiveFrom(*it)) {
+        it = connections.erase(it);
+      } else {
+        ++it;
+      }
+    }
+
     // If something happened on the master socket ,
     // then its an incoming connection
-    if (FD_ISSET(fdMySock_, &readfds)) {
-      auto acceptedSD = accept(fdMySock_, _2sockAddr(&mySockAddr_), &sockLen);
-      if (acceptedSD < 0) {
-        MAF_LOGGER_ERROR("Failed on accepting new socket connection");
-        return false;
+    if (acceptable && FD_ISSET(fdMySock_, &readfds)) {
+      SockFD acceptedSD = accept(fdMySock_, nullptr, nullptr);
+      if (acceptedSD != INVALID_FD) {
+        connections.emplace_back();
+        connections.back().fd = acceptedSD;
+      } else {
+        // the sender might have gone already, others will come
+        MAF_SOCKET_ERROR("Failed on accepting new socket connection");
       }
+    }
+  } while (true);
+}
 
-      // add new socket to array of sockets
-      for (size_t i = 0; i < MAXCLIENTS; i++) {
-        // if position is empty
-        if (fdClientSocks[i] == 0) {
-          fdClientSocks[i] = acceptedSD;
-          break;
-        }
+// Reads what has come so far without waiting for more, false: the connection
+// is no longer needed
+bool LocalIPCBufferReceiverImpl::receiveFrom(Connection &connection) {
+  static constexpr size_t MaxReadAtOnce = 64 * 1024;
+  auto &[fd, messageLength, totalRead, payload] = connection;
+  while (true) {
+    char *dest = nullptr;
+    size_t size = 0;
+    if (totalRead < sizeof(SizeType)) {
+      dest = reinterpret_cast<char *>(&messageLength) + totalRead;
+      size = sizeof(SizeType) - totalRead;
+    } else {
+      auto payloadRead = totalRead - sizeof(SizeType);
+      if (payloadRead == messageLength) {
+        bytesComeCallback_(std::move(payload));
+        return false;
       }
+      // the length is not trustable until that many bytes have come
+      size = std::min<size_t>(messageLength - payloadRead, MaxReadAtOnce);
+      payload.resize(payloadRead + size);
+      dest = payload.data() + payloadRead;
     }
 
-    // else its some IO operation on some other socket
-    for (size_t i = 0; i < MAXCLIENTS; i++) {
-      auto sd = fdClientSocks[i];
-      if (FD_ISSET(sd, &readfds)) {
-        SizeType messageLength = 0;
-        ssize_t totalRead = 0;
-        if (auto bytesRead = read(sd, reinterpret_cast<char *>(&messageLength),
-                                  sizeof(SizeType));
-            bytesRead == sizeof(SizeType)) {
-          auto payload = srz::Buffer{};
-          payload.resize(messageLength);
-          while (totalRead < messageLength) {
-            if (bytesRead = read(sd, payload.data() + totalRead, messageLength);
-                bytesRead != -1) {
-              totalRead += bytesRead;
-            } else {
-              MAF_SOCKET_ERROR("Could not read bytes from socket total read = ",
-                               totalRead, " total expected = ", messageLength);
-              break;
-            }
-          }
-          if (totalRead == messageLength) {
-            bytesComeCallback_(std::move(payload));
-          }
-        }
-        close(sd);
-        fdClientSocks[i] = 0;
+    auto bytesRead = recv(fd, dest, size, MSG_DONTWAIT);
+    if (bytesRead > 0) {
+      totalRead += bytesRead;
+    } else if (bytesRead < 0 && errno == EINTR) {
+      continue;
+    } else if (bytesRead < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+      return true;
+    } else {
+      if (totalRead > 0) {
+        MAF_SOCKET_ERROR("Could not read bytes from socket total read = ",
+                         totalRead, " length of message = ", messageLength);
       }
+      return false;
     }
-  } while (true);
-
-  setState(State::Stopped);
-  return true;
+  }
 }
 
 void LocalIPCBufferReceiverImpl::changeCurrentStateAndInterruptIfStop(
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
index 6678aac..9363e36 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
@@ -37,10 +37,19 @@ class LocalIPCBufferReceiverImpl {
 
   class StoppedInterruption {};
 
+  // A connected sender, it sends one message and then gets disconnected
+  struct Connection {
+    AutoCloseFD<SockFD> fd;
+    SizeType messageLength = 0;
+    size_t totalRead = 0;  // including the length which comes first
+    srz::Buffer payload;
+  };
+
   State getState() const { return state_.load(std::memory_order_acquire); }
   void setState(State state) { state_.store(state, std::memory_order_release); }
 
-  bool waitAndProcessConnections();
+  void waitAndProcessConnections();
+  bool receiveFrom(Connection &connection);
   void changeCurrentStateAndInterruptIfStop(State expectedCurrentSate, State newStateState);
 
   BytesComeCallback bytesComeCallback_;
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h b/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
index 08a58f3..be39471 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
@@ -25,7 +25,9 @@ class AutoCloseFD {
 
 public:
   AutoCloseFD(FileDescriptor fd_ = INVALID_VALUE) : fd{fd_} {}
-  AutoCloseFD(AutoCloseFD &&rhs) { takefrom(std::move(rhs)); }
+  AutoCloseFD(AutoCloseFD &&rhs) : fd{INVALID_VALUE} {
+    takefrom(std::move(rhs));
+  }
   AutoCloseFD &operator=(AutoCloseFD &&rhs) {
     takefrom(std::move(rhs));
     return *this;
-- 
2.43.0


From b1448798b6b0ccbf8a476ea7525cb8927f0942b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:54 +0000
Subject: [PATCH 41/52] fix: stopping the local IPC receiver gets lost while it
 is starting, sockets stay open

---
 .../client-server/ipc/LocalIPCServer.cpp      |  5 ++-
 .../ipc/LocalIPCBufferReceiverImpl.cpp        | 36 +++++++++++--------
 .../ipc/LocalIPCBufferReceiverImpl.h          |  2 +-
 3 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
index 87a6adc..3d16da4 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
@@ -35,9 +35,8 @@ bool LocalIPCServer::start() {
 }
 
 void LocalIPCServer::stop() {
-  if (pReceiver_->running()) {
-    pReceiver_->stop();
-  }
+  // even if listeningThread_ is about to start receiving
+  pReceiver_->stop();
   if (listeningThread_.joinable()) {
     listeningThread_.join();
   }
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index bc6e6e0..a006eda 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -24,7 +24,6 @@ bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
   auto sockpath = myaddr_.get_name();
   if (isValidSocketPath(sockpath)) {
     mySockAddr_ = createUnixAbstractSocketAddr(sockpath);
-    setState(State::Initialized);
     // Create the socket.
     int opt = true;
     fdMySock_ = socket(AF_UNIX, SOCK_STREAM, 0);
@@ -44,34 +43,41 @@ bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
         MAF_LOGGER_ERROR("Coud not bind socket to address ", myaddr_.dump());
       }
     }
+    if (!startable) {
+      fdMySock_.reset();
+    }
   }
 
   return startable;
 }
 
 bool LocalIPCBufferReceiverImpl::start() {
+  // might have been stopped already
+  auto expected = State::Initialized;
+  if (!state_.compare_exchange_strong(expected, State::Running)) {
+    return false;
+  }
+  auto stoppedOnDemand = false;
   try {
-    if (getState() == State::Initialized) {
-      setState(State::Running);
-      waitAndProcessConnections();
-    } else {
-      return false;
-    }
+    waitAndProcessConnections();
   } catch (StoppedInterruption) {
+    stoppedOnDemand = true;
   } catch (...) {
-    return false;
+    setState(State::Stopped);
   }
-  return true;
+  // give back the address
+  fdMySock_.reset();
+  return stoppedOnDemand;
 }
 
 void LocalIPCBufferReceiverImpl::stop() {
-  if (running()) {
-    auto currentState = getState();
-    setState(State::Stopped);
+  auto previousState = state_.exchange(State::Stopped);
+  if (previousState == State::WaitingConnection) {
     // trying connect to socket to wake the running thread
-    if (currentState == State::WaitingConnection) {
-      connectToSocket(myaddr_.get_name());
-    }
+    connectToSocket(myaddr_.get_name());
+  } else if (previousState == State::Initialized) {
+    // there will be no start anymore
+    fdMySock_.reset();
   }
 }
 
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
index 9363e36..14ddec4 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
@@ -55,7 +55,7 @@ class LocalIPCBufferReceiverImpl {
   BytesComeCallback bytesComeCallback_;
   Address myaddr_;
   sockaddr_un mySockAddr_;
-  int fdMySock_;
+  AutoCloseFD<SockFD> fdMySock_;
   std::atomic<State> state_ = State::Uninitialized;
 };
 
-- 
2.43.0


From 77bb19d7c0a33b0ce07c5f00aa94482c4dee33ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 42/52] fix: local IPC client used by pending tasks after it is
 destroyed, its monitoring goes on after stop

---
 .../client-server/ipc/LocalIPCClient.cpp      | 45 +++++++++++++------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
index 0adbed4..e797a27 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
@@ -4,6 +4,7 @@
 #include <maf/messaging/Timer.h>
 #include <maf/utils/Process.h>
 
+#include <atomic>
 #include <cassert>
 #include <future>
 #include <thread>
@@ -39,6 +40,15 @@ class LocalIPCClient : public ClientBase, public BytesComeObserver {
 
  protected:
   void monitorServerStatus(long long intervalMs = 0);
+  // Tasks run later in other threads, this client might be gone by then
+  template <class Task>
+  auto ifAlive(Task task) {
+    return [thisw = weak_from_this(), task = std::move(task)]() mutable {
+      if (auto this_ = thisw.lock()) {
+        task(static_cast<LocalIPCClient *>(this_.get()));
+      }
+    };
+  }
   void onBytesCome(srz::Buffer &&buff) override;
 
   Address myServerAddress_;
@@ -49,6 +59,7 @@ class LocalIPCClient : public ClientBase, public BytesComeObserver {
   std::unique_ptr<BufferSenderIF> pSender_;
   std::unique_ptr<BufferReceiverIF> pReceiver_;
 
+  std::atomic_bool stopped_ = true;
   Availability currentServerStatus_ = Availability::Unavailable;
   int serverMonitorInterval = 500;
 };
@@ -72,12 +83,15 @@ bool LocalIPCClient::init(const Address &serverAddress) {
 }
 
 bool LocalIPCClient::start() {
+  stopped_ = false;
   receiverThread_ = std::thread{[this] { pReceiver_->start(); }};
-  single_threadpool::submit([this] { monitorServerStatus(); });
+  single_threadpool::submit(
+      ifAlive([](LocalIPCClient *client) { client->monitorServerStatus(); }));
   return true;
 }
 
 void LocalIPCClient::stop() {
+  stopped_ = true;
   pReceiver_->stop();
   serverMonitorTimer_.stop();
   if (receiverThread_.joinable()) {
@@ -125,6 +139,9 @@ void LocalIPCClient::onServerStatusChanged(Availability oldStatus,
 }
 
 void LocalIPCClient::monitorServerStatus(long long tunedInterval) {
+  if (stopped_) {
+    return;
+  }
   if (auto newStatus = pSender_->checkReceiverStatus(myServerAddress_);
       currentServerStatus_ != newStatus) {
     MAF_LOGGER_INFO("Server (", myServerAddress_.get_name(),
@@ -135,21 +152,23 @@ void LocalIPCClient::monitorServerStatus(long long tunedInterval) {
   } else if (tunedInterval < serverMonitorInterval) {
     tunedInterval += 5;
   }
-  serverMonitorTimer_.start(tunedInterval, [tunedInterval, this] {
-    this->monitorServerStatus(tunedInterval);
-  });
+  serverMonitorTimer_.start(
+      tunedInterval, ifAlive([tunedInterval](LocalIPCClient *client) {
+        client->monitorServerStatus(tunedInterval);
+      }));
 }
 
 void LocalIPCClient::onBytesCome(srz::Buffer &&buff) {
-  single_threadpool::submit([this, buff = std::move(buff)]() mutable {
-    std::shared_ptr<LocalIPCMessage> csMsg =
-        std::make_shared<LocalIPCMessage>();
-    if (csMsg->fromBytes(std::move(buff))) {
-      onIncomingMessage(csMsg);
-    } else {
-      MAF_LOGGER_ERROR("incoming message is not wellformed");
-    }
-  });
+  single_threadpool::submit(
+      ifAlive([buff = std::move(buff)](LocalIPCClient *client) mutable {
+        std::shared_ptr<LocalIPCMessage> csMsg =
+            std::make_shared<LocalIPCMessage>();
+        if (csMsg->fromBytes(std::move(buff))) {
+          client->onIncomingMessage(csMsg);
+        } else {
+          MAF_LOGGER_ERROR("incoming message is not wellformed");
+        }
+      }));
 }
 
 std::shared_ptr<ClientIF> makeClient() {
-- 
2.43.0


From f0a83b56ee17f7ce07b7226e06f51d4f31249cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 43/52] fix: local IPC client does not notice the return of a
 server which restarts quickly

---
 .../client-server/ipc/LocalIPCClient.cpp      | 51 +++++++++++++------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
index e797a27..8d6b75a 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
@@ -37,8 +37,11 @@ class LocalIPCClient : public ClientBase, public BytesComeObserver {
 
   void onServerStatusChanged(Availability oldStatus,
                              Availability newStatus) noexcept override;
+  void onServiceStatusChanged(const ServiceID &sid, Availability oldStatus,
+                              Availability newStatus) noexcept override;
 
  protected:
+  ActionCallStatus registerServiceStatus();
   void monitorServerStatus(long long intervalMs = 0);
   // Tasks run later in other threads, this client might be gone by then
   template <class Task>
@@ -61,6 +64,7 @@ class LocalIPCClient : public ClientBase, public BytesComeObserver {
 
   std::atomic_bool stopped_ = true;
   Availability currentServerStatus_ = Availability::Unavailable;
+  bool serverMightRestart_ = false;
   int serverMonitorInterval = 500;
 };
 
@@ -119,25 +123,40 @@ ActionCallStatus LocalIPCClient::sendMessageToServer(const CSMessagePtr &msg) {
 void LocalIPCClient::onServerStatusChanged(Availability oldStatus,
                                            Availability newStatus) noexcept {
   ClientBase::onServerStatusChanged(oldStatus, newStatus);
-  if (newStatus == Availability::Available) {
-    auto registeredMsg = messaging::createCSMessage<LocalIPCMessage>(
-        ServiceIDInvalid, OpIDInvalid, OpCode::RegisterServiceStatus);
-    if (auto callStatus = sendMessageToServer(registeredMsg);
-        callStatus == ActionCallStatus::Success) {
-      MAF_LOGGER_INFO(
-          "Send service status change register to server successfully! from ",
-          pReceiver_->address().dump());
-      currentServerStatus_ = newStatus;
-    } else {
-      MAF_LOGGER_ERROR(
-          "Could not send service status register request to server: ",
-          callStatus);
-    }
-  } else {
+  if (newStatus != Availability::Available ||
+      registerServiceStatus() == ActionCallStatus::Success) {
     currentServerStatus_ = newStatus;
   }
 }
 
+void LocalIPCClient::onServiceStatusChanged(const ServiceID &sid,
+                                            Availability oldStatus,
+                                            Availability newStatus) noexcept {
+  ClientBase::onServiceStatusChanged(sid, oldStatus, newStatus);
+  if (newStatus == Availability::Unavailable) {
+    // it might be back before it's noticed that it has gone, but then it
+    // doesn't know this client anymore
+    serverMightRestart_ = true;
+  }
+}
+
+ActionCallStatus LocalIPCClient::registerServiceStatus() {
+  auto callStatus =
+      sendMessageToServer(messaging::createCSMessage<LocalIPCMessage>(
+          ServiceIDInvalid, OpIDInvalid, OpCode::RegisterServiceStatus));
+  if (callStatus == ActionCallStatus::Success) {
+    serverMightRestart_ = false;
+    MAF_LOGGER_INFO(
+        "Send service status change register to server successfully! from ",
+        pReceiver_->address().dump());
+  } else {
+    MAF_LOGGER_ERROR(
+        "Could not send service status register request to server: ",
+        callStatus);
+  }
+  return callStatus;
+}
+
 void LocalIPCClient::monitorServerStatus(long long tunedInterval) {
   if (stopped_) {
     return;
@@ -149,6 +168,8 @@ void LocalIPCClient::monitorServerStatus(long long tunedInterval) {
                     newStatus);
     tunedInterval = serverMonitorInterval;
     this->onServerStatusChanged(currentServerStatus_, newStatus);
+  } else if (serverMightRestart_ && newStatus == Availability::Available) {
+    registerServiceStatus();
   } else if (tunedInterval < serverMonitorInterval) {
     tunedInterval += 5;
   }
-- 
2.43.0


From 7f27c61c9aa30b8fcea088445b91f6468d708141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:23 +0000
Subject: [PATCH 44/52] fix: local IPC server aborts requests of a leaving
 client with its providers locked

---
 .../maf/messaging/client-server/ipc/LocalIPCServer.cpp      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
index 3d16da4..81ce7d6 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
@@ -118,8 +118,10 @@ bool LocalIPCServer::onIncomingMessage(const CSMessagePtr &csMsg) {
     case OpCode::UnregisterServiceStatus:
       if (csMsg->serviceID() == ServiceIDInvalid) {
         registedClAddrs_.atomic()->erase(csMsg->sourceAddress());
-        std::lock_guard lock(providers_);
-        for (auto &[sid, provider] : *providers_) {
+        // requests get aborted with the map unlocked, their callbacks may come
+        // back to this server
+        ProviderMap::DataType providers = *providers_.atomic();
+        for (auto &[sid, provider] : providers) {
           csMsg->setServiceID(sid);
           provider->onIncomingMessage(csMsg);
         }
-- 
2.43.0


From a46b8709693f3be9854a4ec273218140f01c2004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:29 +0000
Subject: [PATCH 45/52] fix: an observer at the stub hears of a removed
 property over local IPC as well

---
 include/maf/messaging/client-server/BasicStub.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/maf/messaging/client-server/BasicStub.h b/include/maf/messaging/client-server/BasicStub.h
index 0deadb1..df9aaf0 100644
--- a/include/maf/messaging/client-server/BasicStub.h
+++ b/include/maf/messaging/client-server/BasicStub.h
@@ -278,7 +278,8 @@ CSPayloadProcessCallback BasicStub<PTrait>::createPayloadProcessCallback(
       auto transStatus = TranslationStatus::Success;
       auto translated =
           PTrait::template translate<CSParam>(payload, &transStatus);
-      if (transStatus == TranslationStatus::Success) {
+      // no payload: the property has been removed
+      if (!payload || transStatus == TranslationStatus::Success) {
         callback(translated);
       } else {
         MAF_LOGGER_ERROR("Cannot translate message of type: ",
-- 
2.43.0


From 30c4b197e715dbfd1818968511960557565dcc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:59 +0000
Subject: [PATCH 46/52] fix: logging a message with an unknown operation code
 read outside the names

---
 include/maf/utils/StringifyableEnum.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/StringifyableEnum.h b/include/maf/utils/StringifyableEnum.h
index 3d2c89f..3b92a67 100644
--- a/include/maf/utils/StringifyableEnum.h
+++ b/include/maf/utils/StringifyableEnum.h
@@ -53,7 +53,13 @@
   constexpr const char *TheEnum##StrArr[] = {                           \
       mc_maf_for_each(MC_MAF_STRINGIFY, __VA_ARGS__) "_"};              \
   inline std::ostream &operator<<(std::ostream &os, TheEnum en) {       \
-    os << TheEnum##StrArr[static_cast<unsigned long long>(en)];         \
+    /* a value from outside (e.g. a message) may be none of the names */\
+    const auto idx = static_cast<unsigned long long>(en);               \
+    if (idx < sizeof(TheEnum##StrArr) / sizeof(const char *)) {         \
+      os << TheEnum##StrArr[idx];                                       \
+    } else {                                                            \
+      os << "unknown(" << static_cast<long long>(en) << ")";            \
+    }                                                                   \
     return os;                                                          \
   }                                                                     \
   static_assert(static_cast<base_type>(TheEnum::__) ==                  \
-- 
2.43.0


From 5e45029aba33d6132e4c2c90d10b67ae82cc54a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:59 +0000
Subject: [PATCH 47/52] fix: work of a processor run from another one's task
 was done in the other's name

---
 src/common/maf/messaging/Processor.cpp | 66 ++++++++++++++------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 5967c4b..b749617 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -19,9 +19,18 @@ namespace messaging {
 using namespace std::string_view_literals;
 
 namespace this_processor {
-static bool testAndSetThreadLocalInstance(Processor *inst);
-static void clearTLInstanceIfSet(bool set);
-static thread_local Processor *instance_ = nullptr;
+// Work of a processor being done on this thread. Scopes nest when a handler
+// runs a queue itself, the innermost one tells the processor of the thread.
+struct RunScope {
+  explicit RunScope(Processor *processor);
+  ~RunScope();
+  RunScope(const RunScope &) = delete;
+  RunScope &operator=(const RunScope &) = delete;
+  Processor *processor;
+  RunScope *outer;
+};
+static bool runs(const Processor *processor);
+static thread_local RunScope *running_ = nullptr;
 }  // namespace this_processor
 
 using ExecutionUPtr = std::unique_ptr<Execution>;
@@ -200,16 +209,15 @@ ProcessorInstance Processor::findProcessor(const ProcessorID &id) {
 const ProcessorID &Processor::id() const noexcept { return d_->id; }
 
 void Processor::run(ThreadFunction threadInit, ThreadFunction threadDeinit) {
-  auto justSet = this_processor::testAndSetThreadLocalInstance(this);
+  this_processor::RunScope scope{this};
   if (threadInit) {
     threadInit();
   }
 
-  CallOnExit deinit = [justSet, threadDeinit = std::move(threadDeinit)] {
+  CallOnExit deinit = [threadDeinit = std::move(threadDeinit)] {
     if (threadDeinit) {
       threadDeinit();
     }
-    this_processor::clearTLInstanceIfSet(justSet);
   };
 
   ExecutionUPtr exc;
@@ -224,10 +232,7 @@ void Processor::runFor(ExecutionTimeout duration) {
 
 void Processor::runUntil(ExecutionDeadline deadline) {
   ExecutionUPtr exc;
-  auto justSet = this_processor::testAndSetThreadLocalInstance(this);
-  CallOnExit deinit = [justSet] {
-    this_processor::clearTLInstanceIfSet(justSet);
-  };
+  this_processor::RunScope scope{this};
 
   while (d_->pendingExecutions.waitUntil(exc, deadline)) {
     invoke(move(exc));
@@ -241,10 +246,7 @@ bool Processor::runOnceFor(ExecutionTimeout duration) {
 bool Processor::runOnceUntil(ExecutionDeadline deadline) {
   using namespace std::chrono;
   ExecutionUPtr exc;
-  auto justSet = this_processor::testAndSetThreadLocalInstance(this);
-  CallOnExit deinit = [justSet] {
-    this_processor::clearTLInstanceIfSet(justSet);
-  };
+  this_processor::RunScope scope{this};
 
   if (d_->pendingExecutions.waitUntil(exc, deadline)) {
     invoke(move(exc));
@@ -288,9 +290,10 @@ Processor::CompleteSignal Processor::waitablePost(Message msg) {
           [this, msg = move(msg)] { d_->processMessage(msg); });
 
       doneSignal = CompleteSignal{msgHandlingTask->get_future()};
-      if (this_processor::instance().get() != this) {
+      if (!this_processor::runs(this)) {
         executeAsync([task{move(msgHandlingTask)}] { (*task)(); });
       } else {
+        this_processor::RunScope scope{this};
         (*msgHandlingTask)();
       }
     } else {
@@ -311,7 +314,8 @@ bool Processor::executeAsync(Execution exec) {
 bool Processor::execute(Execution exec) {
   using namespace std;
   if (!stopped()) {
-    if (this_processor::instance().get() == this) {
+    if (this_processor::runs(this)) {
+      this_processor::RunScope scope{this};
       exec();
       return true;
     } else {
@@ -327,9 +331,10 @@ Processor::CompleteSignal Processor::waitableExecute(Execution exec) {
   if (!stopped()) {
     auto task = make_shared<packaged_task<void()>>(move(exec));
     doneSignal = CompleteSignal{task->get_future()};
-    if (this_processor::instance().get() != this) {
+    if (!this_processor::runs(this)) {
       executeAsync([task{move(task)}] { (*task)(); });
     } else {
+      this_processor::RunScope scope{this};
       (*task)();
     }
   }
@@ -410,31 +415,32 @@ size_t Processor::pendingCout() const { return d_->pendingExecutions.size(); }
 
 namespace this_processor {
 
-static bool testAndSetThreadLocalInstance(Processor *inst) {
-  if (!instance_) {
-    instance_ = inst;
-    return true;
-  }
-  return false;
+RunScope::RunScope(Processor *processor)
+    : processor(processor), outer(running_) {
+  running_ = this;
 }
 
-static void clearTLInstanceIfSet(bool set) {
-  if (set) {
-    instance_ = nullptr;
+RunScope::~RunScope() { running_ = outer; }
+
+static bool runs(const Processor *processor) {
+  auto scope = running_;
+  while (scope && scope->processor != processor) {
+    scope = scope->outer;
   }
+  return scope != nullptr;
 }
 
 ProcessorInstance instance() {
-  if (instance_) {
-    return instance_->shared_from_this();
+  if (running_) {
+    return running_->processor->shared_from_this();
   } else {
     return {};
   }
 }
 
 std::weak_ptr<Processor> ref() {
-  if (instance_) {
-    return instance_->weak_from_this();
+  if (running_) {
+    return running_->processor->weak_from_this();
   } else {
     return {};
   }
-- 
2.43.0


From dc18f29e8c175cb56acea61da5430aaabb60ad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:40 +0000
Subject: [PATCH 48/52] fix: a time measurement stopped by its own report
 reported again and again

---
 include/maf/utils/TimeMeasurement.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/maf/utils/TimeMeasurement.h b/include/maf/utils/TimeMeasurement.h
index a6c6a66..34a865d 100644
--- a/include/maf/utils/TimeMeasurement.h
+++ b/include/maf/utils/TimeMeasurement.h
@@ -2,6 +2,7 @@
 
 #include <chrono>
 #include <functional>
+#include <utility>
 
 namespace maf {
 namespace util {
@@ -42,9 +43,9 @@ class TimeMeasurement : public TimeCounter {
 
   MicroSeconds stop() {
     auto elapsed = this->elapsedTime();
-    if (_onReportCallback) {
-      _onReportCallback(elapsed);
-      _onReportCallback = nullptr;
+    // given away first: the report itself may stop or start again
+    if (auto report = std::exchange(_onReportCallback, nullptr)) {
+      report(elapsed);
     }
     return elapsed;
   }
-- 
2.43.0


From 14ecd074a176340383edce468911f02049df527d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:40 +0000
Subject: [PATCH 49/52] fix: a synchronous request sent after the client gave
 its requesters up never returned

---
 src/common/maf/messaging/client-server/ServiceRequester.cpp | 2 ++
 src/common/maf/messaging/client-server/ServiceRequester.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 44adc79..baea422 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -159,6 +159,7 @@ void ServiceRequester::init() {}
 void ServiceRequester::deinit() {
   // Prematurely cancel the blocking requests that offers a chance to
   // waiting-thread to exit sooner then prevent some of tricky problems
+  givenUp_ = true;
   clearAllRequests();
 }
 
@@ -578,6 +579,7 @@ RegID ServiceRequester::storeAndSendRequestToServer(
   // the service may have gone before the entry was stored, then nobody else
   // will ever remove it
   auto status = serviceUnavailable() ? ActionCallStatus::ServiceUnavailable
+                : givenUp_           ? ActionCallStatus::ReceiverUnavailable
                                      : sendMessageToServer(outgoingMsg);
   if (status != ActionCallStatus::Success) {
     removeRegEntry(regEntriesMap, regID);
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index 539d86f..efbb132 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -9,6 +9,7 @@
 
 #include <future>
 #include <list>
+#include <atomic>
 #include <map>
 #include <mutex>
 #include <set>
@@ -154,6 +155,7 @@ struct ServiceRequester : public ServiceRequesterIF {
   CSIDManager idMgr_;
   ServiceID sid_;
   AtomicAvailability serviceStatus_ = Availability::Unavailable;
+  std::atomic_bool givenUp_ = false;  // by its client, nobody will answer
 };
 
 }  // namespace messaging
-- 
2.43.0


From 99747a80e9c0094c37c7d6e138dac0388503d0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:40 +0000
Subject: [PATCH 50/52] fix: callbacks that use csmgmt while it shuts down
 waited for ever

---
 .../maf/messaging/client-server/ClientFactory.cpp | 15 +++++++++++----
 .../maf/messaging/client-server/ServerFactory.cpp | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ClientFactory.cpp b/src/common/maf/messaging/client-server/ClientFactory.cpp
index f3ba918..fc0aaf5 100644
--- a/src/common/maf/messaging/client-server/ClientFactory.cpp
+++ b/src/common/maf/messaging/client-server/ClientFactory.cpp
@@ -18,7 +18,12 @@ class ClientFactoryImpl {
       _clientMap;
 
  public:
-  ~ClientFactoryImpl() { close(); }
+  ~ClientFactoryImpl() {
+    // again if someone came back
+    while (!_clientMap->empty()) {
+      close();
+    }
+  }
 
   std::shared_ptr<ClientIF> makeClient(const ConnectionType &connectionType) {
     if (connectionType == itc::connection_type) {
@@ -49,8 +54,11 @@ class ClientFactoryImpl {
     return client;
   }
   void close() {
-    std::lock_guard lock(_clientMap);
-    for (auto &[contype, clients] : *_clientMap) {
+    // stopped with the map unlocked: the callbacks waited for, or run, meanwhile
+    // may come back here
+    decltype(_clientMap)::DataType closing;
+    _clientMap.atomic()->swap(closing);
+    for (auto &[contype, clients] : closing) {
       for (auto &[addr, client] : clients) {
         client->stop();
       }
@@ -58,7 +66,6 @@ class ClientFactoryImpl {
         client->deinit();
       }
     }
-    _clientMap->clear();
   }
 };
 
diff --git a/src/common/maf/messaging/client-server/ServerFactory.cpp b/src/common/maf/messaging/client-server/ServerFactory.cpp
index 64cb342..2fdd43c 100644
--- a/src/common/maf/messaging/client-server/ServerFactory.cpp
+++ b/src/common/maf/messaging/client-server/ServerFactory.cpp
@@ -17,7 +17,12 @@ class ServerFactoryImpl {
       util::Map2D<ConnectionType, Address, std::shared_ptr<ServerIF>>>
       serverMap_;
 
-  ~ServerFactoryImpl() { close(); }
+  ~ServerFactoryImpl() {
+    // again if someone came back
+    while (!serverMap_->empty()) {
+      close();
+    }
+  }
 
   std::shared_ptr<ServerIF> makeServer(const ConnectionType &connectionType) {
     if (connectionType == itc::connection_type) {
@@ -53,8 +58,11 @@ class ServerFactoryImpl {
   }
 
   void close() {
-    std::lock_guard lock(serverMap_);
-    for (auto &[contype, servers] : *serverMap_) {
+    // stopped with the map unlocked: the callbacks waited for, or run, meanwhile
+    // may come back here
+    decltype(serverMap_)::DataType closing;
+    serverMap_.atomic()->swap(closing);
+    for (auto &[contype, servers] : closing) {
       for (auto &[addr, server] : servers) {
         server->stop();
       }
@@ -62,7 +70,6 @@ class ServerFactoryImpl {
         server->deinit();
       }
     }
-    serverMap_->clear();
   }
 };
 
-- 
2.43.0


From 711411718bc0e0c33ac65152960d9310d661faad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:40 +0000
Subject: [PATCH 51/52] fix: the sync timer called back with its lock held and
 lost the callback on becoming cyclic

---
 src/common/maf/messaging/SyncTimer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/SyncTimer.cpp b/src/common/maf/messaging/SyncTimer.cpp
index c45b20c..260e051 100644
--- a/src/common/maf/messaging/SyncTimer.cpp
+++ b/src/common/maf/messaging/SyncTimer.cpp
@@ -56,11 +56,15 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
         continue;
       }
 
+      // the callback may start the timer again, become cyclic, or wait for
+      // someone who stops it
+      lock.unlock();
       if (executor) {
-        executor->execute(d_->cyclic ? callback : std::move(callback));
+        executor->execute(callback);
       } else {
         callback();
       }
+      lock.lock();
 
       if (!d_->cyclic) {
         break;
-- 
2.43.0


From bb68ff70ac6890fbe08e5cc019525f548a99b0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:40 +0000
Subject: [PATCH 52/52] fix: a timer's check was run with the data of a thread
 that was gone

---
 src/common/maf/messaging/Timer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index 4556023..2e7f269 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -234,7 +234,8 @@ void TimerMgr::onTimerModified() {
   auto thisProcessorInstance = this_processor::instance();
   assert(thisProcessorInstance &&
          "Timer must be triggered in thread of a mesasging::Processor");
-  thisProcessorInstance->executeAsync([this] { this->checkAllTimers(); });
+  // it may be run by another thread, after this one and its timers have gone
+  thisProcessorInstance->executeAsync([] { mgr().checkAllTimers(); });
 }
 
 void TimerMgr::onShortestTimerExpired(const TimerDataPtr& record) {
-- 
2.43.0

