From 926767bdd2abf1fd1b4b31a795bc2f99dfbed7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 01/50] fix: PagedStack::clear() left the elements of the first
 page on the stack

---
 src/include/falcon/engine/pagedstack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 168d5d1..4282a01 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -530,6 +530,7 @@ public:
          m_curBase->clear();
          --m_curBase;
       }
+      m_curBase->clear();
    }
 
    /**
-- 
2.43.0


From 06bb774adace08e35f5336c7a141366564170bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 02/50] fix: PagedStack: discarding from the start of a page
 left stale elements in it

---
 src/include/falcon/engine/pagedstack.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 4282a01..3692b2a 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -111,13 +111,11 @@ private:
       }
       if(iData == m_curBase->begin())
       {
+         m_curBase->clear();
          if (m_curBase != m_base.begin())
          {
             m_curBase--;
          }
-         else {
-            m_curBase->clear();
-         }
       }
       else {
          m_curBase->resize(iData - m_curBase->begin());
-- 
2.43.0


From d341a214177d811384d172872eca4637dcb96f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 03/50] fix: PagedStack reverse iteration ran past the top when
 spare pages exist

---
 src/include/falcon/engine/pagedstack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 3692b2a..7955077 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -564,8 +564,8 @@ public:
    const_iterator end() const noexcept {return const_iterator(m_base.begin(), --m_base.front().begin(), m_base.cbegin()); }
    const_iterator cend() const noexcept {return end(); }
 
-   reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), --m_base.end());}
-   const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), --m_base.cend());}
+   reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), m_curBase);}
+   const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), m_curBase);}
    const_reverse_iterator crbegin() const noexcept {return rbegin();}
 
    reverse_iterator rend() noexcept{return reverse_iterator(m_curBase, m_curBase->end(), m_curBase);}
-- 
2.43.0


From ecf764f075d5a3fbe1cb142439c4e0553119ab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 04/50] fix: copies of PagedStack synchronised iterators were
 not counted

---
 src/include/falcon/engine/pagedstack.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 7955077..64e8e17 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -143,6 +143,11 @@ private:
         }
    }
 
+   void addSyncIterator() const noexcept {
+      std::lock_guard<_Mutex> guard(m_mutex);
+      ++m_syncIterCount;
+   }
+
    void removeSyncIterator() const noexcept {
       std::lock_guard<_Mutex> guard(m_mutex);
       if(--m_syncIterCount == 0 && m_shrinkRequest) {
@@ -340,6 +345,27 @@ private:
          return *this;
       }
 
+      sync_iterator_base(const sync_iterator_base& other):
+            m_iBase(other.m_iBase),
+            m_iData(other.m_iData),
+            m_iBaseBegin(other.m_iBaseBegin),
+            m_owner(other.m_owner)
+      {
+         m_owner->addSyncIterator();
+      }
+
+      sync_iterator_base& operator=(const sync_iterator_base& other) {
+         if (m_owner != other.m_owner) {
+            m_owner->removeSyncIterator();
+            m_owner = other.m_owner;
+            m_owner->addSyncIterator();
+         }
+         m_iBase = other.m_iBase;
+         m_iData = other.m_iData;
+         m_iBaseBegin = other.m_iBaseBegin;
+         return *this;
+      }
+
       ~sync_iterator_base() {
          m_owner->removeSyncIterator();
       }
-- 
2.43.0


From 3360427c2bd3754ebaf189255c4b2a754a779bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 05/50] fix: PagedStack::const_sync_iterator::get() did not
 compile

---
 src/include/falcon/engine/pagedstack.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 64e8e17..c3a85ae 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -17,6 +17,7 @@
 #include <cassert>
 #include <memory>
 #include <stdexcept>
+#include <type_traits>
 #include <falcon/engine/distribute.h>
 #include <mutex>
 
@@ -306,7 +307,7 @@ private:
    class sync_iterator_base {
    public:
 
-      void get(_TT& value) {
+      void get(std::remove_const_t<_TT>& value) {
          PagedStack::lock_guard guard(m_owner);
          synchronize();
          value = *m_iData;
-- 
2.43.0


From 0331f7991b27ffaca22a260cce317caaf315d1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 06/50] fix: PagedStack was left with an empty page on top when
 a push failed

---
 src/include/falcon/engine/pagedstack.h | 33 +++++++++++++++++++-------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index c3a85ae..94fcd00 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -71,7 +71,14 @@ private:
       size_t count = m_allocSize;
       while(count) {
          m_base.emplace_back(m_dataAllocator);
-         m_base.back().reserve(m_pageSize);
+         try {
+            m_base.back().reserve(m_pageSize);
+         }
+         catch(...) {
+            // don't keep a page that can't hold its elements in place.
+            m_base.pop_back();
+            throw;
+         }
          --count;
       }
    }
@@ -123,15 +130,27 @@ private:
       }
    }
 
-   void internal_push(const _T& data) {
+   template<typename... _Args>
+   void internal_emplace(_Args&&... __args) {
+      auto previousBase = m_curBase;
       advance();
-      m_curBase->push_back(data);
+      try {
+         m_curBase->emplace_back(std::forward<_Args>(__args)...);
+      }
+      catch(...) {
+         // don't leave an empty page on top.
+         m_curBase = previousBase;
+         throw;
+      }
+   }
+
+   void internal_push(const _T& data) {
+      internal_emplace(data);
    }
 
    template<typename... _Args>
    void internal_push(const _T& data, _Args&&... __args) {
-      advance();
-      m_curBase->push_back(data);
+      internal_emplace(data);
       internal_push(std::forward<_Args>(__args)...);
    }
 
@@ -481,9 +500,7 @@ public:
    template<typename... _Args>
    void push_emplace(_Args&&... __args)	{
       std::lock_guard<_Mutex> guard(m_mutex);
-      advance();
-      // vector::emplace writes at the previous iterator.
-      m_curBase->emplace_back(std::forward<_Args>(__args)...);
+      internal_emplace(std::forward<_Args>(__args)...);
    }
 
    /**
-- 
2.43.0


From 38dcf71606822fcccbca4a0875b50f05ca47d5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 07/50] fix: copies of a PagedStack pointed into the pages of
 the original

---
 src/include/falcon/engine/pagedstack.h | 38 ++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 94fcd00..4664456 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -154,6 +154,17 @@ private:
       internal_push(std::forward<_Args>(__args)...);
    }
 
+   void internal_append(const PagedStack& other) {
+      for(auto iter = other.m_base.begin(); ; ++iter) {
+         for(const auto& data: *iter) {
+            internal_push(data);
+         }
+         if(iter == other.m_curBase) {
+            break;
+         }
+      }
+   }
+
    void internal_shrink_to_fit() {
         typename base_type::iterator iter = m_curBase;
         ++iter;
@@ -475,6 +486,33 @@ public:
       m_curBase = m_base.begin();
    }
 
+   PagedStack(const PagedStack& other):
+            m_pageSize(other.m_pageSize),
+            m_allocSize(other.m_allocSize),
+            m_base(page_allocator_type(other.m_dataAllocator)),
+            m_dataAllocator(other.m_dataAllocator)
+   {
+      growBase();
+      m_curBase = m_base.begin();
+      std::lock_guard<_Mutex> guard(other.m_mutex);
+      internal_append(other);
+   }
+
+   PagedStack(PagedStack&& other) = default;
+
+   /** Copies the elements of the other stack, keeping this page size. */
+   PagedStack& operator=(const PagedStack& other) {
+      if (this != &other) {
+         PagedStack copy(other);
+         clear();
+         std::lock_guard<_Mutex> guard(m_mutex);
+         internal_append(copy);
+      }
+      return *this;
+   }
+
+   PagedStack& operator=(PagedStack&& other) = default;
+
    void top(const _T& value) noexcept { std::lock_guard<_Mutex> guard(m_mutex); m_curBase->back() = value; }
    const _T& top() const noexcept { std::lock_guard<_Mutex> guard(m_mutex); return m_curBase->back(); }
 
-- 
2.43.0


From 76f5d14a329c1437a8be03e4fb5779390aaef876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 08/50] fix: RFutex::lock() never returned

---
 src/include/falcon/futex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 23708c9..1faa5a3 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -94,7 +94,7 @@ public:
       while(!m_owner.compare_exchange_strong(
             free, thread_id,
             std::memory_order_seq_cst,
-            std::memory_order_seq_cst) || free != thread_id) {
+            std::memory_order_seq_cst) && free != thread_id) {
          free = 0;
       }
       ++m_count;
-- 
2.43.0


From a3d957688da2abc04748dd1a48eb5c08bb4c498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 09/50] fix: RFutex::isOwner() was true for a free futex in
 threads that never locked one

---
 src/include/falcon/futex.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 1faa5a3..19eaca9 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -111,7 +111,8 @@ public:
    }
 
    bool isOwner() noexcept {
-      return m_owner.load(std::memory_order_seq_cst) == s_thread_id;
+      return s_thread_id != 0
+            && m_owner.load(std::memory_order_seq_cst) == s_thread_id;
    }
 };
 
-- 
2.43.0


From dec5a46616c3a3aa819cd83c520854e09bf009b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 10/50] fix: LogSystem started with an undefined termination
 flag

---
 src/engine/logsystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index f3e3cc7..a98d7ea 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -24,7 +24,8 @@ LogSystem::LogSystem(bool startNow):
 		m_unpooled(0),
 		m_destroyed(0),
 		m_maxMsgQueueSize(0),
-		m_msgReceived(0)
+		m_msgReceived(0),
+		m_isTerminated(false)
 {
 	// prepare the pool
 	for (int i = 0; i < MESSAGE_POOL_THRESHOLD; ++i) {
-- 
2.43.0


From 942fc4ccbc5f3d7958e76d8dff2efa101572fec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 11/50] fix: LogSystem could not be started again after a stop

---
 src/engine/logsystem.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index a98d7ea..c24599b 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -57,25 +57,27 @@ LogSystem::~LogSystem()
 void LogSystem::start() {
 	std::lock_guard<std::mutex> guard(m_mtxThread);
 	if(m_logThread == 0) {
+		// a previous stop() might have left it set.
+		m_mtxMessage.lock();
+		m_isTerminated = false;
+		m_mtxMessage.unlock();
 		m_logThread = new std::thread(&LogSystem::loggingThread, this);
 	}
 }
 
 
 void LogSystem::stop() noexcept {
+	std::lock_guard<std::mutex> guard(m_mtxThread);
+	if(m_logThread == 0) {
+		return;
+	}
+
 	// send a killer message
 	m_mtxMessage.lock();
 	m_isTerminated = true;
 	m_mtxMessage.unlock();
 	m_cvLogs.notify_all();
 
-	// now
-	std::thread* the_thread = 0;
-	std::lock_guard<std::mutex> guard(m_mtxThread);
-	if(m_logThread == 0) {
-		return;
-	}
-
 	// we join in a lock, but this stop() should hardly be called more than once per program.
 	m_logThread->join();
 	delete m_logThread;
-- 
2.43.0


From e51089e00263ed4ecdbefee709c1b6e21e4b1da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 12/50] fix: LogSystem leaked the strings of the pooled
 messages

---
 src/engine/logsystem.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index c24599b..9a9c616 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -92,7 +92,13 @@ void LogSystem::log( const std::string& file, int line, LEVEL level, const std::
 		return;
 	}
 
-	Message* msg = new(allocateMsg()) Message(file, line, level, cat, message);
+	// The message might come from the pool: reuse it.
+	Message* msg = allocateMsg();
+	msg->m_file = file;
+	msg->m_line = line;
+	msg->m_level = level;
+	msg->m_category = cat;
+	msg->m_message = message;
 	log(msg);
 }
 
-- 
2.43.0


From 50a70dd61a76b07c0515a53bfd6e81978e4d7659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 13/50] fix: LogSystem delivered a message to listeners already
 detached

---
 src/engine/logsystem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 9a9c616..edb33d2 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -199,6 +199,7 @@ void LogSystem::sendMessageToListeners(Message* msg) noexcept
 	m_msgReceived++;
 	for(auto listener: m_activeListeners) {
 		if(listener->isEnabled()
+				&& !listener->isDetached()
 				&& listener->level() >= msg->m_level
 				&& listener->checkCategory(msg->m_category))
 		{
-- 
2.43.0


From c95a63a32e95b23e41c5055ef058e73fa5e85bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 14/50] fix: LogSystem::getDiags() raced with the logging
 thread

---
 src/engine/logsystem.cpp       | 23 +++++++++++++++--------
 src/include/falcon/logsystem.h |  2 +-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index edb33d2..e23a9b4 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -252,11 +252,18 @@ void LogSystem::disposeMsg(Message* msg) noexcept
 
 void LogSystem::cleanupTerminatedListeners()
 {
-	m_activeListeners.erase(
-			std::remove_if(m_activeListeners.begin(), m_activeListeners.end(),
-					[](auto& listener) { return listener->isDetached(); }),
-			m_activeListeners.end());
-
+	// Let the listeners be released out of the lock.
+	ListenerList detached;
+	std::lock_guard<std::mutex> guard(m_mtxListeners);
+	for(auto iter = m_activeListeners.begin(); iter != m_activeListeners.end();) {
+		if((*iter)->isDetached()) {
+			detached.push_back(*iter);
+			iter = m_activeListeners.erase(iter);
+		}
+		else {
+			++iter;
+		}
+	}
 }
 
 
@@ -264,9 +271,6 @@ void LogSystem::getDiags(LogSystem::Diags& diags) noexcept
 {
 	diags.m_msgsCreated = m_unpooled;
 	diags.m_msgsDiscarded = m_destroyed;
-	diags.m_activeListeners = m_activeListeners.size();
-	diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
-				[](const auto& l){return l->isEnabled();});
 	diags.m_msgReceived = m_msgReceived;
 
 	{
@@ -280,6 +284,9 @@ void LogSystem::getDiags(LogSystem::Diags& diags) noexcept
 	{
 		std::lock_guard<std::mutex> guard(m_mtxListeners);
 		diags.m_pendingListeners = m_pendingListeners.size();
+		diags.m_activeListeners = m_activeListeners.size();
+		diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
+				[](const auto& l){return l->isEnabled();});
 	}
 }
 
diff --git a/src/include/falcon/logsystem.h b/src/include/falcon/logsystem.h
index 235bb9a..333e483 100644
--- a/src/include/falcon/logsystem.h
+++ b/src/include/falcon/logsystem.h
@@ -267,7 +267,7 @@ private:
    std::atomic<size_t> m_unpooled;
    std::atomic<size_t> m_destroyed;
    size_t m_maxMsgQueueSize;
-   size_t m_msgReceived;
+   std::atomic<size_t> m_msgReceived;
 
 
    using MessageQueue = std::deque<Message*>;
-- 
2.43.0


From 4a11f863d200e8da1b7a923e4f9032991a8e44e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 15/50] fix: LogSystem listeners wrote debug output on the
 standard output

---
 src/engine/logsystem.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index e23a9b4..5cfd246 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -215,7 +215,6 @@ bool LogSystem::Listener::checkCategory(const std::string& cat) const noexcept
 	  if(m_category == "") {
 		  return true;
 	  }
-	  std::cout << "Category filtering: " << cat <<" vs. "<< m_category << ": " << std::regex_match(cat, m_catRegex)<<  '\n';
 	  return std::regex_match(cat, m_catRegex);
   }
 
-- 
2.43.0


From 4489cb297f6c98ac47f99e54f0e59f7e85490ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 16/50] fix: LogSystem::Listener::category() exposed a string
 that may change meanwhile

---
 src/include/falcon/logsystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logsystem.h b/src/include/falcon/logsystem.h
index 333e483..9191a28 100644
--- a/src/include/falcon/logsystem.h
+++ b/src/include/falcon/logsystem.h
@@ -135,7 +135,7 @@ public:
       /**
        * Returns the current category filter
        */
-      const std::string& category() const noexcept {
+      std::string category() const {
     	  std::lock_guard<std::mutex> guard(m_mtxCategory);
     	  return m_category;
       }
-- 
2.43.0


From dd654b19fa23a49ac1143dfa9c1b435268015739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 17/50] fix: Futex yielded only once while waiting for a
 contended lock

---
 src/include/falcon/futex.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 19eaca9..851ebc8 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -57,6 +57,7 @@ public:
 
          if(spinCount && --sc == 0) {
             std::this_thread::yield();
+            sc = spinCount;
          }
       }
    }
-- 
2.43.0


From d55164a9eb7b497d9ed8c0632f049c15f720eed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 18/50] fix: logger.h could not be included in more than one
 translation unit

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index f565360..1ae380c 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -399,7 +399,7 @@ const Logger::AutoEnd& operator << (const Logger::AutoEnd& aes, T&& arg)
     return aes;
 }
 
-const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::category_manipulator&& cat)
+inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::category_manipulator&& cat)
 {
     if(aes.doLog()) {
     	aes.obj().setTempCategory(cat.m_cat);
-- 
2.43.0


From a69b66d8654c059e6f6180a14dbf245edd234f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 19/50] fix: LOG_CATEGORY was ignored when the compile-time
 level is below the runtime level

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 1ae380c..ad759ac 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -408,7 +408,7 @@ inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::ca
 }
 
 #define LOGGER (::falcon::Logger::instance())
-#define LOG_CATEGORY(__CAT) if(FALCON_MIN_LOG_LEVEL >= LOGGER.level()){LOGGER.setCategory(__CAT);}
+#define LOG_CATEGORY(__CAT) if(FALCON_MIN_LOG_LEVEL >= ::falcon::LLCRIT){LOGGER.setCategory(__CAT);}
 
 #define LOG(__LVL) (::falcon::Logger::AutoEnd(LOGGER, __FILE__, __LINE__, __LVL))
 #define LOG_CRIT LOG(::falcon::LLCRIT)
-- 
2.43.0


From c0ece108029debb75eac861569f2b3328813ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 20/50] fix: stream formatting set in a log message affected
 the following ones

---
 src/include/falcon/logger.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index ad759ac..ef07532 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -384,8 +384,8 @@ private:
 	static thread_local LOGLEVEL m_msgLevel;
 
 	void readyStream() noexcept {
-		m_composer.clear();
-		m_composer.str("");
+		// Start anew, forgetting also the formatting set by the last message.
+		m_composer = std::ostringstream();
 	}
 };
 
-- 
2.43.0


From 4ec75302c9cca4182c70d0cd26d750e0d4be3447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 21/50] fix: nested or abandoned log statements left their text
 in other messages

---
 src/engine/logger.cpp       |  1 +
 src/include/falcon/logger.h | 44 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index 3c8e365..334b127 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -23,6 +23,7 @@ thread_local std::ostringstream Logger::m_composer;
 thread_local std::string Logger::m_msgFile{""};
 thread_local int Logger::m_msgLine{0};
 thread_local LOGLEVEL Logger::m_msgLevel{LLTRACE};
+thread_local int Logger::m_depth{0};
 
 Logger::Logger()
 {
diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index ef07532..d5a1e7e 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -301,17 +301,55 @@ public:
 	void categoryFilter(const std::string& line, LOGLEVEL l=LLTRACE);
 	void clearFilter();
 
+	/**
+	 * Puts aside what the current thread was composing, and restores it when destroyed.
+	 *
+	 * The statement owning it composes its own message even when nested in another
+	 * one, and leaves nothing behind even when abandoned before being complete.
+	 */
+	class Composition
+	{
+	public:
+		Composition():
+			m_file(m_msgFile), m_line(m_msgLine), m_level(m_msgLevel)
+		{
+			m_outer.swap(m_composer);
+			// A temporary category set out of any message is for the next one.
+			if(m_depth++ > 0) {
+				m_outerCategory.swap(m_tempCategory);
+			}
+		}
+		~Composition() {
+			--m_depth;
+			m_outer.swap(m_composer);
+			m_outerCategory.swap(m_tempCategory);
+			m_msgFile.swap(m_file);
+			m_msgLine = m_line;
+			m_msgLevel = m_level;
+		}
+		Composition(const Composition&) = delete;
+		Composition& operator=(const Composition&) = delete;
+
+	private:
+		std::ostringstream m_outer;
+		std::string m_outerCategory;
+		std::string m_file;
+		int m_line;
+		LOGLEVEL m_level;
+	};
+
 	class AutoEnd
 	{
 	private:
 	    Logger* m_obj;
-	    std::string m_category;
+	    std::unique_ptr<Composition> m_composition;
 
 	public:
 	    explicit AutoEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl):
 			m_obj(nullptr)
 	    {
 	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
+	    		m_composition.reset(new Composition);
 	    		obj.setFile(file);
 	    		obj.setLine(line);
 	    		obj.setLevel(lvl);
@@ -328,12 +366,14 @@ public:
 	{
 	private:
 	    Logger* m_obj;
+	    std::unique_ptr<Composition> m_composition;
 
 	public:
 	    explicit BlockEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl):
 			m_obj(nullptr)
 	    {
 	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
+	    		m_composition.reset(new Composition);
 	    		obj.setFile(file);
 	    		obj.setLine(line);
 	    		obj.setLevel(lvl);
@@ -382,6 +422,8 @@ private:
 	static thread_local std::string m_msgFile;
 	static thread_local int m_msgLine;
 	static thread_local LOGLEVEL m_msgLevel;
+	// How many statements is the thread composing, one nested in the other?
+	static thread_local int m_depth;
 
 	void readyStream() noexcept {
 		// Start anew, forgetting also the formatting set by the last message.
-- 
2.43.0


From ae94704081a86e3b2bd0b94612560b003dc4036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 22/50] fix: Logger category filters did not preserve and
 restore the previous levels

---
 src/engine/logger.cpp       | 23 +++++++++++++++++------
 src/include/falcon/logger.h |  1 +
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index 334b127..ad4a6e6 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -33,23 +33,34 @@ Logger::Logger()
 
 
 void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {
-	if (m_proxy.get()) {
-		m_proxy->detach();
-	}
+	auto proxy = std::make_shared<LogProxyListener>(m_dflt);
+	// throws if the category is not valid, leaving everything as it is.
+	proxy->category(category);
+	proxy->level(l);
+
+	clearFilter();
 	m_proxyBaseLevel = level();
+	m_dfltBaseLevel = m_dflt->level();
 	if(l > m_proxyBaseLevel) {
+		// The default listener must not get what was filtered out up to now.
+		if(m_dfltBaseLevel > m_proxyBaseLevel) {
+			m_dflt->level(m_proxyBaseLevel);
+		}
 		level(l);
 	}
-	m_proxy = std::make_shared<LogProxyListener>(m_dflt);
-	m_proxy->category(category);
-	m_proxy->level(l);
+	m_proxy = proxy;
 	addListener(m_proxy);
 }
 
 
 void Logger::clearFilter() {
+	if(!m_proxy) {
+		return;
+	}
 	m_proxy->detach();
+	m_proxy.reset();
 	level(m_proxyBaseLevel);
+	m_dflt->level(m_dfltBaseLevel);
 }
 
 }
diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index d5a1e7e..5525065 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -415,6 +415,7 @@ private:
 	std::shared_ptr<LogStreamListener> m_dflt;
 	std::shared_ptr<LogProxyListener> m_proxy;
 	LOGLEVEL m_proxyBaseLevel{LLTRACE};
+	LOGLEVEL m_dfltBaseLevel{LLTRACE};
 
 	static thread_local std::ostringstream m_composer;
 	static thread_local std::string m_category;
-- 
2.43.0


From fa4a6016a791a3440b2f313481661b374f6d163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 23/50] fix: ItemData built from a pointer held the address of
 a temporary

---
 src/include/falcon/engine/itemdata.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/include/falcon/engine/itemdata.h b/src/include/falcon/engine/itemdata.h
index 4eee6de..ecce3eb 100644
--- a/src/include/falcon/engine/itemdata.h
+++ b/src/include/falcon/engine/itemdata.h
@@ -17,6 +17,8 @@
 #define _FALCON_ITEMDATA_H_
 
 #include "falcon/types.h"
+#include <cstddef>
+#include <type_traits>
 
 namespace falcon {
 
@@ -45,6 +47,10 @@ union ItemData {
             uint64Value = value;
         } else if constexpr (std::is_same_v<T, numeric>) {
             numericValue = value;
+        } else if constexpr (std::is_same_v<T, std::nullptr_t>) {
+            ptrValue = nullptr;
+        } else if constexpr (std::is_pointer_v<T>) {
+            ptrValue = const_cast<void*>(static_cast<const void*>(value));
         } else {
             ptrValue = static_cast<void*>(const_cast<T*>(&value));
         }
-- 
2.43.0


From c31559b3396d4e0f565a587df1ebef432139aeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 24/50] fix: Item::get() did not compile

---
 src/include/falcon/engine/item.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/item.h b/src/include/falcon/engine/item.h
index ede1a6e..b068ded 100644
--- a/src/include/falcon/engine/item.h
+++ b/src/include/falcon/engine/item.h
@@ -17,6 +17,7 @@
 #define _FALCON_ITEM_H_
 
 #include "falcon/types.h"
+#include <stdexcept>
 #include "falcon/engine/handlerfactory.h"
 
 namespace falcon {
@@ -91,8 +92,6 @@ public:
         } else {
             throw std::invalid_argument("Not a valid item type");
         }
-
-        return *static_cast<T*>(data);
     }
 
     String toString() const noexcept {return handler->toString(data);}
-- 
2.43.0


From 026b1e02eded56d8f04cea44ef734e5b6e120713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 25/50] fix: copies of an Item shared and released twice the
 same value

---
 src/include/falcon/engine/deephandler.h |  1 +
 src/include/falcon/engine/flathandler.h |  1 +
 src/include/falcon/engine/handler.h     |  1 +
 src/include/falcon/engine/item.h        | 12 ++++++++++++
 4 files changed, 15 insertions(+)

diff --git a/src/include/falcon/engine/deephandler.h b/src/include/falcon/engine/deephandler.h
index 0efe981..8204b9e 100644
--- a/src/include/falcon/engine/deephandler.h
+++ b/src/include/falcon/engine/deephandler.h
@@ -25,6 +25,7 @@ struct DeepHandler: public Handler {
     virtual ~DeepHandler() {}
 
     ItemData allocate() const override {return new T;}
+    ItemData copy(ItemData data) const override {return new T(*reinterpret_cast<T *>(data.ptrValue));}
     void destroy(ItemData data) const noexcept override { delete reinterpret_cast<T *>(data.ptrValue);}
 
     bool isFlat() const noexcept override { return false; }
diff --git a/src/include/falcon/engine/flathandler.h b/src/include/falcon/engine/flathandler.h
index 8e379f0..e91030f 100644
--- a/src/include/falcon/engine/flathandler.h
+++ b/src/include/falcon/engine/flathandler.h
@@ -23,6 +23,7 @@ struct FlatHandler: public Handler {
     virtual ~FlatHandler() {}
 
     ItemData allocate() const override { return ItemData(false); }
+    ItemData copy(ItemData data) const override { return data; }
     void destroy(ItemData) const noexcept override {}
     
     bool isFlat() const noexcept override{ return true; }
diff --git a/src/include/falcon/engine/handler.h b/src/include/falcon/engine/handler.h
index df54df1..15d635b 100644
--- a/src/include/falcon/engine/handler.h
+++ b/src/include/falcon/engine/handler.h
@@ -30,6 +30,7 @@ struct Handler {
     virtual bool isCopyFlat() const noexcept = 0;
 
     virtual ItemData allocate() const =0;
+    virtual ItemData copy(ItemData data) const =0;
     virtual void destroy(ItemData data) const noexcept =0;
 
     virtual String typeName() const noexcept = 0;
diff --git a/src/include/falcon/engine/item.h b/src/include/falcon/engine/item.h
index b068ded..7b9b271 100644
--- a/src/include/falcon/engine/item.h
+++ b/src/include/falcon/engine/item.h
@@ -70,6 +70,18 @@ public:
         }
     }
 
+    Item(const Item& other) : data(other.handler->copy(other.data)), handler(other.handler) {}
+
+    Item& operator=(const Item& other) {
+        if (this != &other) {
+            ItemData copied = other.handler->copy(other.data);
+            handler->destroy(data);
+            data = copied;
+            handler = other.handler;
+        }
+        return *this;
+    }
+
     ~Item() {
         handler->destroy(data);
     }
-- 
2.43.0


From 79d3a92b990b2d63c449bbc3de89856943aee7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 26/50] fix: converting a non-numeric string Item to int
 terminated the program

---
 src/include/falcon/engine/stringhandler.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/stringhandler.h b/src/include/falcon/engine/stringhandler.h
index 4116e84..26f5cca 100644
--- a/src/include/falcon/engine/stringhandler.h
+++ b/src/include/falcon/engine/stringhandler.h
@@ -16,6 +16,7 @@
 #define _FALCON_STRINGHANDLER_H_
 
 #include "falcon/engine/deepflatcopyhandler.h"
+#include <cstdlib>
 
 
 namespace falcon {
@@ -27,7 +28,10 @@ struct StringHandler: public DeepFlatCopyHandler<String> {
     String toString(ItemData data) const noexcept override { return *reinterpret_cast<String *>(data.ptrValue); }
 
     bool toBool(ItemData data) const noexcept override { return !reinterpret_cast<String *>(data.ptrValue)->empty(); }
-    int64 toInt(ItemData data) const noexcept override { return std::stoll(*reinterpret_cast<String *>(data.ptrValue)); }
+    int64 toInt(ItemData data) const noexcept override {
+        // 0 if there isn't any number, saturated if it's out of range.
+        return std::strtoll(reinterpret_cast<String *>(data.ptrValue)->c_str(), nullptr, 10);
+    }
 };
 
 }
-- 
2.43.0


From b98c0cab1dfbfe13e7545056802123b07b7f5f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 27/50] fix: Code overflowed its buffer and released it twice
 when copied

---
 src/engine/code.cpp              | 19 ++++++-------------
 src/include/falcon/engine/code.h |  1 -
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/engine/code.cpp b/src/engine/code.cpp
index 823a381..2549a87 100644
--- a/src/engine/code.cpp
+++ b/src/engine/code.cpp
@@ -14,35 +14,28 @@
 ******************************************************************************/
 
 #include <falcon/engine/code.h>
-#include <algorithm>
 
 namespace falcon {
 
 Code::Code(const std::string& source, int line) noexcept :
-		m_source(source), m_line(line), m_data(new char[1000])
-{
-	std::copy(m_source.data(), m_source.data() + m_source.size(), m_data);
-	m_data[m_source.size()] = 0;
-}
+		m_source(source), m_line(line)
+{}
 
 Code::Code(const Code& other) noexcept:
-		m_source(other.m_source), m_line(other.m_line), m_data(other.m_data)
+		m_source(other.m_source), m_line(other.m_line)
 {}
 
 Code::Code(Code&& other) noexcept:
 		m_source(std::move(other.m_source)),
-		m_line(other.m_line), m_data(other.m_data)
-{
-	other.m_data = nullptr;
-}
+		m_line(other.m_line)
+{}
 
 Code::~Code()
 {
-	delete[] m_data;
 }
 
 std::string Code::toString() const noexcept {
-	return std::string(m_data);
+	return m_source;
 }
 
 }
diff --git a/src/include/falcon/engine/code.h b/src/include/falcon/engine/code.h
index 11042cf..aa73e9f 100644
--- a/src/include/falcon/engine/code.h
+++ b/src/include/falcon/engine/code.h
@@ -31,7 +31,6 @@ public:
 private:
 	std::string m_source;
 	int m_line;
-	char *m_data; // TODO
 };
 }
 
-- 
2.43.0


From 4163866905707c48cdee7aca7d1f66570aca97a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 28/50] fix: FUT: output captured in a run of a test was
 attributed to the following ones

---
 src/fut/testcase.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index d76bb4c..244ca8f 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -183,6 +183,14 @@ void TestCase::destroy()
 
 void TestCase::beginTest(bool capture)
 {
+   // forget what was captured by previous runs
+   p->outCapture.str("");
+   p->errCapture.str("");
+   p->outCapture.clear();
+   p->errCapture.clear();
+   p->outCaptureStr.clear();
+   p->errCaptureStr.clear();
+
    // saving the standard buffers
    if (capture) {
       p->outbuf = std::cout.rdbuf();
-- 
2.43.0


From 20424ebd03d109527131cf6ef3c0a69b1198d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 29/50] fix: FUT: failure details were undefined or left over
 from previous failures

---
 src/fut/testcase.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 244ca8f..1e41106 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -42,7 +42,7 @@ public:
    std::streambuf *errbuf;
 
    std::string failDesc;
-   int failLine;
+   int failLine{0};
    std::string failFile;
 
    TimeLapse lapse;
@@ -191,6 +191,10 @@ void TestCase::beginTest(bool capture)
    p->outCaptureStr.clear();
    p->errCaptureStr.clear();
 
+   p->failDesc.clear();
+   p->failFile.clear();
+   p->failLine = 0;
+
    // saving the standard buffers
    if (capture) {
       p->outbuf = std::cout.rdbuf();
-- 
2.43.0


From 4a5d45068a51a4aa9ce41204fd4ef5e7276f037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 30/50] fix: FUT: the report listed as failed also the tests
 that were not run

---
 src/fut/unittest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index c9424cd..1e8963b 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -223,7 +223,7 @@ void UnitTest::report()
    if(p->verbosity > SILENT) {
       if (p->status != 0) {
          bool first = true;
-         for(auto tcase: p->tests ) {
+         for(auto tcase: p->testsToPerofm ) {
             if (!hasPassed(tcase))
             {
                if(first) {
-- 
2.43.0


From eeacef692d12fd260ed1264c86dd930578f1832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 31/50] fix: FUT: performing the unit tests again repeated each
 test

---
 src/fut/unittest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 1e8963b..f6629dd 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -110,6 +110,7 @@ void UnitTest::runAllTests()
 {
    // Reorder the tests in components
    int count = 0;
+   p->componentToPerform.clear();
    for(auto tcase: p->testsToPerofm ) {
 
       auto catIter = p->componentToPerform.find(tcase->componentName());
-- 
2.43.0


From 87f09d3e688f92889f3db0988f74f02fe8dc9165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 32/50] fix: FUT: the XML report was malformed when texts
 contain markup characters

---
 src/fut/unittest.cpp | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index f6629dd..078db7b 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -411,6 +411,32 @@ void UnitTest::usage() {
 }
 
 
+namespace {
+/** Escapes the characters having a special meaning in XML. */
+std::string xmlEscape(const std::string& text)
+{
+   std::string result;
+   for(char chr: text) {
+      switch(chr) {
+      case '&': result += "&amp;"; break;
+      case '<': result += "&lt;"; break;
+      case '>': result += "&gt;"; break;
+      case '"': result += "&quot;"; break;
+      // these would be normalized to spaces in attributes.
+      case '\n': result += "&#10;"; break;
+      case '\r': result += "&#13;"; break;
+      case '\t': result += "&#9;"; break;
+      default:
+         // other control characters can't be represented.
+         result += static_cast<unsigned char>(chr) < 0x20 ? '?' : chr;
+         break;
+      }
+   }
+   return result;
+}
+}
+
+
 void UnitTest::saveToXML() const
 {
    std::ofstream fout(p->xmlReport);
@@ -421,29 +447,29 @@ void UnitTest::saveToXML() const
 
    fout << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
 
-   fout << "<testsuites id=\""<< p->unitTestId << "\" name=\"" << p->unitTestName
+   fout << "<testsuites id=\""<< xmlEscape(p->unitTestId) << "\" name=\"" << xmlEscape(p->unitTestName)
             << "\" tests=\"" << p->testsToPerofm.size() << "\" "
             << "failures=\"" << p->failedCount << "\" "
             << "time=\""<< p->lapse.elapsed() / 1000.0 << "\">\n";
    for(auto& icat: p->componentToPerform) {
       auto& component = icat.second;
 
-      fout << "<testsuite id=\"" << p->unitTestId << "." << component.name << "\" "
-           << "name=\"" << component.name << "\" "
+      fout << "<testsuite id=\"" << xmlEscape(p->unitTestId) << "." << xmlEscape(component.name) << "\" "
+           << "name=\"" << xmlEscape(component.name) << "\" "
            << "tests=\"" << component.tests.size() << "\" "
            << "failures=\"" << component.failures << "\" "
            << "time=\"" << component.lapse.elapsed() / 1000.0 << "\">\n";
 
       for(auto tcasep: component.tests) {
-         fout << "<testcase id=\"" << p->unitTestId << "." << component.name << "." << tcasep->caseName() << "\" "
-              << "name=\"" << tcasep->caseName() << "\" "
+         fout << "<testcase id=\"" << xmlEscape(p->unitTestId) << "." << xmlEscape(component.name) << "." << xmlEscape(tcasep->caseName()) << "\" "
+              << "name=\"" << xmlEscape(tcasep->caseName()) << "\" "
               << "time=\"" << tcasep->elapsedTime() / 1000.0 << "\">\n";
 
          if(!hasPassed(tcasep)) {
-            fout << "<failure message=\"" << tcasep->failDesc() << "\" "
+            fout << "<failure message=\"" << xmlEscape(tcasep->failDesc()) << "\" "
                  << "type=\"" << tcasep->statusDesc() << "\">\n";
-            fout << tcasep->failDesc() << "\n"
-                 << "File: " << tcasep->failFile() << "\n"
+            fout << xmlEscape(tcasep->failDesc()) << "\n"
+                 << "File: " << xmlEscape(tcasep->failFile()) << "\n"
                  << "Line: " << tcasep->failLine() << "\n";
             fout << "</failure>\n";
          }
-- 
2.43.0


From ea38336fa04e58e5b9a6af37d0df3a24e696101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 33/50] fix: FUT: a non-numeric verbosity was silently accepted
 as zero

---
 src/fut/unittest.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 078db7b..c3327d4 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -351,8 +351,7 @@ int UnitTest::parseParams(int argc, char* argv[])
       else if(opt == "-v" && ++i < argc) {
          std::istringstream is(argv[i]);
          int level;
-         is >> level;
-         if(level >= SILENT && level <= REPORT_STDOUT) {
+         if(is >> level && level >= SILENT && level <= REPORT_STDOUT) {
             setVerbosity(static_cast<t_verbosity>(level));
             continue;
          }
-- 
2.43.0


From f709116579cbfb22affb7638cf9afff5b620cf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 34/50] fix: FUT: float checks mangled arguments that are not
 simple expressions

---
 src/include/falcon/fut/fut.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/falcon/fut/fut.h b/src/include/falcon/fut/fut.h
index 2cb11ef..9eb9675 100644
--- a/src/include/falcon/fut/fut.h
+++ b/src/include/falcon/fut/fut.h
@@ -86,11 +86,11 @@
 
 
 #define EXPECT_FLOAT_EQ( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>(_EXPECTED_*10000.0),\
-               ==,static_cast<::falcon::int64>(_ACTUAL_*10000.0))
+            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>((_EXPECTED_)*10000.0),\
+               ==,static_cast<::falcon::int64>((_ACTUAL_)*10000.0))
 #define EXPECT_FLOAT_NE( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>(_EXPECTED_*10000.0),\
-               !=,static_cast<::falcon::int64>(_ACTUAL_*10000.0))
+            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>((_EXPECTED_)*10000.0),\
+               !=,static_cast<::falcon::int64>((_ACTUAL_)*10000.0))
 
 #define FAIL(_MESSAGE_) \
    this->checkFail( __FILE__, __LINE__, _MESSAGE_, "" );
-- 
2.43.0


From 3dcb0817a73a853513db10f52a12c0b7789fb001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 35/50] fix: PagedStack: a sync iterator was left inconsistent
 by a failed resync

---
 src/include/falcon/engine/pagedstack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 4664456..bf79d2e 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -434,14 +434,14 @@ private:
 
          }
          // we need to resync.
-         m_iBase = m_owner->m_curBase;
-         if ( m_iBase->size() == 0)
+         if (m_owner->m_curBase->size() == 0)
          {
             // the stack has been emptied in the meanwhile.
             // any resync operation implies a movement or a dereference
             // hence, we're done.
             throw std::runtime_error("Empty stack while resync");
          }
+         m_iBase = m_owner->m_curBase;
          m_iData = m_iBase->end()-1;
 
          return false;
-- 
2.43.0


From 7eeeee72f93b88b8f8654d7d1ad2ff9818382415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 36/50] fix: PagedStack: a stack whose contents were moved away
 shared its pages with the new one

---
 src/include/falcon/engine/pagedstack.h | 27 ++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index bf79d2e..2438d28 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -165,6 +165,15 @@ private:
       }
    }
 
+   void internal_swap(PagedStack& other) noexcept {
+      // both the stacks always need a page where they can work.
+      std::swap(m_pageSize, other.m_pageSize);
+      std::swap(m_allocSize, other.m_allocSize);
+      std::swap(m_dataAllocator, other.m_dataAllocator);
+      m_base.swap(other.m_base);
+      std::swap(m_curBase, other.m_curBase);
+   }
+
    void internal_shrink_to_fit() {
         typename base_type::iterator iter = m_curBase;
         ++iter;
@@ -498,7 +507,13 @@ public:
       internal_append(other);
    }
 
-   PagedStack(PagedStack&& other) = default;
+   /** Takes the elements of the other stack, which is left empty. */
+   PagedStack(PagedStack&& other):
+            PagedStack(other.m_pageSize, other.m_allocSize, other.m_dataAllocator)
+   {
+      std::lock_guard<_Mutex> guard(other.m_mutex);
+      internal_swap(other);
+   }
 
    /** Copies the elements of the other stack, keeping this page size. */
    PagedStack& operator=(const PagedStack& other) {
@@ -511,7 +526,15 @@ public:
       return *this;
    }
 
-   PagedStack& operator=(PagedStack&& other) = default;
+   /** Takes the elements of the other stack, which is left empty. */
+   PagedStack& operator=(PagedStack&& other) {
+      if (this != &other) {
+         PagedStack taken(std::move(other));
+         std::lock_guard<_Mutex> guard(m_mutex);
+         internal_swap(taken);
+      }
+      return *this;
+   }
 
    void top(const _T& value) noexcept { std::lock_guard<_Mutex> guard(m_mutex); m_curBase->back() = value; }
    const _T& top() const noexcept { std::lock_guard<_Mutex> guard(m_mutex); return m_curBase->back(); }
-- 
2.43.0


From 010fcb5d6b7744ca0f7796329fb678a0d4ad4208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 37/50] fix: FUT: a test whose SetUp failed was reported with a
 meaningless duration

---
 src/fut/testcase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 1e41106..178c811 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -222,6 +222,8 @@ void TestCase::run()
 {
    try {
       p->status = NONE;
+      // if the setup fails, the test lasts up to there.
+      p->lapse.markBegin();
       SetUp();
 
       p->lapse.markBegin();
-- 
2.43.0


From b0b68aecce9fef8f1aa8d8ddac7595e8f0de07ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:32 +0000
Subject: [PATCH 38/50] fix: FUT: waitTime() came back early when a signal
 arrived or the time was over an hour

---
 src/fut/marktime-unix.c++ | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fut/marktime-unix.c++ b/src/fut/marktime-unix.c++
index efac12f..11fbd5d 100644
--- a/src/fut/marktime-unix.c++
+++ b/src/fut/marktime-unix.c++
@@ -14,9 +14,10 @@
 ******************************************************************************/
 
 #include <falcon/fut/marktime.h>
-#include <unistd.h>
 #include <sys/time.h>
+#include <chrono>
 #include <stdexcept>
+#include <thread>
 
 namespace falcon {
 namespace testing {
@@ -32,7 +33,8 @@ void markTime(int64& currentMillisecs)
 }
 
 void waitTime(int64 mseconds) {
-	usleep(mseconds * 1000);
+	// usleep() can't wait for more than an hour or so, and stops at any signal.
+	std::this_thread::sleep_for(std::chrono::milliseconds(mseconds));
 }
 
 }
-- 
2.43.0


From 44571219f672c1e92c5f614dac8920734c3be2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 39/50] fix: LogStreamListener: the date was read from a buffer
 that any other thread could be writing

---
 src/engine/logstream.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/engine/logstream.cpp b/src/engine/logstream.cpp
index 6db856a..126ca4d 100644
--- a/src/engine/logstream.cpp
+++ b/src/engine/logstream.cpp
@@ -15,6 +15,7 @@
 
 #include <falcon/logstream.h>
 
+#include <ctime>
 #include <iostream>
 #include <iomanip>
 
@@ -24,7 +25,13 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 {
 	auto now = std::chrono::system_clock::now();
 	time_t tt = std::chrono::system_clock::to_time_t(now);
-	tm local_tm = *localtime(&tt);
+	// localtime() would share its result with any other thread.
+	tm local_tm;
+#ifdef FALCON_SYSTEM_WIN
+	localtime_s(&local_tm, &tt);
+#else
+	localtime_r(&tt, &local_tm);
+#endif
 
 	size_t fpos = msg.m_file.rfind(FALCON_DIR_SEP_CHR);
 	std::string file;
-- 
2.43.0


From a52f8e570cce06980f65cc6ceb061128ea7140ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 40/50] fix: LogStreamListener: a line followed, and changed,
 the formatting set by the user of the stream

---
 src/engine/logstream.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/engine/logstream.cpp b/src/engine/logstream.cpp
index 126ca4d..2784094 100644
--- a/src/engine/logstream.cpp
+++ b/src/engine/logstream.cpp
@@ -18,6 +18,8 @@
 #include <ctime>
 #include <iostream>
 #include <iomanip>
+#include <locale>
+#include <sstream>
 
 namespace falcon {
 
@@ -45,7 +47,10 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 	// This method is not really meant to be used by multiple threads,
 	// but this lock prevents changing the underlying stream mid-output.
 	std::lock_guard<std::mutex> guard(m_mtxStream);
-	std::ostream& out = *m_pout;
+
+	// The formatting set on the stream belongs to who uses it: compose the line aside.
+	std::ostringstream out;
+	out.imbue(std::locale::classic());
 
 	// TODO: use a format to print
 	out
@@ -69,8 +74,11 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 	out << file << ':' << msg.m_line;
 	out << " " << msg.m_message << "\n";
 
+	const std::string line = out.str();
+	m_pout->write(line.data(), static_cast<std::streamsize>(line.size()));
+
 	// TODO: add a flag to do this optionally
-	out.flush();
+	m_pout->flush();
 }
 
 }
-- 
2.43.0


From 74016f2b6ef3e2055f7f4b3dd200898637d6d386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:51 +0000
Subject: [PATCH 41/50] fix: synchronised iterators of a stack whose contents
 were moved or replaced

---
 src/include/falcon/engine/pagedstack.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 2438d28..7efd8db 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -65,6 +65,8 @@ private:
    mutable _Mutex m_mutex;
    mutable int m_syncIterCount{0};
    mutable bool m_shrinkRequest{false};
+   // changes when the pages are exchanged with those of another stack.
+   size_t m_epoch{0};
 
 
    void growBase() {
@@ -172,6 +174,9 @@ private:
       std::swap(m_dataAllocator, other.m_dataAllocator);
       m_base.swap(other.m_base);
       std::swap(m_curBase, other.m_curBase);
+      // the synchronised iterators need to find their place anew.
+      ++m_epoch;
+      ++other.m_epoch;
    }
 
    void internal_shrink_to_fit() {
@@ -389,6 +394,7 @@ private:
             m_iBase(other.m_iBase),
             m_iData(other.m_iData),
             m_iBaseBegin(other.m_iBaseBegin),
+            m_epoch(other.m_epoch),
             m_owner(other.m_owner)
       {
          m_owner->addSyncIterator();
@@ -403,6 +409,7 @@ private:
          m_iBase = other.m_iBase;
          m_iData = other.m_iData;
          m_iBaseBegin = other.m_iBaseBegin;
+         m_epoch = other.m_epoch;
          return *this;
       }
 
@@ -418,6 +425,7 @@ private:
             m_iBase(iBase),
             m_iData(iData),
             m_iBaseBegin(end),
+            m_epoch(owner->m_epoch),
             m_owner(owner)
       {
          // the owner will create us in a locked space.
@@ -426,7 +434,10 @@ private:
 
       bool synchronize() {
          // are we fully synchronised?
-         if(m_owner->m_curBase == m_iBase) {
+         if(m_owner->m_epoch != m_epoch) {
+            // our page is no longer in the stack.
+         }
+         else if(m_owner->m_curBase == m_iBase) {
             if (m_iBase->size() > m_iData - m_iBase->begin())
             {
                return true;
@@ -452,6 +463,8 @@ private:
          }
          m_iBase = m_owner->m_curBase;
          m_iData = m_iBase->end()-1;
+         m_iBaseBegin = const_cast<PagedStack*>(m_owner)->m_base.begin();
+         m_epoch = m_owner->m_epoch;
 
          return false;
       }
@@ -459,6 +472,7 @@ private:
       _IBase m_iBase;
       _IData m_iData;
       _IBase m_iBaseBegin;
+      size_t m_epoch;
       PagedStack const* m_owner;
       friend class PagedStack;
    };
-- 
2.43.0


From 3e8f48e548c3b997efba052865e06ed9e62d0c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:29 +0000
Subject: [PATCH 42/50] fix: FUT: float checks told apart values that differ by
 a rounding error, took huge ones for equal, and reported another value than
 the actual one

---
 src/include/falcon/fut/fut.h | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/include/falcon/fut/fut.h b/src/include/falcon/fut/fut.h
index 9eb9675..5f03613 100644
--- a/src/include/falcon/fut/fut.h
+++ b/src/include/falcon/fut/fut.h
@@ -22,6 +22,18 @@
 #include <sstream>
 #include <string>
 #include <stdexcept>
+#include <cmath>
+
+namespace falcon {
+namespace testing {
+
+/** Checks if two floating point values differ by less than a ten-thousandth. */
+inline bool almostEqual(double expected, double actual) {
+	return expected == actual || std::fabs(expected - actual) < 0.0001;
+}
+
+}
+}
 
 
 #define FALCON_TEST_CLASS_NAME(_COMPONENT_, _NAME_) \
@@ -85,12 +97,16 @@
 		}
 
 
-#define EXPECT_FLOAT_EQ( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>((_EXPECTED_)*10000.0),\
-               ==,static_cast<::falcon::int64>((_ACTUAL_)*10000.0))
-#define EXPECT_FLOAT_NE( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>((_EXPECTED_)*10000.0),\
-               !=,static_cast<::falcon::int64>((_ACTUAL_)*10000.0))
+#define FALCON_TEST_CHECK_FLOAT(_EXPECTED_,_CHECK_,_WANT_,_ACTUAL_) \
+		if( ::falcon::testing::almostEqual((_EXPECTED_), (_ACTUAL_)) != _WANT_ ) { \
+		   std::ostringstream ss; \
+		   ss << (_ACTUAL_); \
+			this->checkFail( __FILE__, __LINE__, #_EXPECTED_ " " #_CHECK_ " " #_ACTUAL_, ss.str().c_str() ); \
+			return; \
+		}
+
+#define EXPECT_FLOAT_EQ( _EXPECTED_, _ACTUAL_) FALCON_TEST_CHECK_FLOAT(_EXPECTED_,==,true,_ACTUAL_)
+#define EXPECT_FLOAT_NE( _EXPECTED_, _ACTUAL_) FALCON_TEST_CHECK_FLOAT(_EXPECTED_,!=,false,_ACTUAL_)
 
 #define FAIL(_MESSAGE_) \
    this->checkFail( __FILE__, __LINE__, _MESSAGE_, "" );
-- 
2.43.0


From c78d499fc1f1ffbe68e1f44d512bf5e571b0344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:38 +0000
Subject: [PATCH 43/50] fix: PagedStack: copies and moves read the settings of
 the other stack out of its lock, and a copy assignment let other threads see
 and change the stack half-way

---
 src/include/falcon/engine/pagedstack.h | 28 +++++++++++++++-----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 7efd8db..388f5be 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -167,6 +167,19 @@ private:
       }
    }
 
+   // Copies and moves; the lock of the other stack must be held.
+   PagedStack(const PagedStack& other, const std::lock_guard<_Mutex>&):
+            PagedStack(other.m_pageSize, other.m_allocSize, other.m_dataAllocator)
+   {
+      internal_append(other);
+   }
+
+   PagedStack(PagedStack&& other, const std::lock_guard<_Mutex>&):
+            PagedStack(other.m_pageSize, other.m_allocSize, other.m_dataAllocator)
+   {
+      internal_swap(other);
+   }
+
    void internal_swap(PagedStack& other) noexcept {
       // both the stacks always need a page where they can work.
       std::swap(m_pageSize, other.m_pageSize);
@@ -510,31 +523,22 @@ public:
    }
 
    PagedStack(const PagedStack& other):
-            m_pageSize(other.m_pageSize),
-            m_allocSize(other.m_allocSize),
-            m_base(page_allocator_type(other.m_dataAllocator)),
-            m_dataAllocator(other.m_dataAllocator)
+            PagedStack(other, std::lock_guard<_Mutex>(other.m_mutex))
    {
-      growBase();
-      m_curBase = m_base.begin();
-      std::lock_guard<_Mutex> guard(other.m_mutex);
-      internal_append(other);
    }
 
    /** Takes the elements of the other stack, which is left empty. */
    PagedStack(PagedStack&& other):
-            PagedStack(other.m_pageSize, other.m_allocSize, other.m_dataAllocator)
+            PagedStack(std::move(other), std::lock_guard<_Mutex>(other.m_mutex))
    {
-      std::lock_guard<_Mutex> guard(other.m_mutex);
-      internal_swap(other);
    }
 
    /** Copies the elements of the other stack, keeping this page size. */
    PagedStack& operator=(const PagedStack& other) {
       if (this != &other) {
          PagedStack copy(other);
-         clear();
          std::lock_guard<_Mutex> guard(m_mutex);
+         internal_discard(m_base.begin(), m_base.front().begin());
          internal_append(copy);
       }
       return *this;
-- 
2.43.0


From 0f5f5d0274561ebf0b29c67bb86795e9fa47de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:31 +0000
Subject: [PATCH 44/50] fix: Items rendered their numbers with the locale of
 the application

---
 src/include/falcon/engine/bignumhandler.h | 2 ++
 src/include/falcon/engine/floathandler.h  | 2 ++
 src/include/falcon/engine/inthandler.h    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/include/falcon/engine/bignumhandler.h b/src/include/falcon/engine/bignumhandler.h
index 9ffab9d..8b67679 100644
--- a/src/include/falcon/engine/bignumhandler.h
+++ b/src/include/falcon/engine/bignumhandler.h
@@ -16,6 +16,7 @@
 #define _FALCON_BIGNUMHANDLER_H_
 
 #include <boost/multiprecision/cpp_dec_float.hpp>
+#include <locale>
 #include <sstream>
 #include "falcon/engine/deepflatcopyhandler.h"
 
@@ -30,6 +31,7 @@ struct BigNumHandler: public DeepFlatCopyHandler<BigNum> {
   String typeName() const noexcept override {return "BigNum";}
   String toString(ItemData data) const noexcept override { 
     std::ostringstream ss;
+    ss.imbue(std::locale::classic());
     ss << *reinterpret_cast<BigNum *>(data.ptrValue);
     return ss.str();
   }
diff --git a/src/include/falcon/engine/floathandler.h b/src/include/falcon/engine/floathandler.h
index 4b20ed2..d82b7b7 100644
--- a/src/include/falcon/engine/floathandler.h
+++ b/src/include/falcon/engine/floathandler.h
@@ -16,6 +16,7 @@
 #define _FALCON_FLOATHANDLER_H_
 
 #include "falcon/engine/flathandler.h"
+#include <locale>
 #include <sstream>
 
 namespace falcon {
@@ -28,6 +29,7 @@ struct FloatHandler: public FlatHandler {
     String typeName() const noexcept override {return "Float";}
     String toString(ItemData data) const noexcept override {
       std::ostringstream ss;
+      ss.imbue(std::locale::classic());
       ss << data.numericValue;
       return ss.str();
     }
diff --git a/src/include/falcon/engine/inthandler.h b/src/include/falcon/engine/inthandler.h
index a6a70a0..fa2357e 100644
--- a/src/include/falcon/engine/inthandler.h
+++ b/src/include/falcon/engine/inthandler.h
@@ -16,6 +16,7 @@
 #define _FALCON_INTHANDLER_H_
 
 #include "falcon/engine/flathandler.h"
+#include <locale>
 #include <sstream>
 
 namespace falcon {
@@ -28,6 +29,7 @@ struct IntHandler: public FlatHandler {
     String typeName() const noexcept override {return "Int";}
     String toString(ItemData data) const noexcept override {
       std::ostringstream ss;
+      ss.imbue(std::locale::classic());
       ss << data.int64Value;
       return ss.str();
     }
-- 
2.43.0


From 6f522f42541ec0f766da86e282e3d4a4a896a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:31 +0000
Subject: [PATCH 45/50] fix: FUT: formatting set on the standard streams by a
 test changed the output of the next ones and of the reports

---
 src/fut/testcase.cpp | 33 +++++++++++++++++++++++++++++++++
 src/fut/unittest.cpp | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 68 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 178c811..ec6137c 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -25,6 +25,32 @@
 namespace falcon {
 namespace testing{
 
+namespace {
+/** The formatting set on a stream, to be set back later. */
+class Format {
+public:
+   void save(const std::ostream& stream) {
+      m_flags = stream.flags();
+      m_precision = stream.precision();
+      m_width = stream.width();
+      m_fill = stream.fill();
+   }
+
+   void restore(std::ostream& stream) const {
+      stream.flags(m_flags);
+      stream.precision(m_precision);
+      stream.width(m_width);
+      stream.fill(m_fill);
+   }
+
+private:
+   std::ios_base::fmtflags m_flags{};
+   std::streamsize m_precision{0};
+   std::streamsize m_width{0};
+   char m_fill{' '};
+};
+}
+
 class TestCase::Private
 {
 public:
@@ -40,6 +66,8 @@ public:
 
    std::streambuf *outbuf;
    std::streambuf *errbuf;
+   Format outFormat;
+   Format errFormat;
 
    std::string failDesc;
    int failLine{0};
@@ -199,6 +227,8 @@ void TestCase::beginTest(bool capture)
    if (capture) {
       p->outbuf = std::cout.rdbuf();
       p->errbuf = std::cerr.rdbuf();
+      p->outFormat.save(std::cout);
+      p->errFormat.save(std::cerr);
       std::cout.rdbuf(p->outCapture.rdbuf());
       std::cerr.rdbuf(p->errCapture.rdbuf());
    }
@@ -215,6 +245,9 @@ void TestCase::endTest(bool capture)
 
       p->outCaptureStr = p->outCapture.str();
       p->errCaptureStr = p->errCapture.str();
+
+      p->outFormat.restore(std::cout);
+      p->errFormat.restore(std::cerr);
    }
 }
 
diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index c3327d4..fdf025f 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -25,6 +25,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <locale>
 #include <fstream>
 #include <sstream>
 
@@ -44,6 +45,35 @@ public:
    std::vector<TestCase*> tests;
    TimeLapse lapse;
 };
+
+/** The formatting set on a stream by the tests is put aside while we report. */
+class PlainFormat {
+public:
+   PlainFormat(std::ostream& stream):
+      m_stream(stream),
+      m_flags(stream.flags(std::ios_base::skipws | std::ios_base::dec | (stream.flags() & std::ios_base::unitbuf))),
+      m_precision(stream.precision(6)),
+      m_width(stream.width(0)),
+      m_fill(stream.fill(' '))
+   {}
+
+   ~PlainFormat() {
+      m_stream.flags(m_flags);
+      m_stream.precision(m_precision);
+      m_stream.width(m_width);
+      m_stream.fill(m_fill);
+   }
+
+   PlainFormat(const PlainFormat&) = delete;
+   PlainFormat& operator=(const PlainFormat&) = delete;
+
+private:
+   std::ostream& m_stream;
+   std::ios_base::fmtflags m_flags;
+   std::streamsize m_precision;
+   std::streamsize m_width;
+   char m_fill;
+};
 }
 
 class UnitTest::Private {
@@ -161,6 +191,7 @@ void UnitTest::endTest(int count, TestCase* tc)
 {
    tc->endTest(p->m_capture);
 
+   PlainFormat format(std::cout);
    if(tc->capturedOut()[0]
       && (p->verbosity >= REPORT_STDOUT || (p->verbosity > SILENT && !hasPassed(tc)))) {
       std::cout << "\n======================================================================\n";
@@ -210,6 +241,7 @@ void UnitTest::writeTestName(int count, const char* tname, const char* result, d
    }
    sname << std::setw(0) << " " << std::setw(4) << result << std::setw(0) << "]";
 
+   PlainFormat format(std::cout);
    std::cout << sname.str() << "\n" <<std::flush;
 }
 
@@ -221,6 +253,7 @@ bool UnitTest::hasPassed(TestCase* tcase) const
 
 void UnitTest::report()
 {
+   PlainFormat format(std::cout);
    if(p->verbosity > SILENT) {
       if (p->status != 0) {
          bool first = true;
@@ -444,6 +477,8 @@ void UnitTest::saveToXML() const
       return;
    }
 
+   // numbers don't change with the locale of the application.
+   fout.imbue(std::locale::classic());
    fout << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
 
    fout << "<testsuites id=\""<< xmlEscape(p->unitTestId) << "\" name=\"" << xmlEscape(p->unitTestName)
-- 
2.43.0


From 618d77da61eccf316493e42c265874acc5848cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:08 +0000
Subject: [PATCH 46/50] fix: FUT: "-v 3x" was taken for "-v 3"

---
 src/fut/unittest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index fdf025f..a769bc2 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -384,7 +384,7 @@ int UnitTest::parseParams(int argc, char* argv[])
       else if(opt == "-v" && ++i < argc) {
          std::istringstream is(argv[i]);
          int level;
-         if(is >> level && level >= SILENT && level <= REPORT_STDOUT) {
+         if(is >> level && is.eof() && level >= SILENT && level <= REPORT_STDOUT) {
             setVerbosity(static_cast<t_verbosity>(level));
             continue;
          }
-- 
2.43.0


From 46e0c6e86a531d5e99064aa7431dace99aff693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:08 +0000
Subject: [PATCH 47/50] fix: FUT: tests added after a run were left out of the
 next ones

---
 src/fut/unittest.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index a769bc2..a9eb720 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -89,6 +89,9 @@ public:
    std::map<std::string, TestCase*> testsByName;
    std::multimap<std::string, TestCase*> testsByComponent;
    std::map<std::string, Component> componentToPerform;
+   // the tests named by -t.
+   std::vector<TestCase*> testsSelected;
+   // the tests of the current run.
    std::vector<TestCase*> testsToPerofm;
    std::string xmlReport;
 
@@ -314,11 +317,8 @@ UnitTest* UnitTest::singleton(){
 int UnitTest::performUnitTests()
 {
    init();
-   // fill the test to perform with all the tests, if none was explicitly given.
-   auto& testsToPerform = p->testsToPerofm;
-   if(testsToPerform.empty()) {
-      testsToPerform = p->tests;
-   }
+   // perform all the tests, if none was explicitly given.
+   p->testsToPerofm = p->testsSelected.empty() ? p->tests : p->testsSelected;
 
    runAllTests();
    report();
@@ -397,7 +397,7 @@ int UnitTest::parseParams(int argc, char* argv[])
             return 1;
          }
 
-         p->testsToPerofm.push_back(iter->second);
+         p->testsSelected.push_back(iter->second);
          continue;
       }
       else if (opt == "-x" && ++i < argc) {
-- 
2.43.0


From 6d2d84178fa6f5edb70c7f15822e4ad35b2d4ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:48 +0000
Subject: [PATCH 48/50] fix: FUT: bytes that are no UTF-8 text made the XML
 report malformed

---
 src/fut/unittest.cpp | 46 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index a9eb720..fa619b8 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -444,12 +444,42 @@ void UnitTest::usage() {
 
 
 namespace {
+/** Bytes of the XML character encoded in UTF-8 at the given position; 0 if there isn't any. */
+size_t xmlCharLength(const std::string& text, size_t pos)
+{
+   const unsigned char first = text[pos];
+   if(first < 0x80) {
+      return first >= 0x20 ? 1 : 0;
+   }
+
+   const size_t length = first < 0xC2 ? 0 : first < 0xE0 ? 2 : first < 0xF0 ? 3 : first < 0xF5 ? 4 : 0;
+   if(length == 0 || text.size() - pos < length) {
+      return 0;
+   }
+
+   unsigned int code = first & (0xFF >> (length + 1));
+   for(size_t i = 1; i < length; ++i) {
+      const unsigned char next = text[pos + i];
+      if((next & 0xC0) != 0x80) {
+         return 0;
+      }
+      code = (code << 6) | (next & 0x3F);
+   }
+
+   const unsigned int shortest[] = {0, 0, 0x80, 0x800, 0x10000};
+   const bool surrogate = code >= 0xD800 && code <= 0xDFFF;
+   return code < shortest[length] || surrogate || code == 0xFFFE || code == 0xFFFF || code > 0x10FFFF
+         ? 0 : length;
+}
+
 /** Escapes the characters having a special meaning in XML. */
 std::string xmlEscape(const std::string& text)
 {
    std::string result;
-   for(char chr: text) {
-      switch(chr) {
+   size_t pos = 0;
+   while(pos < text.size()) {
+      size_t length = 1;
+      switch(text[pos]) {
       case '&': result += "&amp;"; break;
       case '<': result += "&lt;"; break;
       case '>': result += "&gt;"; break;
@@ -459,10 +489,18 @@ std::string xmlEscape(const std::string& text)
       case '\r': result += "&#13;"; break;
       case '\t': result += "&#9;"; break;
       default:
-         // other control characters can't be represented.
-         result += static_cast<unsigned char>(chr) < 0x20 ? '?' : chr;
+         length = xmlCharLength(text, pos);
+         if(length > 0) {
+            result.append(text, pos, length);
+         }
+         else {
+            // other control characters and stray bytes can't be represented.
+            result += '?';
+            length = 1;
+         }
          break;
       }
+      pos += length;
    }
    return result;
 }
-- 
2.43.0


From d2005f3709be27a71a5ae8b3e0920d5015010a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:15 +0000
Subject: [PATCH 49/50] fix: PagedStack: a failing assignment to the top
 terminated the program

---
 src/include/falcon/engine/pagedstack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 388f5be..69b250e 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -554,7 +554,7 @@ public:
       return *this;
    }
 
-   void top(const _T& value) noexcept { std::lock_guard<_Mutex> guard(m_mutex); m_curBase->back() = value; }
+   void top(const _T& value) { std::lock_guard<_Mutex> guard(m_mutex); m_curBase->back() = value; }
    const _T& top() const noexcept { std::lock_guard<_Mutex> guard(m_mutex); return m_curBase->back(); }
 
    void push(const _T& data) {
-- 
2.43.0


From f5837af7e14bebbf85edcec197288ba7c3207b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:32 +0000
Subject: [PATCH 50/50] fix: Compiler: streams that report their state by
 exceptions terminated the program

---
 src/engine/compiler.cpp              | 2 +-
 src/include/falcon/engine/compiler.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/compiler.cpp b/src/engine/compiler.cpp
index 5a0ef17..354a84d 100644
--- a/src/engine/compiler.cpp
+++ b/src/engine/compiler.cpp
@@ -17,7 +17,7 @@
 #include <falcon/engine/compiler.h>
 
 namespace falcon {
-Code Compiler::compile(std::istream& input) noexcept
+Code Compiler::compile(std::istream& input)
 {
 	std::string value;
 	input >> value;
diff --git a/src/include/falcon/engine/compiler.h b/src/include/falcon/engine/compiler.h
index 4294266..ed10a8c 100644
--- a/src/include/falcon/engine/compiler.h
+++ b/src/include/falcon/engine/compiler.h
@@ -30,7 +30,7 @@ public:
 	 * @throw CompilationError on error.
 	 */
 
-	Code compile(std::istream& input) noexcept;
+	Code compile(std::istream& input);
 };
 }
 
-- 
2.43.0

